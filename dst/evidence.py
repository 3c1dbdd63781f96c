"""Writes /verif/evidence/<id>.json from what this run measured."""
import json
import os

from . import common as C


def write(chk, seed, tier, stats, samples, done, planned, nviol, wall_s, findings):
    n = stats.n
    sets = {k: len(v) for k, v in stats.sets.items()}
    nontrivial = sets.get(getattr(chk, "distinct_set", "market states"), 0)
    wall = max(wall_s, 1e-6)
    cov = {
        "evaluations": done,
        "distinct_nontrivial": nontrivial,
        "rule": chk.rule,
        "samples": samples[:3],
        "planned_runs": planned,
        "runs_per_hour": int(done / wall * 3600),
        "seeds_per_hour": int(done / wall * 3600),
        "simulated_time": {"rounds": n.get("rounds", 0), "activation_events": n.get("events", 0), "moves": n.get("moves", 0),
                           "phases": n.get("phases", 0)},
        "faults_injected": {k[6:]: v for k, v in sorted(n.items()) if k.startswith("fault:")},
        "distinct_states": sets,
        "oracle_evaluations": {k: v for k, v in sorted(n.items())
                               if not k.startswith(("fault:", "max:")) and k not in ("rounds", "events", "moves", "phases")},
        "maxima": {k[4:]: v for k, v in sorted(n.items()) if k.startswith("max:")},
        "components_real": getattr(chk, "real", []),
        "components_stubbed": getattr(chk, "stubs", []),
    }
    doc = {"property": chk.id, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
           "assumptions": getattr(chk, "assumptions", []) + [
               "seeded sampling of schedules, configurations and faults: not exhaustive"],
           "wall_s": round(wall_s, 2), "violations": nviol}
    d = os.path.join(C.VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, chk.id + ".json"), "w") as f:
        json.dump(doc, f, indent=1, default=repr)
