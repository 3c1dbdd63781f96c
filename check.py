#!/opt/venv/bin/python
"""check.py PROPERTY [--runs N] [--wall S] [--workers W]   decide a property (VERIF_SEED, VERIF_TIER)
   check.py --replay FILE                               execute a replay file; exit 1 if it still violates"""
import argparse
import hashlib
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from dst import common as C  # noqa: E402
from dst import registry  # noqa: E402


def replay(path):
    d = json.load(open(path))
    chk = registry.load(d["property"])
    C.import_repo()
    v = C.try_scenario(chk, d["scenario"], timeout=600)
    if v == "error":
        print("harness error while replaying %s" % path)
        return 2
    if v is None:
        print("property %s holds on %s" % (d["property"], path))
        return 0
    print("%s: %s" % (v["kind"], v["message"]))
    print("same violation as recorded: %s" % (v["kind"] == d["violation"]["kind"] and v["message"] == d["violation"]["message"]))
    print("VIOLATION property=%s replay=%s" % (d["property"], path))
    return 1


def known_findings():
    path = os.path.join(C.VERIF, "known-findings.json")
    return json.load(open(path))["findings"] if os.path.exists(path) else []


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--replay")
    ap.add_argument("--runs", type=int)
    ap.add_argument("--wall", type=float)
    ap.add_argument("--workers", type=int)
    ap.add_argument("--no-minimise", action="store_true")
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    chk = registry.load(a.property)
    t0 = C.MONO()
    print("property %s, seed %d, tier %s" % (chk.id, seed, tier))
    C.import_repo()
    if hasattr(chk, "prepare"):
        chk.prepare()
    runs = a.runs or (chk.quick_runs if tier == "quick" else chk.thorough_runs)
    wall = a.wall or (getattr(chk, "quick_wall", 240) if tier == "quick" else getattr(chk, "thorough_wall", 3000))
    known = [f for f in known_findings() if f["property"] == chk.id]
    C.KNOWN[:] = known
    stats, violations, samples, done, errors = C.explore(chk, seed, tier, runs, wall, a.workers)
    code, nviol = 0, 0
    if errors and not violations:
        print("HARNESS ERROR: %s" % errors[0]["error"], file=sys.stderr)
        if errors[0].get("scenario"):
            print(json.dumps(errors[0]["scenario"])[:3000], file=sys.stderr)
        code = 2
    if violations:
        m = violations[0]
        nviol = len(violations)
        sc, v = m["scenario"], m["v"]
        print("run %d (seed %s/%s/%d) violates: %s: %s" % (m["i"], chk.id, seed, m["i"], v["kind"], v["message"]))
        steps, note = 0, ""
        again = C.try_scenario(chk, sc)
        if not isinstance(again, dict) or again["kind"] != v["kind"]:
            note = "not reproduced in a fresh process: %r" % (again,)
        elif not a.no_minimise:
            sc, v, steps = C.minimise(chk, sc, again, getattr(chk, "minimise_s", 40 if tier == "quick" else 120))
        name = "%s-%s.json" % (chk.id, hashlib.sha1(json.dumps([sc, v["kind"]], sort_keys=True, default=repr).encode()).hexdigest()[:10])
        path = os.path.join(C.VERIF, "replays", name)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w") as f:
            json.dump({"property": chk.id, "seed": seed, "index": m["i"], "violation": v, "scenario": sc,
                       "original_scenario": m["scenario"], "minimisation_steps": steps, "note": note}, f, indent=1, default=repr)
        if note:
            print("HARNESS ERROR: violation %s" % note, file=sys.stderr)
        print("minimised in %d steps: %s: %s" % (steps, v["kind"], v["message"]))
        print(json.dumps(chk.describe(sc), default=repr)[:1500])
        print("replay with: /opt/venv/bin/python /verif/check.py --replay %s" % path)
        print("VIOLATION property=%s replay=%s" % (chk.id, path))
        code = 1
    for f in known:
        print("KNOWN-FINDING: property=%s %s (met %d times in this run)" % (chk.id, f["what"], stats.n.get("known finding: " + f["what"], 0)))
    wall_s = C.MONO() - t0
    from dst import evidence
    if os.environ.get("DST_NOEVIDENCE"):  # development only
        evidence.write = lambda *a: None
    evidence.write(chk, seed, tier, stats, samples, done, runs, nviol, wall_s, known_findings())
    print("%d runs, %s, %.1f s, exit %d" % (done, {k: v for k, v in list(stats.n.items())[:6]}, wall_s, code))
    C.cleanup_scratch()
    return code


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 2
    finally:
        C.cleanup_scratch()
    sys.stdout.flush()
    os._exit(rc)
