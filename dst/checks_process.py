"""Checks over whole executions in one process and across processes: C13 (reproducibility), C14 (files of an execution),
C21 (save and restore)."""
import copy
import csv
import json
import os
import pickle
import random
import shutil
import subprocess
import sys
import time as _time
from math import isinf, isnan

from . import common as C
from . import drawing
from . import market as MK
from . import monitors as MO
from . import ref
from .checks_files import diff_files, folder, plain, raw_folder, strip
from .checks_market import MarketCheck
from .common import Violation, HarnessError


# ---------------------------------------------------------------------------------------------------------- traces
class Exec:
    """One execution, advanced round by round, with its observable history."""

    def __init__(self, cfg, plan=None, from_file=False):
        import logic.sim as S
        self.sim = S.Simulation(input_from_file=True) if from_file else S.Simulation(**copy.deepcopy(cfg))
        if plan is not None:
            self.sim.schedule = MK.chaos_scheduler_class()(self.sim, plan, self.sim.schedule)
        self.trace = [C.digest(MK.canon(self.sim))]

    @property
    def alive(self):
        return self.sim.running

    def round(self):
        self.sim.step()
        self.trace.append(C.digest(MK.canon(self.sim)))

    def in_one_go(self, trace):
        """The rest by run_model(); only the end can be compared."""
        self.sim.run_model()
        self.trace = trace[:-1] + [C.digest(MK.canon(self.sim))]

    def finish(self, limit=400):
        while self.alive and len(self.trace) < limit:
            self.round()
        return self

    def outcome(self):
        mv = {k: [plain(x) for x in v] for k, v in self.sim.datacollector.model_vars.items()}
        d = self.sim.directory
        return {"trace": self.trace, "metrics": mv, "files": folder(str(d.parent), d.name), "name": d.name.partition("-")[2],
                "state": plain(MK.canon(self.sim))}


def first_difference(a, b, what, ignore_args=False):
    if a["trace"] != b["trace"]:
        i = next((i for i, (x, y) in enumerate(zip(a["trace"], b["trace"])) if x != y), min(len(a["trace"]), len(b["trace"])))
        raise Violation("history", "%s: the market differs from round %d on (of %d and %d rounds)" % (what, i, len(a["trace"]) - 1, len(b["trace"]) - 1))
    if a["metrics"] != b["metrics"]:
        bad = [k for k in a["metrics"] if a["metrics"].get(k) != b["metrics"].get(k)]
        raise Violation("metrics", "%s: the recorded metrics differ: %s" % (what, bad))
    if a["name"] != b["name"]:
        raise Violation("name", "%s: the execution is called %r instead of %r" % (what, b["name"], a["name"]))
    fa, fb = a["files"], b["files"]
    if ignore_args:
        fa, fb = ({k: v for k, v in f.items() if k != "args.json"} for f in (fa, fb))
    why = diff_files(fa, fb)
    if why:
        raise Violation("files", "%s: %s" % (what, why))


def fresh_interpreter(job, hashseed, timeout=120):
    """Run job (see fresh.py) in a new interpreter; returns its JSON result."""
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE="1")
    p = subprocess.run([sys.executable, "-B", os.path.join(C.VERIF, "dst", "fresh.py")], input=json.dumps(job).encode(),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=timeout, cwd=job["cwd"])
    if p.returncode == 3:
        raise Violation("abort", "the execution fails in a fresh interpreter: %s" % p.stderr.decode()[-600:])
    if p.returncode != 0:
        raise HarnessError("fresh interpreter: %s" % p.stderr.decode()[-2000:])
    return json.loads(p.stdout.decode().rsplit("RESULT ", 1)[1])


class Noise:
    """Everything an execution must not depend on: global generators, the clock, garbage."""

    def __init__(self, seed, stats):
        self.R = random.Random(seed)
        self.stats = stats

    def hit(self):
        import numpy as np
        R = self.R
        c = R.randint(0, 5)
        if c == 0:
            random.seed(R.randint(0, 99))
            self.stats.add("fault:reseed_global_generator")
        elif c == 1:
            np.random.seed(R.randint(0, 99))
            self.stats.add("fault:reseed_global_numpy")
        elif c == 2:
            [random.random() for _ in range(R.randint(1, 5))]
            self.stats.add("fault:draw_from_global_generator")
        elif c == 3:
            np.random.rand(3)
            self.stats.add("fault:draw_from_global_numpy")
        elif c == 4:
            MK.CLOCK.jump(R.choice([-1e6, -1, 10, 1e8]))
            self.stats.add("fault:clock_jump")


class virtual_clock:
    def __enter__(self):
        MK.CLOCK.__init__()
        self.old = _time.time
        _time.time = MK.CLOCK.time

    def __exit__(self, *a):
        _time.time = self.old


# ------------------------------------------------------------------------------------------------------------- C13
class C13:
    id = "C13"
    quick_runs, thorough_runs = 360, 5000
    real = ["Simulation (whole executions, in one process and in fresh interpreters)", "args.json and its replay"]
    stubs = ["wall clock"]
    distinct_set = "histories"
    rule = ("a case is one execution repeated under other circumstances (after, between and interleaved with other executions, "
            "with disturbed global generators and clock, from its args file, from its reported seed, in a fresh interpreter "
            "with another hash seed); distinct_nontrivial counts distinct histories compared that have at least one move")

    def generate(self, R, tier, i):
        cfg = MK.gen_config(R, n=lambda R: R.choice([3, 5, 8, 12, 20, 30]), max_iterations=lambda R: R.choice([3, 8, 15, 25]),
                            metrics=lambda R: R.choice([None, [1, 2, 9, 21, 26], MK.ALL_METRICS]),
                            agent_profile_distr=lambda R: R.choice([None, [1, 0, 0], [1, 1, 0], [4, 2, 1]]) or [1, 0, 0])
        if R.random() < 0.15:
            cfg.pop("agent_profile_distr")
        if R.random() < 0.08:
            cfg["seed"] = 0
        cfg["execution_id"] = R.choice(["x", "x", ""] if i % 20 != 7 else ["", "a name " + "long " * R.randint(3, 15)])
        others = []
        for _ in range(R.randint(1, 3)):
            o = copy.deepcopy(cfg) if R.random() < 0.75 else MK.gen_config(R, max_iterations=5, n=lambda R: R.choice([3, 6, 12]))
            for key in R.sample(["seed", "a0", "k", "extra_pool_cost_fraction", "cost_max", "n", "agent_activation_order",
                                 "agent_profile_distr", "pareto_param", "reward_scheme", "inactive_stake_fraction"], R.randint(1, 3)):
                if key in cfg:
                    o[key] = MK.gen_config(R, multi_p=0, max_iterations=5)[key]
            o["n"] = min(o["n"], 20)
            if o["stake_distr_source"] == "disparity":
                o["n"] = max(4, o["n"])
            if o["cost_max"] < o["cost_min"]:
                o["cost_min"] = o["cost_max"]
            others.append(o)
        modes = [m for m in ("after", "interleaved", "seedless", "args", "seeds") if R.random() < 0.6] or ["interleaved"]
        if i % 20 == 7:
            modes.append("fresh")
        return {"config": cfg, "others": others, "modes": modes, "noise": R.randint(0, 10 ** 6), "hashseed": R.randint(1, 4000),
                "schedule": [R.randint(0, len(others)) for _ in range(R.choice([0, 10, 40]))]}

    def execute(self, sc, stats):
        cfg = dict(sc["config"])
        with C.in_scratch() as root, virtual_clock():
            noise = Noise(sc["noise"], stats)
            base = Exec(cfg).finish()
            want = base.outcome()
            stats.add("executions")
            stats.add("rounds", len(base.trace) - 1)
            if base.sim.pools:
                stats.seen("histories", C.digest(want["trace"]))
            for mode in sc["modes"]:
                stats.add("repeated: " + mode)
                getattr(self, mode)(sc, cfg, want, base, noise, stats, root)

    def after(self, sc, cfg, want, base, noise, stats, root):
        for o in sc["others"]:
            noise.hit()
            Exec(o).finish()
            stats.add("executions")
        noise.hit()
        first_difference(want, Exec(cfg).finish().outcome(), "repeated after other executions")

    def interleaved(self, sc, cfg, want, base, noise, stats, root):
        # "create first": which execution is constructed in what order
        objs = {}
        todo = [("me", cfg)] + list(enumerate(sc["others"]))
        R = random.Random(sc["noise"])
        R.shuffle(todo)
        for name, c in todo:
            noise.hit()
            objs[name] = Exec(c)
            stats.add("executions")
        sched = list(sc["schedule"])
        names = ["me"] + [i for i in range(len(sc["others"]))]
        while objs["me"].alive and len(objs["me"].trace) < 400:
            i = sched.pop(0) if sched else R.randint(0, len(names) - 1)
            o = objs[names[i % len(names)]]
            if o.alive:
                o.round()
                stats.add("interleaved rounds")
            if R.random() < 0.3:
                noise.hit()
        first_difference(want, objs["me"].outcome(), "repeated interleaved with %d other executions" % len(sc["others"]))

    def seedless(self, sc, cfg, want, base, noise, stats, root):
        noise.hit()
        c = dict(cfg)
        c["seed"] = None
        a = Exec(c).finish()
        out = a.outcome()
        seed = C.output_json(a.sim.directory / "initial-state-descriptors.json")["Randomness seed"]
        if not isinstance(seed, int):
            raise Violation("seed", "an execution without a seed reports the seed %r" % (seed,))
        noise.hit()
        c["seed"] = seed
        first_difference(out, Exec(c).finish().outcome(), "repeated with the reported seed %r" % seed, ignore_args=True)

    def args(self, sc, cfg, want, base, noise, stats, root):
        with open(os.path.join(root, "args.json"), "w") as f:
            f.write(C.output_file(base.sim.directory / "args.json"))
        noise.hit()
        first_difference(want, Exec(None, from_file=True).finish().outcome(), "repeated from the arguments file")

    def seeds(self, sc, cfg, want, base, noise, stats, root):
        if cfg["n"] < 3:
            return
        c = dict(cfg)
        c["seed"] = cfg["seed"] + [1, 2, 3, 10, 100, 1000, 10 ** 4, 10 ** 6, 2 ** 16, 2 ** 31, 2 ** 32][sc["noise"] % 11]
        other = Exec(c)
        pop = lambda e: [(float(a.stake), float(a.cost)) for a in e.sim.schedule.agents]
        if cfg["cost_max"] > cfg["cost_min"] and [x[1] for x in pop(other)] == [x[1] for x in pop(base)]:
            raise Violation("same-costs", "seeds %s and %s draw the same costs" % (cfg["seed"], c["seed"]))
        if cfg["stake_distr_source"].lower() == "pareto" and [x[0] for x in pop(other)] == [x[0] for x in pop(base)]:
            raise Violation("same-stakes", "seeds %s and %s draw the same stakes" % (cfg["seed"], c["seed"]))

    def fresh(self, sc, cfg, want, base, noise, stats, root):
        d = os.path.join(root, "fresh")
        os.mkdir(d)
        got = fresh_interpreter({"job": "run", "config": cfg, "cwd": d}, sc["hashseed"])
        got["files"] = folder(d, got.pop("dir"))
        stats.add("fresh interpreters")
        first_difference(json.loads(json.dumps(want)), got, "repeated in a fresh interpreter with hash seed %d" % sc["hashseed"])

    def shrink(self, sc):
        def put(**kw):
            d = copy.deepcopy(sc)
            d.update(kw)
            return d
        for m in sc["modes"]:
            if len(sc["modes"]) > 1:
                yield put(modes=[m])
        if sc["schedule"]:
            yield put(schedule=[])
        for i in range(len(sc["others"])):
            if len(sc["others"]) > 1:
                yield put(others=sc["others"][:i] + sc["others"][i + 1:])
        for cand in MK.shrink_market({"config": dict({"agent_profile_distr": [1, 0, 0]}, **sc["config"])}):
            yield put(config=cand["config"])

    def describe(self, sc):
        return {k: sc[k] for k in ("config", "modes", "noise", "hashseed")}


# ------------------------------------------------------------------------------------------------------------- C14
def read_csv(path):
    data = C.output_file(path)
    rows = list(csv.reader(data.splitlines()))
    if not rows:
        raise Violation("empty-file", "%s is empty" % os.path.basename(str(path)))
    return rows[0], [C.Record(zip(rows[0], r)) if len(r) == len(rows[0]) else None for r in rows[1:]]


def close(text, value, tol=1e-12):
    try:
        x = float(text)
    except (TypeError, ValueError):
        return False
    if isnan(value) or isinf(value):
        return repr(x) == repr(float(value))
    return abs(x - value) <= tol + 1e-12 * abs(value)


# the documented values of arguments that are not given
DEFAULTS = dict(a0=0.3, stake_distr_source="Pareto", agent_profile_distr=[1, 0, 0], inactive_stake_fraction=0, inactive_stake_fraction_known=False,
                relative_utility_threshold=0, absolute_utility_threshold=0, seed=None, pareto_param=2.0, cost_min=1e-5, cost_max=1e-4,
                extra_pool_cost_fraction=0.4, agent_activation_order="random", iterations_after_convergence=10, reward_scheme=0,
                metrics=[1, 2, 6, 9, 17, 18, 25])


class Files(MK.Monitor):
    def end(self, run):
        sim, cfg = run.sim, run.cfg
        if not run.ended:
            return
        d = sim.directory
        run.stats.add("folders checked")
        ident = sim.execution_id
        if os.path.basename(str(d)) != ident:
            raise Violation("folder", "the folder of execution %s is %s" % (ident, d))
        # arguments
        args = C.output_json(d / "args.json")
        for k, v in run.given.items():
            if k not in args or args[k] != json.loads(json.dumps(v)):
                raise Violation("args", "argument %s is stored as %r instead of %r" % (k, args.get(k), v))
        # pools
        head, rows = read_csv(d / ("final-state-pools-%s.csv" % ident))
        if None in rows:
            raise Violation("pools-file", "a row of the pools file is incomplete")
        agents = {a.unique_id: a for a in sim.schedule.agents}
        if sorted(int(r["Pool id"]) for r in rows) != sorted(sim.pools):
            raise Violation("pools-file", "the pools file lists %s, open are %s" % (sorted(int(r["Pool id"]) for r in rows), sorted(sim.pools)))
        for r in rows:
            p = sim.pools[int(r["Pool id"])]
            P = run.params()
            pp = ref.potential_profit(P, p.pledge, p.cost)
            want = {"Owner id": p.owner, "Owner stake": agents[p.owner].stake, "Pool Pledge": p.pledge, "Pool stake": p.stake,
                    "Owner cost": agents[p.owner].cost, "Pool cost": p.cost, "Pool margin": p.margin, "Pool PP": pp,
                    "Pool desirability": ref.desirability(p.margin, pp)}
            for k, w in want.items():
                run.stats.add("values checked")
                if k not in r or not close(r[k], float(w), 1e-11 if k.startswith("Pool ") and k.endswith(("PP", "desirability")) else 1e-12):
                    raise Violation("pools-file", "pool %s: %s is written as %r instead of %r" % (p.id, k, r.get(k), float(w)))
        # stakeholders
        head, rows = read_csv(d / ("final-state-stakeholders-%s.csv" % ident))
        if None in rows:
            raise Violation("stakeholders-file", "a row of the stakeholders file is incomplete")
        if sorted(int(r["Agent id"]) for r in rows) != sorted(agents):
            raise Violation("stakeholders-file", "%d rows for %d stakeholders" % (len(rows), len(agents)))
        for r in rows:
            a = agents[int(r["Agent id"])]
            own = [p for p in sim.pools.values() if p.owner == a.unique_id]
            status = "Abstainer" if MK.profile_of(a) == "ab" else "Operator" if own else "Delegator"
            if r["Status"] != status:
                raise Violation("stakeholders-file", "stakeholder %s is written as %s instead of %s" % (a.unique_id, r["Status"], status))
            want = {"Initial stake": a.stake, "Cost": a.cost, "Potential Profit": ref.potential_profit(run.params(), a.stake, a.cost),
                    "Pools owned": len(own), "Total pool stake": sum(p.stake for p in own)}
            for k, w in want.items():
                run.stats.add("values checked")
                if k not in r or not close(r[k], float(w), 1e-11):
                    raise Violation("stakeholders-file", "stakeholder %s: %s is written as %r instead of %r" % (a.unique_id, k, r.get(k), float(w)))
            gain = float(r["Pool splitting profit"])
            P = run.params()
            w = (1 + P.a0) * (1 - P.phi) * a.cost - a.stake * P.a0
            if not close(r["Pool splitting profit"], float(w), 1e-12):
                raise Violation("stakeholders-file", "stakeholder %s: the pool splitting profit is written as %r instead of %r" % (a.unique_id, gain, float(w)))
            if (r["Profitable pool splitter"] == "YES") != (gain > 0):
                raise Violation("stakeholders-file", "stakeholder %s gains %r by splitting, flagged %s" % (a.unique_id, gain, r["Profitable pool splitter"]))
        # metrics
        head, rows = read_metrics(d / "metrics.csv")
        mv = sim.datacollector.model_vars
        if head[0] != "Round" or set(head[1:]) != set(mv):
            raise Violation("metrics-file", "columns %s, recorded were %s" % (head, sorted(mv)))
        n = len(next(iter(mv.values())))
        if n != run.round:
            raise Violation("metrics-file", "%d records after %d rounds" % (n, run.round))
        if [int(r[0]) for r in rows] != list(range(n)):
            raise Violation("metrics-file", "rounds %s in the metrics file, %d were recorded" % ([r[0] for r in rows][:5], n))
        for r in rows:
            for k, text in zip(head[1:], r[1:]):
                v = mv[k][int(r[0])]
                if isinstance(v, (dict, list)):
                    if text != str(v):
                        raise Violation("metrics-file", "%s of round %s is written as %.60r" % (k, r[0], text))
                elif text == "":
                    if v is not None and not (isinstance(v, float) and isnan(v)):
                        raise Violation("metrics-file", "%s of round %s is empty instead of %r" % (k, r[0], v))
                elif not close(text, float(v), 0):
                    raise Violation("metrics-file", "%s of round %s is written as %r instead of %r" % (k, r[0], text, v))
                run.stats.add("values checked")
        # final state and tracker
        from . import metrics as ME
        fin = C.output_json(d / "final-state-descriptors.json")
        nak = ME.evaluate(9, run)
        ops = len({p.owner for p in sim.pools.values()})
        pledge = sum(p.pledge for p in sim.pools.values())
        want = {"Pool count": len(sim.pools), "Operator count": ops, "Nakamoto coefficient": nak}
        for k, w in want.items():
            if not ME.equal(fin.get(k), w):
                raise Violation("final-file", "%s is described as %r instead of %r" % (k, fin.get(k), w))
        if abs(float(fin["Total pledge fraction"]) - pledge) > 5.1e-5:
            raise Violation("final-file", "the total pledge is described as %r instead of %r" % (fin["Total pledge fraction"], pledge))
        if fin["Equilibrium reached"] != ("Yes" if sim.has_converged() else "No"):
            raise Violation("final-file", "equilibrium is described as %r" % fin["Equilibrium reached"])
        head, rows = read_csv("output/experiment-tracker.csv")
        if len(rows) != 1 or rows[0] is None:
            raise Violation("tracker", "the experiment tracker has %d rows after one execution" % len(rows))
        r = rows[0]
        want = {"id": sim.seq_id, "n": cfg["n"], "k": sim.reward_scheme.k, "a0": sim.reward_scheme.a0,
                "phi": run.expected.value("extra_pool_cost_fraction", run.sim.current_phase), "#pools": len(sim.pools), "#operators": ops}
        for k, w in want.items():
            if not close(r.get(k), float(w), 1e-12):
                raise Violation("tracker", "%s is tracked as %r instead of %r" % (k, r.get(k), w))
        if not ME.equal(r["nakamoto coeff"], nak):
            raise Violation("tracker", "the Nakamoto coefficient is tracked as %r instead of %r" % (r["nakamoto coeff"], nak))
        if r["activation order"] != cfg["agent_activation_order"] or r["descriptor"] != cfg["execution_id"] or \
                r["reward function"] != type(sim.reward_scheme).__name__:
            raise Violation("tracker", "the execution is tracked as %s" % r)
        extra = set(os.listdir(d)) - {"args.json", "initial-state-descriptors.json", "final-state-pools-%s.csv" % ident,
                                      "final-state-stakeholders-%s.csv" % ident, "metrics.csv", "final-state-descriptors.json",
                                      "simulation-object.pkl", "figures"}
        if extra:
            raise Violation("stray", "unexpected files %s" % sorted(extra))
        figs = set(os.listdir(d / "figures")) if (d / "figures").exists() else None
        if bool(cfg["generate_graphs"]) != (figs is not None):
            raise Violation("graphs", "graphs requested: %s, written: %s" % (cfg["generate_graphs"], figs))
        if figs is not None:
            run.stats.add("executions with graphs")
            need = 0
            for k, v in mv.items():
                if isinstance(v[0], dict):
                    continue
                need += 1
                tag = "poolDynamics" if isinstance(v[0], list) else k
                if not any(tag in f and f.endswith(".png") for f in figs):
                    raise Violation("graphs", "there is no graph of %s: %s" % (k, sorted(figs)))
            if len(figs) < need:
                raise Violation("graphs", "%d graphs for %d metrics" % (len(figs), need))
            drawn = {}
            for f in figs:
                try:
                    drawn[f] = drawing.read(d / "figures" / f)
                except ValueError as e:
                    raise Violation("graphs", "graph %s is not a picture: %s" % (f, e))
            for k, v in mv.items():
                if isinstance(v[0], dict):
                    continue
                pics = [a for f, a in drawn.items() if ("poolDynamics" if isinstance(v[0], list) else k) in f]
                if None in pics:
                    run.stats.add("pictures rendered")
                    continue
                run.stats.add("pictures checked")
                if isinstance(v[0], list):
                    self.areas(pics, v)
                    continue
                if not any(drawing.has_line(a, v, range(n)) for a in pics):
                    raise Violation("graph-values", "the graph of %s does not show the recorded values: %s" % (k, [a[0]["lines"][:1] for a in pics if a]))
                marks = [(x, y) for a in pics for ax in a for x, y, _ in ax["lines"]]
                for s in sim.equilibrium_steps:
                    if ([s, s], [0, 1]) not in marks:
                        raise Violation("graph-marks", "the graph of %s does not mark the equilibrium of round %s" % (k, s))
                for s in sim.pivot_steps:
                    if not any(x == [s] and drawing.same(y[0], drawing.number(v[s])) for x, y in marks):
                        raise Violation("graph-marks", "the graph of %s does not mark the change in round %s" % (k, s))

    def areas(self, pics, v):
        """The areas of the pool dynamics add up to the total stake of the pools in each round but the first."""
        top = {}
        for a in pics:
            for ax in a:
                for polys in ax["areas"]:
                    for poly in polys:
                        for x, y in poly:
                            top[x] = max(top.get(x, 0), y)
        for r in range(1, len(v)):
            if v[r] and abs(top.get(float(r), 0) - sum(v[r])) > 1e-9:
                raise Violation("graph-values", "the pool dynamics show a total of %r in round %d instead of %r" % (top.get(float(r)), r, sum(v[r])))


def read_metrics(path):
    rows = list(csv.reader(C.output_file(path).splitlines()))
    if not rows:
        raise Violation("empty-file", "%s is empty" % os.path.basename(str(path)))
    return rows[0], rows[1:]


class KeepFiles(MK.Monitor):
    def end(self, run):
        d = run.sim.directory
        self.files = folder(str(d.parent), d.name)


class C14(MarketCheck):
    id = "C14"
    quick_runs, thorough_runs = 900, 9000

    def monitors(self, sc):
        return [Files()]

    def generate(self, R, tier, i):
        def pick(R):
            return MK.ALL_METRICS if R.random() < 0.4 else R.choice([None, [1], sorted(R.sample(MK.ALL_METRICS, R.randint(1, 8)))]) or [1, 2, 6, 9, 17, 18, 25]
        b = dict(metrics=pick, max_iterations=lambda R: R.choice([1, 2, 4, 10, 25, 40]), execution_id=lambda R: R.choice(["x", "my-run", "a-b-c"]))
        if i % 5 == 3:
            b.update(generate_graphs=True, metrics=lambda R: sorted(R.sample(MK.ALL_METRICS, 3) + [26] * (R.random() < 0.4)), n=lambda R: R.choice([3, 8, 20]))
        if i % 25 == 11:  # many stakeholders and pools for a round or two
            b.update(n=lambda R: R.choice([70, 101, 128, 150]), k=lambda R: R.choice([2, 10, 40]), max_iterations=lambda R: R.choice([1, 2]), scale_p=0, chaos_p=0.1)
        sc = MK.gen_scenario(R, tier, **b)
        sc["render"] = i % 100 == 3
        if R.random() < 0.2:  # arguments that are not given
            sc["omit"] = {}
            for key in R.sample(sorted(DEFAULTS), R.randint(1, 6)):
                if not (key == "seed" and sc["config"]["generate_graphs"] or key == "stake_distr_source" and "stakes" in sc
                        or key == "agent_activation_order" and sc.get("plan")):
                    sc["omit"][key] = sc["config"][key] = DEFAULTS[key]
            if sc["config"]["cost_min"] > sc["config"]["cost_max"]:
                for key in ("cost_min", "cost_max"):
                    sc["omit"][key] = sc["config"][key] = DEFAULTS[key]
        sc["config"]["metrics"] = sorted(set(sc["config"]["metrics"]))
        return sc

    def execute(self, sc, stats):
        if not sc["config"]["generate_graphs"]:
            return MarketCheck.execute(self, sc, stats)
        keep = KeepFiles()
        MK.execute(sc, self.monitors(sc) + [MO.Coverage(), keep], stats)
        other = KeepFiles()
        plainer = copy.deepcopy(sc)
        plainer["config"]["generate_graphs"] = False
        C.clear_caches()
        MK.execute(plainer, [other], C.Stats())
        a = {k: v for k, v in keep.files.items() if not k.startswith("figures") and k != "args.json"}
        b = {k: v for k, v in other.files.items() if k != "args.json"}
        why = diff_files(b, a)
        if why:
            raise Violation("graphs-interfere", "asking for graphs changes the other files: %s" % why)


# ------------------------------------------------------------------------------------------------------------- C21
def consistent(sim, where):
    """Identity of the objects inside a restored simulation."""
    pools = sim.pools
    agents = {a.unique_id: a for a in sim.schedule.agents}
    for name, rk in (("long-term", sim.pool_rankings), ("current", sim.pool_rankings_myopic)):
        listed = [p for p in rk if p is not None]
        if {id(p) for p in listed} != {id(p) for p in pools.values()} or len(listed) != len(pools):
            raise Violation("restored-rankings", "%s the %s ranking does not refer to the open pools" % (where, name))
        for p in listed:
            try:
                rk.index(p)
            except ValueError:
                raise Violation("restored-rankings", "%s the %s ranking cannot find its pool %s" % (where, name, p.id))
    for a in agents.values():
        if a.model is not sim:
            raise Violation("restored-model", "%s stakeholder %s belongs to another simulation" % (where, a.unique_id))
        if a.strategy is None:
            continue
        for pid, p in a.strategy.owned_pools.items():
            if pools.get(pid) is not p:
                raise Violation("restored-ownership", "%s stakeholder %s owns a stale version of pool %s" % (where, a.unique_id, pid))
        r = getattr(a, "rankings", None)
        if r is not None and MK.profile_of(a) != "ab" and r is not sim.pool_rankings and r is not sim.pool_rankings_myopic:
            raise Violation("restored-rankings", "%s stakeholder %s consults a ranking of its own" % (where, a.unique_id))


def attributes(sim):
    """The plain public attributes of a simulation and its parts."""
    def is_plain(v, depth=0):
        if v is None or isinstance(v, (bool, int, float, str)):
            return True
        if isinstance(v, (list, tuple)):
            return depth < 3 and all(is_plain(x, depth + 1) for x in v)
        return isinstance(v, dict) and depth < 3 and all(is_plain(x, depth + 1) for kv in v.items() for x in kv)
    out = {}
    for name, obj in [("simulation", sim), ("scheduler", sim.schedule), ("reward scheme", sim.reward_scheme)] + \
            [("stakeholder %s" % a.unique_id, a) for a in sim.schedule.agents]:
        for k, v in getattr(obj, "__dict__", {}).items():
            if not k.startswith("_") and "cache" not in k.lower() and is_plain(v):
                out[name, k] = repr(v)
    return out


def same_attributes(before, sim, where):
    after = attributes(sim)
    for k, v in before.items():
        if after.get(k, v) != v:
            raise Violation("restored-differs", "%s and restored, the %s has %s = %.80s instead of %.80s" % (where, k[0], k[1], after[k], v))


class Saver(MK.Monitor):
    """Saves at activation boundaries and examines the copy."""

    def __init__(self, points):
        self.points = set(points)
        self.n = 0

    def boundary(self, run):
        self.n += 1
        if self.n in self.points:
            self.examine(run, "saved after activation %d" % self.n)

    def examine(self, run, where):
        before, attrs = MK.canon(run.sim), attributes(run.sim)
        blob = pickle.dumps(run.sim)
        if MK.canon(run.sim) != before:
            raise Violation("saving-changes", "%s: saving changed the simulation" % where)
        sim = pickle.loads(blob)
        run.stats.add("snapshots examined")
        run.stats.add("fault:snapshot_mid_round")
        run.stats.seen("snapshots", C.digest(before))
        if MK.canon(sim) != before:
            raise Violation("restored-differs", "%s and restored, the simulation differs" % where)
        same_attributes(attrs, sim, where)
        consistent(sim, "%s and restored," % where)
        pend = {a.unique_id: bool(getattr(a, "new_strategy", None)) for a in run.sim.schedule.agents}
        if pend != {a.unique_id: bool(getattr(a, "new_strategy", None)) for a in sim.schedule.agents}:
            raise Violation("restored-differs", "%s and restored, decided moves got lost" % where)


class C21:
    id = "C21"
    quick_runs, thorough_runs = 400, 5000
    real = ["Simulation", "pickle of the whole model", "save_model_state_pkl", "fresh interpreters"]
    stubs = ["activation scheduler (in scenarios with an explicit plan)", "wall clock"]
    distinct_set = "snapshots"
    rule = ("a case is one execution that is saved, killed and restored at chosen rounds (repeatedly, both copies continuing, in this or "
            "a fresh interpreter) and compared with the uninterrupted one; distinct_nontrivial counts distinct market states at which "
            "a snapshot was taken and examined")

    def generate(self, R, tier, i):
        sc = MK.gen_scenario(R, tier, chaos_p=0.4, restore_p=0, n=lambda R: R.choice([3, 5, 8, 12, 20, 30]),
                             max_iterations=lambda R: R.choice([3, 8, 15, 25]), metrics=lambda R: R.choice([[1, 2, 9, 21, 26], MK.ALL_METRICS]),
                             generate_graphs=False)
        sc.pop("stakes", None)
        rounds = sc["config"]["max_iterations"] if not isinstance(sc["config"]["max_iterations"], list) else 20
        sc["restore"] = sorted({R.randint(0, min(rounds, 14)) for _ in range(R.randint(1, 4))})
        sc["forks"] = sorted({R.randint(0, min(rounds, 14)) for _ in range(R.randint(0, 2))})
        sc["points"] = sorted({R.randint(1, R.choice([20, 100, 500])) for _ in range(R.randint(0, 5))})
        sc["fresh"] = i % 40 == 11
        sc["whole"] = R.random() < 0.3
        sc["hashseed"] = R.randint(1, 4000)
        return sc

    def execute(self, sc, stats):
        plan = sc.get("plan")
        with C.in_scratch() as root, virtual_clock():
            base = Exec(sc["config"], plan).finish()
            want = base.outcome()
            stats.add("executions")
            stats.add("rounds", len(want["trace"]) - 1)
            # the snapshot of the end
            if not (base.sim.directory / "simulation-object.pkl").exists():
                raise Violation("missing-file", "the simulation object was not written")
            with open(base.sim.directory / "simulation-object.pkl", "rb") as f:
                end = pickle.loads(f.read())
            if not base.alive:
                a, b = MK.canon(base.sim), MK.canon(end)
                if a != b:
                    raise Violation("final-snapshot", "the snapshot of the end differs from the final state: %s"
                                    % [k for k in a if a[k] != b[k]])
                same_attributes(attributes(base.sim), end, "saved at the end")
                consistent(end, "loaded from the final snapshot,")
                mv = {k: [plain(x) for x in v] for k, v in end.datacollector.model_vars.items()}
                if mv != want["metrics"]:
                    raise Violation("final-snapshot", "the snapshot of the end has other metrics")
                stats.add("final snapshots loaded")
            # kill and restore
            os.mkdir("second")
            os.chdir("second")
            e = Exec(sc["config"], plan)
            forks = []
            while e.alive and len(e.trace) < 400:
                r = len(e.trace) - 1
                if r in sc["forks"]:
                    f = copy.copy(e)
                    f.sim = pickle.loads(pickle.dumps(e.sim))
                    f.trace = list(e.trace)
                    forks.append((r, f))
                if r in sc["restore"]:
                    before, attrs = MK.canon(e.sim), attributes(e.sim)
                    blob = pickle.dumps(e.sim)
                    if MK.canon(e.sim) != before:
                        raise Violation("saving-changes", "saving in round %d changed the simulation" % r)
                    e.sim = pickle.loads(blob)
                    stats.add("fault:crash_restore")
                    stats.seen("snapshots", C.digest(before))
                    if MK.canon(e.sim) != before:
                        raise Violation("restored-differs", "saved in round %d and restored, the simulation differs" % r)
                    same_attributes(attrs, e.sim, "saved in round %d" % r)
                    consistent(e.sim, "saved in round %d and restored," % r)
                    if sc.get("whole") and r == max(sc["restore"]) and not base.alive:
                        e.in_one_go(want["trace"])
                        stats.add("continued by run_model()")
                        break
                e.round()
                for _, f in forks:  # the other copies live on beside it, one round behind or ahead
                    if f.alive and len(f.trace) <= len(e.trace):
                        f.round()
            first_difference(want, e.outcome(), "saved and restored in rounds %s" % sc["restore"])
            for r, f in forks:
                if sc.get("whole") and not base.alive and f.alive:
                    f.in_one_go(want["trace"])
                while f.alive and len(f.trace) < 400:
                    f.round()
                stats.add("copies continued side by side")
                out = f.outcome()
                out["files"] = want["files"]  # both copies write to the same folder
                first_difference(want, out, "a copy saved in round %d and continued beside the original" % r)
            if sc.get("fresh") and sc["restore"]:
                self.fresh(sc, want, root, stats)
        if sc["points"]:
            MK.execute(dict(sc, restore=[]), [Saver(sc["points"])], stats)

    def fresh(self, sc, want, root, stats):
        d = os.path.join(root, "third")
        os.mkdir(d)
        os.chdir(d)
        e = Exec(sc["config"], sc.get("plan"))
        while e.alive and len(e.trace) - 1 < sc["restore"][0]:
            e.round()
        if not e.alive:
            return
        with open("saved.pkl", "wb") as f:
            pickle.dump(e.sim, f)
        got = fresh_interpreter({"job": "continue", "file": os.path.join(d, "saved.pkl"), "cwd": d}, sc["hashseed"])
        got["trace"] = e.trace + got["trace"]
        got["files"] = folder(d, got.pop("dir"))
        stats.add("fresh interpreters")
        first_difference(json.loads(json.dumps(want)), got, "saved in round %d and continued in a fresh interpreter" % sc["restore"][0])

    def shrink(self, sc):
        def put(**kw):
            d = copy.deepcopy(sc)
            d.update(kw)
            return d
        for key in ("fresh", "whole"):
            if sc.get(key):
                yield put(**{key: False})
        for key in ("points", "forks", "restore"):
            for cand in MK.shrink_list(sc[key]):
                yield put(**{key: cand})
        for cand in MK.shrink_market(sc):
            yield cand

    def describe(self, sc):
        return MK.describe(sc)


CHECKS = [C13, C14, C21]
