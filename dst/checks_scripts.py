"""C24: the command line scripts, run as processes on a simulated disk under a simulated worker pool."""
import contextlib
import copy
import io
import json
import os
import random
import re
import runpy
import shutil
import sys

from . import common as C
from . import drawing
from . import iosim
from .checks_files import (FileCheck, C20, Ledger, SimPool, dirs_under, diff_files, folder, load_batchrunner, preset, raw_folder, serial,
                           schedule_choices, tracker_rows)
from .common import Violation

# the documented defaults of main.py
MAIN_DEFAULTS = dict(
    n=1000, k=100, a0=0.3, reward_scheme=0, agent_profile_distr=[1, 0, 0], cost_min=1e-5, cost_max=1e-4, extra_pool_cost_fraction=0.4,
    agent_activation_order="random", absolute_utility_threshold=1e-9, relative_utility_threshold=0, stake_distr_source="pareto",
    pareto_param=2.0, inactive_stake_fraction=0, inactive_stake_fraction_known=False, iterations_after_convergence=10,
    max_iterations=2000, metrics=None, generate_graphs=True, seed=None, execution_id="")
# and of batch-run.py
BATCH_DEFAULTS = dict(
    max_iterations=2000, n=1000, k=[100, 200, 300], a0=0.3, inactive_stake_fraction=0, inactive_stake_fraction_known=False,
    pareto_param=2.0, cost_min=1e-5, cost_max=1e-4, extra_pool_cost_fraction=0.4, stake_distr_source="Pareto", reward_scheme=0,
    relative_utility_threshold=0, absolute_utility_threshold=0, iterations_after_convergence=10, agent_profile_distr=[1, 0, 0])
REAL = ("a0", "agent_profile_distr", "cost_min", "cost_max", "extra_pool_cost_fraction", "absolute_utility_threshold",
        "relative_utility_threshold", "pareto_param", "inactive_stake_fraction")  # options with real values
FLAGS = ("inactive_stake_fraction_known", "generate_graphs", "input_from_file", "profile_code")


def command_line(given, R=None):
    """The arguments of a command line that gives these options; lists become several values."""
    out = []
    for name, val in given.items():
        if name in FLAGS:
            out.append("--" + ("" if val else "no-") + name)
        elif isinstance(val, list):
            out += ["--" + name] + [repr(x) if not isinstance(x, str) else x for x in val]
        elif len(name) % 2:
            out.append("--%s=%s" % (name, val))
        else:
            out += ["--" + name, str(val)]
    return out


def real(name, value):
    if name not in REAL:
        return copy.deepcopy(value)
    return [float(x) for x in value] if isinstance(value, list) else float(value)


def norm_args(text):
    """Arguments file up to the spelling of numbers and of single values."""
    d = json.loads(text)
    out = {}
    for k, v in d.items():
        if isinstance(v, list) and len(v) == 1:
            v = v[0]
        if isinstance(v, str):
            v = v.lower()
        num = lambda x: float(x) if isinstance(x, int) and not isinstance(x, bool) else x
        out[k] = [num(x) for x in v] if isinstance(v, list) else num(v)
    return out


def run_script(name, argv):
    """Run a script of the repository as the interpreter would; returns what it printed."""
    C.import_repo()
    C.clear_caches()
    random.seed(os.getpid())
    out = io.StringIO()
    old = sys.argv
    sys.argv = [os.path.join(C.REPO, name)] + argv
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            try:
                runpy.run_path(sys.argv[0], run_name="__main__")
            except SystemExit as e:
                if e.code not in (0, None):
                    raise RuntimeError("%s %s exits with %s" % (name, " ".join(argv), e.code))
    finally:
        sys.argv = old
    return out.getvalue()


def pick(R, table, given, p):
    for name, values in table.items():
        if R.random() < p:
            given[name] = copy.deepcopy(R.choice(values))
    return given


class C24(FileCheck):
    id = "C24"
    quick_runs, thorough_runs = 230, 3000
    distinct_set = "command lines"
    real = ["main.py and batch-run.py from their first to their last line", "argument parsing", "Simulation", "custom_batch_run",
            "all file output of the project", "the file system of a scratch directory"]
    stubs = C20.stubs
    rule = ("a case is one to three overlapping main.py processes, possibly with a crash or disk error and a repetition, or one "
            "batch-run.py under an explicit schedule of its workers; distinct_nontrivial counts distinct sets of options used")

    MAIN = {
        "a0": [0, 0.1, 0.3, 1.5, [0.1], [0.2, 1.0]], "reward_scheme": [0, 1, 2, 3, 4],
        "agent_profile_distr": [[1, 0, 0], [1, 1, 0], [4, 2, 1], [0.5, 0.5, 0.25], [0, 1, 0]],
        "cost_min": [0, 1e-5, 5e-5, 7.3e-05], "cost_max": [1e-4, 1e-3, 0.01, 0.5], "extra_pool_cost_fraction": [0, 0.2, 1, 1.3],
        "agent_activation_order": ["random", "Random", "Sequential", "simultaneous", "Semisimultaneous"],
        "absolute_utility_threshold": [0, 1e-9, 1e-6], "relative_utility_threshold": [0, 0.01, 0.1],
        "stake_distr_source": ["Pareto", "flat", "Disparity", "file"], "pareto_param": [0.8, 1, 2.0, 5],
        "inactive_stake_fraction": [0, 0.1, 0.3, 0.6, 0.75], "inactive_stake_fraction_known": [True, True, False],
        "iterations_after_convergence": [0, 1, 2, 4], "metrics": [[1], [2, 9, 21], [6, 1, 17], [26]], "profile_code": [True, False],
    }
    BATCH = {
        "a0": [0.3, [0.1, 1.0], [0.2]], "reward_scheme": [0, 1, 2, 3, 4], "agent_profile_distr": [[1, 1, 0], [0, 1, 0], [2, 1, 1]],
        "cost_min": [0, 1e-5, [0, 1e-5]], "cost_max": [1e-3, [1e-4, 1e-3]], "extra_pool_cost_fraction": [0.1, [0.1, 0.8]],
        "absolute_utility_threshold": [1e-9, [1e-9, 1e-6]], "relative_utility_threshold": [0, [0, 0.1]],
        "stake_distr_source": ["Pareto", "flat", "disparity"], "pareto_param": [0.8, [0.8, 2.0]],
        "inactive_stake_fraction": [0.1, 0.6, [0, 0.3], [0.7, 0.2]], "inactive_stake_fraction_known": [True, False],
        "iterations_after_convergence": [0, 1, 2], "execution_id": ["b1", "grid", "batch-run-varying-k-a0-3x3", "7-a0.3"],
    }

    def generate(self, R, tier, i):
        sc = self.gen_batch(R, i) if i % 5 == 4 else self.gen_main(R)
        sc["render"] = R.random() < 0.05
        return sc

    def gen_main(self, R):
        procs = []
        for j in range(R.choice([1, 1, 2, 3])):
            given = {"n": R.choice([4, 5, 8, 12]), "k": R.choice([1, 2, 3, [2], [2, 4], [3, 1, 2]]), "max_iterations": R.choice([1, 3, 8, 20])}
            if R.random() < 0.02:  # the documented default size, for one round
                given = {"max_iterations": 1, "a0": 0.3}
            pick(R, self.MAIN, given, R.choice([0.1, 0.3, 0.6]))
            if R.random() < 0.85:
                given["seed"] = R.choice([0, R.randint(0, 10 ** 6)])
            if R.random() < 0.8:
                given["execution_id"] = R.choice(["exec%d"] * 4 + ["n-3K-k-500-seed-%d", "increasing-k-%d", "10-%d", "a0.3.%d"]) % j
            if R.random() < (0.9 if len(given.get("metrics", [1] * 7)) > 3 else 0.4):
                given["generate_graphs"] = False
            if given.get("stake_distr_source") == "file":
                given.setdefault("n", 8)
            if given.get("cost_min", 1e-5) > given.get("cost_max", 1e-4):
                given["cost_max"] = 1e-3
            keys = list(given)
            R.shuffle(keys)
            procs.append({"given": {k: given[k] for k in keys}, "from_file": R.random() < 0.2, "pid": 1000 + j})
        sc = {"kind": "main", "procs": procs, "choices": schedule_choices(R, len(procs), R.choice([60, 200, 500])),
              "stakes": R.choice(["lines", "commas", "mixed"]), "serial": serial(R)}
        if R.random() < 0.15:
            sc["unreadable"] = {"what": R.choice(["no-args", "torn-args", "torn-args", "empty-args", "no-stakes", "bad-stakes"]), "cut": R.random(),
                                "given": {"n": 7, "k": 2, "max_iterations": 2, "seed": 3, "execution_id": "unreadable", "generate_graphs": False}}
        if R.random() < 0.4:
            sc["fault"] = {"kind": R.choice(["crash", "crash", "crash-after", "torn", "eio", "enospc", "interrupt", "nomem"]), "part": R.choice([0.0, 0.5, 0.9]),
                           "sticky": R.random() < 0.5, "proc": R.randint(0, len(procs) - 1), "at": R.choice([R.randint(0, 15), R.randint(0, 90)])}
        return sc

    def gen_batch(self, R, i):
        while True:
            if i % 15 == 4:  # three options varied, two values each
                three = {k: [x for x in vs if isinstance(x, list) and len(x) == 2] for k, vs in dict(self.BATCH, n=[[4, 6]], k=[[1, 2]]).items()}
                three = {k: R.choice(vs) for k, vs in three.items() if vs and k != "agent_profile_distr"}
                given = {"n": R.choice([4, 6]), "k": R.choice([1, 2]), "max_iterations": R.choice([1, 2])}
                given.update((k, three[k]) for k in R.sample(sorted(three), 3))
                if R.random() < 0.7:
                    given["seed"] = R.choice([0, R.randint(0, 10 ** 6)])
                break
            given = {"n": R.choice([4, [4], [4, 6]]), "k": R.choice([1, 2, [1, 2], [2, 3, 4]]), "max_iterations": R.choice([2, 5, 12])}
            pick(R, self.BATCH, given, 0.3)
            if R.random() < 0.8:
                given["seed"] = R.choice([0, R.randint(0, 10 ** 6)])
            size = 1
            for key, v in given.items():
                if isinstance(v, list) and key != "agent_profile_distr":
                    size *= len(v)
            if size <= 6:
                break
        if given.get("stake_distr_source") == "disparity":
            given["n"] = 5
        keys = list(given)
        R.shuffle(keys)
        return {"kind": "batch", "given": {k: given[k] for k in keys}, "cpus": R.choice([1, 2, 3, 8]),
                "choices": schedule_choices(R, 4, R.choice([50, 300, 1500])), "serial": serial(R)}

    # ------------------------------------------------------------------------------------------------- execution
    def execute(self, sc, stats):
        self.drawn = not sc.get("render")
        if sc["kind"] == "batch":
            return self.batch(sc, stats)
        root = C.fresh_dir()
        led = Ledger(root)
        procs = []
        preset(root, sc)
        try:
            for n in (4, 5, 8, 12):
                self.write_stakes(root, n, sc["stakes"])
            fault = sc.get("fault")
            if fault and fault["proc"] >= len(sc["procs"]):
                fault = None
            if sc.get("unreadable"):
                self.unreadable(led, sc["unreadable"], stats)
            groups = [[p] for p in sc["procs"]] if any(p["from_file"] for p in sc["procs"]) else [sc["procs"]]
            failed = []
            for g in groups:  # those that read their input from args.json go one by one
                if g[0]["from_file"]:
                    self.write_args(root, g[0])
                failed += self.overlap(led, g, sc, fault, stats)
            for p in failed:  # after the fault, the same command succeeds
                if p["from_file"]:
                    self.write_args(root, p)
                again = self.overlap(led, [p], sc, None, stats)
                assert not again
                stats.add("repeated after a fault")
        finally:
            for p in procs:
                p.abandon()
            shutil.rmtree(root, ignore_errors=True)

    def unreadable(self, led, u, stats):
        """A command whose input is not there or was cut off: it must fail and leave nothing that looks like an execution."""
        root = led.root
        given = dict(u["given"], **({"stake_distr_source": "file"} if "stakes" in u["what"] else {}))
        spec = {"given": given, "from_file": "args" in u["what"], "pid": 900}
        if spec["from_file"] and u["what"] != "no-args":
            self.write_args(root, spec)
            path = os.path.join(root, "args.json")
            with open(path) as f:
                text = f.read()
            with open(path, "w") as f:
                f.write("" if u["what"] == "empty-args" else text[:1 + int(u["cut"] * (len(text) - 2))])
        elif u["what"] == "bad-stakes":
            with open(os.path.join(root, "synthetic-stake-distribution-7-agents.csv"), "w") as f:
                f.write("0.5\n0.25\nstake\n0.3\n0.1\n0.1\n0.2\n0.4\n")
        before, rows = dirs_under(root), tracker_rows(root)
        argv = self.argv(spec)
        p = iosim.Proc(lambda gate: {"out": run_script("main.py", argv)}, root, spec["pid"], " ".join(argv))
        try:
            while p.alive:
                p.go(None)
            stats.add("unreadable input: " + u["what"])
            if p.state != "failed":
                raise Violation("unreadable-input", "main.py %s ends as '%s' although its input is unreadable (%s)" % (" ".join(argv), p.state, u["what"]))
        finally:
            p.abandon()
        for d in dirs_under(root):
            have = raw_folder(root, os.path.join("output", d)) if d not in before else {}
            if any("final" in k or "metrics" in k for k in have):
                raise Violation("unreadable-input", "main.py %s failed (%s) and left results in %s" % (" ".join(argv), u["what"], d))
        if tracker_rows(root) != rows:
            raise Violation("unreadable-input", "main.py %s failed (%s) and is listed in the experiment tracker" % (" ".join(argv), u["what"]))
        for f in ("args.json", "synthetic-stake-distribution-7-agents.csv"):
            if os.path.exists(os.path.join(root, f)):
                os.remove(os.path.join(root, f))

    def write_stakes(self, root, n, style):
        vals = ["%r" % (0.5 + (7 * i % 11) / 3) for i in range(n)]
        if style == "lines":
            text = "".join(v + "\n" for v in vals)
        elif style == "commas":
            text = ",".join(vals) + "\n"
        else:
            text = ",".join(vals[:2]) + "\n" + ",".join(vals[2:])
        with open(os.path.join(root, "synthetic-stake-distribution-%d-agents.csv" % n), "w") as f:
            f.write(text)

    def write_args(self, root, p):
        """The arguments file of an earlier execution with these arguments."""
        import inspect
        import logic.sim as S
        order = [x for x in inspect.signature(S.Simulation.__init__).parameters]
        args = dict(self.config(p), seq_id=-1, parent_dir="")
        with open(os.path.join(root, "args.json"), "w") as f:
            json.dump({k: args[k] for k in sorted(args, key=lambda k: order.index(k) if k in order else 99)}, f)

    def config(self, p):
        """What a process is asked to execute."""
        cfg = dict(copy.deepcopy(MAIN_DEFAULTS), **{k: real(k, v) for k, v in p["given"].items()})
        cfg.pop("profile_code", None)
        for k in ("agent_activation_order", "stake_distr_source"):
            cfg[k] = cfg[k].lower()
        return cfg

    def argv(self, p):
        if not p["from_file"]:
            return command_line(p["given"])
        # any other arguments are discarded
        other = {"n": 3, "k": 1, "seed": 5, "execution_id": "discarded", "generate_graphs": False}
        return command_line({k: v for k, v in other.items() if len(p["given"]) % 2}) + ["--input_from_file"]

    def overlap(self, led, specs, sc, fault, stats):
        root = led.root
        before = dirs_under(root)
        procs = []
        injected = []
        try:
            for s in specs:
                argv = self.argv(s)
                stats.seen("command lines", " ".join(sorted(s["given"])) + (" file" if s["from_file"] else ""))
                procs.append(iosim.Proc(lambda gate, argv=argv: {"out": run_script("main.py", argv)}, root, s["pid"], " ".join(argv)))
            i = 0
            while any(p.alive for p in procs):
                alive = [p for p in procs if p.alive]
                c = sc["choices"][i] if i < len(sc["choices"]) else 0
                i += 1
                p = procs[c % len(procs)]
                if not p.alive:
                    p = alive[c % len(alive)]
                f = None
                if fault and not injected and sc["procs"].index(specs[procs.index(p)]) == fault["proc"] and p.op["t"] == "op" \
                        and len(p.ops) - 1 >= fault["at"] and iosim.applicable(fault["kind"], p.op["op"]):
                    f = fault
                    injected.append(p)
                    stats.add("fault:" + fault["kind"])
                p.go(f)
            failed = []
            stats.add("main.py processes", len(procs))
            stats.add("file operations", sum(len(p.ops) for p in procs))
            for s, p in zip(specs, procs):
                if p.state != "done":
                    if p not in injected:
                        e = p.error or {}
                        raise Violation("script-" + p.state, "main.py %s %s: %s: %s at %s" % (p.name, p.state, e.get("type"), e.get("msg"), e.get("where")))
                    failed.append(s)
                    led.failed += 1
                    led.failed_rows += 1
                    continue
                self.verify_main(led, s, p, before, stats)
            led.check_intact("main.py")
            led.check_tracker("main.py", led.failed == 0)
            return failed
        finally:
            for p in procs:
                p.abandon()

    def verify_main(self, led, s, p, before, stats):
        root = led.root
        cfg = self.config(s)
        made = [path for op, path, size in p.ops if op == "mkdir" and path and path.count(os.sep) == 1 and path.startswith("output" + os.sep)]
        made = [d for d in made if os.path.isdir(os.path.join(root, d))]
        if not made:
            raise Violation("no-output", "main.py %s ended without a folder of its own" % p.name)
        d = made[-1]
        ident = cfg["execution_id"]
        name = os.path.basename(d)
        if not re.match(r"\d+-", name) or (ident and name.split("-", 1)[1] != ident):
            raise Violation("folder-name", "main.py %s wrote into %s" % (p.name, name))
        have = folder(root, d)
        if cfg["seed"] is None:
            seed = json.loads(have.get("initial-state-descriptors.json", "{}")).get("Randomness seed")
            if not isinstance(seed, int):
                raise Violation("seed", "main.py %s reports the seed %r" % (p.name, seed))
            cfg["seed"] = seed
        graphs = cfg["generate_graphs"]
        cfg2 = dict(cfg, generate_graphs=graphs if self.drawn or cfg["metrics"] and len(cfg["metrics"]) < 4 else False)
        ref = self.reference(cfg2, root)
        stats.add("compared with the interface")
        want = ref["files"]
        why = None
        if graphs and not cfg2["generate_graphs"]:
            figs = [k for k in have if k.endswith(".png")]
            if len(figs) < 6:
                why = "there are %d graphs" % len(figs)
            have2 = {k: v for k, v in have.items() if not k.startswith("figures")}
        else:
            have2 = dict(have)
        skip = ("generate_graphs", "seq_id", "seed") if s["given"].get("seed") is None else ("generate_graphs", "seq_id")
        try:
            a, b = norm_args(want["args.json"]), norm_args(have["args.json"])
        except ValueError:
            raise Violation("args-file", "main.py %s wrote the arguments %r" % (p.name, have["args.json"][:80]))
        for k in skip:
            a.pop(k, None), b.pop(k, None)
        if not cfg["execution_id"]:
            a.pop("execution_id", None), b.pop("execution_id", None)
        if a != b:
            bad = [(k, a.get(k), b.get(k)) for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k)]
            raise Violation("arguments", "main.py %s executes with %s=%r instead of %r" % (p.name, bad[0][0], bad[0][2], bad[0][1]))
        have2["args.json"] = want["args.json"]
        why = why or diff_files({k: v for k, v in want.items() if not k.endswith(".pkl")}, {k: v for k, v in have2.items() if not k.endswith(".pkl")})
        if why:
            raise Violation("wrong-files", "main.py %s: compared with the same execution through the interface, %s" % (p.name, why))
        out = p.result["out"]
        self.check_report(p, out, ref)
        led.complete[d] = raw_folder(root, d)
        led.rows.append((d, ref))

    def reference(self, cfg, root):
        d = C.fresh_dir()

        def fn():
            os.chdir(d)
            import logic.sim as S
            with C.quiet():
                C.clear_caches()
                sim = S.Simulation(**copy.deepcopy(cfg))
                sim.run_model()
            return {"dir": os.path.relpath(str(sim.directory), os.getcwd()), "converged": bool(sim.has_converged()), "steps": sim.equilibrium_steps}
        try:
            for f in os.listdir(root):
                if f.startswith("synthetic"):
                    shutil.copy(os.path.join(root, f), d)
            res = C.in_child(fn, 200)
            if res is None:
                raise Violation("hang", "the execution %s does not end when run through the interface" % cfg)
            if "e" in res:
                raise Violation("abort", "the execution %s aborts when run through the interface: %s" % (cfg, res["e"][-600:]))
            r = res["r"]
            return {"files": folder(d, r["dir"]), "row": tracker_rows(d), "result": {}, "converged": r["converged"], "steps": r["steps"]}
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def check_report(self, p, out, ref):
        said = [line for line in out.splitlines() if "equilibrium" in line.lower()]
        reached = [line for line in said if "without" not in line.lower() and "not " not in line.lower()]
        if ref["converged"]:
            nums = re.findall(r"-?\d+", " ".join(reached))
            if not reached or [int(x) for x in nums] != list(ref["steps"]):
                raise Violation("report", "main.py %s reached equilibrium at %s but prints %r" % (p.name, ref["steps"], said))
        elif reached:
            raise Violation("report", "main.py %s did not reach equilibrium but prints %r" % (p.name, said))

    # ---------------------------------------------------------------------------------------------------- batch-run.py
    def batch(self, sc, stats):
        load_batchrunner()
        with C.in_scratch() as root:
            preset(root, sc)
            given = sc["given"]
            stats.seen("command lines", "batch " + " ".join(sorted(given)))
            SimPool.plan = {"choices": sc["choices"], "pos": 0, "cpus": sc["cpus"], "trace": [], "sizes": [], "fileops": 0,
                            "fault": None, "injected": None}
            argv = command_line(given)
            try:
                run_script("batch-run.py", argv)
            except RuntimeError as e:
                raise Violation("script-failed", str(e))
            stats.add("batch-run.py processes")
            stats.add("workers", sum(SimPool.plan["sizes"]))
            stats.add("file operations of workers", SimPool.plan["fileops"])
            new = sorted(dirs_under(root))
            if len(new) != 1 or new[0].split("-", 1)[1:] != [given.get("execution_id", "batch-run")]:
                raise Violation("batch-folder", "batch-run.py %s created the folders %s" % (" ".join(argv), new))
            path = os.path.join("output", new[0])
            params = {}
            for k, v in dict(copy.deepcopy(BATCH_DEFAULTS), **{k: real(k, v) for k, v in given.items()}).items():
                if k in ("execution_id", "seed", "agent_profile_distr"):
                    continue
                params[k] = v[0] if isinstance(v, list) and len(v) == 1 else v
            seed = given.get("seed")
            if seed is None:
                seeds = set()
                for d in os.listdir(path):
                    if os.path.exists(os.path.join(path, d, "args.json")):
                        with open(os.path.join(path, d, "args.json")) as f:
                            seeds.add(json.load(f)["seed"])
                if len(seeds) != 1 or not isinstance(list(seeds)[0], int):
                    raise Violation("batch-seed", "the executions of batch-run.py %s have the seeds %s" % (" ".join(argv), sorted(map(str, seeds))))
                seed, = seeds
            self.verify_batch(params, given.get("agent_profile_distr", [1, 0, 0]), seed, path, root, stats, " ".join(argv))

    def verify_batch(self, params, distr, seed, path, root, stats, argv):
        helper = _BatchVerifier(distr)
        try:
            helper.verify({"parameters": params, "iterations": 1, "initial_seed": seed, "period": -1}, None, path, root, stats, params["max_iterations"])
        except Violation as v:
            raise Violation(v.kind, "batch-run.py %s: %s" % (argv, v.message))
        varied = [k for k, v in params.items() if isinstance(v, list)]
        fig = os.path.join(root, path, "figures")
        have = os.listdir(fig) if os.path.isdir(fig) else []
        for m in helper.metric_names:
            for k in varied:
                pics = [f for f in have if m in f and k in f and "heatmap" not in f]
                if not pics:
                    raise Violation("batch-graphs", "batch-run.py %s: no graph of %s per %s among %s" % (argv, m, k, have[:5]))
                self.points(argv, [drawing.read(os.path.join(fig, f)) for f in pics], m, k, helper.final, stats)
            if len(varied) == 2:
                pics = [f for f in have if "heatmap" in f and m in f]
                if not pics:
                    raise Violation("batch-graphs", "batch-run.py %s: no heatmap of %s" % (argv, m))
                self.cells(argv, [drawing.read(os.path.join(fig, f)) for f in pics], m, helper.final, stats)

    def points(self, argv, pics, metric, option, final, stats):
        """The graph of a metric per option shows the values of all executions (those that are defined, i.e. not negative)."""
        if None in pics:
            stats.add("pictures rendered")
            return
        want = sorted((float(p[option]), float(m[metric])) for _, p, m in final if m[metric] is not None and m[metric] >= 0)
        for axes in pics:
            have = sorted((x, y) for ax in axes for pts in ax["points"] for x, y in pts if y is not None and y >= 0)
            if len(have) == len(want) and all(drawing.same(a, b) for h, w in zip(have, want) for a, b in zip(h, w)):
                stats.add("pictures checked")
                return
        raise Violation("batch-graph-values", "batch-run.py %s: the graph of %s per %s shows %s instead of %s" % (argv, metric, option, have[:6], want[:6]))

    def cells(self, argv, pics, metric, final, stats):
        if None in pics:
            return
        want = sorted(float(m[metric]) for _, p, m in final if m[metric] is not None)
        for axes in pics:
            have = []
            for ax in axes:
                for t in ax["texts"]:
                    try:
                        have.append(float(t))
                    except ValueError:
                        pass
            if len(have) == len(want) and all(abs(a - b) <= 1e-5 * max(abs(a), abs(b)) for a, b in zip(sorted(have), want)):  # six digits
                stats.add("pictures checked")
                return
        raise Violation("batch-graph-values", "batch-run.py %s: the heat map of %s shows %s instead of %s" % (argv, metric, have[:8], want[:8]))

    def shrink(self, sc):
        def put(**kw):
            d = copy.deepcopy(sc)
            d.update(kw)
            return d
        if sc["kind"] == "batch":
            for k, v in sc["given"].items():
                g = {a: b for a, b in sc["given"].items() if a != k}
                if k not in ("n", "k", "max_iterations"):
                    yield put(given=g)
                if isinstance(v, list) and k != "agent_profile_distr":
                    yield put(given=dict(g, **{k: v[0]}))
            if sc["choices"]:
                yield put(choices=[])
            return
        if sc.get("fault"):
            yield put(fault=None)
        st = sc["procs"]
        if len(st) > 1:
            for i in range(len(st)):
                yield put(procs=st[:i] + st[i + 1:])
        for i, s in enumerate(st):
            if s["from_file"]:
                yield put(procs=st[:i] + [dict(s, from_file=False)] + st[i + 1:])
            for k, v in s["given"].items():
                if k in ("n", "k", "max_iterations", "seed", "generate_graphs"):
                    continue
                g = {a: b for a, b in s["given"].items() if a != k}
                yield put(procs=st[:i] + [dict(s, given=g)] + st[i + 1:])
        if sc["choices"]:
            yield put(choices=[])
            yield put(choices=sc["choices"][:len(sc["choices"]) // 2])


class _BatchVerifier(C20):
    """Expected executions of a batch with a profile distribution; graphs are not drawn for the expectation."""

    def __init__(self, distr):
        self.distr = distr

    def alone_run(self, params, steps, period):
        return super().alone_run(dict(params, agent_profile_distr=self.distr, generate_graphs=False), steps, period)

    def normal(self, files):
        out = {k: v for k, v in super().normal(files).items() if not k.startswith("figures")}
        try:
            d = norm_args(out["args.json"])
            d.pop("generate_graphs", None)
            out["args.json"] = json.dumps(d, sort_keys=True)
        except (KeyError, ValueError):
            pass
        out.pop("simulation-object.pkl", None)
        return out


CHECKS = [C24]
