"""Checks over executions as processes on a simulated disk: C18 (crash, disk errors), C19 (overlap), C20 (batch runs)."""
import copy
import csv
import io
import itertools
import json
import os
import pickle
import random
import shutil

from . import common as C
from . import iosim
from . import market as MK
from .common import Violation, HarnessError

TRACKER = "output/experiment-tracker.csv"


# ------------------------------------------------------------------------------------------------ executions
def run_sim(cfg):
    """What main.py does."""
    import logic.sim as S
    C.clear_caches()
    sim = S.Simulation(**copy.deepcopy(cfg))
    sim.run_model()
    return {"dir": os.path.relpath(str(sim.directory), os.getcwd()), "canon": C.digest(MK.canon(sim))}


def run_batch(cfg):
    """What batch-run.py does, with one process."""
    import custom_batchrunner as B
    import logic.sim as S
    C.clear_caches()
    c = copy.deepcopy(cfg)
    results, path = B.custom_batch_run(S.Simulation, parameters=c["parameters"], batch_run_id=c["batch_run_id"],
                                       number_processes=1, iterations=c.get("iterations", 1), max_steps=c["max_steps"],
                                       display_progress=False, initial_seed=c["initial_seed"])
    return {"dir": os.path.relpath(str(path), os.getcwd()), "records": len(results)}


def runner(spec):
    return (lambda gate=None: run_sim(spec["config"])) if spec["kind"] == "sim" else (lambda gate=None: run_batch(spec["config"]))


def alone(spec):
    """The same execution alone in an empty directory of its own, with Python's own file operations. Returns its files."""
    d = C.fresh_dir()

    def fn():
        os.chdir(d)
        with C.quiet():
            return runner(spec)()
    try:
        res = C.in_child(fn, 200)
        if res is None:
            raise Violation("hang", "the execution %s does not end when run alone" % spec["name"])
        if "e" in res:
            raise Violation("abort", "the execution %s aborts when run alone: %s" % (spec["name"], res["e"][-600:]))
        r = res["r"]
        return {"files": folder(d, r["dir"]), "row": tracker_rows(d), "result": {k: v for k, v in r.items() if k != "dir"}}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def folder(root, rel):
    """Normalised content of an execution's folder: names and bytes without serial number and location."""
    base = os.path.join(root, rel)
    ident = os.path.basename(rel)
    out = {}
    for dp, dn, fn in os.walk(base):
        for name in dn:
            out[os.path.relpath(os.path.join(dp, name), base).replace(ident, "<id>") + "/"] = ""
        for name in fn:
            path = os.path.join(dp, name)
            key = os.path.relpath(path, base).replace(ident, "<id>")
            with open(path, "rb") as f:
                data = f.read()
            if name.endswith(".pkl"):
                try:
                    val = "state " + C.digest(MK.canon(pickle.loads(data)))
                except Exception as e:  # not a usable snapshot
                    val = "unreadable: %s: %s" % (type(e).__name__, str(e)[:100])
            elif name.endswith(".png"):
                val = data[8:].decode().strip() if data[8:14] == b"drawn " else "png %d" % (len(data) > 500)
            else:
                val = data.replace(os.path.realpath(root).encode(), b"<root>").replace(root.encode(), b"<root>") \
                          .replace(ident.encode(), b"<id>").decode("utf-8", "replace")
            out[key] = val
    return out


def raw_folder(root, rel):
    out = {}
    for dp, dn, fn in os.walk(os.path.join(root, rel)):
        for name in fn:
            path = os.path.join(dp, name)
            with open(path, "rb") as f:
                out[os.path.relpath(path, root)] = f.read()
    return out


def split_rows(data):
    lines = data.decode("utf-8", "replace").replace("\r\n", "\n").replace("\r", "\n").split("\n")
    return [next(csv.reader([x])) for x in lines if x != ""]


def tracker_rows(root):
    path = os.path.join(root, TRACKER)
    if not os.path.exists(path):
        return []
    with open(path, "rb") as f:
        return split_rows(f.read())


def diff_files(want, have):
    for k in sorted(set(want) | set(have)):
        if k not in have:
            return "%s is missing" % k
        if k not in want:
            return "%s is unexpected" % k
        if want[k] != have[k]:
            a, b = want[k], have[k]
            i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
            return "%s differs at %d: %r instead of %r" % (k, i, b[max(0, i - 20):i + 40], a[max(0, i - 20):i + 40])
    return None


def dirs_under(root):
    out = os.path.join(root, "output")
    return {d for d in os.listdir(out) if os.path.isdir(os.path.join(out, d))} if os.path.isdir(out) else set()


SERIALS = [8, 9, 41, 98, 99, 998, 10 ** 6]


def serial(R):
    """Where the numbers of the folder stand at the start."""
    return R.choice(SERIALS) if R.random() < 0.3 else None


def preset(root, sc):
    if sc.get("serial") is not None:
        with open(os.path.join(root, "sequence.dat"), "w") as f:
            f.write(str(sc["serial"]))


def small_config(R, name, graphs=False):
    cfg = MK.gen_config(R, n=lambda R: R.choice([1, 2, 4, 6, 8]), k=lambda R: R.choice([1, 2, 3, [2, 4]]), multi_p=0.2,
                        max_iterations=lambda R: R.choice([1, 2, 3, 6, 12]), iterations_after_convergence=lambda R: R.choice([1, 2]),
                        metrics=lambda R: R.choice([None, [1], [1, 2, 9, 21, 26], [1, 6, 26]]))
    cfg["execution_id"] = name
    cfg["generate_graphs"] = graphs
    return cfg


def batch_config(R, name):
    params = dict(n=R.choice([4, 6]), k=R.choice([[1, 2], 2, [2, 3, 4]]), a0=R.choice([0.3, [0.1, 1.0]]), max_iterations=R.choice([3, 8]),
                  reward_scheme=R.choice([0, 2]), iterations_after_convergence=1, cost_max=1e-3, generate_graphs=False)
    return {"parameters": params, "batch_run_id": name, "initial_seed": R.randint(0, 10 ** 6), "max_steps": params["max_iterations"],
            "iterations": R.choice([1, 2])}


NAMES = ["exec%s%d"] * 6 + ["increasing-k-%s%d", "n-3K-k-500-seed-42-%s%d", "10-%s%d", "a0.3-%s.%d", "an execution %s %d"]


def gen_spec(R, i, tag="x", batch_p=0.15, graphs_p=0.0):
    name = R.choice(NAMES) % (tag, i)
    if R.random() < batch_p:
        return {"kind": "batch", "name": name, "config": batch_config(R, name)}
    return {"kind": "sim", "name": name, "config": small_config(R, name, R.random() < graphs_p)}


class Ledger:
    """What the files of completed executions must be."""

    def __init__(self, root):
        self.root = root
        self.complete = {}   # dir -> raw bytes
        self.rows = []       # (dir, expected row without the serial number or None for batches)
        self.failed = 0
        self.failed_rows = 0

    def check_intact(self, after):
        for d, files in self.complete.items():
            now = raw_folder(self.root, d)
            if now != files:
                bad = [k for k in files if now.get(k) != files[k]] + [k for k in now if k not in files]
                raise Violation("damaged", "after %s, files of the completed execution %s changed: %s" % (after, d, bad[:4]))

    def completed(self, spec, ref, result, before_dirs):
        d = result["dir"]
        if os.path.basename(d) in before_dirs:
            raise Violation("folder-reused", "execution %s wrote into the existing folder %s" % (spec["name"], d))
        why = diff_files(ref["files"], folder(self.root, d))
        if why:
            raise Violation("wrong-files", "execution %s reported success but in its folder %s" % (spec["name"], why))
        self.complete[d] = raw_folder(self.root, d)
        self.rows.append((d, ref))

    def check_tracker(self, after, strict):
        """strict: no failure ever happened, so there must be nothing else."""
        path = os.path.join(self.root, TRACKER)
        have = tracker_rows(self.root)
        header = next((ref["row"][0] for d, ref in self.rows if ref["row"]), None)
        if header is None:
            return
        if not have:
            raise Violation("tracker", "after %s the experiment tracker is missing" % after)
        if have[0] != header:
            raise Violation("tracker-header", "after %s the experiment tracker starts with %r" % (after, have[0]))
        if have.count(header) != 1:
            raise Violation("tracker-header", "after %s the experiment tracker has %d headers" % (after, have.count(header)))
        rest = have[1:]
        extra_allowed = self.failed_rows
        for d, ref in self.rows:
            ident = os.path.basename(d)
            seq = ident.split("-", 1)[0]
            for row in ref["row"][1:]:
                # a batch's executions count their own serial numbers
                want = ([seq] if len(self.kind_of(ref)) == 0 else [row[0]]) + row[1:]
                if want not in rest:
                    raise Violation("tracker-row", "after %s the row %r of the completed execution %s is not in the experiment tracker: %r"
                                    % (after, want, ident, rest[-3:]))
                rest.remove(want)
        if len(rest) > extra_allowed:
            raise Violation("tracker-extra", "after %s the experiment tracker has %d unexpected rows: %r (at most %d expected)"
                            % (after, len(rest), rest[:3], extra_allowed))

    def kind_of(self, ref):
        return "batch" if "records" in ref["result"] else ""


class FileCheck:
    real = ["Simulation and run_model as main.py uses them", "custom_batch_run", "all file output of the project",
            "the file system of a scratch directory"]
    stubs = ["Python's open/os file entry points (same buffering, system calls passed through the simulator)", "wall clock", "process ids"]
    distinct_set = "fault points"
    cpu_limit = 150
    soft_monitors = False

    def describe(self, sc):
        return json.loads(json.dumps(sc, default=repr)[:6000]) if len(json.dumps(sc, default=repr)) < 6000 else {"steps": [s["name"] for s in sc.get("steps", [])]}


class C18(FileCheck):
    id = "C18"
    quick_runs, thorough_runs = 400, 6000
    rule = ("a case is a sequence of executions in one directory, some killed or hit by a disk error at a chosen file operation; "
            "distinct_nontrivial counts distinct (fault kind, operation, file, position) points at which a fault really struck")

    KINDS = ["crash", "crash", "crash-after", "torn", "torn", "short", "enospc", "enospc", "eio", "eio", "interrupt", "nomem"]

    def generate(self, R, tier, i):
        steps = []
        for j in range(R.randint(1, 4)):
            if steps and R.random() < 0.4:  # the same execution again, e.g. after it failed
                spec = {key: copy.deepcopy(v) for key, v in R.choice(steps[-2:]).items() if key in ("kind", "name", "config")}
            else:
                spec = gen_spec(R, j)
            spec["pid"] = R.choice([1000, 1000, 1001, 1002])
            if steps and R.random() < 0.15:
                spec["lose"] = R.choice(["delete", "rollback"])
            if R.random() < 0.75:
                kind = R.choice(self.KINDS)
                spec["fault"] = {"kind": kind, "part": R.choice([0.0, 0.1, 0.5, 0.9, 0.99]), "sticky": R.random() < 0.5}
                spec["where"] = R.choice(["shared", "shared", "write", "any", "tail"])
                spec["frac"] = R.random()
            steps.append(spec)
        if R.random() < 0.5:
            last = {key: copy.deepcopy(v) for key, v in steps[-1].items() if key in ("kind", "name", "config")}
        else:
            last = gen_spec(R, 9, batch_p=0.1, graphs_p=0.2)
        last["pid"] = 1000
        if R.random() < 0.15:
            last["lose"] = R.choice(["delete", "rollback"])
        steps.append(last)
        return {"steps": steps, "serial": serial(R), "again": R.randint(0, 9) if R.random() < 0.4 else None}

    def lose(self, root, how, stats):
        path = os.path.join(root, "sequence.dat")
        if not os.path.exists(path):
            return
        if how == "delete":
            os.remove(path)
        else:
            with open(path) as f:
                text = f.read()
            now = int(text) if text.isdigit() else 0
            with open(path, "w") as f:
                f.write(str(max(0, now - 1)))
        stats.add("fault:serial number file %s" % ("lost" if how == "delete" else "rolled back"))

    def execute(self, sc, stats):
        root = C.fresh_dir()
        led = Ledger(root)
        preset(root, sc)
        try:
            for n, spec in enumerate(sc["steps"]):
                self.step(led, spec, stats, n)
            if sc.get("again") is not None:
                self.again(led, sc, stats)
        finally:
            shutil.rmtree(root, ignore_errors=True)
        stats.add("sequences")

    def again(self, led, sc, stats):
        """An execution that is told to use the number and name of a completed one must not touch that one's files."""
        done = [d for d, ref in led.rows if not led.kind_of(ref)]
        if not done:
            return
        d = done[sc["again"] % len(done)]
        number, _, name = os.path.basename(d).partition("-")
        spec = next((s for s in sc["steps"] if s["kind"] == "sim" and s["config"]["execution_id"] == name), None)
        if spec is None or not number.isdigit():
            return
        spec = dict(spec, config=dict(spec["config"], seq_id=int(number), max_iterations=1))
        p = self.launch(led.root, spec)
        try:
            p.run()
        finally:
            p.abandon()
        stats.add("executions told to use a taken number")
        what = "an execution told to use the folder %s again (%s)" % (d, p.state)
        led.check_intact(what)
        if p.state == "failed":
            led.failed += 1
            led.failed_rows += 1
        led.check_tracker(what, False)

    def launch(self, root, spec):
        return iosim.Proc(runner(spec), root, spec.get("pid", 1000), spec["name"])

    def step(self, led, spec, stats, n):
        root = led.root
        ref = alone(spec)
        fault = spec.get("fault")
        at = None
        if spec.get("lose"):
            self.lose(root, spec["lose"], stats)
        if fault:
            # rehearse on a copy to learn the operations of this execution from here
            twin = C.fresh_dir()
            shutil.rmtree(twin)
            shutil.copytree(root, twin)
            p = self.launch(twin, spec)
            try:
                p.run()
                if p.state != "done":
                    raise self.unexpected(spec, p, "at step %d" % n)
                self.check_done(twin, spec, ref, p)
                at = iosim.choose_op(p.ops, fault, spec["where"], spec["frac"])
            finally:
                p.abandon()
                shutil.rmtree(twin, ignore_errors=True)
            stats.add("fault-free rehearsals")
        before = dirs_under(root)
        p = self.launch(root, spec)
        try:
            p.run(at, fault)
        finally:
            p.abandon()
        stats.add("executions")
        stats.add("file operations", len(p.ops))
        inj = p.injected
        if inj:
            stats.add("fault:" + inj["kind"])
            stats.seen("fault points", "%s %s %s %d" % (inj["kind"], inj["op"], os.path.basename(inj["path"] or "")[-24:], at))
        what = "execution %s%s" % (spec["name"], " (%s at %s of %s)" % (inj["kind"], inj["op"], inj["path"]) if inj else "")
        led.check_intact(what)
        if p.state == "done":
            stats.add("completed")
            if inj:
                stats.add("completed despite a fault")
            led.completed(spec, ref, p.result, before)
        else:
            if not inj or (p.state == "crashed" and inj["kind"] not in ("crash", "crash-after", "torn")) or p.state == "hang":
                raise self.unexpected(spec, p, what)
            if inj["kind"] == "short":
                raise Violation("short-write", "%s did not survive a short write: %s" % (what, p.error and p.error["msg"]))
            stats.add("died" if p.state == "crashed" else "reported the error")
            led.failed += 1
            # a failed execution may leave at most one row, a failed batch also those of the executions it completed
            if spec["kind"] == "batch":
                led.failed_rows += len(ref["row"][1:])
            else:
                led.failed_rows += 1
        led.check_tracker(what, led.failed == 0)

    def check_done(self, root, spec, ref, p):
        why = diff_files(ref["files"], folder(root, p.result["dir"]))
        if why:
            raise Violation("wrong-files", "execution %s reported success but in its folder %s" % (spec["name"], why))

    def unexpected(self, spec, p, what):
        if p.state == "failed":
            e = p.error
            return Violation("later-execution-fails", "%s: execution %s fails without a fault of its own: %s: %s at %s"
                             % (what, spec["name"], e["type"], e["msg"], e["where"]))
        return Violation("later-execution-" + p.state, "%s: execution %s %s" % (what, spec["name"], p.state))

    def shrink(self, sc):
        st = sc["steps"]
        if sc.get("again") is not None:
            yield dict(sc, again=None)
        for i in range(len(st)):
            if len(st) > 1:
                yield dict(sc, steps=st[:i] + st[i + 1:])
        for i, s in enumerate(st):
            if s.get("fault") and len(st) > 1:
                t = {k: v for k, v in s.items() if k not in ("fault", "where", "frac")}
                yield dict(sc, steps=st[:i] + [t] + st[i + 1:])
        simple = dict(n=2, k=1, max_iterations=1, reward_scheme=0, metrics=[1], generate_graphs=False, inactive_stake_fraction=0)
        for i, s in enumerate(st):
            if s["kind"] == "sim":
                for k, v in simple.items():
                    if s["config"].get(k) != v:
                        t = copy.deepcopy(s)
                        t["config"][k] = v
                        yield dict(sc, steps=st[:i] + [t] + st[i + 1:])


def schedule_choices(R, nproc, length):
    """Explicit schedule: which of the runnable processes goes next."""
    style = R.choice(["uniform", "lockstep", "runs", "mixed"])
    out = []
    while len(out) < length:
        if style == "uniform":
            out.append(R.randint(0, nproc - 1))
        elif style == "lockstep":
            order = list(range(nproc))
            R.shuffle(order)
            out += order
            if R.random() < 0.1:
                out += [R.randint(0, nproc - 1)] * R.randint(1, 3)
        elif style == "runs":
            out += [R.randint(0, nproc - 1)] * R.choice([1, 2, 3, 8, 20, 60])
        else:
            out += [R.randint(0, nproc - 1)] * R.choice([1, 1, 1, 2, 30])
    return out[:length]


def interleave(procs, choices):
    i = 0
    trace = []
    while True:
        alive = [p for p in procs if p.alive]
        if not alive:
            return trace
        # a choice names a process; if it has ended, the next one goes
        c = choices[i] if i < len(choices) else 0
        i += 1
        p = procs[c % len(procs)]
        if not p.alive:
            p = alive[c % len(alive)]
        trace.append((procs.index(p), p.op.get("op"), p.op.get("path")))
        p.go(None)


class C19(FileCheck):
    id = "C19"
    quick_runs, thorough_runs = 400, 5000
    distinct_set = "interleavings"
    rule = ("a case is 2 to 4 executions whose file operations are interleaved by an explicit schedule; distinct_nontrivial counts "
            "distinct orders of the operations on shared files (serial number, tracker, output folder)")

    def generate(self, R, tier, i):
        n = R.choice([2, 2, 2, 3, 4])
        steps = [gen_spec(R, j, batch_p=0.1) for j in range(n)]
        if R.random() < 0.5:  # equally fast executions reach the shared files together
            for s in steps[1:]:
                if s["kind"] == steps[0]["kind"] == "sim":
                    s["config"] = dict(copy.deepcopy(steps[0]["config"]), execution_id=s["name"], seed=s["config"]["seed"])
        if R.random() < 0.4:  # the same identifier
            for s in R.sample(steps, 2):
                s["name"] = "same"
                s["config"]["execution_id" if s["kind"] == "sim" else "batch_run_id"] = "same"
        for j, s in enumerate(steps):
            s["pid"] = 1000 + j
        return {"before": [gen_spec(R, 0, tag="b", batch_p=0)] if R.random() < 0.4 else [], "steps": steps,
                "choices": schedule_choices(R, n, R.choice([60, 150, 300, 600])), "serial": serial(R)}

    def execute(self, sc, stats):
        root = C.fresh_dir()
        led = Ledger(root)
        procs = []
        preset(root, sc)
        try:
            for spec in sc["before"]:
                p = iosim.Proc(runner(spec), root, 999, spec["name"]).run()
                if p.state != "done":
                    raise Violation("abort", "execution %s: %s" % (spec["name"], p.error))
                led.completed(spec, alone(spec), p.result, set())
            before = dirs_under(root)
            refs = [alone(s) for s in sc["steps"]]
            procs = [iosim.Proc(runner(s), root, s["pid"], s["name"]) for s in sc["steps"]]
            trace = interleave(procs, sc["choices"])
            stats.add("interleavings executed")
            stats.add("file operations", len(trace))
            stats.add("executions", len(procs))
            stats.add("context switches", sum(a[0] != b[0] for a, b in zip(trace, trace[1:])))
            shared = [(a, op, os.path.basename(p or "")) for a, op, p in trace
                      if p and ("sequence.dat" in p or "experiment-tracker" in p or op == "mkdir")]
            stats.seen("interleavings", C.digest(shared))
            for s, p, ref in zip(sc["steps"], procs, refs):
                if p.state != "done":
                    e = p.error or {}
                    raise Violation("overlap-" + p.state, "execution %s, overlapping with %d others, %s: %s: %s at %s"
                                    % (s["name"], len(procs) - 1, p.state, e.get("type"), e.get("msg"), e.get("where")))
            seen = set()
            for s, p, ref in zip(sc["steps"], procs, refs):
                if p.result["dir"] in seen:
                    raise Violation("folder-shared", "two executions share the folder %s" % p.result["dir"])
                seen.add(p.result["dir"])
                for k in ref["result"]:
                    if p.result[k] != ref["result"][k]:
                        raise Violation("result", "execution %s ends in another state than alone" % s["name"])
                led.completed(s, ref, p.result, before)
            led.check_intact("all executions")
            led.check_tracker("all executions", True)
        finally:
            for p in procs:
                p.abandon()
            shutil.rmtree(root, ignore_errors=True)

    def shrink(self, sc):
        def put(**kw):
            d = copy.deepcopy(sc)
            d.update(kw)
            return d
        if sc["before"]:
            yield put(before=[])
        st = sc["steps"]
        if len(st) > 2:
            for i in range(len(st)):
                yield put(steps=st[:i] + st[i + 1:])
        for size in (len(sc["choices"]), len(sc["choices"]) // 2, 20, 5, 1):
            if 0 < size <= len(sc["choices"]):
                yield put(choices=sc["choices"][:-size])
        simple = dict(n=2, k=1, max_iterations=1, reward_scheme=0, metrics=[1], inactive_stake_fraction=0)
        for i, s in enumerate(st):
            if s["kind"] == "sim":
                for k, v in simple.items():
                    if s["config"].get(k) != v:
                        t = copy.deepcopy(s)
                        t["config"][k] = v
                        yield put(steps=st[:i] + [t] + st[i + 1:])
        for size in (16, 4, 1):
            for i in range(0, len(sc["choices"]), size):
                ch = sc["choices"][:i] + sc["choices"][i + size:]
                yield put(choices=ch)


# ------------------------------------------------------------------------------------------------------- batch runs
class SimPool:
    """multiprocessing.Pool with forked workers of which one at a time runs, as the scenario's schedule says."""
    plan = None  # set by the check: {"choices", "fault", "trace", "stats"}

    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        self.n = processes or SimPool.plan["cpus"]
        self.max = maxtasksperchild
        self.initializer = (initializer, initargs)
        self.serial = 0
        self.i = 0
        self.workers = [self.spawn() for _ in range(self.n)]
        SimPool.plan["sizes"].append(self.n)

    def spawn(self):
        self.serial += 1
        init, initargs = self.initializer

        def loop(gate):
            if init:
                init(*initargs)
            while True:
                gate.send({"t": "op", "op": "idle", "path": None, "size": 0})
                msg = gate.recv()
                if msg is None:
                    return None
                func, args, kwargs = pickle.loads(msg["task"])
                try:
                    res = (True, func(*args, **kwargs))
                except Exception as e:
                    if C.repo_frame(e.__traceback__):
                        e.dst_where = C.where(e.__traceback__)
                    res = (False, e)
                try:
                    b = pickle.dumps(res)
                    pickle.loads(b)
                except Exception as e:
                    e = RuntimeError("a worker's result or exception cannot be passed on: %s: %s" % (type(e).__name__, e))
                    e.dst_where = "worker"
                    b = pickle.dumps((False, e))
                gate.send({"t": "op", "op": "result", "path": None, "size": 0, "payload": b})
                gate.recv()
        p = iosim.Proc(loop, os.getcwd(), 2000 + self.serial, "worker%d" % self.serial)
        p.go(None)  # from ready to idle
        p.task = None
        return p

    def _run(self, tasks):
        """Generator of (index, ok, value) in completion order."""
        queue = list(enumerate(tasks))
        plan = SimPool.plan
        ops = 0
        while True:
            ready = [w for w in self.workers if w.alive and (w.op["op"] != "idle" or queue)]
            if not ready:
                return
            ch = plan["choices"]
            c = ch[plan["pos"]] if plan["pos"] < len(ch) else 0
            plan["pos"] += 1
            w = ready[c % len(ready)]
            if plan.get("rest") in ready:  # a short write to a regular file and the write of its rest: see DESIGN.md
                w = plan["rest"]
            plan["rest"] = None
            plan["trace"].append((w.name, w.op["op"], w.op["path"]))
            if w.op["op"] == "idle":
                i, task = queue.pop(0)
                w.task = i
                w.go({"task": pickle.dumps(task)})
            elif w.op["op"] == "result":
                payload, i = w.op["payload"], w.task
                w.task = None
                w.go(None)
                ok, val = pickle.loads(payload)
                yield i, ok, val
            else:
                f = None
                if plan["fault"] and plan["fault"]["at"] == plan["fileops"] and iosim.applicable(plan["fault"]["kind"], w.op["op"]):
                    f = plan["fault"]
                    plan["injected"] = dict(f, op=w.op["op"], path=w.op["path"])
                elif plan["fault"] and plan["fault"]["at"] == plan["fileops"]:
                    plan["fault"]["at"] += 1  # the next operation it applies to
                plan["fileops"] += 1
                w.go(f)
                if f and f["kind"] == "short":
                    plan["rest"] = w
            if w.state in ("failed", "crashed", "hang"):
                raise HarnessError("worker %s: %s %s" % (w.name, w.state, w.error))

    def imap_unordered(self, func, iterable, chunksize=1):
        for i, ok, val in self._run([(func, (x,), {}) for x in iterable]):
            if not ok:
                raise val
            yield val

    def imap(self, func, iterable, chunksize=1):
        done, nxt = {}, 0
        for i, ok, val in self._run([(func, (x,), {}) for x in iterable]):
            done[i] = (ok, val)
            while nxt in done:
                ok, val = done.pop(nxt)
                nxt += 1
                if not ok:
                    raise val
                yield val

    def map(self, func, iterable, chunksize=None):
        return list(self.imap(func, iterable))

    def starmap(self, func, iterable, chunksize=None):
        return self._ordered([(func, tuple(x), {}) for x in iterable])

    def _ordered(self, tasks):
        res = {i: (ok, val) for i, ok, val in self._run(tasks)}
        out = []
        for i in range(len(tasks)):
            ok, val = res[i]
            if not ok:
                raise val
            out.append(val)
        return out

    def apply(self, func, args=(), kwds={}):
        return self._ordered([(func, args, kwds)])[0]

    class _Async:
        def __init__(self, pool, tasks, single):
            self.pool, self.tasks, self.single, self.res = pool, tasks, single, None

        def get(self, timeout=None):
            if self.res is None:
                self.res = self.pool._ordered(self.tasks)
            return self.res[0] if self.single else self.res

        def wait(self, timeout=None):
            try:
                self.get()
            except Exception:
                pass

        def ready(self):
            return True

        def successful(self):
            try:
                self.get()
                return True
            except Exception:
                return False

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        return self._Async(self, [(func, args, kwds)], True)

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._Async(self, [(func, (x,), {}) for x in iterable], False)

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._Async(self, [(func, tuple(x), {}) for x in iterable], False)

    def terminate(self):
        for w in self.workers:
            w.abandon()

    close = lambda self: None
    join = lambda self: None

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.terminate()


def load_batchrunner():
    import multiprocessing
    import sys
    real = multiprocessing.Pool
    multiprocessing.Pool = SimPool
    import custom_batchrunner as B
    for name, val in list(vars(B).items()):
        if val is real or getattr(val, "__func__", None) is getattr(real, "__func__", 0):
            setattr(B, name, SimPool)
    return B


class C20(FileCheck):
    id = "C20"
    quick_runs, thorough_runs = 330, 4000
    distinct_set = "interleavings"
    stubs = FileCheck.stubs + ["multiprocessing.Pool (forked workers of which the simulator runs one at a time)"]
    rule = ("a case is one batch run over a parameter grid with a number of workers under an explicit schedule of their file operations; "
            "distinct_nontrivial counts distinct orders of task starts, completions and operations on the aggregate file")

    GRID = {
        "n": [4, 6, 9, [4, 7], [5]], "k": [2, 3, [1, 2], [2, 3, 4], [3]], "a0": [0.3, [0.1, 1.0], [0.3]],
        "reward_scheme": [0, 1, 4, [0, 2]], "cost_max": [1e-3, [1e-4, 2e-3]], "extra_pool_cost_fraction": [0.4, [0.1, 0.8]],
        "inactive_stake_fraction": [0, 0.2, [0, 0.3]], "pareto_param": [2.0, [0.8, 2.0]],
        "agent_activation_order": ["random", "simultaneous", "semisimultaneous", "sequential"],
        "stake_distr_source": ["Pareto", "flat"], "inactive_stake_fraction_known": [False, True],
        "absolute_utility_threshold": [1e-9, [1e-9, 1e-6]], "iterations_after_convergence": [1, 2],
    }

    def generate(self, R, tier, i):
        while True:
            params = {"n": R.choice(self.GRID["n"]), "k": R.choice(self.GRID["k"]), "max_iterations": R.choice([2, 5, 12, 25]),
                      "iterations_after_convergence": R.choice([1, 2])}
            for key in R.sample(sorted(self.GRID), R.randint(0, 6)):
                params[key] = R.choice(self.GRID[key])
            its = R.choice([1, 1, 2, 3])
            size = its
            for v in params.values():
                size *= len(v) if isinstance(v, list) else 1
            if size <= 12:
                break
        params["generate_graphs"] = False
        keys = list(params)
        R.shuffle(keys)
        params = {k: params[k] for k in keys}
        workers = R.choice([1, 2, 2, 3, 4, 8, None])
        sc = {"parameters": params, "iterations": its, "workers": workers, "cpus": R.choice([1, 2, 4, 8]),
              "initial_seed": R.choice([0, R.randint(0, 10 ** 6)]), "period": R.choice([-1, -1, -1, 1, 3]),
              "name": "batch%d" % R.randint(0, 9), "cut": R.random() < 0.12, "again": R.random() < 0.15,
              "choices": schedule_choices(R, workers or 4, R.choice([50, 300, 1500])), "serial": serial(R)}
        if R.random() < 0.2 and workers != 1:
            sc["fault"] = {"kind": R.choice(["enospc", "eio", "short"]), "at": R.randint(0, 60 * size), "part": 0.5, "sticky": False}
        return sc

    def execute(self, sc, stats):
        B = load_batchrunner()
        import logic.sim as S
        with C.in_scratch() as root:
            preset(root, sc)
            first = self.once(B, S, sc, stats, root)
            if sc.get("again") and first == "done":  # a second batch of the same name goes to a folder of its own
                kept = {d: raw_folder(root, "output/" + d) for d in dirs_under(root)}
                self.once(B, S, dict(sc, fault=None), stats, root)
                for d, files in kept.items():
                    if raw_folder(root, "output/" + d) != files:
                        raise Violation("batch-damaged", "a second batch changed the files of %s" % d)

    def once(self, B, S, sc, stats, root):
        before = dirs_under(root)
        steps = sc["parameters"]["max_iterations"] if not sc["cut"] else max(1, sc["parameters"]["max_iterations"] - 1)
        SimPool.plan = {"choices": sc["choices"], "pos": 0, "cpus": sc["cpus"], "trace": [], "sizes": [], "fileops": 0,
                        "fault": copy.deepcopy(sc.get("fault")), "injected": None}
        err = None
        try:
            results, path = B.custom_batch_run(S.Simulation, parameters=copy.deepcopy(sc["parameters"]), batch_run_id=sc["name"],
                                               number_processes=sc["workers"], iterations=sc["iterations"],
                                               data_collection_period=sc["period"], max_steps=steps, display_progress=False,
                                               initial_seed=sc["initial_seed"])
        except OSError as e:
            err = e
        plan = SimPool.plan
        stats.add("batches")
        stats.add("file operations of workers", plan["fileops"])
        if plan["trace"]:
            stats.add("workers", sum(plan["sizes"]))
            stats.seen("interleavings", C.digest([(w, op) for w, op, p in plan["trace"] if op in ("idle", "result") or (p and "aggregate" in p)]))
        if plan["injected"]:
            stats.add("fault:" + plan["injected"]["kind"])
        if err is not None:
            if not plan["injected"] or plan["injected"]["kind"] == "short":
                raise Violation("batch-aborts", "the batch aborted without a fault: %s: %s" % (type(err).__name__, err))
            stats.add("batch reported the error")
            return "failed"
        if os.path.basename(str(path)) in before:
            raise Violation("batch-folder", "the batch wrote into the existing folder %s" % path)
        new = dirs_under(root) - before
        if new != {os.path.basename(str(path))}:
            raise Violation("batch-folder", "the batch created %s, its folder is %s" % (sorted(new), path))
        self.verify(sc, results, os.path.relpath(str(path), os.path.realpath(root)), root, stats, steps)
        return "done"

    def expected(self, sc):
        names = list(sc["parameters"])
        values = [v if isinstance(v, list) else [v] for v in sc["parameters"].values()]
        out = []
        for combo in itertools.product(*values):
            for it in range(sc["iterations"]):
                out.append(dict(zip(names, combo), seed=sc["initial_seed"] + it))
        return out

    def alone_run(self, params, steps, period):
        import logic.sim as S
        d = C.fresh_dir()
        cfg = dict(params, seq_id=1, execution_id="alone")

        def fn():
            os.chdir(d)
            with C.quiet():
                C.clear_caches()
                sim = S.Simulation(**cfg)
                while sim.running and sim.schedule.steps <= steps:
                    sim.step()
            last = sim.schedule.steps - 1
            rows = list(range(0, sim.schedule.steps, period)) if period > 0 else []
            if not rows or rows[-1] != last:
                rows.append(last)
            mv = sim.datacollector.model_vars
            return {"rows": [[r, {k: plain(v[r]) for k, v in mv.items()}] for r in rows], "dir": os.path.relpath(str(sim.directory), d)}
        try:
            res = C.in_child(fn, 200)
            if res is None or "e" in res:
                raise Violation("abort", "an execution of the batch fails when run on its own: %s" % (res and res["e"][-500:]))
            r = res["r"]
            r["files"] = folder(d, r["dir"])
            return r
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def verify(self, sc, results, path, root, stats, steps):
        exp = self.expected(sc)
        want_records, agg = [], []
        for params in exp:
            a = self.alone_run(params, steps, sc["period"])
            params["_files"] = a["files"]
            for r, metrics in a["rows"]:
                want_records.append((r, {k: v for k, v in params.items() if k != "_files"}, metrics))
            agg.append((a["rows"][-1][0], {k: v for k, v in params.items() if k != "_files"}, a["rows"][-1][1]))
        stats.add("executions", len(exp))
        self.final = agg
        metric_names = self.metric_names = list(want_records[0][2])
        if results is not None:
            self.verify_records(sc, want_records, results, len(exp))
        # the aggregate file
        files = [f for f in os.listdir(os.path.join(root, path)) if f.startswith("aggregate-results")]
        if len(files) != 1:
            raise Violation("aggregate", "aggregate files: %s" % files)
        left = [f for f in os.listdir(os.path.join(root, path)) if os.path.isfile(os.path.join(root, path, f)) and f not in files]
        if left:
            raise Violation("aggregate", "stray files %s in the folder of the batch" % left)
        with open(os.path.join(root, path, files[0]), newline="") as f:
            data = f.read()
        rows = list(csv.reader(io.StringIO(data)))
        if not data.endswith("\n"):
            raise Violation("aggregate", "the aggregate file is cut off: %r" % data[-40:])
        header = rows[0]
        if rows.count(header) != 1:
            raise Violation("aggregate-header", "the aggregate file has %d headers" % rows.count(header))
        varied = [k for k, v in sc["parameters"].items() if isinstance(v, list)] + ["seed"]
        for k in varied + ["Step"] + metric_names:
            if k not in header:
                raise Violation("aggregate-header", "the aggregate file has no column %s: %s" % (k, header))
        cols = ["Step"] + varied + metric_names
        if any(len(r) != len(header) for r in rows[1:]):
            raise Violation("aggregate", "rows of different lengths in the aggregate file")
        have = [tuple(dict(zip(header, r))[c] for c in cols) for r in rows[1:]]
        want = [tuple(str(x) for x in [r] + [p[k] for k in varied] + [m[k] for k in metric_names]) for r, p, m in agg]
        if sorted(have) != sorted(want):
            missing = [w for w in want if want.count(w) > have.count(w)]
            extra = [h for h in have if have.count(h) > want.count(h)]
            raise Violation("aggregate-rows", "the aggregate file has %d rows for %d executions; missing %s, unexpected %s"
                            % (len(have), len(want), missing[:1], extra[:1]))
        # the folders
        dirs = sorted(d for d in os.listdir(os.path.join(root, path)) if os.path.isdir(os.path.join(root, path, d)) and d != "figures")
        if len(dirs) != len(exp):
            raise Violation("folders", "%d folders for %d executions" % (len(dirs), len(exp)))
        numbers = [d.split("-", 1)[0] for d in dirs]
        if len(set(numbers)) != len(numbers) or not all(x.isdigit() for x in numbers):
            raise Violation("folders", "the folders of the executions are not numbered: %s" % dirs[:4])
        have = [self.normal(folder(root, os.path.join(path, d))) for d in dirs]
        for params in exp:
            w = self.normal(params["_files"])
            if w not in have:
                near = [h for h in have if h.get("args.json") == w.get("args.json")]
                raise Violation("folder-content", "no folder contains the files of %s: %s"
                                % ({k: v for k, v in params.items() if k in varied}, near and diff_files(w, near[0])))
            have.remove(w)

    def normal(self, files):
        return strip(files)

    def verify_records(self, sc, want_records, results, size):
        names = list(sc["parameters"]) + ["seed"]
        have = []
        for rec in results:
            for k in names + ["Step", "RunId"] + self.metric_names:
                if k not in rec:
                    raise Violation("record", "a returned record lacks %s: %s" % (k, sorted(rec)))
            have.append((rec["Step"], {k: rec[k] for k in names}, {k: plain(rec[k]) for k in self.metric_names}))
        self.same_multiset(want_records, have, "returned results")
        runs = {}
        for rec in results:
            runs.setdefault(rec["RunId"], set()).add(rec["execution_id"])
        if len(runs) != size or any(len(v) != 1 for v in runs.values()):
            raise Violation("run-ids", "%d run identifiers for %d executions" % (len(runs), size))

    def same_multiset(self, want, have, what):
        have = list(have)
        for w in want:
            if w in have:
                have.remove(w)
                continue
            same = [h for h in have if h[1] == w[1]]
            raise Violation("records", "the %s lack the record of round %d of %s; found for it: %s" % (what, w[0], w[1], [(h[0], h[2]) for h in same][:1] or "none"),
                            want=w)
        if have:
            raise Violation("records", "the %s contain %d unexpected records, e.g. %s" % (what, len(have), have[0]))

    def shrink(self, sc):
        def put(**kw):
            d = copy.deepcopy(sc)
            d.update(kw)
            return d
        for key in ("again", "cut", "fault"):
            if sc.get(key):
                yield put(**{key: None if key == "fault" else False})
        if sc["iterations"] > 1:
            yield put(iterations=1)
            if sc["iterations"] > 2:
                yield put(iterations=2)
        if sc["period"] != -1:
            yield put(period=-1)
        for w in (1, 2, 3):
            if sc["workers"] is None or w < sc["workers"]:
                yield put(workers=w)
        for k, v in sc["parameters"].items():
            p = dict(sc["parameters"])
            if isinstance(v, list):
                p[k] = v[0]
                yield put(parameters=p)
            elif k not in ("n", "k", "max_iterations", "generate_graphs"):
                del p[k]
                yield put(parameters=p)
        for cand in (sc["choices"][:0], sc["choices"][:len(sc["choices"]) // 2]):
            if len(cand) < len(sc["choices"]):
                yield put(choices=cand)
        for size in (32, 8, 1):
            for i in range(0, min(len(sc["choices"]), 200), size):
                yield put(choices=sc["choices"][:i] + sc["choices"][i + size:])


def strip(files):
    """Folder content without what names the execution and the place."""
    out = {}
    for k, v in files.items():
        if k == "args.json":
            try:
                d = json.loads(v)
            except ValueError:
                out[k] = v
                continue
            for x in ("parent_dir", "seq_id", "execution_id"):
                d.pop(x, None)
            v = json.dumps(d, sort_keys=True)
        out[k] = v
    return out


def plain(v):
    """Plain data without numpy types, exact."""
    if isinstance(v, dict):
        return {str(k): plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if hasattr(v, "item"):
        v = v.item()
    if isinstance(v, float) and v != v:
        return "nan"
    return v


CHECKS = [C18, C19, C20]
