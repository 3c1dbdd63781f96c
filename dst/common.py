"""Shared plumbing: importing the code under test, worker processes, evidence, replay files, known findings."""
import os
for _v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(_v, "1")
os.environ.setdefault("MPLBACKEND", "Agg")
import sys
sys.dont_write_bytecode = True
import contextlib
import csv
import hashlib
import io
import json
import random
import select
import shutil
import signal
import struct
import tempfile
import time
import traceback

csv.field_size_limit(2 ** 31 - 1)  # the metrics of many stakeholders make up long fields

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DST_REPO", "/repo")  # development only: the registered commands never set it
REAL_TIME = time.time
MONO = time.monotonic


KNOWN = []  # known findings of the property: {"property", "kind", "message" (prefix), "what"}


def known_finding(v):
    for f in KNOWN:
        if v["kind"] == f["kind"] and v["message"].startswith(f["message"]):
            return f
    return None


class Violation(Exception):
    """The property is broken. kind: a stable class of violation, kept during minimisation."""

    def __init__(self, kind, message, **details):
        super().__init__(message)
        self.kind = kind
        self.message = message
        self.details = details


class Record(dict):
    """Content of an output file: a field that should be there and is not is a finding about the code, not about the harness."""

    def __missing__(self, key):
        raise Violation("missing-field", "an output file lacks %r, it has %s" % (key, sorted(self)[:12]))


def output_file(path):
    """Text of a file the code has to write."""
    try:
        with open(path, newline="") as f:
            return f.read()
    except FileNotFoundError:
        raise Violation("missing-file", "%s was not written" % "-".join(os.path.basename(str(path)).split("-")[:3]))


def output_json(path):
    try:
        return json.loads(output_file(path), object_hook=Record)
    except ValueError as e:
        raise Violation("unreadable-file", "%s is not valid JSON: %s" % (os.path.basename(str(path)), e))


class HarnessError(Exception):
    pass


class Hang(BaseException):
    """CPU budget of one simulated run exhausted (BaseException: not swallowed by the code under test)."""


def import_repo():
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    import logic.sim  # noqa
    import logic.helper  # noqa
    import logic.model_reporters  # noqa
    import logic.stakeholder_profiles  # noqa
    import logic.reward_schemes  # noqa
    return sys.modules["logic.sim"]


def clear_caches():
    """Every run starts from the same process state: empty memo tables, fixed global generators."""
    import functools
    import gc  # noqa
    import numpy as np
    for name, mod in list(sys.modules.items()):
        if name.startswith("logic") or name == "custom_batchrunner":
            for v in list(vars(mod).values()):
                if isinstance(v, functools._lru_cache_wrapper):
                    v.cache_clear()
                elif isinstance(v, type) and getattr(v, "__module__", "").startswith("logic"):
                    for w in list(vars(v).values()):
                        if isinstance(w, functools._lru_cache_wrapper):
                            w.cache_clear()
    random.seed(12345)
    np.random.seed(12345)


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()) as f:
        yield f


def digest(obj):
    return hashlib.sha1(json.dumps(obj, sort_keys=True, default=repr).encode()).hexdigest()[:16]


def repo_frame(tb):
    """True if the innermost frames of the traceback that are ours or the repository's are the repository's."""
    last = None
    for fr in traceback.extract_tb(tb):
        fn = os.path.abspath(fr.filename)
        if fn.startswith(REPO + os.sep):
            last = "repo"
        elif fn.startswith(VERIF + os.sep):
            last = "verif"
    return last == "repo"


def where(tb):
    out = []
    for fr in traceback.extract_tb(tb):
        out.append("%s:%s" % (os.path.basename(fr.filename), fr.name))
    return " > ".join(out[-4:])


# ------------------------------------------------------------------------------------------------ scratch directories
_scratch_root = None


def scratch_root():
    global _scratch_root
    if _scratch_root is None:
        _scratch_root = tempfile.mkdtemp(prefix="dst-")
    return _scratch_root


def fresh_dir():
    return tempfile.mkdtemp(dir=scratch_root())


def cleanup_scratch():
    global _scratch_root
    if _scratch_root and os.path.basename(_scratch_root).startswith("dst-"):
        shutil.rmtree(_scratch_root, ignore_errors=True)
    _scratch_root = None


@contextlib.contextmanager
def in_scratch():
    old = os.getcwd()
    d = fresh_dir()
    os.chdir(d)
    try:
        yield d
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


# ------------------------------------------------------------------------------------------------------- running seeds
def _cpu_limit(seconds):
    def handler(signum, frame):
        raise Hang()
    signal.signal(signal.SIGPROF, handler)
    signal.setitimer(signal.ITIMER_PROF, seconds)


def _cpu_unlimit():
    signal.setitimer(signal.ITIMER_PROF, 0)


class Stats:
    """Mergeable counters: numbers are summed, sets united, 'max:' keys maximised."""

    def __init__(self):
        self.n = {}
        self.sets = {}

    def add(self, key, v=1):
        self.n[key] = self.n.get(key, 0) + v

    def max(self, key, v):
        key = "max:" + key
        self.n[key] = max(self.n.get(key, v), v)

    def seen(self, key, h):
        self.sets.setdefault(key, set()).add(h)

    def dump(self):
        return {"n": self.n, "sets": {k: sorted(v) for k, v in self.sets.items()}}

    def merge(self, d):
        for k, v in d["n"].items():
            if k.startswith("max:"):
                self.n[k] = max(self.n.get(k, v), v)
            else:
                self.n[k] = self.n.get(k, 0) + v
        for k, v in d["sets"].items():
            self.sets.setdefault(k, set()).update(v)


def run_guarded(check, scenario, stats, cpu_s=None):
    """Execute one scenario. Returns None or a violation dict; raises HarnessError."""
    clear_caches()
    cpu_s = cpu_s or getattr(check, "cpu_limit", 90) * (3 if scenario.get("scale") == "large" else 1)
    try:
        _cpu_limit(cpu_s)
        try:
            from . import drawing
            import_repo()
            with quiet(), contextlib.nullcontext() if scenario.get("render") else drawing.recorded():
                check.execute(scenario, stats)
        finally:
            _cpu_unlimit()
    except Violation as v:
        return {"kind": v.kind, "message": v.message, "details": v.details}
    except Hang:
        return {"kind": "hang", "message": "no progress: the run used %d s of CPU time without finishing" % cpu_s,
                "details": {}}
    except HarnessError:
        raise
    except (KeyboardInterrupt, SystemExit):
        raise
    except MemoryError:
        raise
    except BaseException as e:
        if repo_frame(e.__traceback__) or getattr(e, "dst_where", None):  # dst_where: raised by the repository's code in a worker
            return {"kind": "abort:" + type(e).__name__,
                    "message": "the code under test aborted: %s: %s at %s" % (type(e).__name__, str(e)[:200], getattr(e, "dst_where", None) or where(e.__traceback__)),
                    "details": {"traceback": traceback.format_exc()[-1500:]}}
        if isinstance(e, (KeyError, IndexError, ZeroDivisionError, ValueError, AttributeError, TypeError)) and getattr(check, "soft_monitors", True):
            return {"kind": "inconsistent:" + type(e).__name__,
                    "message": "the observed state is inconsistent, a monitor failed on it: %s: %s at %s"
                               % (type(e).__name__, str(e)[:200], where(e.__traceback__)),
                    "details": {"traceback": traceback.format_exc()[-1500:]}}
        raise HarnessError(traceback.format_exc())
    return None


def _send(fd, obj):
    b = json.dumps(obj, default=repr).encode()
    b = struct.pack(">I", len(b)) + b
    while b:
        n = os.write(fd, b)
        b = b[n:]


class _Reader:
    def __init__(self, fd):
        self.fd = fd
        self.buf = b""
        self.eof = False

    def read(self):
        chunk = os.read(self.fd, 1 << 16)
        if not chunk:
            self.eof = True
        self.buf += chunk
        out = []
        while len(self.buf) >= 4:
            n, = struct.unpack(">I", self.buf[:4])
            if len(self.buf) < 4 + n:
                break
            out.append(json.loads(self.buf[4:4 + n]))
            self.buf = self.buf[4 + n:]
        return out


def explore(check, seed, tier, runs, wall_s, workers=None):
    """Run `runs` scenarios (index 0..runs-1) over forked workers. Returns (stats, violations, samples, done, errors)."""
    workers = workers or min(8, os.cpu_count() or 1, max(1, runs))
    t0 = MONO()
    scratch_root()
    pids, readers = [], []
    sys.stdout.flush()
    sys.stderr.flush()
    for w in range(workers):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                for rd in readers:
                    os.close(rd.fd)
                signal.signal(signal.SIGTERM, signal.SIG_DFL)
                stats = Stats()
                done = 0
                samples = []
                for i in range(w, runs, workers):
                    if MONO() - t0 > wall_s:
                        break
                    rng = random.Random("%s/%s/%d" % (check.id, seed, i))
                    sc = check.generate(rng, tier, i)
                    try:
                        v = run_guarded(check, sc, stats)
                    except HarnessError as e:
                        _send(wr, {"t": "error", "i": i, "error": str(e), "scenario": sc})
                        break
                    done += 1
                    if len(samples) < 1:
                        samples.append(check.describe(sc))
                    if v and known_finding(v):
                        stats.add("known finding: " + known_finding(v)["what"])
                        v = None
                    if v:
                        _send(wr, {"t": "violation", "i": i, "scenario": sc, "v": v})
                        break
                _send(wr, {"t": "end", "stats": stats.dump(), "done": done, "samples": samples})
            except BaseException:
                try:
                    _send(wr, {"t": "error", "i": -1, "error": traceback.format_exc(), "scenario": None})
                except BaseException:
                    pass
                code = 3
            finally:
                os._exit(code)
        os.close(wr)
        pids.append(pid)
        readers.append(_Reader(r))
    stats, violations, samples, done, errors = Stats(), [], [], 0, []
    live = list(readers)
    hard_end = t0 + wall_s + 240
    ended = set()
    while live:
        rl, _, _ = select.select([x.fd for x in live], [], [], 1.0)
        for x in list(live):
            if x.fd in rl:
                for m in x.read():
                    if m["t"] == "end":
                        stats.merge(m["stats"])
                        done += m["done"]
                        samples += m["samples"]
                        ended.add(x.fd)
                    elif m["t"] == "violation":
                        violations.append(m)
                    else:
                        errors.append(m)
                if x.eof:
                    live.remove(x)
                    if x.fd not in ended:
                        errors.append({"error": "a worker ended without a report (killed?)", "i": -1, "scenario": None})
                    os.close(x.fd)
        if violations and live and not getattr(explore, "grace", None):
            explore.grace = MONO() + 5
        if (getattr(explore, "grace", None) and MONO() > explore.grace) or MONO() > hard_end:
            if MONO() > hard_end and not violations:
                errors.append({"error": "wall clock limit of the exploration exceeded", "i": -1, "scenario": None})
            for p in pids:
                try:
                    os.kill(p, signal.SIGKILL)
                except OSError:
                    pass
            break
    explore.grace = None
    for p in pids:
        try:
            os.waitpid(p, 0)
        except OSError:
            pass
    violations.sort(key=lambda m: m["i"])
    return stats, violations, samples, done, errors


def in_child(fn, timeout):
    """Run fn() in a forked child of this (pristine) process; returns its JSON-able result or None on crash/timeout."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            os.setpgid(0, 0)
            _send(w, {"r": fn()})
        except BaseException:
            try:
                _send(w, {"e": traceback.format_exc()})
            except BaseException:
                pass
        finally:
            os._exit(0)
    os.close(w)
    rd = _Reader(r)
    end = MONO() + timeout
    res = None
    while not rd.eof and MONO() < end:
        rl, _, _ = select.select([r], [], [], max(0.01, min(1.0, end - MONO())))
        if rl:
            for m in rd.read():
                res = m
    if not rd.eof:
        for kill in (lambda: os.killpg(pid, signal.SIGKILL), lambda: os.kill(pid, signal.SIGKILL)):
            try:
                kill()
            except OSError:
                pass
    os.close(r)
    os.waitpid(pid, 0)
    return res


def try_scenario(check, scenario, timeout=120):
    """Violation dict, None if the property held, or 'error'."""
    def fn():
        st = Stats()
        return run_guarded(check, scenario, st)
    res = in_child(fn, timeout)
    if res is None or "e" in (res or {}):
        return "error"
    return res["r"]


def minimise(check, scenario, violation, budget_s):
    """Greedy reduction: take any smaller candidate that still violates with the same kind."""
    end = MONO() + budget_s
    steps = 0
    best, bestv = scenario, violation
    improved = True
    while improved and MONO() < end:
        improved = False
        for cand in check.shrink(best):
            if MONO() > end:
                break
            steps += 1
            v = try_scenario(check, cand, timeout=max(5, min(120, end - MONO() + 5)))
            if isinstance(v, dict) and v["kind"] == violation["kind"]:
                best, bestv, improved = cand, v, True
                break
    return best, bestv, steps
