"""The external solver (the program that GEKKO starts) as a simulated process.

It reads the model file that GEKKO has written, solves the problem exactly and writes the answer files in the format of
the real one, or fails in one of the ways a separate program can fail. A model beyond what it understands goes to the
real program."""
import builtins
import errno
import io
import itertools
import json
import os
import re
import subprocess
import tempfile

import numpy as np

MANY = 26  # up to how many pools the simulated solver finds the optimum; beyond, a good selection
REAL = 8   # up to how many pools the real program is asked, which takes minutes for larger problems
TOL = 1e-9  # relative; the real solver works to 1e-6

# What can become of a question. ANSWERED: the answer has to be recorded. The rest has to be recorded as not found.
ANSWERED = ("ok", "poor", "slow", "chatter", "warning")
FAILED = ("missing", "denied", "no-process", "error", "error-with-results", "crash", "cut-results", "cut-options", "empty-options",
          "not-json", "no-objective", "no-files", "timeout", "undecodable", "disk-full", "no-temporary-directory")


class TooHard(Exception):
    """The simulated solver does not understand or cannot solve it."""


# ----------------------------------------------------------------------------------------------------- linear forms
class Lin:
    def __init__(self, co=None, c=0.0):
        self.co, self.c = co or {}, c

    @staticmethod
    def of(x):
        return x if isinstance(x, Lin) else Lin({}, float(x))

    def __add__(self, o):
        o = Lin.of(o)
        co = dict(self.co)
        for k, v in o.co.items():
            co[k] = co.get(k, 0.0) + v
        return Lin(co, self.c + o.c)
    __radd__ = __add__

    def __neg__(self):
        return self * -1.0

    def __pos__(self):
        return self

    def __sub__(self, o):
        return self + -Lin.of(o)

    def __rsub__(self, o):
        return Lin.of(o) + -self

    def __mul__(self, o):
        o = Lin.of(o)
        if self.co and o.co:
            raise TooHard("product of variables")
        a, b = (self, o.c) if self.co else (o, self.c)
        return Lin({k: v * b for k, v in a.co.items()}, a.c * b)
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = Lin.of(o)
        if o.co or o.c == 0:
            raise TooHard("division")
        return self * (1 / o.c)

    def __rtruediv__(self, o):
        return Lin.of(o) / self

    def __pow__(self, o):
        if not isinstance(o, Lin) and o == 1:
            return self
        raise TooHard("power")
    __rpow__ = __pow__


RELATION = re.compile(r"(<=|>=|=<|=>|<|>|=)")


def read_model(text):
    """-> (variables {name: [lower, upper, integer]}, objective Lin to be minimised, [Lin that has to be >= 0])"""
    sect, objs = None, {}
    raw, eqs, links = {}, [], []
    for line in text.splitlines():
        line = line.split("!")[0].strip()
        low = line.lower()
        if not line:
            continue
        if low.startswith("end "):
            sect = None
        elif low.startswith("model") and sect is None:
            pass
        elif sect is None:
            sect = low.split()[0]
        elif sect in ("variables", "parameters", "constants", "intermediates"):
            raw.setdefault(sect, []).append(line)
        elif sect == "equations":
            eqs.append(line)
        elif sect == "connections":
            links.append(line)
        elif sect == "objects":
            m = re.fullmatch(r"(\w+)\s*=\s*sum\((\d+)\)", line)
            if not m:
                raise TooHard("object " + line)
            objs[m.group(1)] = int(m.group(2))
        else:
            raise TooHard("section " + sect)
    variables, given, defs = {}, {}, []
    for line in raw.get("variables", []):
        parts = [x.strip() for x in line.split(",")]
        name = re.match(r"\w+", parts[0]).group(0)
        lo, hi = -np.inf, np.inf
        for p in parts[1:]:
            m = re.fullmatch(r"(>=|<=)\s*(\S+)", p)
            if not m:
                raise TooHard("bound " + p)
            if m.group(1) == ">=":
                lo = float(m.group(2))
            else:
                hi = float(m.group(2))
        variables[name] = [lo, hi, name.startswith("int")]
    for line in raw.get("parameters", []) + raw.get("constants", []):
        m = re.fullmatch(r"(\w+)\s*=\s*([-+.\deE]+)", line.split(",")[0].strip())
        if not m:
            raise TooHard("parameter " + line)
        given[m.group(1)] = Lin({}, float(m.group(2)))
    for line in raw.get("intermediates", []):
        name, _, expr = line.partition("=")
        defs.append((name.strip(), expr))
    members = {}
    for line in links:
        m = re.fullmatch(r"(\w+)\s*=\s*(\w+)\.(x\[(\d+)\]|y)", line)
        if not m or m.group(2) not in objs:
            raise TooHard("connection " + line)
        o = members.setdefault(m.group(2), {})
        o["y" if m.group(3) == "y" else int(m.group(4))] = m.group(1)
    for name, n in objs.items():
        o = members.get(name, {})
        if sorted(map(str, o)) != sorted(["y"] + [str(i) for i in range(1, n + 1)]):
            raise TooHard("incomplete sum")
        defs.append((o["y"], "+".join("(%s)" % o[i] for i in range(1, n + 1))))
    goals, rels = [], []
    for line in eqs:
        m = re.match(r"(minimize|maximize)\s+(.*)", line, re.I)
        if m:
            goals.append((1.0 if m.group(1).lower() == "minimize" else -1.0, m.group(2)))
            continue
        parts = RELATION.split(line)
        if len(parts) != 3:
            raise TooHard("equation " + line)
        left, rel, right = [x.strip() for x in parts]
        if rel == "=" and re.fullmatch(r"[A-Za-z_]\w*", left) and left in variables and not variables[left][2] and variables[left][:2] == [-np.inf, np.inf] \
                and left not in [d[0] for d in defs]:
            defs.append((left, right))
        else:
            rels.append((left, rel, right))
    env = dict(given)
    for v, (lo, hi, _) in variables.items():
        if v not in [d[0] for d in defs]:
            env[v] = Lin({v: 1.0})
    todo = list(defs)
    while todo:
        left = []
        for name, expr in todo:
            try:
                env[name] = Lin.of(eval_expr(expr, env))
            except NameError:
                left.append((name, expr))
        if len(left) == len(todo):
            raise TooHard("circular definitions")
        todo = left
    goal = Lin()
    if not goals:
        raise TooHard("no objective")
    for s, expr in goals:
        goal = goal + s * Lin.of(eval_expr(expr, env))
    limits = []
    for left, rel, right in rels:
        d = Lin.of(eval_expr(left, env)) - Lin.of(eval_expr(right, env))
        if rel in (">=", "=>", ">"):
            limits.append(d)
        elif rel in ("<=", "=<", "<"):
            limits.append(-d)
        else:
            limits += [d, -d]
    free = {v: b for v, b in variables.items() if v not in [d[0] for d in defs]}
    return free, goal, limits, [s for s, _ in goals][0], env, list(variables)


def eval_expr(expr, env):
    if not re.fullmatch(r"[\w\s.()+\-*/^]*", expr):
        raise TooHard("expression " + expr[:60])
    try:
        return eval(expr.replace("^", "**"), {"__builtins__": {}}, env)
    except NameError:
        raise
    except TooHard:
        raise
    except Exception as e:
        raise TooHard("expression %s: %r" % (expr[:60], e))


# ---------------------------------------------------------------------------------------------------------- solving
def cheapest(cost, weight, need):
    """Cheapest 0/1 selection with at least the given weight: (cost, selection) or None. Costs and weights >= 0. By halves."""
    n = len(cost)
    if n > MANY:
        raise TooHard("%d items" % n)
    tol = TOL * max(sum(weight), abs(need), 1e-300)
    h = n // 2

    def sums(xs):
        out = np.zeros(1)
        for x in xs:
            out = np.concatenate([out, out + x])
        return out
    ca, wa, cb, wb = sums(cost[:h]), sums(weight[:h]), sums(cost[h:]), sums(weight[h:])
    order = np.argsort(wb, kind="stable")
    sw = wb[order]
    best = np.minimum.accumulate(cb[order][::-1])[::-1]  # cheapest among those at least as heavy
    pos = np.searchsorted(sw, need - tol - wa, side="left")
    ok = pos < len(sw)
    if not ok.any():
        return None
    total = np.where(ok, ca + best[np.minimum(pos, len(sw) - 1)], np.inf)
    i = int(np.argmin(total))
    tail = order[pos[i]:]
    j = int(tail[np.argmin(cb[tail])])
    sel = [bool(i >> t & 1) for t in range(h)] + [bool(j >> t & 1) for t in range(n - h)]
    return sum(c for c, s in zip(cost, sel) if s), sel


def greedy(cost, weight, need):
    """A good selection for many items: by cost per weight."""
    tol = TOL * max(sum(weight), abs(need), 1e-300)
    x, w = [False] * len(cost), 0.0
    for i in sorted(range(len(cost)), key=lambda i: (cost[i] / weight[i] if weight[i] else np.inf, cost[i], weight[i])):
        if w >= need - tol:
            break
        x[i] = True
        w += weight[i]
    return None if w < need - tol else (sum(c for c, s in zip(cost, x) if s), x)


def fractional(cost, weight, need):
    left, total, x = need, 0.0, [0.0] * len(cost)
    for i in sorted(range(len(cost)), key=lambda i: cost[i] / weight[i] if weight[i] else np.inf):
        if left <= 0 or not weight[i]:
            break
        x[i] = min(1.0, left / weight[i])
        total += x[i] * cost[i]
        left -= x[i] * weight[i]
    return None if left > TOL * max(need, 1e-300) else (total, x)


def solve(text, poor=False, relaxed=False):
    """-> (objective as the solver reports it, {variable: value}, all variables) or None if there is no solution"""
    free, goal, limits, sign, env, names = read_model(text)
    if relaxed:
        free = {v: [lo, hi, False] for v, (lo, hi, _) in free.items()}
    for v in goal.co:
        if v not in free:
            raise TooHard("objective")
    limits = [g for g in limits if g.co or g.c < 0]
    x = {}
    xs = [v for v in free if goal.co.get(v) or any(g.co.get(v) for g in limits)]
    for v in free:
        if v not in xs:
            x[v] = min(max(0.0, free[v][0]), free[v][1])
    simple = len(limits) == 1 and all(free[v][:2] == [0.0, 1.0] for v in xs) and len({free[v][2] for v in xs}) <= 1
    if simple:
        g = limits[0]
        cost, weight = [goal.co.get(v, 0.0) for v in xs], [g.co.get(v, 0.0) for v in xs]
        flip = [w < 0 or w == 0 and c < 0 for c, w in zip(cost, weight)]
        need = -g.c - sum(w for w, f in zip(weight, flip) if f)
        cc, ww = [-c if f else c for c, f in zip(cost, flip)], [abs(w) for w in weight]
        simple = all(c >= 0 for c in cc)
    if simple:
        if poor:
            res = (sum(cc), [1.0] * len(xs)) if sum(ww) >= need - TOL * max(sum(ww), abs(need)) else None
        else:
            res = (fractional if not all(free[v][2] for v in xs) else cheapest if len(xs) <= MANY else greedy)(cc, ww, need)
        if res is None:
            return None
        x.update({v: float(1 - s if f else s) for v, s, f in zip(xs, map(float, res[1]), flip)})
    else:
        spans = []
        for v in xs:
            lo, hi, integer = free[v]
            if not integer or hi - lo > 50 or not np.isfinite(hi - lo):
                raise TooHard("open problem")
            spans.append(np.arange(np.ceil(lo), np.floor(hi) + 1))
        size = 1
        for s in spans:
            size *= len(s)
        if size > 2 ** 16:
            raise TooHard("large problem")
        best = None
        for vals in itertools.product(*spans):
            p = dict(zip(xs, vals))
            at = lambda g: g.c + sum(c * p[v] for v, c in g.co.items() if v in p)
            if all(at(g) >= -TOL * max(sum(map(abs, g.co.values())), abs(g.c)) for g in limits):
                o = at(goal)
                if best is None or (o > best[0] if poor else o < best[0]):
                    best = (o, p)
        if best is None:
            return None
        x.update({v: float(val) for v, val in best[1].items()})
    value = lambda l: l.c + sum(c * x[v] for v, c in l.co.items())
    return value(goal), {v: value(Lin.of(env[v])) for v in names}


# ------------------------------------------------------------------------------------------------------- the process
INFO = ["APPINFO", "APPSTATUS", "BAD_CYCLES", "CYCLECOUNT"]


class Process:
    """What subprocess.Popen returns for the solver."""

    def __init__(self, world, args, kw):
        self.world, self.args = world, args
        self.cwd = str(kw.get("cwd") or os.getcwd())
        self.text = bool(kw.get("universal_newlines") or kw.get("text") or kw.get("encoding"))
        self.pid, self.returncode, self.killed = 10 ** 6, None, False
        self.out, self.err, self.rc = world.behave(self, str(args[-1]))
        self.stdout, self.stderr, self.stdin = self.stream(self.out), self.stream(self.err), None

    def stream(self, s):
        return io.StringIO(s) if self.text else io.BytesIO(s.encode())

    def poll(self):
        if self.returncode is None and not (self.world.kind == "timeout" and not self.killed):
            self.returncode = -9 if self.killed else self.rc
        return self.returncode

    def wait(self, timeout=None):
        if self.world.kind == "timeout" and not self.killed:
            if timeout is None:  # the caller would wait for ever: let the operator end the solver
                self.killed = True
            else:
                self.world.clock(timeout)
                raise subprocess.TimeoutExpired(self.args, timeout)
        return self.poll()

    def communicate(self, input=None, timeout=None):
        self.wait(timeout)
        if self.world.kind == "undecodable" and self.text:
            raise UnicodeDecodeError("utf-8", b"\xff\xfe", 0, 1, "invalid start byte")
        return self.stdout.read(), self.stderr.read()

    def kill(self):
        self.killed = True

    terminate = kill

    def send_signal(self, s):
        self.kill()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.wait()


def number(v):
    return "%18.10E" % v if v else " 0.00             "


class World:
    """The seam: process creation, temporary directory and files within it."""

    def __init__(self, root, stats, clock=lambda s: None):
        self.stats, self.clock = stats, clock
        self.tmp = os.path.join(root, "tmp")
        os.mkdir(self.tmp)
        self.kind, self.detail = "ok", 0
        self.reset()

    def reset(self, kind="ok", detail=0, pools=0):
        self.kind, self.detail, self.pools = kind, detail, pools
        self.asked = self.answered = self.real = self.struck = 0
        self.value = None
        self.writes = 0
        tempfile.tempdir = os.path.join(self.tmp, "gone") if kind == "no-temporary-directory" else self.tmp

    def __enter__(self):
        self.saved = subprocess.Popen, tempfile.tempdir, builtins.open
        real_popen, _, real_open = self.saved
        world = self

        class Popen(real_popen):
            def __new__(cls, args, *a, **kw):
                prog = args if isinstance(args, str) else args[0]
                if re.match(r"apm(\.exe|_\w+)?$", os.path.basename(str(prog).split()[0])):
                    return world.start(real_popen, args, a, kw)
                return real_popen(args, *a, **kw)

            def __init__(self, *a, **kw):
                pass

        def opened(file, mode="r", *a, **kw):
            if world.kind == "disk-full" and isinstance(file, (str, os.PathLike)) and any(c in mode for c in "wax+") \
                    and os.path.realpath(str(file)).startswith(os.path.realpath(world.tmp) + os.sep):
                world.writes += 1
                if world.writes > world.detail:
                    world.struck += 1
                    raise OSError(errno.ENOSPC, "No space left on device (simulated)", str(file))
            return real_open(file, mode, *a, **kw)
        subprocess.Popen = Popen
        builtins.open = opened
        tempfile.tempdir = self.tmp
        return self

    def __exit__(self, *a):
        subprocess.Popen, tempfile.tempdir, builtins.open = self.saved

    def start(self, real_popen, args, a, kw):
        self.asked += 1
        self.stats.add("questions to the solver")
        k = self.kind
        if k == "missing":
            raise FileNotFoundError(errno.ENOENT, "No such file or directory (simulated)", str(args[0]))
        if k == "denied":
            raise PermissionError(errno.EACCES, "Permission denied (simulated)", str(args[0]))
        if k == "no-process":
            raise BlockingIOError(errno.EAGAIN, "Resource temporarily unavailable (simulated)")
        args = args.split() if isinstance(args, str) else list(args)
        if k == "real" and self.pools <= REAL:
            self.real += 1
            return real_popen(args, *a, **kw)
        try:
            return Process(self, args, kw)
        except TooHard:
            if self.pools > REAL:
                self.kind = "error"
                self.stats.add("questions that were too hard")
                return Process(self, args, kw)
            self.real += 1
            self.stats.add("questions handed to the real solver")
            return real_popen(args, *a, **kw)

    def behave(self, proc, name):
        """Run the solver: returns (stdout, stderr, exit status), leaves files in the directory of the question."""
        k, d = self.kind, proc.cwd
        banner = " ----------------------------------------------------------------\n APMonitor (simulated)\n"
        if k == "crash":
            return "", "", -11
        if k == "timeout":
            return banner, "", 0
        if k == "no-files":
            return banner, "", 0
        if k == "error":
            return banner + " @error: Solution Not Found\n", "", 0
        with self.saved[2](os.path.join(d, name + ".apm")) as f:
            text = f.read()
        try:
            with self.saved[2](os.path.join(d, "measurements.dbs")) as f:
                m = re.findall(r"(?im)^\s*(?:\w+\.)?SOLVER\s*=\s*(\d+)", f.read())
        except OSError:
            m = []
        res = solve(text, poor=k == "poor", relaxed=bool(m) and m[-1] not in "01")  # only APOPT knows integers
        if res is None:
            return banner + " @error: Solution Not Found\n", "", 0
        value, xs = res
        value = float("%.10E" % value)
        apm = dict(self.template(), OBJFCNVAL=value)
        if k == "no-objective":
            del apm["OBJFCNVAL"]
        results = "{\n  \"time\" : [0.00],\n" + ",\n".join('  "%s" : [%s]' % (v, number(x)) for v, x in xs.items()) + "\n}\n"
        options = json.dumps({"INFO": {"N_FV": 0, "N_MV": 0, "N_SV": len(xs), "N_CV": 0, "FV": [], "MV": [], "SV": list(xs), "CV": []}, "APM": apm}, indent=1)
        if k == "cut-results":
            results = results[:len(results) * (1 + self.detail % 8) // 9]
        if k == "cut-options":
            options = options[:len(options) * (1 + self.detail % 8) // 9]
        if k == "empty-options":
            options = ""
        if k == "not-json":
            options = "Segmentation fault\n"
        for fn, s in (("results.json", results), ("options.json", options)):
            with self.saved[2](os.path.join(d, fn), "w") as f:
                f.write(s)
        self.value = value
        self.answered += 1
        if k == "slow":
            self.clock(3600.0)
        if k == "error-with-results":
            return banner + " @error: Solution Not Found\n", "", 0
        return (banner * (400 if k == "chatter" else 1), "Note: The following floating-point exceptions are signalling: IEEE_DENORMAL\n" if k == "warning" else "", 0)

    def template(self):
        import gekko.gk_global_options as G
        o = G.GKGlobalOptions()
        return {name: 0 for name in o._output_option_list + o._inout_option_list}
