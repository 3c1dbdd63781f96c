"""Development tool: mutation testing of the checks.  mutate.py OUT.jsonl [--files a.py,b.py] [--sample P] [--workers N] [--list]
Every mutant is a copy of /repo in scratch with one syntax-tree change, which the checks examine (DST_REPO) until one reports a violation.
Results: killed (by, kind), error (a check ended with a harness error), survived."""
import argparse
import ast
import concurrent.futures as cf
import copy
import json
import os
import queue
import random
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PY = "/opt/venv/bin/python"
SCR = "/tmp/w/mut"
CMP = {ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt, ast.Gt], ast.Gt: [ast.GtE, ast.LtE], ast.GtE: [ast.Gt, ast.Lt], ast.Eq: [ast.NotEq],
       ast.NotEq: [ast.Eq], ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.BitAnd: [ast.BitOr], ast.Pow: [ast.Mult]}
SKIP_FUNCS = {"plot_line", "plot_stack_area_chart", "plot_aggregate_data", "plot_aggregate_data_heatmap", "export_graphs", "sci_notation", "find_target_pool",
              "revise_beliefs", "discard_draft_pools", "rewind_pool_id_seq", "generate_cost_distr_disparity", "truncate_pareto",
              "generate_cost_distr_bands", "generate_cost_distr_bands_manual", "generate_cost_distr_nrm", "get_min_aggregate_pledge", "gini_coefficient"}
MARKET = ["ALL"]
ORDER = {"logic/stakeholder.py": MARKET + ["C13", "C21"], "logic/stakeholder_profiles.py": MARKET + ["C13"], "logic/pool.py": MARKET + ["C13", "C21"],
         "logic/activations.py": MARKET + ["C13", "C21"], "logic/reward_schemes.py": MARKET + ["C13", "C20"],
         "logic/sim.py": MARKET + ["C13", "C14", "C18", "C20", "C21", "C22", "C24"],
         "logic/helper.py": MARKET + ["C14", "C18", "C19", "C24", "C20", "C22", "C13"], "logic/model_reporters.py": MARKET + ["C14", "C20", "C22"],
         "custom_batchrunner.py": ["C20", "C19", "C24"], "batch-run.py": ["C24"], "main.py": ["C24"],
         "interactiveViz/myModularVisualization.py": ["C22"], "interactiveViz/runViz.py": ["C22"], "interactiveViz/bubbleChartModule.py": ["C22"],
         "interactiveViz/stackedChartModule.py": ["C22"], "interactiveViz/myChartModule.py": ["C22"]}
RUNS = {"ALL": 500, "C13": 80, "C14": 200, "C18": 60, "C19": 150, "C20": 60, "C21": 120, "C22": 60, "C24": 60}


def mutants(path):
    """Yields (line, description, source)."""
    src = open(path, newline="").read()
    tree = ast.parse(src)
    parents = {}
    for p in ast.walk(tree):
        for c in ast.iter_child_nodes(p):
            parents[c] = p
    skip = set()
    for f in ast.walk(tree):
        if isinstance(f, ast.FunctionDef) and f.name in SKIP_FUNCS:
            skip.update(map(id, ast.walk(f)))
        if isinstance(f, ast.Expr) and isinstance(f.value, ast.Constant):
            skip.update(map(id, ast.walk(f)))  # docstrings
        if isinstance(f, (ast.Raise, ast.Import, ast.ImportFrom)):
            skip.update(map(id, ast.walk(f)))
        if isinstance(f, ast.Call) and getattr(f.func, "id", "") == "print":
            skip.update(map(id, ast.walk(f)))
    nodes = [n for n in ast.walk(tree) if id(n) not in skip]

    def emit(n, what):
        return n.lineno, what + "  @ " + ast.unparse(n if not isinstance(n, (ast.FunctionDef, ast.If, ast.For, ast.While)) else getattr(n, "test", n))[:110].split("\n")[0], ast.unparse(tree)
    for n in nodes:
        if isinstance(n, ast.Compare):
            for i, op in enumerate(n.ops):
                for new in CMP.get(type(op), []):
                    d = emit(n, "%s->%s" % (type(op).__name__, new.__name__))
                    n.ops[i] = new()
                    yield d[0], d[1], ast.unparse(tree)
                    n.ops[i] = op
        elif isinstance(n, (ast.BinOp, ast.AugAssign)):
            op = n.op
            for new in BIN.get(type(op), []):
                d = emit(n, "%s->%s" % (type(op).__name__, new.__name__))
                n.op = new()
                yield d[0], d[1], ast.unparse(tree)
                n.op = op
        elif isinstance(n, ast.BoolOp):
            op = n.op
            d = emit(n, "and<->or")
            n.op = ast.Or() if isinstance(op, ast.And) else ast.And()
            yield d[0], d[1], ast.unparse(tree)
            n.op = op
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            d = emit(n, "drop " + type(n.op).__name__)
            op = n.op
            if isinstance(op, ast.USub):
                n.op = ast.UAdd()
                yield d[0], d[1], ast.unparse(tree)
                n.op = op
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
            v = n.value
            for new in ([not v] if isinstance(v, bool) else [v + 1, 0] if isinstance(v, int) and v not in (0,) else [v + 1] if isinstance(v, int) else [v * 1.5]):
                d = emit(parents.get(n, n) if hasattr(parents.get(n, n), "lineno") else n, "%r->%r" % (v, new))
                n.value = new
                yield n.lineno, d[1], ast.unparse(tree)
                n.value = v
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            t = n.test
            for v in ([True, False] if not isinstance(n, ast.While) else [False]):
                d = emit(t, "condition->%s" % v)
                n.test = ast.Constant(v)
                yield d[0], d[1], ast.unparse(tree)
                n.test = t
        elif isinstance(n, ast.Call):
            if n.keywords:
                for i, kw in enumerate(list(n.keywords)):
                    if kw.arg in ("help", "description"):
                        continue
                    d = emit(n, "drop argument %s" % kw.arg)
                    n.keywords.pop(i)
                    yield d[0], d[1], ast.unparse(tree)
                    n.keywords.insert(i, kw)
            name = getattr(n.func, "id", None)
            if name in ("max", "min"):
                d = emit(n, "max<->min")
                n.func.id = "min" if name == "max" else "max"
                yield d[0], d[1], ast.unparse(tree)
                n.func.id = name
            if name in ("deepcopy", "dict", "list", "round", "int", "sorted") and len(n.args) >= 1:
                par = parents[n]
                for field, val in ast.iter_fields(par):
                    if val is n:
                        d = emit(n, "drop %s()" % name)
                        setattr(par, field, n.args[0])
                        yield d[0], d[1], ast.unparse(tree)
                        setattr(par, field, n)
        for field in ("body", "orelse"):
            body = getattr(n, field, None)
            if not isinstance(body, list) or isinstance(n, (ast.Module, ast.ClassDef)):
                continue
            for i, s in enumerate(list(body)):
                if id(s) in skip or isinstance(s, (ast.Pass, ast.Raise, ast.Import, ast.ImportFrom, ast.FunctionDef)):
                    continue
                if isinstance(s, (ast.Expr, ast.AugAssign, ast.Continue, ast.Break, ast.Delete)) or (isinstance(s, ast.Assign) and isinstance(s.targets[0], (ast.Attribute, ast.Subscript))):
                    if isinstance(s, ast.Expr) and "print" in ast.unparse(s)[:6] or "add_argument" in ast.unparse(s):
                        continue
                    d = emit(s, "delete")
                    body[i] = ast.Pass()
                    yield d[0], d[1], ast.unparse(tree)
                    body[i] = s


def examine(slot, f, m):
    line, what, src = m
    copy_ = "%s/%d" % (SCR, slot)
    with open(os.path.join(copy_, f), "w") as fh:
        fh.write(src)
    env = dict(os.environ, DST_REPO=copy_, DST_NOEVIDENCE="1", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", VERIF_TIER="quick")
    res = {"file": f, "line": line, "what": what, "result": "survived"}
    errs = []
    t0 = time.time()
    for c in ORDER[f]:
        cmd = [PY, os.path.join(HERE, "mutate_all.py") if c == "ALL" else os.path.join(VERIF, "check.py"), c, "--runs", str(RUNS[c]), "--workers", "1", "--wall", "400", "--no-minimise"]
        p = subprocess.run(cmd, env=env, cwd=VERIF, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if p.returncode == 1:
            kind = [x for x in p.stdout.splitlines() if "violates:" in x]
            res.update(result="killed", by=c, kind=kind[0][:300] if kind else "")
            break
        if p.returncode != 0:
            errs.append((c, p.stdout[-1200:]))
    if errs:
        res["errors"] = errs
        if res["result"] != "killed":
            res["result"] = "error"
    res["s"] = round(time.time() - t0, 1)
    shutil.copyfile(os.path.join("/repo", f), os.path.join(copy_, f))
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--files")
    ap.add_argument("--sample", type=float, default=1)
    ap.add_argument("--workers", type=int, default=6)
    ap.add_argument("--list", action="store_true")
    ap.add_argument("--seed", type=int, default=0)
    a = ap.parse_args()
    rng = random.Random(a.seed)
    todo = []
    for f in (a.files.split(",") if a.files else ORDER):
        ms = list(mutants(os.path.join("/repo", f)))
        seen = set()
        for m in ms:
            if m[2] not in seen and rng.random() < a.sample:
                seen.add(m[2])
                todo.append((f, m))
        print(f, len(ms))
    done = set()
    if os.path.exists(a.out):
        for x in open(a.out):
            d = json.loads(x)
            done.add((d["file"], d["line"], d["what"]))
    todo = [(f, m) for f, m in todo if (f, m[0], m[1]) not in done]
    print(len(todo), "mutants")
    if a.list:
        return
    rng.shuffle(todo)
    slots = queue.Queue()
    for i in range(a.workers):
        d = "%s/%d" % (SCR, i)
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree("/repo", d, ignore=shutil.ignore_patterns(".git", "__pycache__", "output"))
        slots.put(i)

    def work(x):
        s = slots.get()
        try:
            return examine(s, *x)
        finally:
            slots.put(s)
    with cf.ThreadPoolExecutor(a.workers) as ex, open(a.out, "a") as out:
        for r in ex.map(work, todo):
            out.write(json.dumps(r) + "\n")
            out.flush()
    for i in range(a.workers):
        shutil.rmtree("%s/%d" % (SCR, i), ignore_errors=True)


if __name__ == "__main__":
    main()
