"""Development tool: mechanical rewrites that keep the behaviour, applied to the whole Python code of a copy of the repository at once.
   autorefactor.py OUTDIR KIND   kinds: rename extract whileloop comploops swapif earlyreturn temps selfalias all"""
import ast
import builtins
import copy
import os
import shutil
import subprocess
import sys

FILES = subprocess.run(["git", "-C", "/repo", "ls-files", "*.py"], capture_output=True, text=True).stdout.split()
FILES = [f for f in FILES if not f.startswith("tests")]


def scope_nodes(f):
    """Nodes of a function without nested functions' bodies."""
    out, todo = [], list(f.body)
    while todo:
        n = todo.pop()
        out.append(n)
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo += list(ast.iter_child_nodes(n))
    return out


class Rename(ast.NodeTransformer):
    """Local variables get other names (functions without nested scopes other than comprehensions)."""

    def visit_FunctionDef(self, f):
        params = {a.arg for a in f.args.args + f.args.kwonlyargs + ([f.args.vararg] if f.args.vararg else []) + ([f.args.kwarg] if f.args.kwarg else [])}
        if any(isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.Global, ast.Nonlocal)) for n in ast.walk(f) if n is not f):
            return self.generic_visit(f)
        stored = {n.id for n in ast.walk(f) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} - params
        for n in ast.walk(f):
            if isinstance(n, ast.Name) and n.id in stored:
                n.id = "my_" + n.id
            if isinstance(n, ast.ExceptHandler) and n.name:
                old, n.name = n.name, n.name + "_"
                for m in ast.walk(n):
                    if isinstance(m, ast.Name) and m.id == old:
                        m.id = n.name
        return f


class Extract(ast.NodeTransformer):
    """Each method or function delegates to a helper that holds its body."""

    def split(self, f, inside):
        if f.name.startswith("__") or f.decorator_list or f.args.vararg or f.args.kwarg or f.args.kwonlyargs or f.name == "main":
            return [f]
        if any(isinstance(n, (ast.Yield, ast.Nonlocal, ast.Global)) or isinstance(n, ast.Call) and getattr(n.func, "id", "") == "super" for n in ast.walk(f)):
            return [f]
        g = copy.deepcopy(f)
        g.name = "_do_" + f.name
        g.args.defaults = []
        names = [a.arg for a in f.args.args]
        doc = [f.body[0]] if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else []
        if inside:
            call = ast.Call(ast.Attribute(ast.Name(names[0], ast.Load()), g.name, ast.Load()), [ast.Name(n, ast.Load()) for n in names[1:]], [])
        else:
            call = ast.Call(ast.Name(g.name, ast.Load()), [ast.Name(n, ast.Load()) for n in names], [])
        f.body = doc + [ast.Return(call)]
        return [g, f]

    def visit_ClassDef(self, c):
        body = []
        for s in c.body:
            body += self.split(s, True) if isinstance(s, ast.FunctionDef) and s.args.args and s.args.args[0].arg == "self" else [s]
        c.body = body
        return c

    def visit_Module(self, m):
        body = []
        for s in m.body:
            body += self.split(s, False) if isinstance(s, ast.FunctionDef) else [self.visit(s)]
        m.body = body
        return m


class WhileLoop(ast.NodeTransformer):
    """for x in y: -> it = iter(y); while True: next"""
    n = 0

    def visit_For(self, f):
        self.generic_visit(f)
        if f.orelse:
            return f
        WhileLoop.n += 1
        it, end = "_it%d" % self.n, "_end%d" % self.n
        src = "%s = iter(X)\n%s = object()\nwhile True:\n    _v = next(%s, %s)\n    if _v is %s:\n        break\n    T = _v\n" % (it, end, it, end, end)
        t = ast.parse(src.replace("_v", "_v%d" % self.n)).body
        t[0].value.args[0] = f.iter
        t[2].body[2].targets = [f.target]
        t[2].body += f.body
        return t


class CompLoops(ast.NodeTransformer):
    """x = [e for v in s if c] -> explicit loop (in functions; v gets a fresh name)"""
    n = 0

    def visit_Assign(self, a):
        v = a.value
        if not isinstance(v, ast.ListComp) or len(v.generators) != 1 or len(a.targets) != 1 or not isinstance(a.targets[0], ast.Name) or not self.infunc:
            return a
        CompLoops.n += 1
        g = v.generators[0]
        if any(isinstance(n, ast.Lambda) for n in ast.walk(v)):
            return a
        names = {n.id for n in ast.walk(g.target) if isinstance(n, ast.Name)}
        for part in [g.target, v.elt] + g.ifs:
            for n in ast.walk(part):
                if isinstance(n, ast.Name) and n.id in names:
                    n.id = "c%d_%s" % (self.n, n.id)
        acc = "acc%d" % self.n
        body = ast.parse("%s.append(X)" % acc).body
        body[0].value.args = [v.elt]
        for c in reversed(g.ifs):
            body = [ast.If(c, body, [])]
        return [ast.parse("%s = []" % acc).body[0], ast.For(g.target, g.iter, body, []), ast.Assign(a.targets, ast.Name(acc, ast.Load()))]
    infunc = False

    def visit_FunctionDef(self, f):
        old, self.infunc = self.infunc, True
        self.generic_visit(f)
        self.infunc = old
        return f


class SwapIf(ast.NodeTransformer):
    def visit_If(self, i):
        self.generic_visit(i)
        if not i.orelse:
            return i
        return ast.If(ast.UnaryOp(ast.Not(), i.test), i.orelse, i.body)

    def visit_IfExp(self, i):
        self.generic_visit(i)
        return ast.IfExp(ast.UnaryOp(ast.Not(), i.test), i.orelse, i.body)


class Temps(ast.NodeTransformer):
    """return e -> result = e; return result; augmented assignments spelled out for names"""

    def visit_Return(self, r):
        if r.value is None:
            return r
        return [ast.Assign([ast.Name("the_result", ast.Store())], r.value), ast.Return(ast.Name("the_result", ast.Load()))]

    def visit_AugAssign(self, a):
        if isinstance(a.target, (ast.Name, ast.Attribute)) and not isinstance(a.op, (ast.BitOr,)) and not (isinstance(a.op, ast.Add) and isinstance(a.value, (ast.List, ast.ListComp))):
            t = copy.deepcopy(a.target)
            for n in ast.walk(t):
                if hasattr(n, "ctx"):
                    n.ctx = ast.Load()
            return ast.Assign([a.target], ast.BinOp(t, a.op, a.value))
        return a


class SelfAlias(ast.NodeTransformer):
    """model = self.model at the top of methods that use it more than once (and do not assign it)"""

    def visit_FunctionDef(self, f):
        if f.name == "__init__" or not f.args.args or f.args.args[0].arg != "self":
            return self.generic_visit(f)
        uses = [n for n in ast.walk(f) if isinstance(n, ast.Attribute) and n.attr == "model" and isinstance(n.value, ast.Name) and n.value.id == "self"]
        if len(uses) < 2 or any(isinstance(n.ctx, ast.Store) for n in uses) or any(isinstance(n, ast.Name) and n.id == "the_model" for n in ast.walk(f)):
            return f

        class T(ast.NodeTransformer):
            def visit_Attribute(s, n):
                s.generic_visit(n)
                return ast.Name("the_model", ast.Load()) if n in uses else n
        f = T().visit(f)
        at = 1 if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else 0
        f.body.insert(at, ast.parse("the_model = self.model").body[0])
        return f


class EarlyReturn(ast.NodeTransformer):
    """if c: ...return else: rest -> without else; a final if without else turned into an early return (in functions that return nothing)"""

    def visit_FunctionDef(self, f):
        self.generic_visit(f)
        last = f.body[-1]
        if isinstance(last, ast.If) and not last.orelse and not any(isinstance(n, ast.Return) and n.value for n in ast.walk(f)) and len(f.body) > 1:
            f.body[-1:] = [ast.If(ast.UnaryOp(ast.Not(), last.test), [ast.Return(None)], [])] + last.body
        return f


class Compare(ast.NodeTransformer):
    """a < b -> b > a"""
    M = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}

    def visit_Compare(self, c):
        self.generic_visit(c)
        if len(c.ops) == 1 and type(c.ops[0]) in self.M:
            return ast.Compare(c.comparators[0], [self.M[type(c.ops[0])]()], [c.left])
        return c


class Methods(ast.NodeTransformer):
    """the functions of each module and the methods of each class in the opposite order (where no decorator or default depends on it)"""

    def visit_ClassDef(self, c):
        fs = [s for s in c.body if isinstance(s, ast.FunctionDef)]
        if any(isinstance(d, ast.Attribute) for f in fs for d in f.decorator_list):
            return c
        it = iter(reversed(fs))
        c.body = [next(it) if isinstance(s, ast.FunctionDef) else s for s in c.body]
        return c


KINDS = {"rename": Rename, "extract": Extract, "whileloop": WhileLoop, "comploops": CompLoops, "swapif": SwapIf, "temps": Temps, "selfalias": SelfAlias,
         "earlyreturn": EarlyReturn, "compare": Compare, "methods": Methods}


def guarded(kind, tree):
    """Functions that use locals() stay as they are."""
    def keeps(n):
        return isinstance(n, ast.FunctionDef) and any(isinstance(m, ast.Call) and getattr(m.func, "id", "") == "locals" for m in ast.walk(n))
    kept = {}
    for n in ast.walk(tree):
        if hasattr(n, "body") and isinstance(n.body, list):
            for i, s in enumerate(n.body):
                if keeps(s):
                    kept["KEPT%d" % len(kept)] = s
                    n.body[i] = ast.Expr(ast.Constant("KEPT%d" % (len(kept) - 1)))
    tree = kind().visit(tree)
    for n in ast.walk(tree):
        if hasattr(n, "body") and isinstance(n.body, list):
            for i, s in enumerate(n.body):
                if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) and s.value.value in kept:
                    n.body[i] = kept[s.value.value]
    return tree


def main(out, kind):
    shutil.rmtree(out, ignore_errors=True)
    shutil.copytree("/repo", out, ignore=shutil.ignore_patterns(".git", "output", "__pycache__"), symlinks=True)
    for f in FILES:
        with open(os.path.join(out, f), newline="") as fh:
            tree = ast.parse(fh.read())
        for k in (list(KINDS) if kind == "all" else kind.split("+")):
            tree = ast.parse(ast.unparse(ast.fix_missing_locations(guarded(KINDS[k], tree))))
        with open(os.path.join(out, f), "w") as fh:
            fh.write(ast.unparse(ast.fix_missing_locations(tree)) + "\n")


if __name__ == "__main__":
    main(*sys.argv[1:3])
