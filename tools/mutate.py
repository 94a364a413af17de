#!/usr/bin/env python3
"""List single-point changes of the analysed functions that no rule notices.

    python3 tools/mutate.py --file quantum_graph_skeleton.py [--func NAME ...] [--prop P19 ...] [--op NAME ...]

Development aid: each survivor is either behaviour-preserving (or outside the properties), or something to strengthen.  Nothing is run;
mutants are analysed as overlays.
"""
from __future__ import annotations

import argparse
import ast
import copy
import os
import sys
import traceback
from concurrent.futures import ProcessPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(10000)
REPO = os.environ.get("REPO", "/repo")
BASE = "python/lsst/pipe/base/"
FN = (ast.FunctionDef, ast.AsyncFunctionDef)
SWAP = {"inputs": "outputs", "predecessors": "successors", "ancestors": "descendants", "iter_inputs_of": "iter_outputs_of", "add": "discard",
        "append": "remove", "input": "output", "keys": "values", "first": "last", "producer": "consumer"}
SWAP |= {v: k for k, v in SWAP.items()}


def quiet(s):
    """Statements that only report."""
    t = ast.unparse(s)
    return isinstance(s, ast.Expr) and (isinstance(s.value, ast.Constant) or any(
        x in t for x in ("log.", "_LOG.", "logger.", ".set_description", "progress", "print(", "warnings.", "verbose(", "debug("))) or isinstance(
        s, (ast.Import, ast.ImportFrom, ast.Pass, ast.Global, ast.Nonlocal, ast.Assert)) or isinstance(s, ast.AnnAssign) and s.value is None


def mutants(fn):
    """(op, line, before, apply) with apply() mutating in place and returning undo()."""
    out = []

    def blocks(n):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield b

    def setter(obj, field, new):
        def ap():
            old = getattr(obj, field)
            setattr(obj, field, new(old))

            def undo():
                setattr(obj, field, old)

            return undo

        return ap

    raising = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Raise):
            raising |= {id(x) for x in ast.walk(n)}
        if isinstance(n, ast.stmt) and quiet(n):
            raising |= {id(x) for x in ast.walk(n)}
        if isinstance(n, (ast.arguments,)) or isinstance(n, ast.AnnAssign):
            raising |= {id(x) for x in ast.walk(n.annotation)} if isinstance(n, ast.AnnAssign) else {id(x) for x in ast.walk(n)}
    for n in ast.walk(fn):
        if n is not fn and isinstance(n, (*FN, ast.ClassDef)):
            pass
        for b in blocks(n):
            for i, s in enumerate(b):
                if quiet(s):
                    continue
                if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Continue, ast.Break, ast.Delete, ast.If, ast.For, ast.With, ast.Return)) or (
                        isinstance(s, ast.AnnAssign) and not isinstance(s.target, ast.Name)):
                    if isinstance(s, ast.Assign) and all(isinstance(t, (ast.Name, ast.Tuple)) for t in s.targets):
                        continue  # NameError: tests would notice
                    if isinstance(s, ast.Return) and s.value is not None:
                        continue

                    def ap(b=b, i=i):
                        old = b[i]
                        b[i] = ast.copy_location(ast.Pass(), old)

                        def undo():
                            b[i] = old

                        return undo

                    out.append(("delete", s.lineno, ast.unparse(s).split("\n")[0], ap))
                if isinstance(s, (ast.Continue, ast.Break)):
                    def ap(b=b, i=i):
                        old = b[i]
                        b[i] = ast.copy_location(ast.Break() if isinstance(old, ast.Continue) else ast.Continue(), old)

                        def undo():
                            b[i] = old

                        return undo

                    out.append(("breakcont", s.lineno, ast.unparse(s), ap))
                if isinstance(s, ast.For):
                    def ap(s=s):
                        s.body.append(ast.copy_location(ast.Break(), s))

                        def undo():
                            s.body.pop()

                        return undo

                    out.append(("firstonly", s.lineno, ast.unparse(s).split("\n")[0], ap))
                if isinstance(s, ast.If):
                    if s.orelse:
                        out.append(("noelse", s.lineno, ast.unparse(s.test), setter(s, "orelse", lambda o: [])))
                    out.append(("always", s.lineno, ast.unparse(s.test), setter(s, "test", lambda o: ast.copy_location(ast.Constant(True), o))))
                if i + 1 < len(b) and isinstance(s, (ast.Expr, ast.Assign)) and isinstance(b[i + 1], (ast.Expr, ast.Assign)) and not quiet(b[i + 1]):
                    def ap(b=b, i=i):
                        b[i], b[i + 1] = b[i + 1], b[i]

                        def undo():
                            b[i], b[i + 1] = b[i + 1], b[i]

                        return undo

                    out.append(("reorder", s.lineno, ast.unparse(s).split("\n")[0] + " <-> " + ast.unparse(b[i + 1]).split("\n")[0], ap))
                if isinstance(s, ast.Try):
                    for h in s.handlers:
                        if h.type is not None and ast.unparse(h.type) not in ("Exception", "BaseException"):
                            out.append(("broaden", h.lineno, ast.unparse(h.type), setter(h, "type", lambda o: ast.copy_location(ast.Name("Exception", ast.Load()), o))))
        if id(n) in raising:
            continue
        if isinstance(n, (ast.If, ast.IfExp, ast.While)):
            out.append(("negate", n.test.lineno, ast.unparse(n.test), setter(n, "test", lambda o: ast.copy_location(ast.UnaryOp(ast.Not(), o), o))))
        if isinstance(n, ast.comprehension):
            for i, t in enumerate(n.ifs):
                def ap(n=n, i=i):
                    old = n.ifs[:]
                    del n.ifs[i]

                    def undo():
                        n.ifs[:] = old

                    return undo

                out.append(("nofilter", t.lineno, ast.unparse(t), ap))
        if isinstance(n, ast.BoolOp):
            for i in range(len(n.values)):
                def ap(n=n, i=i):
                    old = n.values[:]
                    del n.values[i]
                    if len(n.values) == 1:
                        n.values.append(ast.copy_location(ast.Constant(isinstance(n.op, ast.And)), n))

                    def undo():
                        n.values[:] = old

                    return undo

                out.append(("dropcond", n.lineno, ast.unparse(n.values[i]), ap))
            out.append(("andor", n.lineno, ast.unparse(n), setter(n, "op", lambda o: ast.Or() if isinstance(o, ast.And) else ast.And())))
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            m = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt}.get(type(n.ops[0]))
            if m:
                out.append(("offbyone", n.lineno, ast.unparse(n), setter(n, "ops", lambda o, m=m: [m()])))
        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            out.append(("flip", n.lineno, str(n.value), setter(n, "value", lambda o: not o)))
        if isinstance(n, ast.Constant) and isinstance(n.value, int) and not isinstance(n.value, bool):
            out.append(("int", n.lineno, str(n.value), setter(n, "value", lambda o: o + 1)))
        if isinstance(n, ast.Attribute) and n.attr in SWAP:
            out.append(("swapattr", n.lineno, ast.unparse(n), setter(n, "attr", lambda o: SWAP[o])))
        if isinstance(n, ast.Call):
            if ast.unparse(n.func).rsplit(".", 1)[-1] in ("debug", "info", "verbose", "warning", "getattr", "isinstance", "error", "len", "zip"):
                continue
            for i in range(len(n.args) - 1):
                def ap(n=n, i=i):
                    n.args[i], n.args[i + 1] = n.args[i + 1], n.args[i]

                    def undo():
                        n.args[i], n.args[i + 1] = n.args[i + 1], n.args[i]

                    return undo

                out.append(("swaparg", n.lineno, ast.unparse(n)[:100], ap))
            for i, k in enumerate(n.keywords):
                def ap(n=n, i=i):
                    old = n.keywords[:]
                    del n.keywords[i]

                    def undo():
                        n.keywords[:] = old

                    return undo

                out.append(("dropkw", n.lineno, ast.unparse(n)[:100] + " -" + str(k.arg), ap))
        if isinstance(n, (ast.For, ast.comprehension)):
            out.append(("skipfirst", getattr(n, "lineno", n.iter.lineno), ast.unparse(n.iter), setter(n, "iter", lambda o: ast.copy_location(ast.Subscript(ast.Call(
                ast.Name("list", ast.Load()), [o], []), ast.Slice(ast.Constant(1), None, None), ast.Load()), o))))
    return out


def functions(tree):
    out = []

    def visit(n, pre):
        for x in ast.iter_child_nodes(n):
            if isinstance(x, FN):
                out.append((pre + x.name, x))
            elif isinstance(x, ast.ClassDef):
                visit(x, pre + x.name + ".")
            elif isinstance(x, (ast.If, ast.Try)):
                visit(x, pre)

    visit(tree, "")
    return out


def job(a):
    rel, fname, idxs, pids = a
    import importlib

    from sa.lib import AnalysisError, Check, Program
    from sa.props import PROPS

    src = open(os.path.join(REPO, BASE + rel)).read()
    tree = ast.parse(src)
    fn = dict(functions(tree))[fname]
    if fn.body and ast.get_docstring(fn) is not None:
        fn.body.pop(0)
        if not fn.body:
            return []
    ms = mutants(fn)
    res = []
    for i in idxs:
        op, line, what, ap = ms[i]
        undo = ap()
        try:
            ast.fix_missing_locations(tree)
            new = ast.unparse(tree)
            compile(new, "x", "exec")
        except Exception:
            undo()
            continue
        undo()
        hit = None
        try:
            prog = Program(REPO, overlay={BASE + rel: new})
        except Exception:
            continue
        for pid in pids:
            c = Check(prog, pid)
            err = False
            for spec in PROPS[pid]["rules"]:
                m, f = spec.split(":")
                try:
                    getattr(importlib.import_module("sa.rules." + m), f)(c)
                except AnalysisError:
                    err = True
                except Exception:
                    err = True
                    hit = hit or f"{pid} CRASH {traceback.format_exc()[-200:]}"
            if c.violations:
                hit = f"{pid} {c.violations[0]['rule']}"
                break
            if err and hit is None:
                hit = f"{pid} ANALYSIS"
        res.append((op, line, what, hit))
    return [(rel, fname, *r) for r in res]


def main():
    from sa.props import PROPS

    ap = argparse.ArgumentParser()
    ap.add_argument("--file", action="append")
    ap.add_argument("--prop", action="append")
    ap.add_argument("--func", action="append")
    ap.add_argument("--op", action="append")
    ap.add_argument("--all", action="store_true", help="also list what was noticed")
    a = ap.parse_args()
    pids = a.prop or sorted(PROPS)
    pre = "python/lsst/pipe/base/"
    files = a.file or sorted({f[len(pre):] for p in pids for f in PROPS[p]["anchors"]["files"] if f.startswith(pre)})
    jobs = []
    for rel in files:
        tree = ast.parse(open(os.path.join(REPO, BASE + rel)).read())
        for fname, fn in functions(tree):
            if a.func and not any(fname == x or fname.rsplit(".", 1)[-1] == x or fname.startswith(x + ".") for x in a.func):
                continue
            if ast.get_docstring(fn) is not None:
                fn.body.pop(0)
                if not fn.body:
                    continue
            ms = mutants(fn)
            idx = [i for i, m in enumerate(ms) if not a.op or m[0] in a.op]
            for k in range(0, len(idx), 6):
                jobs.append((rel, fname, idx[k:k + 6], pids))
    tot = caught = odd = 0
    with ProcessPoolExecutor(8) as ex:
        for rs in ex.map(job, jobs, chunksize=1):
            for rel, fname, op, line, what, hit in rs:
                tot += 1
                if hit and "ANALYSIS" not in hit and "CRASH" not in hit:
                    caught += 1
                elif hit:
                    odd += 1
                if not hit or "ANALYSIS" in hit or "CRASH" in hit or a.all:
                    print(f"{rel}:{line} {fname.rsplit('.', 1)[-1]} {op}: {what[:110]}" + (f"  [{hit}]" if hit else ""))
            sys.stdout.flush()
    print(f"{tot} mutants, {caught} noticed, {odd} without answer, {tot - caught - odd} survive")


if __name__ == "__main__":
    main()
