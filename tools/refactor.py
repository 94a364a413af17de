"""Behaviour-preserving rewrites of whole source files, run through all checks: every alarm is a false one.

    python3 tools/refactor.py [--file REL ...] [--t NAME ...] [--prop P01 ...] [--func NAME]

Nothing is executed; the rewritten sources are analysed as an in-memory overlay.
"""
import argparse
import ast
import copy
import os
import sys
import traceback
from concurrent.futures import ProcessPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(10000)
REPO = os.environ.get("VERIF_REPO", "/repo")
BASE = "python/lsst/pipe/base/"
FN = (ast.FunctionDef, ast.AsyncFunctionDef)


def has(node, *kinds):
    return any(isinstance(x, kinds) for x in ast.walk(node))


def load(n):
    return ast.Name(n, ast.Load())


def store(n):
    return ast.Name(n, ast.Store())


def assign(n, e):
    return ast.Assign([store(n)], e)


def neg(e):
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return e.operand
    return ast.UnaryOp(ast.Not(), e)


METHODS = [False]


class Counter:
    n = 0

    @classmethod
    def new(cls, p="_t"):
        cls.n += 1
        return f"{p}{cls.n}"


def blocks(f):
    """All statement lists in function f (not those of nested functions or classes), innermost first."""
    out = []

    def visit(body):
        for s in body:
            if isinstance(s, (*FN, ast.ClassDef)):
                continue
            for fld in ("body", "orelse", "finalbody"):
                b = getattr(s, fld, None)
                if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                    visit(b)
            for h in getattr(s, "handlers", ()):
                visit(h.body)
            for h in getattr(s, "cases", ()):
                visit(h.body)
        out.append(body)

    visit(f.body)
    return out


def map_stmts(f, fn):
    for b in blocks(f):
        new = []
        for s in b:
            r = fn(s)
            new.extend(r if isinstance(r, list) else [s if r is None else r])
        b[:] = new


def t_rename(f, mod):
    params, stored, skip = set(), set(), set()
    for x in ast.walk(f):
        if isinstance(x, (*FN, ast.Lambda)):
            a = x.args
            params |= {y.arg for y in a.posonlyargs + a.args + a.kwonlyargs + [z for z in (a.vararg, a.kwarg) if z]}
            if x is not f and isinstance(x, FN):
                skip.add(x.name)
        elif isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
            stored.add(x.id)
        elif isinstance(x, (ast.Global, ast.Nonlocal)):
            skip |= set(x.names)
        elif isinstance(x, ast.ExceptHandler) and x.name:
            skip.add(x.name)
        elif isinstance(x, (ast.Import, ast.ImportFrom)):
            skip |= {(y.asname or y.name).split(".")[0] for y in x.names}
        elif isinstance(x, (ast.MatchAs, ast.MatchStar)) and x.name:
            skip.add(x.name)
        elif isinstance(x, ast.ClassDef):
            return
    ren = stored - params - skip
    for x in ast.walk(f):
        if isinstance(x, ast.Name) and x.id in ren:
            x.id += "_r"


def t_invert(f, mod):
    for x in ast.walk(f):
        if isinstance(x, ast.If) and x.orelse:
            x.test, x.body, x.orelse = neg(x.test), x.orelse, x.body


def t_guard(f, mod):
    for x in ast.walk(f):
        if isinstance(x, (ast.For, ast.While)):
            b = x.body
            for i, s in enumerate(b):
                if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], ast.Continue) and i + 1 < len(b):
                    rest = b[i + 1:]
                    if len(s.body) == 1:
                        b[i:] = [ast.If(neg(s.test), rest, [])]
                    else:
                        b[i:] = [ast.If(s.test, s.body[:-1], rest)]
                    break


def t_unguard(f, mod):
    """if c: A (last in loop) -> if not c: continue; A"""
    for x in ast.walk(f):
        if isinstance(x, (ast.For, ast.While)):
            s = x.body[-1]
            if isinstance(s, ast.If) and not s.orelse:
                x.body[-1:] = [ast.If(neg(s.test), [ast.Continue()], []), *s.body]


def t_return(f, mod):
    def fn(s):
        if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Constant, ast.Name)):
            v = Counter.new("_ret")
            return [assign(v, s.value), ast.Return(load(v))]

    map_stmts(f, fn)


def hoistable(e):
    return not isinstance(e, (ast.Constant, ast.Name, ast.Starred, ast.GeneratorExp, ast.Lambda)) and not has(
        e, ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr) and not (
        has(e, ast.Name) and any(isinstance(y, ast.Name) and y.id == "super" for y in ast.walk(e)))


def t_args(f, mod):
    def fn(s):
        c = getattr(s, "value", None)
        if isinstance(s, (ast.Expr, ast.Assign, ast.Return)) and isinstance(c, ast.Call) and not has(c, ast.NamedExpr, ast.Yield):
            pre = []
            for i, a in enumerate(c.args):
                if isinstance(a, ast.Starred):
                    break
                if hoistable(a):
                    v = Counter.new("_a")
                    pre.append(assign(v, a))
                    c.args[i] = load(v)
            for k in c.keywords:
                if hoistable(k.value):
                    v = Counter.new("_a")
                    pre.append(assign(v, k.value))
                    k.value = load(v)
            return [*pre, s]

    map_stmts(f, fn)


def t_cond(f, mod):
    def fn(s):
        if isinstance(s, ast.If) and not isinstance(s.test, (ast.Name, ast.Constant)) and not has(s.test, ast.Yield):
            v = Counter.new("_c")
            pre = assign(v, s.test)
            s.test = load(v)
            return [pre, s]

    map_stmts(f, fn)


def t_walrus(f, mod):
    def fn(s):
        if isinstance(s, ast.If):
            t = s.test
            w = t.left if isinstance(t, ast.Compare) else t.operand if isinstance(t, ast.UnaryOp) else t
            if isinstance(w, ast.NamedExpr):
                pre = assign(w.target.id, w.value)
                r = load(w.target.id)
                if isinstance(t, ast.Compare):
                    t.left = r
                elif isinstance(t, ast.UnaryOp):
                    t.operand = r
                else:
                    s.test = r
                return [pre, s]

    map_stmts(f, fn)


def free_locals(e, f):
    """Names of e that are local to f (parameters or assigned), excluding those bound inside e."""
    loc, bound = set(), set()
    for x in ast.walk(f):
        if isinstance(x, (*FN, ast.Lambda)) :
            a = x.args
            loc |= {y.arg for y in a.posonlyargs + a.args + a.kwonlyargs + [z for z in (a.vararg, a.kwarg) if z]}
            if x is not f and isinstance(x, FN):
                loc.add(x.name)
        elif isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
            loc.add(x.id)
        elif isinstance(x, ast.ExceptHandler) and x.name:
            loc.add(x.name)
        elif isinstance(x, (ast.Import, ast.ImportFrom)):
            loc |= {(y.asname or y.name).split(".")[0] for y in x.names}
    for x in ast.walk(e):
        if isinstance(x, ast.comprehension):
            bound |= {y.id for y in ast.walk(x.target) if isinstance(y, ast.Name)}
        elif isinstance(x, ast.Lambda):
            bound |= {y.arg for y in x.args.args}
    out = []
    for x in ast.walk(e):
        if isinstance(x, ast.Name) and x.id in loc and x.id not in bound and x.id not in out:
            out.append(x.id)
    return out


def helper(mod, f, names, body):
    h = Counter.new("_helper")
    cls = getattr(f, "_cls", None) if METHODS[0] else None
    if cls is not None and "self" in names and f.args.args and f.args.args[0].arg == "self":
        names = ["self", *[n for n in names if n != "self"]]
        cls.body.append(ast.FunctionDef(h, ast.arguments([], [ast.arg(n) for n in names], None, [], [], None, []), body, [], None, type_params=[]))
        return ast.Call(ast.Attribute(load("self"), h, ast.Load()), [load(n) for n in names[1:]], [])
    d = ast.FunctionDef(h, ast.arguments([], [ast.arg(n) for n in names], None, [], [], None, []), body, [], None, type_params=[])
    mod.body.append(d)
    return ast.Call(load(h), [load(n) for n in names], [])


def extractable(e):
    return not has(e, ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr) and not any(
        isinstance(y, ast.Name) and y.id in ("super", "__class__") for y in ast.walk(e))


def t_helper(f, mod):
    def fn(s):
        if isinstance(s, (ast.Assign, ast.Return)) and s.value is not None and has(s.value, ast.Call) and extractable(s.value):
            if isinstance(s, ast.Assign) and not (len(s.targets) == 1 and isinstance(s.targets[0], ast.Name)):
                return None
            s.value = helper(mod, f, free_locals(s.value, f), [ast.Return(s.value)])

    map_stmts(f, fn)


def t_helperblock(f, mod):
    """Runs of expression statements and stores without local assignment become a helper function."""
    ok = lambda s: (isinstance(s, ast.Expr) and not isinstance(s.value, ast.Constant) or isinstance(s, ast.Assign) and all(  # noqa: E731
        isinstance(t, (ast.Attribute, ast.Subscript)) for t in s.targets)) and extractable(s)
    for b in blocks(f):
        i, new = 0, []
        while i < len(b):
            j = i
            while j < len(b) and ok(b[j]):
                j += 1
            if j - i >= 1:
                m = ast.Module(b[i:j], [])
                new.append(ast.Expr(helper(mod, f, free_locals(m, f), b[i:j])))
                i = j
            else:
                new.append(b[i])
                i += 1
        b[:] = new


def t_helperif(f, mod):
    """If statements without local assignment or jumps become a helper function."""
    def fn(s):
        if isinstance(s, (ast.If, ast.For)) and extractable(s) and not has(s, ast.Return, ast.Continue, ast.Break, ast.Nonlocal, *FN, ast.Lambda):
            st = {x.id for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))}
            if isinstance(s, ast.For):
                inside = {id(x) for x in ast.walk(s)}
                outside = {x.id for x in ast.walk(f) if isinstance(x, ast.Name) and id(x) not in inside}
                if st & outside:
                    return None
                names = [n for n in free_locals(s, f) if n not in st]
            elif st:
                return None
            else:
                names = free_locals(s, f)
            return ast.Expr(helper(mod, f, names, [s]))

    map_stmts(f, fn)


def _m(t):
    def g(f, mod):
        METHODS[0] = True
        try:
            t(f, mod)
        finally:
            METHODS[0] = False

    return g


t_mhelper, t_mhelperblock, t_mhelperif = _m(t_helper), _m(t_helperblock), _m(t_helperif)


def t_comploop(f, mod):
    def fn(s):
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(
                s.value, (ast.ListComp, ast.SetComp, ast.DictComp)) and len(s.value.generators) == 1 and not s.value.generators[0].is_async:
            c, g = s.value, s.value.generators[0]
            n = s.targets[0].id
            if any(isinstance(x, ast.Name) and x.id == n for x in ast.walk(c)):
                return None
            if isinstance(c, ast.ListComp):
                init, add = ast.List([], ast.Load()), ast.Expr(ast.Call(ast.Attribute(load(n), "append", ast.Load()), [c.elt], []))
            elif isinstance(c, ast.SetComp):
                init, add = ast.Call(load("set"), [], []), ast.Expr(ast.Call(ast.Attribute(load(n), "add", ast.Load()), [c.elt], []))
            else:
                init, add = ast.Dict([], []), ast.Assign([ast.Subscript(load(n), c.key, ast.Store())], c.value)
            body = [add]
            for t in reversed(g.ifs):
                body = [ast.If(t, body, [])]
            return [assign(n, init), ast.For(g.target, g.iter, body, [])]

    map_stmts(f, fn)


def t_iter(f, mod):
    def fn(s):
        if isinstance(s, ast.For) and not isinstance(s.iter, ast.Name) and not has(s.iter, ast.Yield, ast.NamedExpr):
            v = Counter.new("_it")
            pre = assign(v, s.iter)
            s.iter = load(v)
            return [pre, s]

    map_stmts(f, fn)


def t_and(f, mod):
    for x in ast.walk(f):
        if isinstance(x, ast.If) and not x.orelse and isinstance(x.test, ast.BoolOp) and isinstance(x.test.op, ast.And):
            vs = x.test.values
            body = x.body
            for v in reversed(vs[1:]):
                body = [ast.If(v, body, [])]
            x.test, x.body = vs[0], body


def t_kworder(f, mod):
    for x in ast.walk(f):
        if isinstance(x, ast.Call) and all(k.arg for k in x.keywords):
            x.keywords.reverse()


class DeMorgan(ast.NodeTransformer):
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1:
            op = n.ops[0]
            inv = {ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq}.get(type(op))
            if inv in (ast.Is, ast.In, ast.Eq):
                n.ops = [inv()]
                return ast.UnaryOp(ast.Not(), n)
            if isinstance(op, ast.Eq):
                n.left, n.comparators = n.comparators[0], [n.left]
            elif isinstance(op, ast.Lt):
                n.left, n.comparators, n.ops = n.comparators[0], [n.left], [ast.Gt()]
            elif isinstance(op, ast.Gt):
                n.left, n.comparators, n.ops = n.comparators[0], [n.left], [ast.Lt()]
        return n

    def visit_UnaryOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Not) and isinstance(n.operand, ast.BoolOp):
            return ast.BoolOp(ast.Or() if isinstance(n.operand.op, ast.And) else ast.And(), [neg(v) for v in n.operand.values])
        return n


def t_demorgan(f, mod):
    for b in f.body:
        DeMorgan().visit(b)


def t_swap(f, mod):
    """Adjacent independent plain assignments change places."""
    def pure(s):
        return isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None and not has(s.value, ast.Call, ast.Await, ast.Yield, ast.NamedExpr) and (
            all(isinstance(t, ast.Name) for t in s.targets) if isinstance(s, ast.Assign) else isinstance(s.target, ast.Name))

    def tg(s):
        return {t.id for t in (s.targets if isinstance(s, ast.Assign) else [s.target])}

    def us(s):
        return {x.id for x in ast.walk(s.value) if isinstance(x, ast.Name)}

    for b in blocks(f):
        i = 0
        while i + 1 < len(b):
            x, y = b[i], b[i + 1]
            if pure(x) and pure(y) and not (tg(x) & (us(y) | tg(y)) or tg(y) & us(x)):
                b[i], b[i + 1] = y, x
                i += 2
            else:
                i += 1


def t_enum(f, mod):
    for x in ast.walk(f):
        if isinstance(x, ast.For):
            x.iter = ast.Call(load("enumerate"), [x.iter], [])
            x.target = ast.Tuple([store(Counter.new("_i")), x.target], ast.Store())


def t_unpack(f, mod):
    for x in ast.walk(f):
        if isinstance(x, ast.For) and isinstance(x.target, ast.Tuple):
            v = Counter.new("_kv")
            x.body.insert(0, ast.Assign([x.target], load(v)))
            x.target = store(v)


def t_items(f, mod):
    for x in ast.walk(f):
        if isinstance(x, ast.For) and isinstance(x.target, ast.Tuple) and len(x.target.elts) == 2 and isinstance(x.target.elts[0], ast.Name) and isinstance(
                x.iter, ast.Call) and isinstance(x.iter.func, ast.Attribute) and x.iter.func.attr == "items" and not x.iter.args and not has(x.iter.func.value, ast.Call):
            d = x.iter.func.value
            k, v = x.target.elts
            x.iter = d
            x.target = k
            x.body.insert(0, ast.Assign([v], ast.Subscript(copy.deepcopy(d), load(k.id), ast.Load())))


def t_ifexp(f, mod):
    def fn(s):
        if isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp):
            a, b = copy.deepcopy(s), s
            e = s.value
            a.value, b.value = e.body, e.orelse
            return ast.If(e.test, [a], [b])
        if isinstance(s, ast.Return) and isinstance(s.value, ast.IfExp):
            return [ast.If(s.value.test, [ast.Return(s.value.body)], []), ast.Return(s.value.orelse)]

    map_stmts(f, fn)


def t_early(f, mod):
    s = f.body[-1]
    if isinstance(s, ast.If) and s.orelse and not has(f, ast.Yield, ast.YieldFrom):
        f.body[-1:] = [ast.If(s.test, [*s.body, ast.Return(None)], []), *s.orelse]


def t_any(f, mod):
    """any()/all() over a generator becomes a loop with a flag."""
    def fn(s):
        if not isinstance(s, ast.If):
            return None
        t, n = s.test, False
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            t, n = t.operand, True
        if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id in ("any", "all") and len(t.args) == 1 and isinstance(
                t.args[0], ast.GeneratorExp) and len(t.args[0].generators) == 1:
            g = t.args[0].generators[0]
            v = Counter.new("_f")
            is_any = t.func.id == "any"
            body = [ast.If(t.args[0].elt if is_any else neg(t.args[0].elt), [assign(v, ast.Constant(is_any)), ast.Break()], [])]
            for c in reversed(g.ifs):
                body = [ast.If(c, body, [])]
            s.test = neg(load(v)) if n else load(v)
            return [assign(v, ast.Constant(not is_any)), ast.For(g.target, g.iter, body, []), s]

    map_stmts(f, fn)


def t_listcall(f, mod):
    """list()/tuple() copies of what a loop iterates."""
    for x in ast.walk(f):
        if isinstance(x, ast.For):
            x.iter = ast.Call(load("list"), [x.iter], [])


def t_alias(f, mod):
    """Receiver of a statement-level method call through a local."""
    def fn(s):
        c = getattr(s, "value", None)
        if isinstance(s, (ast.Expr, ast.Assign)) and isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and isinstance(
                c.func.value, (ast.Attribute, ast.Subscript)) and not has(s, ast.Yield, ast.NamedExpr):
            v = Counter.new("_o")
            pre = assign(v, c.func.value)
            c.func.value = load(v)
            return [pre, s]

    map_stmts(f, fn)


def t_log(f, mod):
    """A statement that does nothing between all others."""
    for b in blocks(f):
        new = []
        for s in b:
            if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                new.append(assign("_noop", ast.Constant(None)))
            new.append(s)
        b[:] = new


def t_setdefault(f, mod):
    """d.setdefault(k, v).m(x) -> if k not in d: d[k] = v; d[k].m(x)"""
    def fn(s):
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute):
            c = s.value.func.value
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == "setdefault" and len(c.args) == 2 and not has(c.func.value, ast.Call):
                d, k, v = c.func.value, c.args[0], c.args[1]
                kv = Counter.new("_k")
                s.value.func.value = ast.Subscript(copy.deepcopy(d), load(kv), ast.Load())
                return [assign(kv, k), ast.If(ast.Compare(load(kv), [ast.NotIn()], [copy.deepcopy(d)]), [ast.Assign([ast.Subscript(d, load(kv), ast.Store())], v)], []), s]

    map_stmts(f, fn)


def t_elsereturn(f, mod):
    """if c: return/raise/continue; REST -> else: REST"""
    for b in blocks(f):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue)) and i + 1 < len(b):
                s.orelse = b[i + 1:]
                del b[i + 1:]
                break


def t_tryret(f, mod):
    """try: return E except -> try: v = E except ... else: return v"""
    def fn(s):
        if isinstance(s, ast.Try) and s.handlers and len(s.body) == 1 and not s.orelse and isinstance(s.body[0], ast.Return) and s.body[0].value is not None:
            v = Counter.new("_v")
            s.body = [assign(v, s.body[0].value)]
            s.orelse = [ast.Return(load(v))]

    map_stmts(f, fn)


def t_bare(f, mod):
    """Control: only unparsed."""


TS = {k[2:]: v for k, v in list(globals().items()) if k.startswith("t_")}


def functions(tree):
    out = []

    def visit(n):
        for x in ast.iter_child_nodes(n):
            if isinstance(x, FN):
                x._cls = n if isinstance(n, ast.ClassDef) else None
                out.append(x)
            elif isinstance(x, (ast.ClassDef, ast.If, ast.Try)):
                visit(x)

    visit(tree)
    return out


def rewrite(src, t, only=None):
    tree = ast.parse(src)
    Counter.n = 0
    for f in functions(tree):
        if only and f.name not in only:
            continue
        if any(isinstance(d, ast.Name) and d.id == "overload" for d in f.decorator_list) or not f.body:
            continue
        doc = None
        if ast.get_docstring(f) is not None:
            doc = f.body.pop(0)
        if f.body:
            TS[t](f, tree)
        if doc is not None:
            f.body.insert(0, doc)
    ast.fix_missing_locations(tree)
    out = ast.unparse(tree)
    compile(out, "x", "exec")
    return out


def job(a):
    rel, t, only, pids = a
    import importlib

    from sa.lib import AnalysisError, Check, Program
    from sa.props import PROPS

    try:
        src = open(os.path.join(REPO, BASE + rel)).read()
        new = rewrite(src, t, only)
        if new == ast.unparse(ast.parse(src)) and t != "bare":
            return rel, t, None
        prog = Program(REPO, overlay={BASE + rel: new})
    except Exception:
        return rel, t, [("REWRITE", traceback.format_exc()[-400:])]
    got = []
    for pid in pids:
        c = Check(prog, pid)
        for spec in PROPS[pid]["rules"]:
            m, fn = spec.split(":")
            try:
                getattr(importlib.import_module("sa.rules." + m), fn)(c)
            except AnalysisError as e:
                got.append((pid, "ANALYSIS " + str(e)))
            except Exception:
                got.append((pid, "CRASH " + traceback.format_exc()[-500:]))
        if not c.violations and len(c.obligations) < PROPS[pid]["min_obligations"]:
            got.append((pid, f"OBLIGATIONS {len(c.obligations)}"))
        got += [(pid, f"{v['rule']} [{v['instance']}] {v['where']} {v['message'][:80]}") for v in c.violations]
    return rel, t, got


def main():
    from sa.props import PROPS

    ap = argparse.ArgumentParser()
    ap.add_argument("--file", action="append")
    ap.add_argument("--t", action="append")
    ap.add_argument("--prop", action="append")
    ap.add_argument("--func", action="append")
    ap.add_argument("--show", action="store_true")
    a = ap.parse_args()
    pids = a.prop or sorted(PROPS)
    pre = "python/lsst/pipe/base/"
    files = a.file or sorted({f[len(pre):] for p in pids for f in PROPS[p]["anchors"]["files"] if f.startswith(pre)})
    if a.show:
        print(rewrite(open(os.path.join(REPO, BASE + files[0])).read(), a.t[0], a.func))
        return
    # a file is analysed by the properties anchored in it and, to be safe, all others with --prop unset
    jobs = [(f, t, a.func, pids) for f in files for t in (a.t or TS)]
    bad = 0
    with ProcessPoolExecutor(8) as ex:
        for rel, t, got in ex.map(job, jobs, chunksize=1):
            if got:
                bad += 1
                print(f"== {rel} {t}")
                for x in got:
                    print("   ", *x)
                sys.stdout.flush()
    print(f"{len(jobs)} rewrites, {bad} with alarms")


if __name__ == "__main__":
    main()
