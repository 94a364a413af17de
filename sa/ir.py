"""Lowering of Python source to an interprocedural control-flow graph (ICFG).

One graph is built per analysed entry point.  Calls that resolve to functions
of the analysed package are inlined (context-cloned) up to a depth bound, so
that a rule sees the same events whether code is written in one function or
spread over helpers.  Context managers written as generators are inlined around
the ``with`` body, short-circuit operators, comprehensions, ``match`` and
``try/finally`` are lowered to explicit branches and edges, and every call that
may raise has an exceptional edge.
"""

from __future__ import annotations

import ast
import itertools

from .program import PKG, Func, Program, AnalysisError
from .known import KNOWN

# Calls assumed not to raise (stated in DESIGN.md as a trusted assumption).
NOEXC_BUILTINS = {
    "len", "list", "tuple", "set", "dict", "str", "repr", "isinstance", "issubclass", "frozenset", "bool", "type",
    "id", "print", "range", "enumerate", "zip", "any", "all", "sorted", "reversed", "hasattr", "super", "iter",
    "min", "max", "sum", "object", "callable", "hash",
}
NOEXC_METHODS = {
    "append", "add", "discard", "extend", "clear", "update", "setdefault", "items", "keys", "values", "debug",
    "verbose", "info", "warning", "error", "critical", "fatal", "trace", "log", "is_set", "copy", "union",
    "intersection", "difference", "difference_update", "intersection_update", "issubset", "issuperset",
    "isdisjoint", "startswith", "endswith", "appendleft", "add_note", "join",
}
NOEXC_QUALS = {"time.time", "logging.getLogger", "itertools.chain", "itertools.chain.from_iterable",
               "contextlib.ExitStack", "contextlib.nullcontext", "collections.defaultdict", "typing.cast",
               "threading.current_thread", "lsst.utils.logging.getLogger"}
LOGGER_NAMES = {"_LOG", "_log", "log", "logger", "LOG"}
PASSTHRU = {"builtins.sorted", "builtins.list", "builtins.set", "builtins.tuple", "builtins.frozenset",
            "builtins.iter", "builtins.reversed", "collections.deque"}
ITERABLES = {"list", "set", "frozenset", "Iterable", "Iterator", "Sequence", "Collection", "Set", "MutableSet",
             "MutableSequence", "Generator", "deque", "AbstractSet", "$iter", "KeysView", "ValuesView"}
MAPPINGS = {"dict", "Mapping", "MutableMapping", "defaultdict", "OrderedDict", "Counter"}


class Node:
    __slots__ = ("id", "kind", "frame", "ast", "succ", "pred", "d")

    def __init__(self, id, kind, frame, astnode, **d):
        self.id = id
        self.kind = kind
        self.frame = frame
        self.ast = astnode
        self.succ = []  # (node, label)
        self.pred = []
        self.d = d

    def __getattr__(self, k):
        try:
            return self.d[k]
        except KeyError:
            raise AttributeError(k)

    def get(self, k, default=None):
        return self.d.get(k, default)

    @property
    def line(self):
        return getattr(self.ast, "lineno", 0)

    @property
    def loc(self):
        return f"{self.frame.func.file}:{self.line}"

    def __repr__(self):
        extra = ""
        if self.kind == "call":
            extra = f" {self.d.get('callee') or '?.' + str(self.d.get('name'))}"
        elif self.kind == "branch":
            extra = f" {self.d['atom'][0]}"
        elif self.kind in ("enter", "leave"):
            extra = f" {self.d['callee']}"
        return f"<{self.id} {self.kind}{extra} {self.loc}>"


class Frame:
    def __init__(self, id, func: Func, closure, caller, depth):
        self.id = id
        self.func = func
        self.closure = closure
        self.caller = caller
        self.depth = depth
        self.locals = func.local_names()
        self.nested = {}
        self.self_cls = None
        self.method_alias = {}
        self.handler_types = []

    def chain(self):
        f = self
        while f is not None:
            yield f
            f = f.caller


class Ctx:
    __slots__ = ("exc", "jump", "yld")

    def __init__(self, exc, jump, yld):
        self.exc = exc
        self.jump = jump
        self.yld = yld

    def replace(self, **kw):
        c = Ctx(self.exc, dict(self.jump), self.yld)
        for k, v in kw.items():
            setattr(c, k, v)
        return c


def unknown(f):
    """Functions that appeared after the rules were written (extracted helpers, say)."""
    known = KNOWN.get(f.module.name.replace("lsst.pipe.base.", "", 1))
    return known is not None and f.name not in known and not f.name.startswith("__")


class Graph:
    def __init__(self, prog: Program, root: Func, self_cls=None, inline=None, opaque=(), max_depth=14,
                 max_nodes=60000, ctors=()):
        self.prog = prog
        self.root = root
        self.nodes: list[Node] = []
        self.frames: list[Frame] = []
        self.ty: dict = {}
        self.inline_pred = inline
        self.opaque = set(opaque)
        self.ctors = set(ctors)
        self.max_depth = max_depth
        self.max_nodes = max_nodes
        self.inlined: set[str] = set()
        self._ctr = itertools.count()
        Builder(self, root, self_cls).run()
        for n in self.nodes:
            for s, lab in n.succ:
                s.pred.append((n, lab))
        self._prune()

    def _prune(self):
        seen = {self.entry.id}
        st = [self.entry]
        while st:
            n = st.pop()
            for s, _ in n.succ:
                if s.id not in seen:
                    seen.add(s.id)
                    st.append(s)
        self.reachable = seen
        self.live = [n for n in self.nodes if n.id in seen]
        for n in self.live:
            n.pred = [(p, l) for p, l in n.pred if p.id in seen]

    def calls(self, pred=None):
        return [n for n in self.live if n.kind == "call" and (pred is None or pred(n))]


def const(v):
    return ("const", type(v).__name__, v)


NONE = const(None)


class Builder:
    def __init__(self, g: Graph, root: Func, self_cls):
        self.g = g
        self.prog = g.prog
        self.root = root
        self.root_self_cls = self_cls
        self.ends = []
        self.overlays = []

    # ---- graph primitives ------------------------------------------------
    def new(self, kind, astnode, **d):
        if len(self.g.nodes) > self.g.max_nodes:
            raise AnalysisError(f"graph for {self.root.qual} exceeds {self.g.max_nodes} nodes")
        n = Node(len(self.g.nodes), kind, self.frame, astnode, **d)
        self.g.nodes.append(n)
        return n

    def link(self, ends, node):
        for p, lab in ends:
            p.succ.append((node, lab))

    def emit(self, kind, astnode, **d):
        n = self.new(kind, astnode, **d)
        self.link(self.ends, n)
        self.ends = [(n, None)]
        return n

    def exc_edge(self, n):
        n.succ.append((self.ctx.exc, "exc"))

    # ---- driver ------------------------------------------------------------
    def new_frame(self, func, closure, caller):
        f = Frame(len(self.g.frames), func, closure, caller, 0 if caller is None else caller.depth + 1)
        self.g.frames.append(f)
        return f

    def run(self):
        g = self.g
        fr = self.new_frame(self.root, None, None)
        self.frame = fr
        g.entry = self.new("entry", self.root.node)
        g.exit = self.new("exit", self.root.node)
        g.exc_exit = self.new("exc_exit", self.root.node)
        self.ends = [(g.entry, None)]
        ret_ends = []

        def jret():
            ret_ends.extend(self.ends)
            self.ends = []

        self.ctx = Ctx(g.exc_exit, {"ret": jret}, None)
        self.bind_root_params(fr)
        self.stmts(self.root.node.body)
        if self.ends:
            self.define(self.root.node, "$ret", NONE)
            ret_ends.extend(self.ends)
        self.link(ret_ends, g.exit)

    def bind_root_params(self, fr):
        f = self.root
        pos, va, kwo, kw = f.params()
        defs = []
        for i, p in enumerate(pos + ([va] if va else []) + kwo + ([kw] if kw else [])):
            v = ("var", fr.id, p)
            t = self.prog.parse_type(f.module, f.annotation_of(p), f.cls)
            if i == 0 and f.cls is not None and not f.is_static:
                t = (self.root_self_cls or f.cls.qual, ())
                if f.is_class:
                    t = ("builtins.type", (t,))
            if t:
                self.g.ty[v] = t
            defs.append((v, ("param", p)))
        self.emit("def", f.node, defs=defs)

    # ---- variables -----------------------------------------------------------
    def lookup(self, name):
        for ov in reversed(self.overlays):
            fr, m = ov
            if fr is self.frame and name in m:
                return m[name]
        fr = self.frame
        while fr is not None:
            if name in fr.locals:
                return ("var", fr.id, name)
            fr = fr.closure
            # closures see comprehension overlays of their defining frame too
        q = self.prog.resolve_name(self.frame.func.module, name)
        if q:
            return self.glob(q)
        return ("glob", f"?.{name}")

    def glob(self, q):
        # module-level constant?  Propagate simple literals.
        return ("glob", q)

    def define(self, astnode, name, val, t=None):
        v = ("var", self.frame.id, name) if isinstance(name, str) else name
        if isinstance(name, str) and not name.startswith("$"):
            for fr, m in reversed(self.overlays):
                if fr is self.frame and name in m:
                    v = m[name]
                    break
            else:
                fr = self.frame
                if name not in fr.locals:
                    c = fr.closure
                    while c is not None:
                        if name in c.locals:
                            v = ("var", c.id, name)
                            break
                        c = c.closure
        t = t or self.type_of(val)
        if t:
            self.g.ty[v] = t
        return self.emit("def", astnode, defs=[(v, val)])

    # ---- types ------------------------------------------------------------
    def type_of(self, e):
        t = self.g.ty.get(e)
        if t is not None:
            return t
        k = e[0]
        if k == "glob":
            if e[1] in self.prog.classes:
                return ("builtins.type", ((e[1], ()),))
            mod, _, name = e[1].rpartition(".")
            m = self.prog.modules.get(mod)
            if m is not None and isinstance(m.assigns.get(name), ast.Call):
                q = self.prog.resolve_expr(m, m.assigns[name].func)
                if q in self.prog.classes:
                    return (q, ())
            return None
        if k == "attr":
            bt = self.type_of(e[1])
            if bt:
                if bt[0] == "builtins.type" and bt[1] and bt[1][0]:
                    return self.prog.attr_type(bt[1][0][0], e[2])
                return self.prog.attr_type(bt[0], e[2])
            return None
        if k == "sub":
            bt = self.type_of(e[1])
            if bt:
                last = bt[0].rsplit(".", 1)[-1]
                if last in MAPPINGS and len(bt[1]) == 2:
                    return bt[1][1]
                if last == "tuple" and e[2][0] == "const" and isinstance(e[2][2], int) and bt[1]:
                    i = e[2][2]
                    if 0 <= i < len(bt[1]):
                        return bt[1][i]
                if last in ITERABLES and bt[1]:
                    return bt[1][0]
                c = self.prog.classes.get(bt[0])
                if c is not None:
                    f = self.prog.find_method(bt[0], "__getitem__")
                    if f is not None:
                        return self.prog.return_type(f)
                    for k2 in self.prog.mro(c):
                        for b in k2.node.bases:
                            t2 = self.prog.parse_type(k2.module, b)
                            if t2 and t2[0].rsplit(".", 1)[-1] in MAPPINGS and len(t2[1]) == 2:
                                return t2[1][1]
            return None
        if k == "item":
            bt = self.type_of(e[1])
            if bt and bt[0].rsplit(".", 1)[-1] == "tuple" and bt[1] and isinstance(e[2], int) and e[2] < len(bt[1]):
                return bt[1][e[2]]
            return None
        if k == "ifexp":
            return self.type_of(e[2]) or self.type_of(e[3])
        if k == "or":
            return self.type_of(e[1][0])
        if k == "comp":
            return None
        return None

    def elem_type(self, e):
        t = self.type_of(e)
        if t is None:
            return None
        return self._elem_of_type(t)

    def _elem_of_type(self, t):
        last = t[0].rsplit(".", 1)[-1]
        if last in ITERABLES and t[1]:
            return t[1][0]
        if last in MAPPINGS and t[1]:
            return t[1][0]
        if last == "tuple" and t[1]:
            return t[1][0]
        c = self.prog.classes.get(t[0])
        if c is not None:
            f = self.prog.find_method(t[0], "__iter__")
            if f is not None:
                rt = self.prog.return_type(f)
                if rt and rt[0] != t[0]:
                    return self._elem_of_type(rt)
                nf = self.prog.find_method(t[0], "__next__")
                if nf is not None:
                    return self.prog.return_type(nf)
        return None

    # ---- statements ---------------------------------------------------------
    def stmts(self, body):
        for s in body:
            if not self.ends:
                break
            self.stmt(s)

    def stmt(self, s):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.emit("nop", s)
            return
        m(s)

    def s_Pass(self, s):
        self.emit("nop", s)

    s_Global = s_Nonlocal = s_TypeAlias = s_ClassDef = s_Pass

    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        self.ex(s.value)

    def s_Import(self, s):
        for al in s.names:
            nm = (al.asname or al.name).split(".")[0]
            q = al.name if al.asname else al.name.split(".")[0]
            n = self.define(s, nm, ("glob", q))
            if any("ImportError" in (ast.unparse(h.type) if h.type else "") for h in self.try_handlers()):
                self.exc_edge(n)

    def s_ImportFrom(self, s):
        mod = self.frame.func.module
        base = mod.rel(s.level, s.module) if s.level else s.module
        for al in s.names:
            q = self.prog.canon(f"{base}.{al.name}")
            n = self.define(s, al.asname or al.name, ("glob", q))
            if any("ImportError" in (ast.unparse(h.type) if h.type else "") for h in self.try_handlers()):
                self.exc_edge(n)

    def try_handlers(self):
        return self._handlers[-1] if getattr(self, "_handlers", None) else []

    def s_FunctionDef(self, s):
        f = Func(f"{self.frame.func.qual}.<locals>.{s.name}", s.name, s, self.frame.func.module,
                 cls=None, parent=self.frame.func)
        self.frame.nested[s.name] = f
        self.define(s, s.name, ("func", f.qual, self.frame.id))

    s_AsyncFunctionDef = s_FunctionDef

    def s_Return(self, s):
        v = self.ex(s.value) if s.value is not None else NONE
        if not self.ends:
            return
        self.define(s, "$ret", v)
        self.emit("return", s, value=v)
        self.ctx.jump["ret"]()

    def s_Assign(self, s):
        v = self.ex(s.value)
        for t in s.targets:
            self.assign(t, v, s)

    def s_AnnAssign(self, s):
        if s.value is None:
            if isinstance(s.target, ast.Name):
                t = self.prog.parse_type(self.frame.func.module, s.annotation, self.frame.func.cls)
                if t:
                    self.g.ty[self.lookup(s.target.id)] = t
            return
        v = self.ex(s.value)
        if isinstance(s.target, ast.Name):
            t = self.prog.parse_type(self.frame.func.module, s.annotation, self.frame.func.cls)
            self.define(s, s.target.id, v, t)
        else:
            self.assign(s.target, v, s)

    def s_AugAssign(self, s):
        op = type(s.op).__name__
        if isinstance(s.target, ast.Name):
            old = self.lookup(s.target.id)
            v = self.ex(s.value)
            self.define(s, s.target.id, ("op", "Aug" + op, (old, v)))
            return
        if isinstance(s.target, ast.Attribute):
            b = self.ex(s.target.value)
            v = self.ex(s.value)
            self.emit("attrstore", s, base=b, name=s.target.attr, value=v, aug=op)
            return
        if isinstance(s.target, ast.Subscript):
            b = self.ex(s.target.value)
            k = self.ex(s.target.slice)
            v = self.ex(s.value)
            self.emit("substore", s, base=b, key=k, value=v, aug=op)

    def assign(self, t, v, s):
        if not self.ends:
            return
        if isinstance(t, ast.Name):
            if t.id not in self.frame.method_alias and isinstance(getattr(s, "value", None), ast.Attribute):
                self.frame.method_alias[t.id] = v
            self.define(s, t.id, v)
        elif isinstance(t, ast.Attribute):
            b = self.ex(t.value)
            self.emit("attrstore", s, base=b, name=t.attr, value=v, aug=None)
        elif isinstance(t, ast.Subscript):
            b = self.ex(t.value)
            k = self.ex(t.slice)
            self.emit("substore", s, base=b, key=k, value=v, aug=None)
        elif isinstance(t, (ast.Tuple, ast.List)):
            elts = t.elts
            if v[0] in ("tuple", "list") and len(v[1]) == len(elts) and not any(
                isinstance(x, ast.Starred) for x in elts
            ):
                vals = list(v[1])
                if all(isinstance(x, ast.Name) for x in elts):
                    # simultaneous assignment
                    tmps = []
                    for i, x in enumerate(vals):
                        nm = f"$u{next(self.g._ctr)}"
                        self.define(s, nm, x)
                        tmps.append(("var", self.frame.id, nm))
                        if self.type_of(x):
                            self.g.ty[tmps[-1]] = self.type_of(x)
                    for x, tv in zip(elts, tmps):
                        self.assign(x, tv, s)
                    return
                for x, tv in zip(elts, vals):
                    self.assign(x, tv, s)
                return
            if v[0] not in ("var", "tmp"):
                nm = f"$u{next(self.g._ctr)}"
                ty = self.type_of(v)
                self.define(s, nm, v)
                v = ("var", self.frame.id, nm)
                if ty:
                    self.g.ty[v] = ty
            n = self.emit("unpack", s, value=v, count=len(elts))
            if self._catches("ValueError", "LookupError", "IndexError"):
                self.exc_edge(n)
            star = next((i for i, x in enumerate(elts) if isinstance(x, ast.Starred)), None)
            for i, x in enumerate(elts):
                if isinstance(x, ast.Starred):
                    self.assign(x.value, ("rest", v, i), s)
                else:
                    idx = i if star is None or i < star else i - len(elts)
                    self.assign(x, ("item", v, idx), s)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, s)

    def _catches(self, *names):
        for h in self.try_handlers():
            if h.type is None:
                continue
            tx = ast.unparse(h.type)
            if any(nm in tx for nm in names):
                return True
        return False

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                b = self.ex(t.value)
                k = self.ex(t.slice)
                n = self.emit("delsub", s, base=b, key=k)
                self.exc_edge(n)
            elif isinstance(t, ast.Attribute):
                b = self.ex(t.value)
                self.emit("delattr", s, base=b, name=t.attr)
            elif isinstance(t, ast.Name):
                self.emit("nop", s)

    def s_Assert(self, s):
        t, f = self.cond(s.test)
        if f:
            self.ends = f
            n = self.emit("raise", s, exc="builtins.AssertionError", value=None, is_assert=True)
            self.exc_edge(n)
        self.ends = t

    def s_Raise(self, s):
        if s.exc is None:
            types = self.frame.handler_types[-1] if self.frame.handler_types else None
            q = types[0] if types and len(types) == 1 else "E"
            n = self.emit("raise", s, exc=q, value=None, bare=True)
            self.exc_edge(n)
            self.ends = []
            return
        v = self.ex(s.exc)
        if s.cause is not None and not isinstance(s.cause, ast.Constant):
            self.ex(s.cause)
        if not self.ends:
            return
        q = "E"
        t = self.type_of(v)
        if v[0] == "glob":
            q = v[1]
        elif v[0] == "tmp" and self.g.nodes[v[1]].kind == "call" and self.g.nodes[v[1]].callee:
            c = self.g.nodes[v[1]].callee
            q = c if (c in self.prog.classes or c.rsplit(".", 1)[-1][:1].isupper()) else "E"
        elif t and t[0] not in ("builtins.type",):
            q = t[0]
        n = self.emit("raise", s, exc=q, value=v)
        self.exc_edge(n)
        self.ends = []

    def s_If(self, s):
        t, f = self.cond(s.test)
        self.ends = t
        self.stmts(s.body)
        out = self.ends
        self.ends = f
        self.stmts(s.orelse)
        self.ends = out + self.ends

    def s_While(self, s):
        head = self.emit("nop", s, loop=True)
        t, f = self.cond(s.test)
        brk = []
        self.loop_body(s.body, t, head, brk)
        self.ends = f
        self.stmts(s.orelse)
        self.ends = self.ends + brk

    def loop_body(self, body, ends, head, brk):
        saved = self.ctx

        def jb():
            brk.extend(self.ends)
            self.ends = []

        def jc():
            self.link(self.ends, head)
            self.ends = []

        self.ctx = saved.replace()
        self.ctx.jump["brk"] = jb
        self.ctx.jump["cont"] = jc
        self.ends = ends
        self.stmts(body)
        self.link(self.ends, head)
        self.ends = []
        self.ctx = saved

    def s_Break(self, s):
        self.emit("nop", s)
        self.ctx.jump["brk"]()

    def s_Continue(self, s):
        self.emit("nop", s)
        self.ctx.jump["cont"]()

    def s_For(self, s):
        gen = self.inlinable_generator(s.iter)
        if gen is not None:
            self.for_generator(s, gen)
            return
        src, target, start = self.enumerated(s.iter, s.target)
        it = self.ex(src)
        head = self.emit("iter", s, iterable=it)
        if self._iter_may_raise(it):
            self.exc_edge(head)
        el = ("elem", head.id)
        t = self.elem_type(it)
        if t:
            self.g.ty[el] = t
        brk = []
        self.ends = [(head, "elem")]
        if start is not None:
            self.assign(s.target.elts[0], ("enumidx", head.id, start), s)
        self.assign(target, el, s)
        self.loop_body(s.body, self.ends, head, brk)
        self.ends = [(head, "done")]
        self.stmts(s.orelse)
        self.ends = self.ends + brk

    s_AsyncFor = s_For

    def enumerated(self, it, target):
        """(iterable, target, start) of a loop, seen through enumerate()."""
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "enumerate" and isinstance(target, ast.Tuple) and len(
                target.elts) == 2 and it.args and not any(isinstance(x, ast.Starred) for x in [*it.args, *target.elts]):
            st = it.args[1] if len(it.args) > 1 else it.keywords[0].value if it.keywords else None
            if st is None or isinstance(st, ast.Constant):
                return it.args[0], target.elts[1], const(st.value if st is not None else 0)
        return it, target, None

    def _iter_may_raise(self, it):
        return False

    def inlinable_generator(self, it):
        if not isinstance(it, ast.Call):
            return None
        r = self.resolve_call(it)
        if r is None:
            return None
        f = r[0]
        if isinstance(f, Func) and f.is_generator and not f.is_ctxmgr and self.may_inline(f):
            # recursion via yield-from is left opaque
            if any(isinstance(x, ast.YieldFrom) for x in ast.walk(f.node)):
                return None
            return r
        return None

    def for_generator(self, s, r):
        f, recv, closure, self_cls = r
        args, kwargs, star = self.eval_args(s.iter)
        outer_ctx, outer_frame = self.ctx, self.frame
        outer_handlers = list(getattr(self, "_handlers", []))
        brk_ends = []

        def jb():
            brk_ends.extend(self.ends)
            self.ends = []

        def on_yield(val, ynode):
            gen_ctx, gen_frame = self.ctx, self.frame
            gen_handlers = self._handlers
            self.frame = outer_frame
            self._handlers = outer_handlers
            cont = []

            def jc():
                cont.extend(self.ends)
                self.ends = []

            self.ctx = outer_ctx.replace()
            self.ctx.jump["brk"] = jb
            self.ctx.jump["cont"] = jc
            self.assign(s.target, val, s)
            self.stmts(s.body)
            self.ends = self.ends + cont
            self.ctx, self.frame = gen_ctx, gen_frame
            self._handlers = gen_handlers
            return NONE

        self._handlers = list(getattr(self, "_handlers", []))
        self.do_inline(s.iter, f, recv, closure, self_cls, args, kwargs, star, yld=on_yield)
        self.stmts(s.orelse)
        self.ends = self.ends + brk_ends

    # ---- try / with -----------------------------------------------------------
    def s_Try(self, s):
        if s.finalbody:
            self.with_finally(lambda: self.try_core(s), lambda kind: self.stmts(s.finalbody), s)
        else:
            self.try_core(s)

    s_TryStar = s_Try

    def with_finally(self, body_fn, final_fn, s):
        outer = self.ctx
        exc_entry = self.new("nop", s, finally_exc=True)
        pending = {}
        inner = outer.replace(exc=exc_entry)

        def mk(kind):
            def j():
                pending.setdefault(kind, []).extend(self.ends)
                self.ends = []

            return j

        for kind in outer.jump:
            inner.jump[kind] = mk(kind)
        self.ctx = inner
        body_fn()
        self.ctx = outer
        if self.ends:
            final_fn("normal")
        normal = self.ends
        for kind, ends in pending.items():
            self.ends = ends
            if self.ends:
                final_fn(kind)
            if self.ends:
                outer.jump[kind]()
        self.ends = [(exc_entry, None)]
        final_fn("exc")
        if self.ends:
            n = self.emit("reraise", s)
            n.succ.append((outer.exc, "exc"))
        self.ends = normal

    def exc_types(self, h):
        if h.type is None:
            return None
        elts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        out = []
        for e in elts:
            q = None
            if isinstance(e, ast.Name):
                v = self.lookup(e.id)
                if v[0] == "glob":
                    q = v[1]
            if q is None:
                q = self.prog.resolve_expr(self.frame.func.module, e)
            out.append(q or "?." + ast.unparse(e))
        return tuple(out)

    def try_core(self, s):
        if not s.handlers:
            self.stmts(s.body)
            return
        outer = self.ctx
        hentry = self.new("nop", s, handlers=True)
        self.ctx = outer.replace(exc=hentry)
        if not hasattr(self, "_handlers"):
            self._handlers = []
        self._handlers.append(s.handlers)
        self.stmts(s.body)
        self._handlers.pop()
        self.ctx = outer
        if self.ends:
            self.stmts(s.orelse)
        out = self.ends
        self.ends = [(hentry, None)]
        for h in s.handlers:
            types = self.exc_types(h)
            n = self.emit("branch", h, atom=("excis", types))
            self.ends = [(n, True)]
            if h.name:
                self.define(h, h.name, ("exc", n.id), (types[0], ()) if types and len(types) == 1 else None)
            self.frame.handler_types.append(types)
            self.stmts(h.body)
            self.frame.handler_types.pop()
            out = out + self.ends
            self.ends = [(n, False)] if types is not None else []
        if self.ends:
            n = self.emit("reraise", s)
            n.succ.append((outer.exc, "exc"))
        self.ends = out

    def s_With(self, s):
        self.with_items(list(s.items), lambda: self.stmts(s.body), s)

    s_AsyncWith = s_With

    def with_items(self, items, body_fn, s):
        if not items:
            body_fn()
            return
        item, rest = items[0], items[1:]
        inner = lambda: self.with_items(rest, body_fn, s)  # noqa: E731
        ce = item.context_expr
        if isinstance(ce, ast.Call):
            r = self.resolve_call(ce)
            if r is not None and isinstance(r[0], Func) and r[0].is_ctxmgr and self.may_inline(r[0]):
                self.with_generator(item, r, inner, s)
                return
        v = self.ex(ce)
        if not self.ends:
            return
        t = self.type_of(v)
        ef = self.prog.find_method(t[0], "__enter__") if t else None
        xf = self.prog.find_method(t[0], "__exit__") if t else None
        if ef is not None and xf is not None and self.may_inline(ef) and self.may_inline(xf):
            nm = f"$cm{next(self.g._ctr)}"
            self.define(s, nm, v)
            cm = ("var", self.frame.id, nm)
            self.g.ty[cm] = t
            self.emit("wenter", s, cm=cm, repo=True)
            ev = self.do_inline(s, ef, cm, None, t[0], [], {}, False)
            if item.optional_vars is not None:
                if not self.type_of(ev):
                    self.g.ty[ev] = t
                self.assign(item.optional_vars, ev, s)

            outer = self.ctx
            swallow = []

            def final(kind):
                if kind == "exc":
                    args = [("unknown", "exc_type"), ("unknown", "exc_value"), ("unknown", "tb")]
                else:
                    args = [NONE, NONE, NONE]
                rv = self.do_inline(s, xf, cm, None, t[0], args, {}, False)
                self.emit("wexit", s, cm=cm, how=kind)
                if kind == "exc" and self.ends:
                    n = self.emit("branch", s, atom=("truth", rv))
                    swallow.append((n, True))
                    self.ends = [(n, False)]

            self.with_finally(inner, final, s)
            self.ends = self.ends + swallow
            return
        # external context manager
        nm = f"$cm{next(self.g._ctr)}"
        self.define(s, nm, v)
        cm = ("var", self.frame.id, nm)
        if t:
            self.g.ty[cm] = t
        n = self.emit("wenter", s, cm=cm, repo=False)
        if item.optional_vars is not None:
            ev = ("entered", cm)
            if t:
                # open()-like CMs: Iterator[X] / AbstractContextManager[X] give X; classes give themselves
                last = t[0].rsplit(".", 1)[-1]
                et = t[1][0] if last in ("Iterator", "AbstractContextManager", "Generator") and t[1] else t
                if et:
                    self.g.ty[ev] = et
            self.assign(item.optional_vars, ev, s)
        supp = None
        if v[0] == "tmp" and self.g.nodes[v[1]].kind == "call" and (self.g.nodes[v[1]].callee or "").endswith(
            "contextlib.suppress"
        ):
            supp = tuple(a[1] if a[0] == "glob" else "?" for a in self.g.nodes[v[1]].args)
        swallow = []

        def final(kind):
            self.emit("wexit", s, cm=cm, how=kind)
            if kind == "exc" and supp:
                b = self.emit("branch", s, atom=("excis", supp))
                swallow.append((b, True))
                self.ends = [(b, False)]

        self.with_finally(inner, final, s)
        self.ends = self.ends + swallow

    def with_generator(self, item, r, inner, s):
        f, recv, closure, self_cls = r
        args, kwargs, star = self.eval_args(item.context_expr)
        if not self.ends:
            return
        outer_ctx, outer_frame = self.ctx, self.frame
        outer_handlers = list(getattr(self, "_handlers", []))
        wx = ("var", outer_frame.id, f"$wx{next(self.g._ctr)}")
        kinds = []

        def on_yield(val, ynode):
            gen_ctx, gen_frame, gen_handlers = self.ctx, self.frame, self._handlers
            self.frame = outer_frame
            self._handlers = outer_handlers
            resume = []
            c = outer_ctx.replace(exc=gen_ctx.exc)

            def mk(kind):
                def j():
                    if kind not in kinds:
                        kinds.append(kind)
                    self.emit("def", s, defs=[(wx, const(kind))])
                    resume.extend(self.ends)
                    self.ends = []

                return j

            for kind in outer_ctx.jump:
                c.jump[kind] = mk(kind)
            self.ctx = c
            if item.optional_vars is not None:
                self.assign(item.optional_vars, val, s)
            inner()
            if self.ends:
                self.emit("def", s, defs=[(wx, const("normal"))])
            self.ends = self.ends + resume
            self.ctx, self.frame, self._handlers = gen_ctx, gen_frame, gen_handlers
            return NONE

        self._handlers = list(outer_handlers)
        self.emit("def", s, defs=[(wx, const("normal"))])
        self.do_inline(item.context_expr, f, recv, closure, self_cls, args, kwargs, star, yld=on_yield)
        self._handlers = outer_handlers
        after = self.ends
        for kind in kinds:
            if not after:
                break
            self.ends = after
            b = self.emit("branch", s, atom=("eq", wx, const(kind)))
            self.ends = [(b, True)]
            outer_ctx.jump[kind]()
            after = [(b, False)]
        self.ends = after

    def s_Match(self, s):
        v = self.ex(s.subject)
        if not self.ends:
            return
        if v[0] not in ("var", "const"):
            nm = f"$m{next(self.g._ctr)}"
            t = self.type_of(v)
            self.define(s, nm, v)
            v = ("var", self.frame.id, nm)
            if t:
                self.g.ty[v] = t
        out = []
        for c in s.cases:
            if not self.ends:
                break
            t, f = self.pattern(c.pattern, v)
            self.ends = t
            if c.guard is not None and self.ends:
                t2, f2 = self.cond(c.guard)
                f = f + f2
                self.ends = t2
            self.stmts(c.body)
            out += self.ends
            self.ends = f
        self.ends = out + self.ends

    def pattern(self, p, v):
        """Return (match ends, no-match ends); emits captures on match."""
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                if p.name:
                    self.define(p, p.name, v)
                return self.ends, []
            t, f = self.pattern(p.pattern, v)
            self.ends = t
            if t and p.name:
                ty = None
                if isinstance(p.pattern, ast.MatchClass):
                    q = self.prog.resolve_expr(self.frame.func.module, p.pattern.cls)
                    ty = (q, ()) if q else None
                self.define(p, p.name, v, ty)
            return self.ends, f
        if isinstance(p, ast.MatchOr):
            ts, cur = [], None
            for q in p.patterns:
                t, f = self.pattern(q, v)
                ts += t
                self.ends = f
                cur = f
            return ts, cur or []
        if isinstance(p, ast.MatchValue):
            e = self.ex(p.value)
            b = self.emit("branch", p, atom=("eq", v, e))
            return [(b, True)], [(b, False)]
        if isinstance(p, ast.MatchSingleton):
            if p.value is None:
                b = self.emit("branch", p, atom=("isnone", v))
            else:
                b = self.emit("branch", p, atom=("is", v, const(p.value)))
            return [(b, True)], [(b, False)]
        if isinstance(p, ast.MatchClass):
            q = self.prog.resolve_expr(self.frame.func.module, p.cls) or "?." + ast.unparse(p.cls)
            b = self.emit("branch", p, atom=("isinstance", v, (q,)))
            f = [(b, False)]
            self.ends = [(b, True)]
            self.g.ty.setdefault(v, (q, ()))
            cls = self.prog.classes.get(q)
            subs = []
            for i, sp in enumerate(p.patterns):
                nm = cls.fields()[i] if cls and i < len(cls.fields()) else f"${i}"
                subs.append((nm, sp))
            subs += list(zip(p.kwd_attrs, p.kwd_patterns))
            for nm, sp in subs:
                a = ("attr", v, nm)
                at = self.prog.attr_type(q, nm)
                if at:
                    self.g.ty[a] = at
                t2, f2 = self.pattern(sp, a)
                f += f2
                self.ends = t2
            return self.ends, f
        if isinstance(p, ast.MatchSequence):
            b = self.emit("branch", p, atom=("matches", v, f"seq{len(p.patterns)}"))
            f = [(b, False)]
            self.ends = [(b, True)]
            for i, sp in enumerate(p.patterns):
                if isinstance(sp, ast.MatchStar):
                    if sp.name:
                        self.define(p, sp.name, ("rest", v, i))
                    continue
                t2, f2 = self.pattern(sp, ("item", v, i))
                f += f2
                self.ends = t2
            return self.ends, f
        b = self.emit("branch", p, atom=("matches", v, ast.unparse(p)))
        self.ends = [(b, True)]
        if isinstance(p, ast.MatchMapping):
            f = [(b, False)]
            for k, sp in zip(p.keys, p.patterns):
                t2, f2 = self.pattern(sp, ("sub", v, self.ex(k)))
                f += f2
                self.ends = t2
            return self.ends, f
        return [(b, True)], [(b, False)]

    # ---- conditions ---------------------------------------------------------
    def cond(self, e):
        """Lower ``e`` as a condition: returns (true ends, false ends)."""
        if not self.ends:
            return [], []
        if isinstance(e, ast.BoolOp):
            if isinstance(e.op, ast.And):
                fs = []
                for x in e.values:
                    t, f = self.cond(x)
                    fs += f
                    self.ends = t
                    if not t:
                        break
                return self.ends, fs
            ts = []
            for x in e.values:
                t, f = self.cond(x)
                ts += t
                self.ends = f
                if not f:
                    break
            return ts, self.ends
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            t, f = self.cond(e.operand)
            return f, t
        if isinstance(e, ast.Constant):
            return (self.ends, []) if e.value else ([], self.ends)
        if isinstance(e, ast.IfExp):
            t, f = self.cond(e.test)
            self.ends = t
            t1, f1 = self.cond(e.body)
            self.ends = f
            t2, f2 = self.cond(e.orelse)
            return t1 + t2, f1 + f2
        if isinstance(e, ast.NamedExpr):
            v = self.ex(e)
            return self.branch(e, ("truth", v))
        if isinstance(e, ast.Compare):
            left = self.ex(e.left)
            fs = []
            for op, r in zip(e.ops, e.comparators):
                right = self.ex(r)
                if not self.ends:
                    return [], fs
                t, f = self.compare(e, op, left, right)
                fs += f
                self.ends = t
                left = right
            return self.ends, fs
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "isinstance" and len(e.args) == 2:
            v = self.ex(e.args[0])
            elts = e.args[1].elts if isinstance(e.args[1], ast.Tuple) else [e.args[1]]
            qs = tuple(self.prog.resolve_expr(self.frame.func.module, x) or "?." + ast.unparse(x) for x in elts)
            return self.branch(e, ("isinstance", v, qs))
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "bool" and len(e.args) == 1:
            return self.cond(e.args[0])
        if self._is_quant(e):
            return self.quant(e)
        v = self.ex(e)
        if not self.ends:
            return [], []
        return self.branch(e, ("truth", v))

    def _is_quant(self, e):
        return (isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("any", "all")
                and len(e.args) == 1 and not e.keywords and isinstance(e.args[0], (ast.GeneratorExp, ast.ListComp))
                and self.lookup(e.func.id) == ("glob", f"builtins.{e.func.id}"))

    def quant(self, e):
        """any()/all() over a comprehension: lowered to the loop it stands for."""
        is_all = e.func.id == "all"
        comp = e.args[0]
        ov = {}
        heads = []
        self.overlays.append((self.frame, ov))
        short = []
        try:
            for gen in comp.generators:
                src, target, start = self.enumerated(gen.iter, gen.target)
                it = self.ex(src)
                if not self.ends:
                    return [], []
                head = self.emit("iter", gen.iter, iterable=it, quant=True)
                el = ("elem", head.id)
                t = self.elem_type(it)
                if t:
                    self.g.ty[el] = t
                for x in ast.walk(gen.target):
                    if isinstance(x, ast.Name):
                        ov[x.id] = ("var", self.frame.id, f"{x.id}$c{next(self.g._ctr)}")
                self.ends = [(head, "elem")]
                if start is not None:
                    self.assign(gen.target.elts[0], ("enumidx", head.id, start), _FakeAssign(gen.target))
                self.assign(target, el, _FakeAssign(gen.target))
                heads.append(head)
                for c in gen.ifs:
                    t, f = self.cond(c)
                    self.link(f, head)
                    self.ends = t
            if self.ends:
                t, f = self.cond(comp.elt)
                short = f if is_all else t
                self.link(t if is_all else f, heads[-1])
            for i in range(len(heads) - 1, 0, -1):
                heads[i].succ.append((heads[i - 1], "done"))
            done = [(heads[0], "done")]
        finally:
            self.overlays.pop()
        self.ends = []
        return (done, short) if is_all else (short, done)

    def branch(self, e, atom):
        n = self.emit("branch", e, atom=atom)
        self.ends = []
        return [(n, True)], [(n, False)]

    def compare(self, e, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
            neg = isinstance(op, (ast.IsNot, ast.NotEq))
            if b == NONE:
                atom = ("isnone", a)
            elif a == NONE:
                atom = ("isnone", b)
            elif isinstance(op, (ast.Is, ast.IsNot)):
                atom = ("is", a, b)
            else:
                atom = ("eq", a, b)
        elif isinstance(op, (ast.In, ast.NotIn)):
            neg = isinstance(op, ast.NotIn)
            atom = ("in", a, b)
        elif isinstance(op, ast.Lt):
            neg, atom = False, ("lt", a, b)
        elif isinstance(op, ast.GtE):
            neg, atom = True, ("lt", a, b)
        elif isinstance(op, ast.Gt):
            neg, atom = False, ("lt", b, a)
        else:  # LtE
            neg, atom = True, ("lt", b, a)
        n = self.emit("branch", e, atom=atom, rawop=type(op).__name__, raw=(a, b))
        self.ends = []
        t, f = [(n, True)], [(n, False)]
        return (f, t) if neg else (t, f)

    # ---- expressions -----------------------------------------------------------
    def ex(self, e):
        if not self.ends:
            return ("unknown", "unreachable")
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return ("unknown", type(e).__name__)
        return m(e)

    def e_Constant(self, e):
        return const(e.value)

    def e_Name(self, e):
        return self.lookup(e.id)

    def e_Attribute(self, e):
        b = self.ex(e.value)
        if b[0] == "glob":
            q = f"{b[1]}.{e.attr}"
            cq = self.prog.canon(q)
            return ("glob", cq)
        t = self.type_of(b)
        if t:
            cq = t[1][0][0] if t[0] == "builtins.type" and t[1] and t[1][0] else t[0]
            f = self.prog.find_method(cq, e.attr)
            if (
                f is not None and f.is_property and t[0] != "builtins.type" and self.may_inline(f)
                and not self.prog.overridden(f, cq) and len(f.node.body) <= 4 and not f.is_generator
            ):
                return self.do_inline(e, f, b, None, cq, [], {}, False)
        if self._catches("AttributeError") and self.frame_has_try(e):
            n = self.emit("nop", e)
            self.exc_edge(n)
        return ("attr", b, e.attr)

    def frame_has_try(self, e):
        return True

    def e_Subscript(self, e):
        b = self.ex(e.value)
        k = self.ex(e.slice)
        if b[0] == "glob":  # generic alias such as Foo[int]
            if b[1] in self.prog.classes:
                return b
        if self._catches("KeyError", "LookupError", "IndexError") or self._outer_catch_exception():
            n = self.emit("subload", e, base=b, key=k)
            self.exc_edge(n)
        if b[0] in ("tuple",) and k[0] == "const" and isinstance(k[2], int) and -len(b[1]) <= k[2] < len(b[1]):
            return b[1][k[2]]
        return ("sub", b, k)

    def _outer_catch_exception(self):
        return False

    def e_Slice(self, e):
        return ("slice", tuple(self.ex(x) if x is not None else NONE for x in (e.lower, e.upper, e.step)))

    def e_Tuple(self, e):
        return ("tuple", tuple(self.ex(x) for x in e.elts))

    def e_List(self, e):
        return ("list", tuple(self.ex(x) for x in e.elts))

    def e_Set(self, e):
        return ("set", tuple(self.ex(x) for x in e.elts))

    def e_Dict(self, e):
        out = []
        for k, v in zip(e.keys, e.values):
            kk = self.ex(k) if k is not None else ("const", "str", "**")
            out.append((kk, self.ex(v)))
        return ("dict", tuple(out))

    def e_Starred(self, e):
        return ("starred", self.ex(e.value))

    def e_BinOp(self, e):
        a = self.ex(e.left)
        b = self.ex(e.right)
        return ("op", type(e.op).__name__, (a, b))

    def e_UnaryOp(self, e):
        a = self.ex(e.operand)
        if isinstance(e.op, ast.Not):
            return ("not", a)
        if isinstance(e.op, ast.USub) and a[0] == "const" and isinstance(a[2], (int, float)):
            return const(-a[2])
        return ("op", type(e.op).__name__, (a,))

    def e_JoinedStr(self, e):
        parts = []
        for x in e.values:
            if isinstance(x, ast.FormattedValue):
                parts.append(self.ex(x.value))
            elif isinstance(x, ast.Constant):
                parts.append(const(x.value))
        return ("fstr", tuple(parts))

    def _impure(self, e):
        return any(isinstance(x, (ast.Call, ast.NamedExpr, ast.Await, ast.Yield, ast.ListComp, ast.SetComp,
                                  ast.DictComp, ast.GeneratorExp)) for x in ast.walk(e))

    def e_BoolOp(self, e):
        if not any(self._impure(x) for x in e.values[1:]):
            vals = tuple(self.ex(x) for x in e.values)
            return ("and" if isinstance(e.op, ast.And) else "or", vals)
        nm = f"$b{next(self.g._ctr)}"
        v = ("var", self.frame.id, nm)
        out = []
        for i, x in enumerate(e.values):
            if not self.ends:
                break
            if i == len(e.values) - 1:
                val = self.ex(x)
                if self.ends:
                    self.define(x, nm, val)
                out += self.ends
                self.ends = []
            elif self._boolean(x):
                # short-circuit value is a plain bool, not needed as an object
                t, f = self.cond(x)
                stop, go = (f, t) if isinstance(e.op, ast.And) else (t, f)
                self.ends = stop
                if stop:
                    self.define(x, nm, const(not isinstance(e.op, ast.And)))
                out += self.ends
                self.ends = go
            else:
                val = self.ex(x)
                if not self.ends:
                    break
                self.define(x, nm, val)
                t, f = self.branch(x, ("truth", v))
                stop, go = (f, t) if isinstance(e.op, ast.And) else (t, f)
                out += stop
                self.ends = go
        self.ends = out
        return v

    def _boolean(self, e):
        return isinstance(e, (ast.Compare,)) or (isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not)) or (
            isinstance(e, ast.BoolOp) and all(self._boolean(x) for x in e.values)
        ) or (isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("isinstance", "any", "all", "bool", "hasattr"))

    def e_Compare(self, e):
        if len(e.ops) == 1:
            a = self.ex(e.left)
            b = self.ex(e.comparators[0])
            return ("cmp", type(e.ops[0]).__name__, a, b)
        vals = [self.ex(e.left)] + [self.ex(x) for x in e.comparators]
        return ("and", tuple(("cmp", type(op).__name__, vals[i], vals[i + 1]) for i, op in enumerate(e.ops)))

    def e_IfExp(self, e):
        nm = f"$i{next(self.g._ctr)}"
        v = ("var", self.frame.id, nm)
        t, f = self.cond(e.test)
        self.ends = t
        ty = None
        if t:
            a = self.ex(e.body)
            if self.ends:
                self.define(e.body, nm, a)
                ty = self.type_of(a)
        out = self.ends
        self.ends = f
        if f:
            b = self.ex(e.orelse)
            if self.ends:
                self.define(e.orelse, nm, b)
                ty = ty or self.type_of(b)
        self.ends = out + self.ends
        if ty:
            self.g.ty[v] = ty
        return v

    def e_NamedExpr(self, e):
        v = self.ex(e.value)
        if self.ends:
            self.define(e, e.target.id, v)
        return self.lookup(e.target.id)

    def e_Lambda(self, e):
        return ("lambda", self.frame.id, ast.unparse(e))

    def e_Await(self, e):
        return self.ex(e.value)

    def e_Yield(self, e):
        v = self.ex(e.value) if e.value is not None else NONE
        if self.ctx.yld is not None:
            return self.ctx.yld(v, e)
        n = self.emit("yield", e, value=v)
        self.exc_edge(n)
        return ("tmp", n.id)

    def e_YieldFrom(self, e):
        v = self.ex(e.value)
        n = self.emit("yield", e, value=v, yfrom=True)
        self.exc_edge(n)
        return ("tmp", n.id)

    # comprehensions -------------------------------------------------------
    def _comp(self, e, kind, elt_fn):
        first = True
        ov = {}
        heads = []
        self.overlays.append((self.frame, ov))
        init = None
        n = None
        try:
            for gi, gen in enumerate(e.generators):
                src, target, start = self.enumerated(gen.iter, gen.target)
                it = self.ex(src)
                if not self.ends:
                    return ("unknown", "unreachable")
                if init is None:
                    init = self.emit("compinit", e)
                head = self.emit("iter", gen.iter, iterable=it, comp=True)
                el = ("elem", head.id)
                t = self.elem_type(it)
                if t:
                    self.g.ty[el] = t
                for x in ast.walk(gen.target):
                    if isinstance(x, ast.Name):
                        ov[x.id] = ("var", self.frame.id, f"{x.id}$c{next(self.g._ctr)}")
                self.ends = [(head, "elem")]
                if start is not None:
                    self.assign(gen.target.elts[0], ("enumidx", head.id, start), _FakeAssign(gen.target))
                self.assign(target, el, _FakeAssign(gen.target))
                heads.append(head)
                for c in gen.ifs:
                    t, f = self.cond(c)
                    self.link(f, head)
                    self.ends = t
                first = False
            if self.ends:
                elt = elt_fn()
                if self.ends:
                    n = self.emit("compelt", e, value=elt)
                    self.link(self.ends, heads[-1])
            else:
                elt = ("unknown", "unreachable")
            for i in range(len(heads) - 1, 0, -1):
                heads[i].succ.append((heads[i - 1], "done"))
            self.ends = [(heads[0], "done")]
        finally:
            self.overlays.pop()
        ct = ("comp", kind, elt, tuple(h.id for h in heads))
        init.d["compterm"] = ct
        if n is not None:
            n.d["compterm"] = ct
        return ct

    def e_ListComp(self, e):
        return self._comp(e, "list", lambda: self.ex(e.elt))

    def e_SetComp(self, e):
        return self._comp(e, "set", lambda: self.ex(e.elt))

    def e_GeneratorExp(self, e):
        return self._comp(e, "gen", lambda: self.ex(e.elt))

    def e_DictComp(self, e):
        return self._comp(e, "dict", lambda: ("tuple", (self.ex(e.key), self.ex(e.value))))

    # ---- calls -----------------------------------------------------------------
    def may_inline(self, f: Func):
        g = self.g
        if isinstance(f.node, ast.Lambda) or f.is_abstract:
            return False
        if f.qual in g.opaque:
            return False
        if self.frame.depth >= g.max_depth:
            return False
        if any(fr.func.qual == f.qual for fr in self.frame.chain()):
            return False
        if g.inline_pred is not None and not g.inline_pred(f) and not unknown(f):
            return False
        return True

    def resolve_call(self, call):
        """(Func, recv Expr|None, closure frame, self class) for repo callees.

        Does not emit any nodes for simple receivers; receivers with side
        effects are evaluated by the caller via ``ex`` on the same AST.
        """
        fn = call.func
        prog = self.prog
        if isinstance(fn, ast.Name):
            fr = self.frame
            while fr is not None:
                if fn.id in fr.nested:
                    return (fr.nested[fn.id], None, fr, None)
                if fn.id in fr.locals:
                    break
                fr = fr.closure
            v = self.lookup(fn.id)
            if v[0] == "glob":
                f = prog.funcs.get(v[1])
                if f is not None and f.cls is None:
                    return (f, None, None, None)
            return None
        if isinstance(fn, ast.Subscript):
            return None
        if isinstance(fn, ast.Attribute):
            # super().m(...)
            if isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == "super":
                fr = self.frame
                while fr is not None and fr.func.cls is None:
                    fr = fr.closure
                if fr is None:
                    return None
                cq = fr.self_cls or fr.func.cls.qual
                f = prog.find_method(cq, fn.attr, after=fr.func.cls)
                if f is None:
                    return None
                pos = fr.func.params()[0]
                recv = ("var", fr.id, pos[0]) if pos else None
                return (f, recv, None, cq)
            if not _simple(fn.value):
                return None
            save = self.ends
            recv = self.quiet(fn.value)
            if recv is None:
                return None
            return self.resolve_method(recv, fn.attr)
        return None

    def quiet(self, e):
        """Evaluate a simple receiver expression without emitting nodes."""
        if isinstance(e, ast.Name):
            return self.lookup(e.id)
        if isinstance(e, ast.Attribute):
            b = self.quiet(e.value)
            if b is None:
                return None
            if b[0] == "glob":
                return ("glob", self.prog.canon(f"{b[1]}.{e.attr}"))
            return ("attr", b, e.attr)
        if isinstance(e, ast.Subscript):
            return None
        return None

    def resolve_method(self, recv, name):
        prog = self.prog
        if recv[0] == "glob":
            q = prog.canon(f"{recv[1]}.{name}")
            f = prog.funcs.get(q)
            if f is None and recv[1] in prog.classes:
                f = prog.find_method(recv[1], name)
            if f is None:
                t0 = self.type_of(recv)
                if t0 and t0[0] != "builtins.type":
                    f = prog.find_method(t0[0], name)
                    return (f, recv, None, t0[0]) if f is not None else None
                return None
            if f.cls is not None:
                cq = recv[1] if recv[1] in prog.classes else f.cls.qual
                return (f, recv, None, cq)
            return (f, None, None, None)
        t = self.type_of(recv)
        if not t:
            return None
        if t[0] == "builtins.type" and t[1] and t[1][0]:
            f = prog.find_method(t[1][0][0], name)
            return (f, recv, None, t[1][0][0]) if f is not None else None
        f = prog.find_method(t[0], name)
        if f is None:
            return None
        is_self = recv[0] == "var" and self.g.frames[recv[1]].self_cls is not None and recv[2] in ("self", "cls")
        if prog.overridden(f, t[0]) and not (is_self or self._exact(recv)):
            return None
        return (f, recv, None, t[0])

    def _exact(self, recv):
        return False

    def eval_args(self, call):
        args, kwargs, star = [], {}, False
        for a in call.args:
            if isinstance(a, ast.Starred):
                v = self.ex(a.value)
                if v[0] in ("tuple", "list"):
                    args.extend(v[1])
                else:
                    args.append(("starred", v))
                    star = True
            else:
                args.append(self.ex(a))
        for k in call.keywords:
            v = self.ex(k.value)
            if k.arg is None:
                if v[0] == "dict" and all(kk[0] == "const" for kk, _ in v[1]):
                    for kk, vv in v[1]:
                        kwargs[kk[2]] = vv
                else:
                    kwargs["**"] = v
                    star = True
            else:
                kwargs[k.arg] = v
        return args, kwargs, star

    def e_Call(self, e):
        fn = e.func
        if self._is_quant(e):
            t, f = self.quant(e)
            nm = f"$q{next(self.g._ctr)}"
            out = []
            for ends, val in ((t, True), (f, False)):
                self.ends = ends
                if ends:
                    self.define(e, nm, const(val))
                out += self.ends
            self.ends = out
            return ("var", self.frame.id, nm)
        # cast(T, x) is the identity
        r = self.resolve_call(e)
        recv = None
        name = None
        callee = None
        prog = self.prog
        if r is None:
            # Evaluate the function expression (receiver may contain calls).
            if isinstance(fn, ast.Attribute):
                is_super = isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == "super"
                recv = ("super",) if is_super else self.ex(fn.value)
                if not self.ends:
                    return ("unknown", "unreachable")
                name = fn.attr
                if recv[0] == "glob":
                    callee = prog.canon(f"{recv[1]}.{name}")
                elif not is_super:
                    r = self.resolve_method(recv, name)
            elif isinstance(fn, ast.Name):
                v = self.lookup(fn.id)
                name = fn.id
                if v[0] == "glob":
                    callee = v[1]
                elif fn.id in self.frame.method_alias:
                    mv = self.frame.method_alias[fn.id]
                    if mv[0] == "attr":
                        recv, name = mv[1], mv[2]
                        r = self.resolve_method(recv, name)
                    else:
                        recv = v
                else:
                    recv = v
                    t = self.type_of(v)
                    if t and t[0] == "builtins.type" and t[1] and t[1][0]:
                        callee = t[1][0][0]
            elif isinstance(fn, ast.Subscript):
                v = self.ex(fn)
                if v[0] == "glob":
                    callee = v[1]
                    name = v[1].rsplit(".", 1)[-1]
                else:
                    b = self.quiet(fn.value) if isinstance(fn.value, (ast.Name, ast.Attribute)) else None
                    if b and b[0] == "glob":
                        callee, name = b[1], b[1].rsplit(".", 1)[-1]
                    else:
                        recv = v
            else:
                recv = self.ex(fn)
                if not self.ends:
                    return ("unknown", "unreachable")
        args, kwargs, star = self.eval_args(e)
        if not self.ends:
            return ("unknown", "unreachable")
        if r is not None:
            f, rcv, closure, self_cls = r
            if not f.is_generator and self.may_inline(f):
                return self.do_inline(e, f, rcv, closure, self_cls, args, kwargs, star)
            callee = f.qual
            recv = rcv if rcv is not None else recv
            name = f.name
        if callee == "typing.cast" and len(args) == 2:
            t = prog.parse_type(self.frame.func.module, e.args[0], self.frame.func.cls)
            v = args[1]
            if t:
                nm = f"$k{next(self.g._ctr)}"
                self.define(e, nm, v, t)
                return ("var", self.frame.id, nm)
            return v
        if callee in ("sys.exit", "builtins.exit", "os._exit"):
            n = self.emit("call", e, callee=callee, name=name, recv=None, args=args, kwargs=kwargs, recv_type=None)
            n2 = self.emit("raise", e, exc="builtins.SystemExit", value=args[0] if args else NONE)
            self.exc_edge(n2)
            self.ends = []
            return ("unknown", "noreturn")
        rtype = None
        rt = self.type_of(recv) if recv is not None and recv[0] != "super" else None
        if callee in prog.classes:
            rtype = (callee, ())
            if callee in self.g.ctors:
                f = prog.find_method(callee, "__init__")
                if f is not None and self.may_inline(f):
                    n = self.emit("call", e, callee=callee, name=name or callee.rsplit(".", 1)[-1], recv=recv, args=args,
                                  kwargs=kwargs, recv_type=None, ctor=True)
                    obj = ("tmp", n.id)
                    self.g.ty[obj] = rtype
                    self.do_inline(e, f, obj, None, callee, args, kwargs, star)
                    return obj
        elif callee in prog.funcs:
            rtype = prog.return_type(prog.funcs[callee], None)
            f0 = prog.funcs[callee]
            if f0.cls is not None and r is not None and r[3]:
                rtype = prog.return_type(f0, r[3]) if _returns_self(f0) else rtype
        elif callee in PASSTHRU and args:
            et = self.elem_type(args[0])
            if et:
                rtype = ("builtins.$iter", (et,))
        elif callee == "builtins.next" and args:
            rtype = self.elem_type(args[0])
        elif callee == "builtins.enumerate" and args:
            et = self.elem_type(args[0])
            rtype = ("builtins.$iter", (("builtins.tuple", (("builtins.int", ()), et)),))
        elif callee == "builtins.zip" and args:
            rtype = ("builtins.$iter", (("builtins.tuple", tuple(self.elem_type(a) for a in args)),))
        elif callee in ("itertools.chain", "itertools.chain.from_iterable") and args:
            et = self.elem_type(args[0])
            if callee.endswith("from_iterable") and et:
                et = self._elem_of_type(et)
            if et:
                rtype = ("builtins.$iter", (et,))
        elif callee == "builtins.super":
            return ("super",)
        if rtype is None and rt is not None and name is not None:
            last = rt[0].rsplit(".", 1)[-1]
            if last in MAPPINGS and len(rt[1]) == 2:
                k, v = rt[1]
                rtype = {
                    "values": ("builtins.$iter", (v,)), "keys": ("builtins.$iter", (k,)),
                    "items": ("builtins.$iter", (("builtins.tuple", (k, v)),)), "get": v, "pop": v, "setdefault": v,
                    "copy": rt,
                }.get(name)
            elif last in ITERABLES and rt[1]:
                rtype = {"pop": rt[1][0], "popleft": rt[1][0], "copy": rt}.get(name)
            elif rt[0] in prog.classes:
                # mapping-like repo classes
                c = prog.classes[rt[0]]
                for k2 in prog.mro(c):
                    for b in k2.node.bases:
                        t2 = prog.parse_type(k2.module, b)
                        if t2 and t2[0].rsplit(".", 1)[-1] in MAPPINGS and len(t2[1]) == 2:
                            k, v = t2[1]
                            rtype = rtype or {
                                "values": ("builtins.$iter", (v,)), "keys": ("builtins.$iter", (k,)),
                                "items": ("builtins.$iter", (("builtins.tuple", (k, v)),)), "get": v,
                            }.get(name)
        n = self.emit("call", e, callee=callee, name=name or (callee or "?").rsplit(".", 1)[-1], recv=recv, args=args,
                      kwargs=kwargs, recv_type=rt, star=star)
        if not self.noexc(n):
            self.exc_edge(n)
        v = ("tmp", n.id)
        if rtype:
            self.g.ty[v] = rtype
        return v

    def noexc(self, n):
        c = n.callee
        if c and c.startswith("builtins.") and c.split(".", 1)[1] in NOEXC_BUILTINS:
            return True
        if c in NOEXC_QUALS:
            return True
        if c and (c.startswith("builtins.") and c.endswith(("Error", "Exception", "Iteration"))):
            return True
        if c in self.prog.classes and any(b.endswith(("Error", "Exception")) for b in self.prog.all_base_quals(c)):
            return True
        if n.name in NOEXC_METHODS and n.recv is not None or (c and c.rsplit(".", 1)[-1] in NOEXC_METHODS
                                                              and c.rsplit(".", 2)[-2] in LOGGER_NAMES):
            rt = n.recv_type
            if rt is not None and rt[0].startswith("lsst.") and n.name in ("update", "add", "copy", "join", "clear",
                                                                           "append", "extend", "log"):
                return False
            return True
        return False

    def do_inline(self, site, f: Func, recv, closure, self_cls, args, kwargs, star, yld=None):
        g = self.g
        g.inlined.add(f.qual)
        outer_frame, outer_ctx = self.frame, self.ctx
        args = list(args)
        pos, va, kwo, kw = f.params()
        pos = list(pos)
        enter = self.emit("enter", site, callee=f.qual, name=f.name, recv=recv, args=list(args), kwargs=dict(kwargs))
        fr = self.new_frame(f, closure, outer_frame)
        fr.self_cls = self_cls
        binds = {}
        if f.cls is not None and not f.is_static:
            if pos:
                p0 = pos.pop(0)
                if recv is not None:
                    binds[p0] = recv
                if f.is_class:
                    binds[p0] = ("glob", self_cls) if self_cls else (recv or ("unknown", "cls"))
        n_pos = len(pos)
        extra = []
        starred = None
        for i, a in enumerate(args):
            if a[0] == "starred":
                starred = a
                break
            if i < n_pos:
                binds[pos[i]] = a
            else:
                extra.append(a)
        for k, v in kwargs.items():
            if k == "**":
                continue
            binds[k] = v
        if va:
            binds[va] = ("tuple", tuple(extra)) if starred is None else starred[1]
        if kw:
            known = set(pos) | set(kwo)
            binds[kw] = ("dict", tuple((const(k), v) for k, v in kwargs.items() if k not in known and k != "**"))
        allp = list(f.params()[0]) + ([va] if va else []) + kwo + ([kw] if kw else [])
        # types are computed in the caller frame
        defs, types = [], {}
        for p in allp:
            v = binds.get(p)
            if v is not None:
                at = self.type_of(v)
                ann = self.prog.parse_type(f.module, f.annotation_of(p), f.cls)
                if p in ("self",) and self_cls:
                    ann = (self_cls, ())
                if p == "cls" and f.is_class and self_cls:
                    ann = ("builtins.type", ((self_cls, ()),))
                types[p] = ann or at
                if at and ann and at[0] in self.prog.classes and ann[0] in self.prog.all_base_quals(at[0]):
                    types[p] = at
                defs.append((p, v))
        self.frame = fr
        self.ctx = Ctx(outer_ctx.exc, {}, yld)
        for p in allp:
            if p not in binds:
                d = f.default_of(p)
                if d is not None and not (star and starred is not None):
                    if isinstance(d, ast.Constant):
                        v = const(d.value)
                    elif isinstance(d, ast.Tuple) and not d.elts:
                        v = ("tuple", ())
                    else:
                        q = self.prog.resolve_expr(f.module, d)
                        v = ("glob", q) if q else ("unknown", "default")
                else:
                    v = ("unknown", f"arg:{p}")
                types[p] = self.prog.parse_type(f.module, f.annotation_of(p), f.cls)
                if p == "self" and self_cls:
                    types[p] = (self_cls, ())
                defs.append((p, v))
        dd = []
        for p, v in defs:
            var = ("var", fr.id, p)
            if types.get(p):
                g.ty[var] = types[p]
            dd.append((var, v))
        if dd:
            self.emit("def", site, defs=dd, binds=True)
        ret_ends = []

        def jret():
            ret_ends.extend(self.ends)
            self.ends = []

        self.ctx.jump["ret"] = jret
        saved_handlers = getattr(self, "_handlers", [])
        self._handlers = list(saved_handlers)
        self.stmts(f.node.body)
        self._handlers = saved_handlers
        if self.ends:
            self.define(f.node, "$ret", NONE)
            ret_ends.extend(self.ends)
        self.frame, self.ctx = outer_frame, outer_ctx
        self.ends = ret_ends
        rv = ("var", fr.id, "$ret")
        if self.ends:
            self.emit("leave", site, callee=f.qual, name=f.name, value=rv, enter=enter.id)
        rt = self.prog.return_type(f, self_cls if _returns_self(f) else None)
        if rt and rv not in g.ty:
            g.ty[rv] = rt
        elif rt and rt[0].startswith(PKG) and not (g.ty.get(rv) or ("",))[0].startswith(PKG):
            g.ty[rv] = rt
        return rv


def _returns_self(f):
    r = getattr(f.node, "returns", None)
    return isinstance(r, ast.Name) and r.id == "Self"


def _simple(e):
    while isinstance(e, ast.Attribute):
        e = e.value
    return isinstance(e, ast.Name)


class _FakeAssign:
    def __init__(self, t):
        self.lineno = getattr(t, "lineno", 0)
        self.value = None
