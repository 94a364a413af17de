"""Program model: parse every module of the package under analysis and resolve
names, classes, methods, and (annotation-driven) types.

Nothing here imports or executes the analysed code; it only reads source text.
"""

from __future__ import annotations

import ast
import builtins
import dataclasses
import os

PKG = "lsst.pipe.base"
BUILTINS = set(dir(builtins))


class AnalysisError(Exception):
    """The analysis cannot be carried out (e.g. an anchor vanished)."""


@dataclasses.dataclass(eq=False)
class Func:
    qual: str
    name: str
    node: ast.AST  # FunctionDef / AsyncFunctionDef / Lambda
    module: "Module"
    cls: "Class | None" = None
    parent: "Func | None" = None

    def __post_init__(self):
        n = self.node
        decos = set()
        for d in getattr(n, "decorator_list", []):
            e = d.func if isinstance(d, ast.Call) else d
            decos.add(ast.unparse(e))
        self.decorators = decos
        last = {d.rsplit(".", 1)[-1] for d in decos}
        self.is_static = "staticmethod" in last
        self.is_class = "classmethod" in last
        self.is_property = bool(last & {"property", "cached_property"})
        self.is_setter = any(d.endswith(".setter") for d in decos)
        self.is_ctxmgr = "contextmanager" in last
        self.is_abstract = "abstractmethod" in last
        self.is_generator = False if isinstance(n, ast.Lambda) else _has_yield(n.body)
        self.locals = None

    @property
    def file(self):
        return self.module.relpath

    def loc(self, node=None):
        return f"{self.module.relpath}:{getattr(node or self.node, 'lineno', 0)}"

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args], (a.vararg.arg if a.vararg else None), [
            x.arg for x in a.kwonlyargs
        ], (a.kwarg.arg if a.kwarg else None)

    def annotation_of(self, pname):
        a = self.node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
            if x.arg == pname:
                return x.annotation
        return None

    def default_of(self, pname):
        a = self.node.args
        pos = a.posonlyargs + a.args
        for x, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            if x.arg == pname:
                return d
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg == pname:
                return d
        return None

    def local_names(self):
        if self.locals is None:
            self.locals = _local_names(self.node)
        return self.locals


def _has_yield(stmts):
    stack = list(stmts)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


def _local_names(fn):
    """Names bound in this function's own scope (not nested scopes)."""
    names = set()
    nonlocal_ = set()
    a = fn.args
    for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
        names.add(x.arg)
    stack = list(fn.body) if not isinstance(fn, ast.Lambda) else [fn.body]
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            names.add(n.name)
            continue
        if isinstance(n, ast.Lambda):
            continue
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            # Only walrus targets inside leak into this scope.
            for m in ast.walk(n):
                if isinstance(m, ast.NamedExpr):
                    names.add(m.target.id)
            continue
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            names.add(n.id)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                names.add((al.asname or al.name).split(".")[0])
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            names.add(n.name)
        elif isinstance(n, ast.MatchMapping) and n.rest:
            names.add(n.rest)
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            nonlocal_.update(n.names)
        stack.extend(ast.iter_child_nodes(n))
    return names - nonlocal_


@dataclasses.dataclass(eq=False)
class Class:
    qual: str
    name: str
    node: ast.ClassDef
    module: "Module"

    def __post_init__(self):
        self.methods: dict[str, Func] = {}
        self.attr_ann: dict[str, ast.AST] = {}
        self.class_assigns: dict[str, ast.AST] = {}
        self.base_quals: list[str] = []
        self.attr_types: dict[str, object] = {}
        self.is_dataclass = any("dataclass" in ast.unparse(d) for d in self.node.decorator_list)

    def fields(self):
        """Annotated class-level names, in order (dataclass/pydantic fields)."""
        return list(self.attr_ann)


class Module:
    def __init__(self, name, path, relpath, src):
        self.name = name
        self.path = path
        self.relpath = relpath
        self.src = src
        self.is_pkg = os.path.basename(path) == "__init__.py"
        self.tree = ast.parse(src, filename=relpath)
        self.ns: dict[str, str] = {}  # name -> qualname
        self.stars: list[str] = []
        self.funcs: dict[str, Func] = {}
        self.classes: dict[str, Class] = {}
        self.assigns: dict[str, ast.AST] = {}

    def rel(self, level, mod):
        parts = self.name.split(".")
        if not self.is_pkg:
            parts = parts[:-1]
        if level > 1:
            parts = parts[: len(parts) - (level - 1)]
        base = ".".join(parts)
        return f"{base}.{mod}" if mod else base


def _is_sphinx_guard(test):
    return any(isinstance(x, ast.Constant) and x.value == "sphinx" for x in ast.walk(test))


class Program:
    def __init__(self, repo="/repo", include_tests=False, overlay=None):
        self.repo = repo
        self.root = os.path.join(repo, "python", *PKG.split("."))
        if not os.path.isdir(self.root):
            raise AnalysisError(f"package directory {self.root} not found")
        self.modules: dict[str, Module] = {}
        self.funcs: dict[str, Func] = {}
        self.classes: dict[str, Class] = {}
        for dirpath, dirnames, filenames in os.walk(self.root):
            dirnames.sort()
            rel = os.path.relpath(dirpath, self.root)
            if not include_tests and rel.split(os.sep)[0] == "tests":
                continue
            for fn in sorted(filenames):
                if not fn.endswith(".py"):
                    continue
                path = os.path.join(dirpath, fn)
                sub = [] if rel == "." else rel.split(os.sep)
                base = fn[:-3]
                parts = sub + ([] if base == "__init__" else [base])
                name = ".".join([PKG] + parts)
                rp = os.path.relpath(path, repo)
                if overlay and rp in overlay:
                    src = overlay[rp]
                else:
                    with open(path, encoding="utf-8") as f:
                        src = f.read()
                try:
                    m = Module(name, path, os.path.relpath(path, repo), src)
                except SyntaxError as e:
                    raise AnalysisError(f"cannot parse {path}: {e}") from e
                self.modules[name] = m
        for m in self.modules.values():
            self._index(m)
        self._canon_cache: dict[str, str] = {}
        for c in self.classes.values():
            for b in c.node.bases:
                e = b.value if isinstance(b, ast.Subscript) else b
                q = self.resolve_expr(c.module, e)
                if q:
                    c.base_quals.append(q)
        self._subclasses: dict[str, set[str]] = {}
        for c in self.classes.values():
            for b in self.mro(c)[1:]:
                self._subclasses.setdefault(b.qual, set()).add(c.qual)
        for c in self.classes.values():
            self._infer_attrs(c)

    # -- indexing ---------------------------------------------------------
    def _index(self, m: Module):
        self._index_body(m, m.tree.body)

    def _index_body(self, m, body):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Func(f"{m.name}.{s.name}", s.name, s, m)
                m.funcs[s.name] = f
                m.ns[s.name] = f.qual
                self.funcs[f.qual] = f
            elif isinstance(s, ast.ClassDef):
                self._index_class(m, s, m.name)
            elif isinstance(s, ast.Import):
                for al in s.names:
                    if al.asname:
                        m.ns[al.asname] = al.name
                    else:
                        m.ns[al.name.split(".")[0]] = al.name.split(".")[0]
            elif isinstance(s, ast.ImportFrom):
                base = m.rel(s.level, s.module) if s.level else s.module
                for al in s.names:
                    if al.name == "*":
                        m.stars.append(base)
                    else:
                        m.ns[al.asname or al.name] = f"{base}.{al.name}"
            elif isinstance(s, (ast.If, ast.Try)):
                if isinstance(s, ast.If) and _is_sphinx_guard(s.test):
                    continue
                self._index_body(m, s.body)
                self._index_body(m, s.orelse)
                for h in getattr(s, "handlers", []):
                    self._index_body(m, h.body)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        m.assigns[t.id] = s.value
                        m.ns.setdefault(t.id, f"{m.name}.{t.id}")
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                if s.value is not None:
                    m.assigns[s.target.id] = s.value
                m.ns.setdefault(s.target.id, f"{m.name}.{s.target.id}")
            elif isinstance(s, ast.TypeAlias):
                m.assigns[s.name.id] = s.value
                m.ns.setdefault(s.name.id, f"{m.name}.{s.name.id}")

    def _index_class(self, m, node, prefix):
        c = Class(f"{prefix}.{node.name}", node.name, node, m)
        if prefix == m.name:
            m.classes[node.name] = c
            m.ns[node.name] = c.qual
        self.classes[c.qual] = c
        for s in node.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Func(f"{c.qual}.{s.name}", s.name, s, m, cls=c)
                if f.is_setter:
                    f.qual += ".setter"
                    self.funcs[f.qual] = f
                    continue
                if "overload" in {d.rsplit(".", 1)[-1] for d in f.decorators}:
                    continue
                c.methods[s.name] = f
                self.funcs[f.qual] = f
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                c.attr_ann[s.target.id] = s.annotation
                if s.value is not None:
                    c.class_assigns[s.target.id] = s.value
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        c.class_assigns[t.id] = s.value
            elif isinstance(s, ast.ClassDef):
                self._index_class(m, s, c.qual)

    # -- name resolution --------------------------------------------------
    def canon(self, qual: str) -> str:
        """Follow re-exports to the defining module's qualified name."""
        if qual in self._canon_cache if hasattr(self, "_canon_cache") else False:
            return self._canon_cache[qual]
        out = self._canon(qual, 0)
        if hasattr(self, "_canon_cache"):
            self._canon_cache[qual] = out
        return out

    def _canon(self, qual, depth):
        if depth > 12 or qual in self.funcs or qual in self.classes or qual in self.modules:
            return qual
        mod, _, name = qual.rpartition(".")
        if not mod:
            return qual
        mod2 = self._canon(mod, depth + 1) if mod not in self.modules else mod
        if mod2 in self.classes:
            return f"{mod2}.{name}"
        m = self.modules.get(mod2)
        if m is None:
            return f"{mod2}.{name}" if mod2 != mod else qual
        t = m.ns.get(name)
        if t is None:
            for star in m.stars:
                if star in self.modules and self._exports(star, name, 0):
                    return self._canon(f"{star}.{name}", depth + 1)
            return f"{mod2}.{name}"
        if t == qual:
            return qual
        return self._canon(t, depth + 1)

    def _exports(self, modname, name, depth):
        m = self.modules[modname]
        if depth > 6:
            return False
        if name in m.ns:
            return True
        return any(s in self.modules and self._exports(s, name, depth + 1) for s in m.stars)

    def resolve_name(self, module: Module, name: str):
        t = module.ns.get(name)
        if t is not None:
            return self.canon(t)
        for star in module.stars:
            if star in self.modules and self._exports(star, name, 0):
                return self.canon(f"{star}.{name}")
        if name in BUILTINS:
            return f"builtins.{name}"
        return None

    def resolve_expr(self, module: Module, e):
        """Resolve a dotted expression to a qualified name, or None."""
        if isinstance(e, ast.Name):
            return self.resolve_name(module, e.id)
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(module, e.value)
            if b is None:
                return None
            return self.canon(f"{b}.{e.attr}")
        if isinstance(e, ast.Subscript):
            return self.resolve_expr(module, e.value)
        return None

    # -- classes ------------------------------------------------------------
    def mro(self, c: Class) -> list[Class]:
        out, seen = [], set()

        def go(k):
            if k.qual in seen:
                return
            seen.add(k.qual)
            out.append(k)
            for b in k.base_quals:
                bc = self.classes.get(b)
                if bc is not None:
                    go(bc)

        go(c)
        return out

    def all_base_quals(self, qual) -> set[str]:
        """Every (repo or external) base class name reachable from a class."""
        out = {qual}
        c = self.classes.get(qual)
        if c is not None:
            for k in self.mro(c):
                out.add(k.qual)
                out.update(k.base_quals)
        for q in list(out):
            out.update(_builtin_exc_bases(q))
        return out

    def find_method(self, cqual: str, name: str, after: Class | None = None):
        c = self.classes.get(cqual)
        if c is None:
            return None
        skip = after is not None
        for k in self.mro(c):
            if skip:
                if k is after:
                    skip = False
                continue
            if name in k.methods:
                return k.methods[name]
        return None

    def subclasses(self, cqual):
        return self._subclasses.get(cqual, set())

    def overridden(self, f: Func, cqual: str):
        for s in self.subclasses(cqual):
            k = self.classes[s]
            if f.name in k.methods and k.methods[f.name] is not f:
                return True
        return False

    def cls(self, qual) -> Class:
        c = self.classes.get(qual) or self.classes.get(f"{PKG}.{qual}")
        if c is None:
            # Fall back to a unique class of that name anywhere in the package.
            last = qual.rsplit(".", 1)[-1]
            cands = [k for k in self.classes.values() if k.name == last]
            if len(cands) == 1:
                return cands[0]
            raise AnalysisError(f"anchor class {qual} not found")
        return c

    def func(self, qual) -> Func:
        f = self.funcs.get(qual) or self.funcs.get(f"{PKG}.{qual}")
        if f is None:
            head, _, last = qual.rpartition(".")
            cname = head.rsplit(".", 1)[-1]
            cands = [k for k in self.classes.values() if k.name == cname]
            if len(cands) == 1:
                f = self.find_method(cands[0].qual, last)
            if f is None:
                cands = [x for x in self.funcs.values() if x.name == last and x.cls is None]
                if len(cands) == 1:
                    f = cands[0]
            if f is None:
                raise AnalysisError(f"anchor function {qual} not found")
        return f

    # -- types ---------------------------------------------------------------
    def parse_type(self, module: Module, ann, cls: Class | None = None):
        """Annotation AST -> TypeRef (qual, args) or None."""
        if ann is None:
            return None
        if isinstance(ann, ast.Constant):
            if isinstance(ann.value, str):
                try:
                    return self.parse_type(module, ast.parse(ann.value, mode="eval").body, cls)
                except SyntaxError:
                    return None
            return None
        if isinstance(ann, ast.BinOp) and isinstance(ann.op, ast.BitOr):
            cands = [self.parse_type(module, x, cls) for x in (ann.left, ann.right)]
            cands = [c for c in cands if c is not None]
            return cands[0] if len(cands) == 1 else (_pick(cands) if cands else None)
        if isinstance(ann, ast.Name) and ann.id == "Self" and cls is not None:
            return (cls.qual, ())
        if isinstance(ann, (ast.Name, ast.Attribute)):
            q = self.resolve_expr(module, ann)
            if q is None:
                return None
            alias = self._alias(q)
            if alias is not None:
                return alias
            return (q, ())
        if isinstance(ann, ast.Subscript):
            q = self.resolve_expr(module, ann.value)
            sl = ann.slice
            elts = sl.elts if isinstance(sl, ast.Tuple) else [sl]
            last = (q or "").rsplit(".", 1)[-1]
            if last in ("Optional", "Annotated", "Final", "ClassVar", "Required", "NotRequired"):
                return self.parse_type(module, elts[0], cls)
            if last == "Union":
                cands = [c for c in (self.parse_type(module, x, cls) for x in elts) if c is not None]
                return cands[0] if len(cands) == 1 else (_pick(cands) if cands else None)
            args = tuple(self.parse_type(module, x, cls) for x in elts)
            return (q, args) if q else None
        return None

    def _alias(self, q):
        mod, _, name = q.rpartition(".")
        m = self.modules.get(mod)
        if m is None or name not in m.assigns or name in m.classes:
            return None
        v = m.assigns[name]
        if isinstance(v, (ast.BinOp, ast.Subscript, ast.Name, ast.Attribute)):
            if isinstance(v, ast.Name) and v.id == name:
                return None
            return self.parse_type(m, v)
        return None

    def _infer_attrs(self, c: Class):
        for name, ann in c.attr_ann.items():
            c.attr_types[name] = self.parse_type(c.module, ann, c)
        for f in c.methods.values():
            if not isinstance(f.node, (ast.FunctionDef, ast.AsyncFunctionDef)):
                continue
            pos = f.params()[0]
            if not pos or f.is_static or f.is_class:
                continue
            selfname = pos[0]
            for n in ast.walk(f.node):
                t = None
                if isinstance(n, ast.AnnAssign):
                    if _is_self_attr(n.target, selfname):
                        t = self.parse_type(c.module, n.annotation, c)
                        if t is not None:
                            c.attr_types.setdefault(n.target.attr, t)
                elif isinstance(n, ast.Assign):
                    for tg in n.targets:
                        if _is_self_attr(tg, selfname) and tg.attr not in c.attr_types:
                            t = None
                            if isinstance(n.value, ast.Name):
                                t = self.parse_type(c.module, f.annotation_of(n.value.id), c)
                                if t is None:
                                    t = self._local_type(c, f, n.value.id)
                            elif (isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute)
                                  and isinstance(n.value.func.value, ast.Name) and n.value.func.value.id in (selfname, c.name)
                                  and n.value.func.attr in c.methods):
                                m = c.methods[n.value.func.attr]
                                t = self.return_type(m) or self._returned_type(m)
                            else:
                                t = self._expr_type(c.module, n.value)
                            if t is None:
                                t = self._filled_type(c, f, lambda e: _is_self_attr(e, selfname) and e.attr == tg.attr)
                            if t is not None:
                                c.attr_types[tg.attr] = t

    def _returned_type(self, f, busy=set()):
        """Type of what a function without a (known) return annotation returns."""
        if f.qual in busy or not isinstance(f.node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            return None
        busy.add(f.qual)
        try:
            for x in ast.walk(f.node):
                if isinstance(x, ast.Return) and x.value is not None:
                    t = self._local_type(f, f, x.value.id) if isinstance(x.value, ast.Name) else self._expr_type(f.module, x.value)
                    if t is not None:
                        return t
        finally:
            busy.discard(f.qual)
        return None

    def _local_type(self, c, f, name):
        """Type of a local variable, from what is assigned to it or put into it."""
        for n in ast.walk(f.node):
            t = None
            if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.target.id == name:
                t = self.parse_type(c.module, n.annotation, None if c is f else c)
            elif isinstance(n, ast.Assign) and any(isinstance(x, ast.Name) and x.id == name for x in n.targets):
                t = self._expr_type(c.module, n.value)
            if t is not None:
                return t
        return self._filled_type(c, f, lambda e: isinstance(e, ast.Name) and e.id == name)

    def _filled_type(self, c, f, is_it):
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign):
                for tg in n.targets:
                    if isinstance(tg, ast.Subscript) and is_it(tg.value):
                        v = self._value_type(c, f, n.value)
                        if v:
                            return ("builtins.dict", (None, v))
            elif (isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "add") and is_it(n.func.value)
                  and len(n.args) == 1):
                v = self._value_type(c, f, n.args[0])
                if v:
                    return ("builtins.list", (v,))
        return None

    def _value_type(self, c, f, e):
        if isinstance(e, ast.Name):
            for n in ast.walk(f.node):
                if isinstance(n, ast.Assign) and any(isinstance(x, ast.Name) and x.id == e.id for x in n.targets):
                    t = self._expr_type(c.module, n.value)
                    if t is not None:
                        return t
            return None
        return self._expr_type(c.module, e)

    def _expr_type(self, module, e):
        if isinstance(e, ast.Call):
            q = self.resolve_expr(module, e.func)
            if q in self.classes:
                return (q, ())
            if q in self.funcs:
                return self.return_type(self.funcs[q]) or self._returned_type(self.funcs[q])
        elif isinstance(e, ast.DictComp):
            v = self._expr_type(module, e.value)
            if v:
                return ("builtins.dict", (None, v))
        elif isinstance(e, (ast.ListComp, ast.SetComp)):
            v = self._expr_type(module, e.elt)
            if v:
                return ("builtins.list", (v,))
        return None

    def attr_type(self, cqual, name):
        c = self.classes.get(cqual)
        if c is None:
            return None
        for k in self.mro(c):
            if k.attr_types.get(name) is not None:
                return k.attr_types[name]
            if name in k.methods and k.methods[name].is_property:
                return self.return_type(k.methods[name])
        return None

    def return_type(self, f: Func, recv_cls: str | None = None):
        ann = getattr(f.node, "returns", None)
        cls = self.classes.get(recv_cls) if recv_cls else f.cls
        return self.parse_type(f.module, ann, cls or f.cls)


def _is_self_attr(t, selfname):
    return isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == selfname


def _pick(cands):
    for c in cands:
        if c[0].startswith(PKG):
            return c
    return cands[0]


def _builtin_exc_bases(q):
    if q.startswith("builtins."):
        o = getattr(builtins, q.split(".", 1)[1], None)
        if isinstance(o, type):
            return {f"builtins.{k.__name__}" for k in o.__mro__}
    return set()
