"""Dataflow and path queries over the ICFG.

* reaching definitions (bit-vector fixpoint) and canonical value terms;
* branch literals implied by a CFG edge;
* ``Flow.path``: reachability in the product of the ICFG with a finite set of
  tracked branch facts (constants, None-ness, truthiness, correlated tests and
  the class of the exception in flight).  The set of tracked facts is refined
  on demand: a candidate path that contradicts a fact it established itself is
  discarded after adding that fact to the tracked set.  This is ordinary
  path-sensitive dataflow ("property simulation"); nothing is executed and no
  solver is involved.
"""

from __future__ import annotations

import ast
from collections import deque

from .ir import Graph, Node
from .program import Program

MUTATORS = {"append", "add", "discard", "extend", "clear", "update", "setdefault", "remove", "pop", "popitem", "popleft",
            "appendleft", "insert", "difference_update", "intersection_update", "put", "sort", "reverse"}
PURE_PASS = {"builtins.sorted", "builtins.list", "builtins.set", "builtins.tuple", "builtins.frozenset", "builtins.iter",
             "builtins.reversed", "collections.deque", "builtins.enumerate", "itertools.chain", "typing.cast",
             "itertools.chain.from_iterable", "builtins.zip", "copy.copy", "builtins.dict", "builtins.filter"}
PASS_METHODS = {"copy", "values", "keys", "items", "__iter__", "iterator", "intersection", "difference", "union"}


def subterms(t):
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                yield x
            st.extend(y for y in x if isinstance(y, tuple))


class Witness:
    def __init__(self, flow, steps):
        self.flow = flow
        self.steps = steps  # list of (node, label taken to reach next)

    def lines(self, limit=40):
        out, last = [], None
        for n, lab in self.steps:
            if n.kind in ("nop", "def", "leave"):
                continue
            txt = f"{n.frame.func.file}:{n.line} {n.kind}"
            if n.kind == "call":
                txt += f" {n.get('callee') or '.' + str(n.get('name'))}"
            elif n.kind == "branch":
                txt += f" {_short(n.atom)} -> {lab}"
            elif n.kind == "iter":
                txt += f" -> {lab}"
            elif n.kind == "enter":
                txt += f" {n.callee}"
            if lab == "exc":
                txt += " raises"
            if txt != last:
                out.append(txt)
            last = txt
        if len(out) > limit:
            out = out[: limit // 2] + [f"... {len(out) - limit} steps ..."] + out[-limit // 2:]
        return out


def _short(atom):
    s = str(atom)
    return s if len(s) < 70 else s[:67] + "..."


class Flow:
    def __init__(self, g: Graph):
        self.g = g
        self.prog: Program = g.prog
        self.stats = {"path_queries": 0, "refinements": 0, "inconclusive": 0}
        self._reset()
        for _ in range(3):  # conditions held in variables are evaluated where they are tested
            if not self._thread() and not self._split():
                break

    def _reset(self):
        self._rd()
        self._tmemo = {}
        self._litmemo = {}
        self._mcache = {}
        self._loops = {}
        self._instack = set()

    # ---- conditions held in variables ----------------------------------------
    def _clone(self, n, **d):
        m = Node(len(self.g.nodes), n.kind, n.frame, n.ast, **{**n.d, **d})
        self.g.nodes.append(m)
        self.g.live.append(m)
        self.g.reachable.add(m.id)
        return m

    def _thread(self):
        """A branch on a variable assigned differently on the ways to it is duplicated for each of them."""
        changed = False
        for n in list(self.g.live):
            if n.kind != "branch" or n.atom[0] != "truth" or self.g.nodes and len(self.g.nodes) > 20000:
                continue
            v = n.atom[1]
            if v[0] == "not":
                v = v[1]
            if v[0] != "var":
                continue
            chain, cur = [], n
            while len(cur.pred) == 1 and len(chain) < 4:
                p = cur.pred[0][0]
                if p.kind not in ("def", "nop") or len(p.succ) != 1:
                    break
                chain.insert(0, p)
                cur = p
            if not 2 <= len(cur.pred) <= 6 or any(lab == "exc" for _, lab in cur.pred):
                continue
            # the variable's value at the join: follow copies in the chain
            for c in reversed(chain):
                if c.kind == "def":
                    for w, val in c.defs:
                        if w == v:
                            v = val
            if v[0] != "var" or not 2 <= len(self.reaching(v, cur)) <= 6 or not self._boolish(v, cur):
                continue
            for p, lab in cur.pred[1:]:
                first = prev = None
                for c in [*chain, n]:
                    m = self._clone(c)
                    if first is None:
                        first = m
                    if prev is not None:
                        prev.succ.append((m, c.pred[0][1]))
                        m.pred.append((prev, c.pred[0][1]))
                    prev = m
                for s, sl in n.succ:
                    prev.succ.append((s, sl))
                    s.pred.append((prev, sl))
                p.succ[:] = [(first if x is cur and xl == lab else x, xl) for x, xl in p.succ]
                first.pred.append((p, lab))
            del cur.pred[1:]
            changed = True
        if changed:
            self._reset()
        return changed

    def _boolish(self, v, cur):
        """All but one of the values are constants or conditions (the variable holds the result of a condition)."""
        ds = self.reaching(v, cur)
        return v[-1].startswith("$b") or any(d[1][0] in ("const", "cmp", "not", "and", "or") for d in ds)

    def _split(self):
        """A branch on a compound condition becomes a sequence of branches on its parts."""
        changed = False
        for n in list(self.g.live):
            if n.kind != "branch" or n.atom[0] != "truth":
                continue
            t = self.term(n.atom[1], n)
            x = t
            while x[0] == "not":
                x = x[1]
            if x[0] not in ("and", "or"):
                continue
            T = [s for s, lab in n.succ if lab is True]
            F = [s for s, lab in n.succ if lab is False]
            if len(n.succ) != len(T) + len(F) or len(n.succ) != 2:
                continue
            for s in T + F:
                s.pred[:] = [(p, lab) for p, lab in s.pred if p is not n]
            n.succ.clear()

            def build(t, yes, no, node):
                k = t[0]
                if k == "not":
                    return build(t[1], no, yes, node)
                if k in ("and", "or"):
                    for i, x in reversed(list(enumerate(t[1]))):
                        m = node if i == 0 else None
                        e = build(x, yes, no, m)
                        if k == "and":
                            yes = e
                        else:
                            no = e
                    return e
                m = node if node is not None else self._clone(n)
                m.d["atom"] = ("truth", t)
                for s, lab in ((yes, True), (no, False)):
                    m.succ.append((s, lab))
                    s.pred.append((m, lab))
                return m

            build(t, T[0], F[0], n)
            changed = True
        if changed:
            self._reset()
        return changed

    # ---- reaching definitions --------------------------------------------
    def _rd(self):
        g = self.g
        self.vdefs = {}  # var -> list of def idx
        self.defs = []  # idx -> (var, value, node)
        gen = {}
        for n in g.live:
            if n.kind == "def":
                for v, val in n.defs:
                    i = len(self.defs)
                    self.defs.append((v, val, n))
                    self.vdefs.setdefault(v, []).append(i)
                    gen.setdefault(n.id, []).append(i)
        vmask = {v: sum(1 << i for i in ds) for v, ds in self.vdefs.items()}
        self.vmask = vmask
        IN = {n.id: 0 for n in g.live}
        OUT = {n.id: 0 for n in g.live}
        gk = {}
        for nid, ds in gen.items():
            gm, km = 0, 0
            for i in ds:
                v = self.defs[i][0]
                gm = (gm & ~vmask[v]) | (1 << i)
                km |= vmask[v]
            gk[nid] = (gm, km)
        work = deque(g.live)
        inq = {n.id for n in g.live}
        first = set()
        while work:
            n = work.popleft()
            inq.discard(n.id)
            i = 0
            for p, _ in n.pred:
                i |= OUT[p.id]
            o = i
            if n.id in gk:
                gm, km = gk[n.id]
                o = (i & ~km) | gm
            if n.id not in first or o != OUT[n.id] or i != IN[n.id]:
                ch = n.id not in first or o != OUT[n.id]
                first.add(n.id)
                IN[n.id] = i
                OUT[n.id] = o
                if ch:
                    for s, _ in n.succ:
                        if s.id not in inq:
                            inq.add(s.id)
                            work.append(s)
        self.IN, self.OUT = IN, OUT

    def reaching(self, v, node):
        m = self.vmask.get(v)
        if m is None:
            return []
        m &= self.IN.get(node.id, 0)
        return [self.defs[i] for i in self.vdefs[v] if m >> i & 1]

    # ---- canonical terms ----------------------------------------------------
    def term(self, e, node):
        key = (e, node.id)
        if key in self._tmemo:
            return self._tmemo[key]
        if key in self._instack:
            return e
        self._instack.add(key)
        try:
            t = self._term(e, node)
        finally:
            self._instack.discard(key)
        self._tmemo[key] = t
        return t

    def _term(self, e, node):
        k = e[0]
        if k == "var":
            ds = self.reaching(e, node)
            if len(ds) == 1:
                v, val, d = ds[0]
                if val[0] == "param":
                    return val
                t = self.term(val, d)
                if t == e:
                    return e
                # a container display is an object with identity and contents, not a value
                if t[0] not in ("list", "set", "dict") and self._stable(t, d, node):
                    return t
            return e
        if k == "attr":
            return ("attr", self.term(e[1], node), e[2])
        if k == "sub":
            b = self.term(e[1], node)
            kk = self.term(e[2], node)
            if b[0] == "tuple" and kk[0] == "const" and isinstance(kk[2], int) and -len(b[1]) <= kk[2] < len(b[1]):
                return b[1][kk[2]]
            return ("sub", b, kk)
        if k in ("tuple", "list", "set"):
            return (k, tuple(self.term(x, node) for x in e[1]))
        if k == "dict":
            return (k, tuple((self.term(a, node), self.term(b, node)) for a, b in e[1]))
        if k == "op":
            return (k, e[1], tuple(self.term(x, node) for x in e[2]))
        if k == "cmp":
            return (k, e[1], self.term(e[2], node), self.term(e[3], node))
        if k == "not":
            return (k, self.term(e[1], node))
        if k in ("and", "or", "fstr", "slice"):
            return (k, tuple(self.term(x, node) for x in e[1]))
        if k in ("item", "rest"):
            b = self.term(e[1], node)
            if k == "item" and b[0] in ("tuple", "list") and isinstance(e[2], int) and -len(b[1]) <= e[2] < len(b[1]):
                return b[1][e[2]]
            return (k, b, e[2])
        if k == "entered":
            return (k, self.term(e[1], node))
        if k == "starred":
            return (k, self.term(e[1], node))
        if k == "tmp":
            n = self.g.nodes[e[1]]
            if n.kind == "call" and n.callee == "typing.cast" and len(n.args) == 2:
                return self.term(n.args[1], n)
        return e

    def _stable(self, t, d, node):
        for s in subterms(t):
            if s[0] == "var":
                m = self.vmask.get(s, 0)
                if (self.OUT[d.id] & m) != (self.IN[node.id] & m):
                    return False
        return True

    def expand(self, t, depth=6, seen=()):
        """Expand call results into structural ('call', name, recv, args, kwargs) terms."""
        if depth == 0 or not isinstance(t, tuple) or not t:
            return t
        if t[0] == "tmp" and t[1] not in seen:
            n = self.g.nodes[t[1]]
            if n.kind == "call":
                sn = seen + (t[1],)
                recv = self.expand(self.term(n.recv, n), depth - 1, sn) if n.recv is not None else None
                return ("call", n.callee or f".{n.name}", n.name, recv,
                        tuple(self.expand(self.term(a, n), depth - 1, sn) for a in n.args),
                        tuple(sorted((k, self.expand(self.term(a, n), depth - 1, sn)) for k, a in n.kwargs.items())))
            return t
        if t[0] == "elem":
            n = self.g.nodes[t[1]]
            if ("e", t[1]) in seen:
                return t
            return ("elemof", self.expand(self.term(n.iterable, n), depth - 1, seen + (("e", t[1]),)))
        return tuple(self.expand(x, depth, seen) if isinstance(x, tuple) else x for x in t)

    # ---- may-derive (backward data slice) -----------------------------------
    def derives(self, e, node, pred, through_args=True, seen=None, stop=None):
        """True if the value of ``e`` at ``node`` may be computed from a term satisfying ``pred(term, node)``."""
        seen = set() if seen is None else seen
        st = [(e, node)]
        while st:
            x, n = st.pop()
            if not isinstance(x, tuple) or not x or (x, n.id) in seen:
                continue
            seen.add((x, n.id))
            if isinstance(x[0], str) and pred(x, n):
                return True
            k = x[0]
            if stop is not None and isinstance(k, str) and stop(x, n):
                continue
            if k == "var":
                for v, val, d in self.reaching(x, n):
                    st.append((val, d))
                for m in self.inserts(x):
                    st.extend((a, m) for a in self.inserted(m))
            elif k == "tmp":
                m = self.g.nodes[x[1]]
                if m.kind == "call":
                    if m.recv is not None:
                        st.append((m.recv, m))
                    if through_args:
                        st.extend((a, m) for a in m.args)
                        st.extend((a, m) for a in m.kwargs.values())
            elif k == "elem":
                m = self.g.nodes[x[1]]
                st.append((m.iterable, m))
            elif k == "comp":
                h = self.g.nodes[x[3][-1]]
                for m in self.compelts(x):
                    st.append((m.value, m))
                for hid in x[3]:
                    h = self.g.nodes[hid]
                    st.append((h.iterable, h))
            else:
                for y in x:
                    if isinstance(y, tuple):
                        if y and isinstance(y[0], tuple):
                            st.extend((z, n) for z in _flat(y))
                        else:
                            st.append((y, n))
        return False

    def sources(self, e, node, seen=None):
        """Leaf (term, def node) pairs the value of ``e`` at ``node`` may be copied from (through plain assignments)."""
        seen = set() if seen is None else seen
        if (e, node.id) in seen:
            return []
        seen.add((e, node.id))
        if e[0] == "var":
            ds = self.reaching(e, node)
            if not ds:
                return [(e, node)]
            out = []
            for v, val, d in ds:
                if val == e:
                    continue
                if val[0] == "param":
                    out.append((val, d))
                else:
                    out += self.sources(val, d, seen)
            return out
        if e[0] in ("item", "sub"):
            t = self.term(e, node)
            if t != e:
                return self.sources(t, node, seen)
            # tuple elements assembled on several paths
            if e[0] == "item" and e[1][0] == "var":
                out = []
                for t, d in self.sources(e[1], node, seen):
                    if t[0] in ("tuple", "list") and isinstance(e[2], int) and e[2] < len(t[1]):
                        out += self.sources(t[1][e[2]], d, seen)
                    else:
                        out.append((("item", t, e[2]), d))
                return out
            return [(e, node)]
        if e[0] == "tmp":
            t = self.term(e, node)
            if t != e:
                return self.sources(t, self.g.nodes[e[1]], seen)
        return [(self.term(e, node), node)]

    def compelts(self, comp):
        h = self.g.nodes[comp[3][-1]]
        return [p for p, _ in h.pred if p.kind == "compelt"]

    def inserts(self, v):
        """Mutation nodes that insert into the container held by variable ``v``."""
        if not hasattr(self, "_ins"):
            self._ins = {}
            for n in self.g.live:
                b = None
                if n.kind == "call" and n.recv is not None and n.name in (
                        "append", "add", "extend", "update", "setdefault", "appendleft", "insert", "__setitem__"):
                    b = n.recv
                elif n.kind == "substore":
                    b = n.base
                while b is not None and b[0] == "sub":
                    b = b[1]
                if b is not None:
                    al = [b]
                    st = [(b, n)]
                    while st and len(al) < 20:  # the container itself, under the names it was passed on from
                        x, m = st.pop()
                        if x[0] == "var":
                            for _, val, d in self.reaching(x, m):
                                if val[0] == "var" and val not in al:
                                    al.append(val)
                                    st.append((val, d))
                    t = self.term(b, n)
                    if t not in al:
                        al.append(t)
                    for x in al:
                        self._ins.setdefault(x, []).append(n)
        return self._ins.get(v, [])

    def insert_points(self, m, depth=3):
        """Nodes at which the elements added by container call ``m`` are selected."""
        out = []
        for a in (m.args if m.kind == "call" else [m.value]):
            t = self.term(a, m)
            out += self._sources(t, m, depth)
        return out or [m]

    def _sources(self, t, m, depth):
        if t[0] == "comp":
            return self.compelts(t)
        if t[0] == "tmp" and self.g.nodes[t[1]].kind == "call":
            n = self.g.nodes[t[1]]
            if n.callee in PURE_PASS and n.args and depth:
                return [x for a in n.args for x in self._sources(self.term(a, n), n, depth - 1)]
        if t[0] == "var" or (t[0] in ("list", "set") and not t[1]):
            pass
        return []

    def inserted(self, m):
        if m.kind == "substore":
            return [m.key, m.value]
        return list(m.args)

    # ---- literals --------------------------------------------------------------
    def lits(self, n, lab):
        """Literals (kind, *terms, polarity) implied by taking edge (n, lab)."""
        key = (n.id, lab)
        r = self._litmemo.get(key)
        if r is None:
            r = []
            if n.kind == "branch" and lab in (True, False):
                self._atom_lits(n.atom, lab, n, r)
            self._litmemo[key] = r
        return r

    def _atom_lits(self, atom, pol, n, out):
        k = atom[0]
        if k == "truth":
            self._cond_lits(self.term(atom[1], n), pol, n, out)
        elif k == "isnone":
            out.append(("isnone", self.term(atom[1], n), pol))
        elif k in ("is", "eq"):
            out.append(("eq", self.term(atom[1], n), self.term(atom[2], n), pol))
        elif k in ("lt", "in"):
            out.append((k, self.term(atom[1], n), self.term(atom[2], n), pol))
        elif k == "isinstance":
            out.append((k, self.term(atom[1], n), atom[2], pol))
        elif k == "excis":
            out.append((k, atom[1], pol))
        else:
            out.append((k, self.term(atom[1], n), atom[2], pol))

    def _cond_lits(self, t, pol, n, out):
        k = t[0]
        if k == "not":
            self._cond_lits(t[1], not pol, n, out)
        elif k == "and":
            if pol:
                for x in t[1]:
                    self._cond_lits(x, True, n, out)
            else:
                out.append(("truth", t, pol))
        elif k == "or":
            if not pol:
                for x in t[1]:
                    self._cond_lits(x, False, n, out)
            else:
                out.append(("truth", t, pol))
        elif k == "cmp":
            op, a, b = t[1], t[2], t[3]
            none = ("const", "NoneType", None)
            if op in ("Is", "Eq", "IsNot", "NotEq"):
                p = pol == (op in ("Is", "Eq"))
                if b == none:
                    out.append(("isnone", a, p))
                elif a == none:
                    out.append(("isnone", b, p))
                else:
                    out.append(("eq", a, b, p))
            elif op in ("In", "NotIn"):
                out.append(("in", a, b, pol == (op == "In")))
            elif op == "Lt":
                out.append(("lt", a, b, pol))
            elif op == "GtE":
                out.append(("lt", a, b, not pol))
            elif op == "Gt":
                out.append(("lt", b, a, pol))
            else:
                out.append(("lt", b, a, not pol))
        elif k == "tmp":
            m = self.g.nodes[t[1]]
            if m.kind == "call" and m.callee == "builtins.bool" and len(m.args) == 1:
                self._cond_lits(self.term(m.args[0], m), pol, n, out)
            else:
                out.append(("truth", t, pol))
                if m.kind == "call" and m.callee == "builtins.isinstance" and len(m.args) == 2:
                    q = self.term(m.args[1], m)
                    out.append(("isinstance", self.term(m.args[0], m), (q[1],) if q[0] == "glob" else (), pol))
        else:
            out.append(("truth", t, pol))

    # ---- abstract facts along paths ------------------------------------------
    # value lattice: ("c", const) | "NN" | "T" | "F" ; absent = unknown
    def _const(self, t):
        if t[0] == "const":
            return ("c", t[2])
        if t[0] == "glob" and self._enum_member(t[1]):
            return ("c", t)
        return None

    _PLAIN_BASES = {"pydantic.BaseModel", "builtins.object", "abc.ABC", "typing.Generic", "typing.Protocol", "enum.Enum",
                    "builtins.BaseException", "builtins.Exception"}

    def _always_true(self, q):
        """Instances of class ``q`` define neither __bool__ nor __len__."""
        if any(self.prog.find_method(q, m) for m in ("__bool__", "__len__")):
            return False
        return all(b in self.prog.classes or b in self._PLAIN_BASES or b.startswith("builtins.") and b.endswith(
            ("Error", "Exception")) for b in self.prog.all_base_quals(q))

    def _enum_member(self, q):
        c, _, nm = q.rpartition(".")
        k = self.prog.classes.get(c)
        return k is not None and nm in k.class_assigns

    def _absval(self, t, facts, deps):
        c = self._const(t)
        if c:
            return c
        k = t[0]
        if t in facts:
            deps.add(t)
            return facts[t]
        if k in ("list", "tuple", "dict", "set"):
            if k == "tuple" or t[1]:
                return "T" if t[1] else "F"
            return "F0"
        if k in ("fstr", "func", "lambda"):
            return "NN"
        if k == "exc":
            return "T"
        if k == "attr" and t[1][0] == "exc":
            types = self.g.nodes[t[1][1]].atom[1] or ()
            vals = set()
            for q in types:
                cl = self.prog.classes.get(q)
                for kc in (self.prog.mro(cl) if cl else []):
                    v = kc.class_assigns.get(t[2])
                    if v is not None:
                        vals.add(v.value if isinstance(v, ast.Constant) else "NN")
                        break
            if len(vals) == 1 and "NN" not in vals:
                return ("c", next(iter(vals)))
            return "NN" if vals else None
        if k == "op" and t[1] in ("AugAdd", "Add") and len(t[2]) == 2 and t[2][1][0] == "const" and isinstance(
                t[2][1][2], int) and not isinstance(t[2][1][2], bool) and t[2][1][2] > 0:
            return "T"  # counters: assumed non-negative before
        if k == "tmp":
            m = self.g.nodes[t[1]]
            if m.kind == "call" and m.callee in self.prog.classes:
                return "T" if self._always_true(m.callee) else "NN"
            if m.kind == "call" and m.callee in ("builtins.set", "builtins.list", "builtins.dict"):
                return "NN"  # that a new one is empty is a fact about the path (see _step)
            return None
        if k in ("not", "cmp", "and", "or"):
            b = self._evalcond(t, facts, deps)
            return None if b is None else ("c", b)
        if k == "glob" and (t[1] in self.prog.classes or t[1] in self.prog.funcs):
            return "T"
        return None

    def _evalcond(self, t, facts, deps):
        k = t[0]
        if k == "not":
            b = self._evalcond(t[1], facts, deps)
            return None if b is None else not b
        if k in ("and", "or"):
            unk = False
            for x in t[1]:
                b = self._evalcond(x, facts, deps)
                if b is None:
                    unk = True
                elif b == (k == "or"):
                    return b
            return None if unk else (k == "and")
        if k == "cmp":
            lits = []
            self._cond_lits(t, True, None, lits)
            return self._evallit(lits[0], facts, deps)
        return self._evallit(("truth", t, True), facts, deps)

    def _evallit(self, lit, facts, deps):
        """Value of the literal (True/False/None) given facts."""
        k, pol = lit[0], lit[-1]
        r = None
        if k == "truth":
            t = lit[1]
            if t[0] in ("not", "and", "or", "cmp"):
                r = self._evalcond(t, facts, deps)
            else:
                v = self._absval(t, facts, deps)
                if v is not None:
                    if v == "T":
                        r = True
                    elif v in ("F", "F0"):
                        r = False
                    elif v == "NN":
                        r = None
                    else:
                        r = True if isinstance(v[1], tuple) and v[1][:1] == ("glob",) else bool(v[1])
        elif k == "isnone":
            v = self._absval(lit[1], facts, deps)
            if v is not None:
                if v in ("T", "NN", "F0"):
                    r = False
                elif v == "F":
                    r = None
                else:
                    r = v[1] is None
        elif k == "eq":
            a = self._absval(lit[1], facts, deps)
            b = self._absval(lit[2], facts, deps)
            if isinstance(a, tuple) and isinstance(b, tuple):
                r = a[1] == b[1] and type(a[1]) is type(b[1]) if not isinstance(a[1], (int, float)) else a[1] == b[1]
            elif lit[1] == lit[2]:
                r = True
            elif a == "T" and isinstance(b, tuple) and b[1] in (None, False) or b == "T" and isinstance(a, tuple) and a[1] in (None, False):
                r = False
        elif k == "isinstance":
            pass
        if r is None:
            key = lit[:-1]
            if key in facts:
                deps.add(key)
                r = facts[key]
        if r is None:
            return None
        return r == pol

    def _learn(self, lit, facts, out):
        """Facts learned from a literal: list of (key, value)."""
        k, pol = lit[0], lit[-1]
        if k == "truth":
            t = lit[1]
            if t[0] in ("and", "or"):
                out.append((lit[:-1], pol))
            elif self._const(t) is None:
                cur = facts.get(t)
                if not isinstance(cur, tuple):
                    out.append((t, "T" if pol else ("F0" if cur == "F0" else "F")))
        elif k == "isnone":
            t = lit[1]
            if self._const(t) is None:
                cur = facts.get(t)
                if pol:
                    out.append((t, ("c", None)))
                elif cur is None:
                    out.append((t, "NN"))
        elif k == "eq":
            a, b = lit[1], lit[2]
            if pol:
                ca, cb = self._const(a), self._const(b)
                if ca and not cb:
                    out.append((b, ca))
                elif cb and not ca:
                    out.append((a, cb))
                else:
                    out.append((lit[:-1], pol))
            else:
                out.append((lit[:-1], pol))
        elif k == "excis":
            pass
        else:
            out.append((lit[:-1], pol))

    def _exc_eval(self, cur, types):
        """cur: qual, 'E' or None -> True/False/None."""
        if types is None:
            return True
        if any(t in ("builtins.Exception", "builtins.BaseException") for t in types):
            if cur in ("builtins.SystemExit", "builtins.KeyboardInterrupt") and "builtins.BaseException" not in types:
                return False
            return True
        if cur in (None, "E"):
            return None
        bases = self.prog.all_base_quals(cur)
        if any(t in bases for t in types):
            return True
        # unknown external class: could be an unknown subclass only if cur's own bases are unknown
        if cur in self.prog.classes or cur.startswith("builtins."):
            # subclass relation the other way round cannot match at run time for a concrete raise
            ext = [b for b in bases if not b.startswith("builtins.") and b not in self.prog.classes]
            return None if ext else False
        return None

    def _ments(self, key):
        m = self._mcache.get(key)
        if m is None:
            st, at = set(), set()
            stack = [key]
            while stack:
                x = stack.pop()
                if not isinstance(x, tuple):
                    continue
                if x and isinstance(x[0], str):
                    st.add(x)
                    if x[0] == "attr" and len(x) > 2:
                        at.add(x[2])
                    if x[0] == "comp":
                        continue
                stack.extend(x)
            m = self._mcache[key] = (st, at)
        return m

    def _mentions(self, key, what):
        st, at = self._ments(key)
        if what[0] == "term":
            return what[1] in st
        if what[0] == "attr":
            return what[1] in at
        w = what[1]  # contents
        return key == w or (w in st and key[0] in ("in", "lt", "sub", "truth", "eq"))

    def _step(self, n, lab, facts, keep, deps_of=None):
        """Return (new facts, conflict deps or None) for taking edge (n,lab)."""
        # branch
        if n.kind == "branch" and lab in (True, False):
            if n.atom[0] == "excis":
                cur = facts.get("$exc")
                r = self._exc_eval(cur, n.atom[1])
                if r is not None and r != lab:
                    return None, {"$exc"}
                neg = ("notexc", n.atom[1])
                if lab and neg in facts:
                    return None, {neg}
                upd = []
                if lab and cur in (None, "E") and n.atom[1] and len(n.atom[1]) == 1:
                    upd.append(("$exc", n.atom[1][0]))
                if not lab and n.atom[1]:
                    upd.append((neg, True))
                return self._upd(facts, upd, keep, deps_of, set()), None
            upd = []
            f2 = facts
            for lit in self.lits(n, lab):
                deps = set()
                r = self._evallit(lit, f2, deps)
                if r is False:
                    return None, (deps | ({lit[1]} if lit[0] in ("truth", "isnone") else set())
                                  | ({lit[:-1]} if lit[:-1] in f2 else set()))
                out = []
                self._learn(lit, f2, out)
                upd.extend(out)
            return self._upd(f2, upd, keep, deps_of, set()), None
        f = facts
        if n.kind == "def":
            newv = []
            for v, val in n.defs:
                t = self.term(val, n)
                d = set()
                av = self._absval(t, f, d)
                newv.append((v, av, d))
            dropk = [k for k in f if k != "$exc" and any(self._mentions(k, ("term", v)) for v, _, _ in newv)]
            if dropk:
                f = {k: x for k, x in f.items() if k not in dropk}
            upd = [(v, av) for v, av, d in newv if av is not None]
            if upd:
                dd = set().union(*[d for _, _, d in newv])
                f = self._upd(f, upd, keep, deps_of, dd)
            return f, None
        if n.kind == "call":
            drop = [k for k in f if k != "$exc" and self._mentions(k, ("term", ("tmp", n.id)))]
            if n.recv is not None and n.name in MUTATORS:
                rt = self.term(n.recv, n)
                # discard() is not taken as evidence that a known non-empty set became empty
                drop += [k for k in f if k != "$exc" and self._mentions(k, ("contents", rt))
                         and not (n.name == "discard" and k == rt and f[k] == "T")]
            if "F0" in f.values() and not (n.callee or "").startswith("builtins."):
                # an empty container handed to somebody else may be filled by them
                for a in list(n.args) + list(n.kwargs.values() if isinstance(n.kwargs, dict) else [v for _, v in n.kwargs]):
                    at = self.term(a, n)
                    if f.get(at) == "F0":
                        drop.append(at)
            if drop:
                f = {k: x for k, x in f.items() if k not in drop}
            if n.recv is not None and n.name in ("append", "add", "appendleft") and lab != "exc":
                f = self._upd(f, [(self.term(n.recv, n), "T")], keep, deps_of, set())
            elif n.callee in ("builtins.set", "builtins.list", "builtins.dict") and not n.args and not n.kwargs and lab != "exc":
                f = self._upd(f, [(("tmp", n.id), "F0")], keep, deps_of, set())
            elif n.recv is not None and n.name == "clear" and lab != "exc":
                f = self._upd(f, [(self.term(n.recv, n), "F")], keep, deps_of, set())
            if lab == "exc":
                f = {k: x for k, x in f.items() if not (isinstance(k, tuple) and k[0] == "notexc")}
                f = self._upd(f, [("$exc", "E")], keep, deps_of, set())
            return f, None
        if n.kind == "iter":
            if lab == "elem":
                drop = [k for k in f if k != "$exc" and self._mentions(k, ("term", ("elem", n.id)))]
                if drop:
                    f = {k: x for k, x in f.items() if k not in drop}
                it = self.term(n.iterable, n)
                if it[0] in ("list", "tuple", "set", "dict") and not it[1]:
                    return None, {it}
                v = f.get(it)
                if v in ("F", "F0"):
                    return None, {it}
            return f, None
        if n.kind == "attrstore":
            drop = [k for k in f if k != "$exc" and self._mentions(k, ("attr", n.name))]
            if drop:
                f = {k: x for k, x in f.items() if k not in drop}
            if n.aug is None:
                d = set()
                av = self._absval(self.term(n.value, n), f, d)
                if av is not None:
                    f = self._upd(f, [(("attr", self.term(n.base, n), n.name), av)], keep, deps_of, d)
            return f, None
        if n.kind in ("substore", "delsub"):
            b = self.term(n.base, n)
            drop = [k for k in f if k != "$exc" and self._mentions(k, ("contents", b))]
            if drop:
                f = {k: x for k, x in f.items() if k not in drop}
            if n.kind == "substore":
                f = self._upd(f, [(b, "T")], keep, deps_of, set())
            if lab == "exc":
                f = self._upd(f, [("$exc", "builtins.KeyError")], keep, deps_of, set())
            return f, None
        if n.kind in ("compinit", "compelt") and n.get("compterm"):
            ct = n.d["compterm"]
            if n.kind == "compinit":
                drop = [k for k in f if k != "$exc" and self._mentions(k, ("term", ct))]
                if drop:
                    f = {k: x for k, x in f.items() if k not in drop}
            return self._upd(f, [(ct, "F0" if n.kind == "compinit" else "T")], keep, deps_of, set()), None
        if n.kind == "raise" and lab == "exc":
            f = {k: x for k, x in f.items() if not (isinstance(k, tuple) and k[0] == "notexc")}
            return self._upd(f, [("$exc", n.exc)], keep, deps_of, set()), None
        if n.kind in ("yield", "subload", "unpack", "nop") and lab == "exc":
            f = {k: x for k, x in f.items() if not (isinstance(k, tuple) and k[0] == "notexc")}
            q = {"subload": "builtins.LookupError", "unpack": "builtins.ValueError"}.get(n.kind, "E")
            return self._upd(f, [("$exc", "E" if q != "E" else q)], keep, deps_of, set()), None
        return f, None

    def _upd(self, facts, upd, keep, deps_of, deps):
        if not upd:
            return facts
        f = None
        for k, v in upd:
            if keep is not None and k not in keep:
                continue
            if f is None:
                f = dict(facts)
            f[k] = v
            if deps_of is not None:
                dd = set(deps)
                for d in list(dd):
                    dd |= deps_of.get(d, set())
                deps_of[k] = dd
        return f if f is not None else facts

    # ---- path search -----------------------------------------------------------
    def path(self, starts, goal, stop_node=None, stop_edge=None, max_refine=80, max_states=400000, init=None,
             raising=True):
        """A feasible path from ``starts`` to ``goal`` or None.

        raising: True = any call may raise; False = only explicit ``raise`` statements do (asserts are assumed to
        hold); a collection of nodes = those calls as well.

        starts: list of nodes or of (node, label) edges (path begins by taking
        that edge); goal: predicate on nodes, or a collection of nodes;
        stop_node(n): path may not enter such a node (unless it is a start);
        stop_edge(n, lab): path may not take such an edge.
        """
        self.stats["path_queries"] += 1
        if not callable(goal):
            gs = {n.id for n in goal}
            goalp = lambda n: n.id in gs  # noqa: E731
        else:
            goalp = goal
        if stop_node is None:
            stop_node = lambda n: False  # noqa: E731
        elif not callable(stop_node):
            sn = {n.id for n in stop_node}
            stop_node = lambda n: n.id in sn  # noqa: E731
        if stop_edge is None:
            stop_edge = lambda n, lab: False  # noqa: E731
        if raising is not True:
            rid = {n.id for n in raising} if raising else set()
            se0 = stop_edge
            stop_edge = lambda n, lab: (  # noqa: E731
                (lab == "exc" and n.kind not in ("raise", "reraise") and n.id not in rid)
                or (n.kind == "raise" and n.get("is_assert", False)) or se0(n, lab))
        starts = list(starts)
        w = self._refine(starts, goalp, stop_node, stop_edge, max_refine, max_states, init, None)
        if not isinstance(w, Witness):
            if w is not None:
                self.stats["inconclusive"] += 1
            return None
        if not starts or any(s is self.g.entry for s in starts):
            return w
        # confirm that the path is feasible as the continuation of one from the entry
        w2 = self._refine([self.g.entry], goalp, stop_node, stop_edge, max_refine, max_states, init, starts)
        if w2 is None:
            return None
        return w2 if isinstance(w2, Witness) else w

    def _refine(self, starts, goalp, stop_node, stop_edge, max_refine, max_states, init, via):
        keep = {"$exc"}  # always tracked: an unknown exception is assumed to be an Exception
        for _ in range(max_refine):
            w = self._search(starts, goalp, stop_node, stop_edge, keep, max_states, init, via)
            if w is None:
                return None
            if w == "limit":
                return "limit"
            conflict = self._simulate(w, init, via)
            if conflict is None:
                return Witness(self, w)
            new = conflict - keep
            if not new:
                return "limit"
            keep |= new
            self.stats["refinements"] += 1
        return "limit"

    def _simulate(self, steps, init, via=None):
        facts = dict(init or {})
        deps_of = {}
        for n, lab in steps:
            if lab == "$end":
                return None
            f, conflict = self._step(n, lab, facts, None, deps_of)
            if f is None:
                out = set(conflict)
                for c in conflict:
                    out |= deps_of.get(c, set())
                return {c for c in out if c is not None}
            facts = f
        return None

    def _search(self, starts, goalp, stop_node, stop_edge, keep, max_states, init, via=None):
        q = deque()
        vn = {s.id for s in via or () if isinstance(s, Node)}
        ve = {(s[0].id, s[1]) for s in via or () if not isinstance(s, Node)}
        parent = {}
        init = {k: v for k, v in (init or {}).items() if k in keep}

        def push(node, facts, par):
            key = (node.id, frozenset(facts.items()) if facts else None)
            if key in parent:
                return
            parent[key] = par
            q.append((key, node, facts))

        for s in starts:
            if isinstance(s, Node):
                push(s, init, None)
            else:
                n, lab = s
                f, c = self._step(n, lab, init, keep)
                if f is None:
                    continue
                for t, l2 in n.succ:
                    if l2 == lab and not stop_edge(n, lab):
                        if goalp(t):
                            return [(n, lab), (t, "$end")]
                        if not stop_node(t):
                            push(t, f, ((n.id, "$s"), n, lab))
                            parent.setdefault((n.id, "$s"), None)
        nodes = self.g.nodes
        while q:
            key, node, facts = q.popleft()
            if len(parent) > max_states:
                return "limit"
            for t, lab in node.succ:
                if via is not None:
                    # phase 0: from the entry to one of the start points; phase 1: from there to the goal
                    f0 = None
                    if "$ph" not in facts:
                        f, c = self._step(node, lab, facts, keep)
                        if f is None:
                            continue
                        if (node.id, lab) not in ve:
                            if t.id in vn:
                                push(t, {**f, "$ph": 1}, (key, node, lab))
                            push(t, f, (key, node, lab))
                            continue
                        f0 = f
                        f = {**f, "$ph": 1}
                        if stop_edge(node, lab):
                            push(t, f0, (key, node, lab))
                            continue
                    else:
                        if stop_edge(node, lab):
                            continue
                        f, c = self._step(node, lab, facts, keep)
                        if f is None:
                            continue
                    if f0 is not None:
                        push(t, f0, (key, node, lab))
                else:
                    if stop_edge(node, lab):
                        continue
                    f, c = self._step(node, lab, facts, keep)
                    if f is None:
                        continue
                if goalp(t):
                    steps = [(t, "$end"), (node, lab)]
                    k = key
                    while parent.get(k) is not None:
                        pk, pn, pl = parent[k]
                        steps.append((pn, pl))
                        k = pk
                    steps.reverse()
                    return steps
                if stop_node(t):
                    continue
                push(t, f, (key, node, lab))
        return None

    # ---- derived queries -----------------------------------------------------
    def out_edges(self, nodes, normal=True):
        """Edges leaving nodes; ``normal`` keeps only non-exceptional ones."""
        out = []
        for n in nodes:
            for _, lab in n.succ:
                if normal and lab == "exc":
                    continue
                if (n, lab) not in out:
                    out.append((n, lab))
        return out

    def must_precede(self, firsts, then, starts=None, stop_edge=None):
        """Witness of a path reaching ``then`` without completing any of ``firsts``."""
        ids = {n.id for n in firsts}
        se = lambda n, lab: (n.id in ids and lab != "exc") or (stop_edge is not None and stop_edge(n, lab))  # noqa: E731
        return self.path(starts or [self.g.entry], then, stop_edge=se)

    def must_follow(self, frm, thens, exits=("exit", "exc_exit"), normal=True, attempt=True, stop_edge=None):
        """Witness of a path from completing ``frm`` to an exit without (attempting) ``thens``."""
        ids = {n.id for n in thens}
        goals = []
        if "exit" in exits:
            goals.append(self.g.exit)
        if "exc_exit" in exits:
            goals.append(self.g.exc_exit)
        starts = self.out_edges(frm, normal) if not isinstance(frm, tuple) else list(frm)
        if attempt:
            return self.path(starts, goals, stop_node=lambda n: n.id in ids, stop_edge=stop_edge)
        return self.path(starts, goals, stop_edge=lambda n, lab: (n.id in ids and lab != "exc")
                         or (stop_edge is not None and stop_edge(n, lab)))

    def guarded(self, targets, litp, starts=None, stop_node=None):
        """Witness of a path reaching targets without crossing an edge whose literals satisfy ``litp``."""
        return self.path(starts or [self.g.entry], targets, stop_node=stop_node,
                         stop_edge=lambda n, lab: any(litp(x) for x in self.lits(n, lab)))


    # ---- loops ----------------------------------------------------------------
    def loop_body(self, h):
        """Ids of the natural loop of head ``h`` (without h)."""
        c = self._loops.get(h.id)
        if c is not None:
            return c
        seen = {self.g.entry.id}
        st = [self.g.entry]
        while st:
            n = st.pop()
            for t, _ in n.succ:
                if t is not h and t.id not in seen:
                    seen.add(t.id)
                    st.append(t)
        body = set()
        st = [p for p, _ in h.pred if p.id not in seen]
        while st:
            n = st.pop()
            if n is h or n.id in body or n.id in seen:
                continue
            body.add(n.id)
            st.extend(p for p, _ in n.pred)
        if not body and h.kind == "iter":  # left during the first iteration
            body = self._reach(h, "elem") - self._reach(h, "done")
        self._loops[h.id] = body
        return body

    def _reach(self, h, label):
        seen = set()
        st = [t for t, lab in h.succ if lab == label]
        while st:
            n = st.pop()
            if n.id in seen or n is h:
                continue
            seen.add(n.id)
            st.extend(t for t, _ in n.succ)
        return seen

    def loops(self):
        return [n for n in self.g.live if n.kind == "iter" or (n.kind == "nop" and n.get("loop"))]

    def enclosing_loops(self, n):
        return [h for h in self.loops() if n.id in self.loop_body(h)]

    def loop_entries(self, h):
        """Edges entering loop ``h`` from outside."""
        body = self.loop_body(h)
        return [(p, lab) for p, lab in h.pred if p.id not in body and p is not h]

    def forall_guard(self, targets, is_loop, good):
        """Check that ``targets`` are reached only after a loop accepted by ``is_loop(iter node)`` was
        exhausted with every element passing the test ``good``.

        ``good(lit, head)`` returns True if the literal says the element passed, False if it says it failed, None if it
        is about something else.  Returns (witness, why) or None.
        """
        heads = [h for h in self.g.live if h.kind == "iter" and is_loop(h)]
        if not heads:
            return (self.path([self.g.entry], targets), "no such test precedes it") if self.path(
                [self.g.entry], targets) else None
        ids = {h.id for h in heads if not self.partial(h)}
        w = self.path([self.g.entry], targets, stop_edge=lambda n, lab: n.id in ids and lab == "done")
        if w is not None:
            return w, "reached without examining every element"
        for h in heads:
            entries = {(p.id, lab) for p, lab in self.loop_entries(h)}

            def outcome(n, lab):
                rs = [good(x, h) for x in self.lits(n, lab)]
                return next((r for r in rs if r is not None), None)

            bad = []
            tested = []
            for n in self.g.live:
                if n.kind == "branch":
                    for lab in (True, False):
                        o = outcome(n, lab)
                        if o is False:
                            bad.append((n, lab))
                        if o is not None:
                            tested.append((n.id, lab))
            w = self.path(bad, targets, stop_edge=lambda n, lab: False,
                          stop_node=lambda n: False) if not entries else self._path_no_entry(bad, targets, h, entries)
            if w is not None:
                return w, "reached although an element failed the test"
            ts = set(tested)
            w = self.path([(h, "elem")], lambda n: n is h, stop_edge=lambda n, lab: (n.id, lab) in ts)
            if w is not None:
                return w, "an element is skipped without being tested"
        return None

    def partial(self, h):
        """Whether loop h visits only part of what it iterates over (a slice, say)."""
        def part(t, k=0):
            if t[0] == "call" and t[2] in ("islice", "takewhile", "dropwhile", "compress"):
                return True
            if t[0] == "sub" and t[2][0] == "slice":
                return any(x != ("const", "NoneType", None) for x in t[2][1])
            if k > 6 or t[0] != "call":
                return False
            if t[2] in ("list", "tuple", "sorted", "iter", "reversed", "set", "frozenset", "chain", "from_iterable", "enumerate", "zip", "dict"):
                return any(part(x, k + 1) for x in t[4] if isinstance(x, tuple))
            if t[2] in ("items", "values", "keys") and t[3] is not None and not t[4]:
                return part(t[3], k + 1)
            return False

        return part(self.expand(self.term(h.iterable, h), 8))

    def _path_no_entry(self, starts, targets, h, entries):
        # forbid re-entering the loop from outside (a new round of the test)
        tid = h.id
        return self.path(starts, targets, stop_edge=lambda n, lab: (n.id, lab) in entries and any(
            t.id == tid and l2 == lab for t, l2 in n.succ))


def _flat(y):
    for z in y:
        if isinstance(z, tuple):
            if z and isinstance(z[0], tuple):
                yield from _flat(z)
            else:
                yield z

