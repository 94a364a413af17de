"""Query helpers shared by the rules: loops over collections, coverage of iterations, guards, writer/reader agreement."""

from __future__ import annotations

from .flow import subterms
from .known import KNOWN
from .lib import calls, const, mentions

__all__ = ["arg", "attrs", "builtin", "bycall", "calls", "comp_filtered", "const", "ctor", "each", "evalpoint", "ex", "follows", "guard", "iters", "kws",
           "lit_edges", "mentions", "names", "only_if", "rets", "retvals", "subterms", "tail", "over", "flow_of", "frm", "none_lit", "true_lit",
           "as_edges", "attr_lit", "any_lit", "loops_of", "innermost", "present", "source", "loops_over", "partial", "full", "allfull"]


def ex(fl, e, n, depth=6):
    return fl.expand(fl.term(e, n), depth)


def arg(n, i, *names):
    if i is not None and i < len(n.args):
        return n.args[i]
    for k in names:
        if k in n.kwargs:
            return n.kwargs[k]
    return None


def ctor(fl, *names):
    """Constructor (and model_construct) calls of the named classes."""
    out = []
    for n in fl.g.calls():
        last = (n.callee or "").rsplit(".", 1)[-1]
        if last in names:
            out.append(n)
        elif n.name == "cls" and fl.g.root.cls is not None and fl.g.root.cls.name in names:
            out.append(n)
        elif n.name in ("model_construct", "model_validate") and n.recv is not None:
            t = fl.term(n.recv, n)
            if t[0] == "glob" and t[1].rsplit(".", 1)[-1] in names or (
                    t == ("param", "cls") and fl.g.root.cls is not None and fl.g.root.cls.name in names):
                out.append(n)
    return out


def retvals(fl):
    return [n for n in fl.g.live if n.kind == "return" and n.frame.id == 0]


rets = retvals


def tail(t):
    """Last attribute name of a chain, or None."""
    return t[2] if t and t[0] == "attr" else None


def attrs(t):
    """All attribute names mentioned in a term."""
    return {s[2] for s in subterms(t) if s[0] == "attr"}


def names(t):
    """All method/function names called in an expanded term."""
    return {s[2] for s in subterms(t) if s[0] == "call"}


def builtin(t, name):
    return t[0] == "call" and t[2] == name


def iters(fl, comp=None):
    """Loop heads, including those whose body never comes back (a loop cut off after its first element)."""
    hs = [h for h in fl.loops() if h.kind == "iter"]
    ids = {h.id for h in hs}
    hs += [n for n in fl.g.live if n.kind == "iter" and n.id not in ids]
    return [h for h in hs if comp is None or bool(h.d.get("comp")) is comp]


def over(fl, pred, comp=None):
    """Loops (statements and comprehensions) whose expanded iterable satisfies pred."""
    return [h for h in iters(fl, comp) if pred(ex(fl, h.iterable, h, 8))]


_WRAP = {"list", "sorted", "set", "tuple", "frozenset", "reversed", "values", "items", "keys", "copy", "iter", "enumerate", "dict", "deque", "cast"}


def source(fl, e, n):
    """What e at n is, below list(), sorted(), .items() and the like: ("call", name), ("attr", name), ("param", name) or None."""
    for _ in range(12):
        t = fl.term(e, n)
        if t[0] == "tmp":
            m = fl.g.nodes[t[1]]
            if m.kind != "call":
                return None
            if m.name in _WRAP and (m.recv is not None and m.name in ("values", "items", "keys", "copy") or m.args):
                e, n = (m.recv, m) if m.recv is not None and m.name in ("values", "items", "keys", "copy") else (m.args[-1] if m.name == "cast" else m.args[0], m)
                continue
            return ("call", m.name)
        if t[0] in ("attr",):
            return ("attr", t[2])
        if t[0] == "param":
            return ("param", t[1])
        if t[0] == "comp" and len(t[3]) == 1 and t[3][0] != n.id:
            h = fl.g.nodes[t[3][0]]
            e, n = h.iterable, h
            continue
        if t[0] == "var":
            ds = fl.sources(e, n)
            rs = {source(fl, v, d) for v, d in ds if v[0] != "var"}
            return rs.pop() if len(rs) == 1 else None
        return (t[0],)
    return None


def loops_over(fl, what, *names, comp=False):
    """Loops directly over the result of a call / an attribute / a parameter with one of the names."""
    return [h for h in iters(fl, comp) if (source(fl, h.iterable, h) or (None, None))[:2] in [(what, x) for x in names]]


def lit_edges(fl, p):
    """{(branch id, label)} of the edges implying a literal accepted by p(lit, node)."""
    return {(n.id, lab) for n in fl.g.live if n.kind == "branch" for lab in (True, False) if any(p(x, n) for x in fl.lits(n, lab))}


def _ids(nodes):
    return {n.id for n in nodes}


def partial(fl, h):
    """Whether loop h visits only part of what it iterates over (a slice, say)."""
    return fl.partial(h)


def each(c, rule, inst, fl, h, nodes, msg, unless=None, breaks=True, exc=True):
    """Every iteration of loop h passes one of the nodes, except along edges accepted by ``unless(lit, node)``; no iteration is cut off.

    With ``exc=False`` iterations that raise (and are cut off by a handler) do not count.
    """
    ids = _ids(nodes)
    body = fl.loop_body(h)
    if partial(fl, h):
        c.fail(rule, inst, msg, h)
        return False
    inner = [x for x in fl.loops() if x.kind == "iter" and x.id in body and x.id not in ids and ids & fl.loop_body(x)]
    inner = [x for x in inner if not any(x.id in fl.loop_body(y) for y in inner)]
    for x in inner:  # nested loop: each of its iterations has to do it
        if not each(c, rule, inst, fl, x, nodes, msg, unless, breaks, exc):
            return False
    ids |= _ids(inner)
    ue = lit_edges(fl, unless) if unless is not None else set()
    noexc = lambda n, lab: not exc and lab == "exc"  # noqa: E731
    w = fl.path([(h, "elem")], lambda m: m is h, stop_node=lambda m: m.id in ids, stop_edge=lambda n, lab: (n.id, lab) in ue or noexc(n, lab))
    if w is None and breaks:
        w = fl.path([(h, "elem")], [fl.g.exit], stop_node=lambda m: m is h, stop_edge=noexc)
    return c.ob(rule, inst, w, msg, h)


def full(c, rule, inst, fl, h, msg):
    """Loop h visits everything it iterates over: no slice, no break (raising is leaving on purpose)."""
    if fl.partial(h):
        return c.fail(rule, inst, msg, h)
    after = set()
    st = [t for t, lab in h.succ if lab == "done"]
    while st:
        n = st.pop()
        if n.id in after or n is h:
            continue
        after.add(n.id)
        if n.kind not in ("raise", "reraise"):
            st.extend(t for t, lab in n.succ if lab != "exc")
    body = fl.loop_body(h)
    w = fl.path([(h, "elem")], lambda n: n.id in after and n.id not in body, stop_node=lambda n: n is h or n.kind in ("raise", "reraise"), raising=False)
    return c.ob(rule, inst, w, msg, h)


def allfull(c, rule, inst, fl, msg, skip=None, comp=None):
    """Every loop of the function visits all it iterates over."""
    for h in iters(fl, comp):
        if h.d.get("quant") or (skip is not None and skip(h)):
            continue
        full(c, rule, inst, fl, h, msg)


def guard(c, rule, inst, fl, targets, litp, msg, starts=None, stop_nodes=()):
    """No path reaches targets without an edge implying a literal accepted by litp(lit, node)."""
    es = lit_edges(fl, litp)
    sn = _ids(stop_nodes)
    w = fl.path(starts if starts is not None else [fl.g.entry], list(targets), stop_edge=lambda n, lab: (n.id, lab) in es,
                stop_node=lambda m: m.id in sn) if targets else None
    return c.ob(rule, inst, w, msg)


only_if = guard


def follows(c, rule, inst, fl, frm, thens, msg, exits=None, unless=None, raising=True):
    """Every path from the normal completion of frm (nodes or edges) to the exits passes one of thens."""
    ids = _ids(thens)
    st = [f if isinstance(f, tuple) else None for f in frm]
    starts = [f for f in st if f is not None] + fl.out_edges([f for f in frm if not isinstance(f, tuple)])
    ue = lit_edges(fl, unless) if unless is not None else set()
    w = fl.path(starts, list(exits) if exits is not None else [fl.g.exit], stop_node=lambda m: m.id in ids,
                stop_edge=lambda n, lab: (n.id, lab) in ue, raising=raising) if starts else None
    return c.ob(rule, inst, w, msg)


def kws(n):
    return {k: v for k, v in n.kwargs.items() if k is not None}


def bycall(fl, e, n, *nm):
    """Whether e at n may derive from the result of a call with one of the names."""
    return fl.derives(e, n, lambda t, m: t[0] == "tmp" and fl.g.nodes[t[1]].kind == "call" and fl.g.nodes[t[1]].name in nm)


def comp_filtered(fl, h):
    """Path on which an element of comprehension loop h is left out."""
    body = fl.loop_body(h)
    ce = {m.id for m in fl.g.live if m.kind == "compelt" and m.id in body}
    return fl.path([(h, "elem")], lambda m: m is h, stop_node=lambda m: m.id in ce)


def evalpoint(fl, e, n):
    """Where the expression whose value e has at n was evaluated: (expression, node)."""
    for _ in range(12):
        if e[0] != "var":
            return e, n
        ds = fl.reaching(e, n)
        if len(ds) != 1:
            return e, n
        _, val, d = ds[0]
        if val[0] == "param":
            return val, d
        e, n = val, d
    return e, n


def flow_of(c, C, name, also=()):
    """Flow graph of a method into which helpers the rules do not know (extracted ones, say) and those in ``also`` are inlined."""
    known = KNOWN.get(C.module.name.replace("lsst.pipe.base.", ""), set())
    return c.flow(C.methods[name].qual, inline=lambda f: f.module is C.module and (f.name in also or f.name not in known and not f.name.startswith("__")))


def frm(fl, e, n, nodes, through_args=True):
    """Whether e at n may derive from the result of one of the call nodes."""
    ids = {x.id for x in nodes}
    return fl.derives(e, n, lambda t, m: t[0] == "tmp" and t[1] in ids, through_args=through_args)


def none_lit(fl, nodes, pol=True):
    """Literals saying that the result of one of the calls is (not) None."""
    return lambda lit, n: (lit[0] == "isnone" and lit[2] is pol or lit[0] == "truth" and lit[2] is (not pol)) and frm(fl, lit[1], n, nodes, False)


def true_lit(fl, nodes, pol=True):
    return lambda lit, n: lit[0] == "truth" and lit[2] is pol and frm(fl, lit[1], n, nodes)


def as_edges(fl, s):
    return [(fl.g.nodes[i], lab) for i, lab in s]


def attr_lit(name, pol=True):
    """Literals on the truth of self.<name>."""
    return lambda lit, n: lit[0] == "truth" and lit[2] is pol and lit[1] == ("attr", ("param", "self"), name)


def any_lit(*ps):
    return lambda lit, n: any(p(lit, n) for p in ps)


def loops_of(fl, n, comp=False):
    return [h for h in fl.enclosing_loops(n) if h.kind == "iter" and (comp is None or bool(h.d.get("comp")) is comp)]


def innermost(fl, n):
    hs = [h for h in fl.enclosing_loops(n) if h.kind == "iter"]
    hs.sort(key=lambda h: len(fl.loop_body(h)))
    return hs[0] if hs else None


def present(c, rule, inst, nodes, msg, fl):
    return c.ob(rule, inst, None if nodes else True, msg, func=fl.g.root)
