"""Truth tables: which truth values an expression can have when the atoms of interest have given truth values.

Not an execution: literals of branch conditions and of the expression itself are classified by a predicate on terms, edges that
contradict the assignment are cut, and the definitions of variables that remain reachable are joined.
"""

from __future__ import annotations

from itertools import product

from ..q import lit_edges


def _neg(v):
    return None if v is None else not v


def _lit(t):
    """Positive literal of an atomic condition term, and whether the term is its negation."""
    if t[0] == "cmp":
        op, a, b = t[1], t[2], t[3]
        if op in ("Is", "IsNot") and b == ("const", "NoneType", None):
            return ("isnone", a, True), op == "IsNot"
        if op in ("Eq", "NotEq", "Is", "IsNot"):
            return ("eq", a, b, True), op in ("NotEq", "IsNot")
        if op in ("In", "NotIn"):
            return ("in", a, b, True), op == "NotIn"
        if op == "Lt":
            return ("lt", a, b, True), False
        if op == "Gt":
            return ("lt", b, a, True), False
        if op == "LtE":
            return ("lt", b, a, True), True
        if op == "GtE":
            return ("lt", a, b, True), True
    return ("truth", t, True), False


def values(fl, e, n, decide, starts=None):
    """The truth values (True, False; None: unknown) of e at n if ``decide(positive literal, node)`` says which atoms hold."""

    def dec(lit, m):
        v = decide(lit[:-1] + (True,), m)
        return None if v is None else v is lit[-1]

    cut = lit_edges(fl, lambda lit, m: dec(lit, m) is False)
    live, st = set(), list(starts) if starts is not None else [fl.g.entry]
    while st:
        m = st.pop()
        if m.id in live:
            continue
        live.add(m.id)
        st.extend(t for t, lab in m.succ if (m.id, lab) not in cut)
    if n.id not in live:
        return set()
    seen = set()

    def ev(t, m, d=0):
        if d > 30 or (t, m.id) in seen:
            return {None}
        k = t[0]
        if k == "const":
            return {bool(t[2])}
        if k == "not":
            return {_neg(v) for v in ev(t[1], m, d + 1)}
        if k in ("and", "or"):
            out = {k == "and"}
            for x in t[1]:
                vs = ev(x, m, d + 1)
                out = {_join(k, a, b) for a in out for b in vs}
            return out
        lit, neg = _lit(t)
        v = decide(lit, m)
        if v is not None:
            return {v is not neg}
        if k == "tmp":
            c = fl.g.nodes[t[1]]
            if c.kind == "call" and c.name == "bool" and c.args:
                return ev(fl.term(c.args[0], c), c, d + 1)
            if c.kind == "call" and c.name == "isinstance" and len(c.args) == 2:
                ty = c.args[1]
                v = decide(("isinstance", fl.term(c.args[0], c), tuple(x[1] for x in (ty[1] if ty[0] == "tuple" else (ty,)) if len(x) > 1 and isinstance(x[1], str)), True), c)
                return {v}
        if k == "var":
            out = set()
            ds = [x for x in fl.reaching(t, m) if x[2].id in live]
            for _, val, dn in ds:
                if val == t:
                    return {None}
                seen.add((t, m.id))
                out |= ev(fl.term(val, dn), dn, d + 1)
                seen.discard((t, m.id))
            return out or {None}
        return {None}

    return ev(fl.term(e, n), n)


def _join(k, a, b):
    if k == "and":
        return False if a is False or b is False else None if a is None or b is None else True
    return True if a is True or b is True else None if a is None or b is None else False


def table(c, rule, inst, fl, points, atoms, spec, msg, starts=None):
    """At each point (expression, node) the truth value is spec(assignment), for every assignment of the atoms.

    atoms: {name: predicate(positive literal, node)}; unknown outcomes do not count.
    """
    nm = list(atoms)
    for vals in product((True, False), repeat=len(nm)):
        a = dict(zip(nm, vals))

        def decide(lit, m, a=a):
            for k in nm:
                r = atoms[k](lit, m)
                if r:
                    return a[k]
            return None

        want = spec(**a)
        if want is None:
            continue
        for e, n in points:
            vs = values(fl, e, n, decide, starts)
            bad = vs and None not in vs and want not in vs
            c.ob(rule, f"{inst}({', '.join(k for k in nm if a[k]) or 'none'})", True if bad else None, msg, n)


def cut_edges(fl, atoms, a):
    """Edges that contradict assignment ``a`` of the atoms."""
    def bad(lit, m):
        pos = lit[:-1] + (True,)
        for k, p in atoms.items():
            if a.get(k) is not None and p(pos, m):
                return a[k] is not lit[-1]
        return False
    return lit_edges(fl, bad)


def passes(c, rule, inst, fl, starts, targets, goals, atoms, spec, msg, stop=(), exc=True):
    """For every assignment of the atoms: spec "must" - no path from starts to goals avoids the targets; "never" - no path reaches a target.

    Assignments for which an atom occurs in no branch are as good as any other; spec None: nothing required.
    """
    nm = list(atoms)
    ts, st = {t.id for t in targets}, {s.id for s in stop}
    for vals in product((True, False), repeat=len(nm)):
        a = dict(zip(nm, vals))
        want = spec(**a)
        if want is None:
            continue
        cut = cut_edges(fl, atoms, a)
        se = lambda m, lab, cut=cut: (m.id, lab) in cut or not exc and lab == "exc"  # noqa: E731
        if want == "must":
            w = fl.path(starts, goals, stop_node=lambda m: m.id in ts or m.id in st, stop_edge=se)
        else:
            w = fl.path(starts, list(targets), stop_node=lambda m: m.id in st, stop_edge=se)
        c.ob(rule, f"{inst}({', '.join(k for k in nm if a[k]) or 'none'})", w, msg)
