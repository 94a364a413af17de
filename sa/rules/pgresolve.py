"""Resolution of pipeline graphs: definitions of dataset types are reconciled over all edges, steps are checked against the flow of data."""

from __future__ import annotations

import ast
from itertools import product

from ..lib import Check, const, is_self_attr, stores
from ..q import (allfull, arg, calls, ctor, each, ex, flow_of, frm, guard, iters, lit_edges, loops_of, loops_over, mentions, partial, present, retvals, source, tail)
from .boolval import cut_edges, passes, table
from .pgio import PG
from .pgstruct import P_, _enum, _never


def run(c: Check):
    P = c.prog.cls(PG + "_pipeline_graph.PipelineGraph")
    read_edge(c)
    write_edge(c)
    from_edges(c)
    resolve(c, P)
    step_flow(c, P)
    step_dims(c, P)
    state(c, P)
    registration(c, P)
    general(c)


# ---------------------------------------------------------------- helpers

def _seen(fl, p):
    """Whether an atom occurs in some branch."""
    return any(p(lit[:-1] + (True,), n) for n in fl.g.live if n.kind == "branch" for lab in (True, False) for lit in fl.lits(n, lab))


def outcome(c, rule, inst, fl, atoms, fixed, want, msg, used=()):
    """With the atoms decided as in ``fixed`` the function only raises (want "raise") or never does (want "return").

    used: {atom: words}: if the atom is not the condition of any branch but a branch depends on one of the words, the condition is written
    in a form that is not understood, and nothing is said.
    """
    fixed = dict(fixed)
    for a, w in dict(used).items():
        if a in fixed and not _seen(fl, atoms[a]):
            if w(fl) if callable(w) else _depends(fl, w):
                return
    cut = cut_edges(fl, {k: atoms[k] for k in fixed}, fixed)
    goal = [fl.g.exit] if want == "raise" else [n for n in fl.g.live if n.kind == "raise" and n.d.get("value") is not None and n.d.get("exc") != "builtins.AssertionError"]
    se = lambda m, lab: (m.id, lab) in cut  # noqa: E731
    c.ob(rule, f"{inst}({', '.join(('' if v else 'not ') + k for k, v in fixed.items())})", fl.path([fl.g.entry], goal, stop_edge=se), msg)


def _depends(fl, words):
    for n in fl.g.live:
        if n.kind != "branch":
            continue
        for lit in fl.lits(n, True):
            for t in lit[1:-1]:
                if isinstance(t, tuple) and t and isinstance(t[0], str):
                    e = fl.expand(fl.term(t, n), 8)
                    if mentions(e, lambda s: s[0] in ("attr", "call") and s[2] in words):
                        return True
    return False


def _se(fl, p):
    es = lit_edges(fl, p)
    return lambda m, lab: (m.id, lab) in es


def _live(fl, cut):
    live, st = set(), [fl.g.entry]
    while st:
        m = st.pop()
        if m.id not in live:
            live.add(m.id)
            st.extend(t for t, lab in m.succ if (m.id, lab) not in cut)
    return live


def origins(fl, e, n, live, seen=None):
    """The terms e can stand for at n, following assignments in the part of the graph that is live."""
    seen = set() if seen is None else seen
    t = fl.term(e, n)
    if t[0] != "var":
        return [(t, n)]
    out = []
    for _, v, dn in fl.reaching(t, n):
        if dn.id in live and (dn.id, v) not in seen:
            seen.add((dn.id, v))
            out += origins(fl, v, dn, live, seen)
    return out


def _p(name):
    return ("param", name)


def _truth(t0):
    return lambda lit, m: lit[0] == "truth" and lit[1] == t0


def _none(t0):
    return lambda lit, m: lit[0] == "isnone" and lit[1] == t0


# ---------------------------------------------------------------- one edge

def read_edge(c):
    fl = flow_of(c, c.prog.cls(PG + "_edges.ReadEdge"), "_resolve_dataset_type")
    slf = lambda nm: ("attr", _p("self"), nm)  # noqa: E731

    def isdt(e, n):
        t = fl.term(e, n)
        return t[0] == "tmp" and fl.g.nodes[t[1]].kind == "call" and (fl.g.nodes[t[1]].callee or "").endswith("DatasetType")

    def pair(lit, m, f, g):
        return lit[0] == "eq" and (f(lit[1], m) and g(lit[2], m) or f(lit[2], m) and g(lit[1], m))

    at = {
        "skypix": lambda lit, m: lit[0] == "in" and lit[1] == const("skypix"),
        "unknown": _none(_p("current")),
        "same other dimensions": lambda lit, m: lit[0] == "eq" and any(fl.derives(x, m, lambda t, k: t[0] == "attr" and t[2] == "skypix") for x in lit[1:3]),
        "undecided": _none(_p("is_prerequisite")),
        "prerequisite": _truth(_p("is_prerequisite")),
        "own prerequisite": _truth(slf("is_prerequisite")),
        "whole": _none(slf("component")),
        "has component": lambda lit, m: lit[0] == "in" and ex(fl, lit[1], m) == slf("component"),
        "same class": lambda lit, m: lit[0] == "eq" and any(fl.term(x, m) == slf("storage_class_name") for x in lit[1:3]) and any(
            tail(fl.term(x, m)) == "name" for x in lit[1:3]),
        "convertible": lambda lit, m: lit[0] == "truth" and mentions(ex(fl, lit[1], m), lambda s: s[0] == "call" and s[2] == "can_convert"),
        "registered": _truth(_p("is_registered")),
        "unproduced": _none(_p("producer")),
        "equal": lambda lit, m: pair(lit, m, isdt, lambda e, n: ex(fl, e, n) == _p("current")),
        "same dimensions": lambda lit, m: pair(lit, m, lambda e, n: tail(fl.term(e, n)) == "dimensions" and isdt(fl.term(e, n)[1], n),
                                               lambda e, n: ex(fl, e, n) == ("attr", _p("current"), "dimensions")),
        "compatible": lambda lit, m: lit[0] == "truth" and mentions(ex(fl, lit[1], m), lambda s: s[0] == "call" and s[2] == "is_compatible_with"),
        "drawing": _truth(_p("visualization_only")),
    }
    def comps(t):
        return mentions(t, lambda s: s[0] == "call" and s[2] == "allComponents")

    def looked(fl):
        return any(lit[0] in ("isnone", "truth") and comps(ex(fl, lit[1], n, 8)) and not mentions(ex(fl, lit[1], n, 8), lambda s: s[0] == "call" and s[2] == "can_convert")
                   for n in fl.g.live if n.kind == "branch" for lit in fl.lits(n, True))

    def compared(fl):
        return any(lit[0] in ("eq", "truth") and any(comps(ex(fl, x, n, 8)) and not mentions(ex(fl, x, n, 8), lambda s: s[0] == "call" and s[2] == "can_convert") for x in lit[1:-1])
                   for n in fl.g.live if n.kind == "branch" for lit in fl.lits(n, True))

    used = {"same other dimensions": ("skypix",), "has component": looked, "same class": compared, "convertible": ("can_convert",),
            "same dimensions": lambda fl: any(lit[0] in ("eq", "truth") and any(tail(fl.term(x, n)) == "dimensions" or tail(fl.term(x, n)) == "names" for x in lit[1:-1])
                                              and not at["same other dimensions"](lit[:-1] + (True,), n) for n in fl.g.live if n.kind == "branch" for lit in fl.lits(n, True)),
            "compatible": ("is_compatible_with",)}

    def o(inst, want, msg, **kw):
        outcome(c, "J1-read", inst, fl, at, {k.replace("_", " "): v for k, v in kw.items()}, want, msg, used)

    bad = "conflicting definitions of a dataset type go unnoticed"
    good = "a consistent pipeline is rejected"
    o("skypix", "raise", bad, skypix=True, unknown=True, drawing=False)
    o("skypix", "raise", bad, skypix=True, unknown=False, same_other_dimensions=False)
    for n in fl.g.live:
        for lit in fl.lits(n, True) if n.kind == "branch" else ():
            if lit[0] == "lt" and any(fl.derives(x, n, lambda t, k: t[0] == "attr" and t[2] == "skypix") for x in lit[1:3]):
                c.fail("J1-read", "skypix:inclusion only", bad, n)
    o("prerequisite", "raise", bad, undecided=False, prerequisite=True, own_prerequisite=False)
    o("prerequisite", "raise", bad, undecided=False, prerequisite=False, own_prerequisite=True)
    o("component", "raise", bad, whole=False, unknown=True, drawing=False)
    o("component", "raise", bad, whole=False, unknown=False, has_component=False, drawing=False)
    o("component", "raise", bad, whole=False, unknown=False, has_component=True, same_class=False, convertible=False, drawing=False)
    o("input", "raise", bad, whole=True, unknown=False, registered=False, unproduced=True, equal=False, drawing=False)
    o("input", "raise", bad, whole=True, unknown=False, registered=False, unproduced=True, equal=False, same_dimensions=False)
    o("input", "raise", bad, whole=True, unknown=False, registered=True, compatible=False, drawing=False)
    o("input", "raise", bad, whole=True, unknown=False, registered=False, unproduced=False, compatible=False, drawing=False)
    for sky, pre in product((True, False), ("first", True, False)):
        base = {"skypix": sky}
        base |= {"undecided": True} if pre == "first" else {"undecided": False, "prerequisite": pre, "own_prerequisite": pre}
        if sky:
            base |= {"same_other_dimensions": True}
        else:
            o("accepted", "return", good, whole=True, unknown=True, **base)
        base |= {"unknown": False}
        o("accepted", "return", good, whole=True, registered=True, compatible=True, **base)
        o("accepted", "return", good, whole=True, registered=False, unproduced=False, compatible=True, **base)
        o("accepted", "return", good, whole=True, registered=False, unproduced=True, equal=True, **base)
        o("accepted", "return", good, whole=False, has_component=True, same_class=True, **base)
        o("accepted", "return", good, whole=False, has_component=True, same_class=False, convertible=True, **base)
    # drawing only relaxes
    o("drawing", "return", good, skypix=False, undecided=True, whole=True, unknown=False, registered=True, compatible=False, drawing=True)
    o("drawing", "return", good, skypix=False, undecided=True, whole=False, unknown=True, drawing=True)

    # results
    rs = [(r, fl.term(r.value, r)) for r in retvals(fl)]
    rs = [(r, t[1]) for r, t in rs if t[0] == "tuple" and len(t[1]) == 3]
    con = {"constraint": _truth(_p("is_initial_query_constraint")), "deferred": _truth(slf("defer_query_constraint"))}
    table(c, "J2-constraint", "read", fl, [(t[1], r) for r, t in rs], con, lambda constraint, deferred: constraint and not deferred,
          "a dataset type that must not constrain the initial query does, or the reverse")
    pre = {k: at[k] for k in ("undecided", "prerequisite", "own prerequisite")}
    table(c, "J2-prerequisite", "read", fl, [(t[2], r) for r, t in rs], {k.replace(" ", "_"): v for k, v in pre.items()},
          lambda undecided, prerequisite, own_prerequisite: own_prerequisite if undecided else prerequisite if prerequisite == own_prerequisite else None,
          "a dataset type is wrongly taken for a prerequisite or a regular input")
    for fixed, what in (({"unknown": False, "drawing": False}, "known"), ({"unknown": True, "drawing": False, "whole": True}, "new")):
        live = _live(fl, cut_edges(fl, {k: at[k] for k in fixed}, fixed))
        for r, t in rs:
            if r.id not in live:
                continue
            src = origins(fl, t[0], r, live)
            wrong = [s for s, m in src if (s != _p("current") if what == "known" else not isdt(s, m))]
            c.ob("J3-definition", what, True if wrong else None, "the definition of a dataset type does not come from where it was first defined", r)
    mk = ctor(fl, "DatasetType")
    for n in mk:
        live = _live(fl, cut_edges(fl, {k: at[k] for k in ("drawing",)}, {"drawing": False}))
        if n.id not in live:
            continue
        d = arg(n, 1, "dimensions")
        for s, m in origins(fl, d, n, live) if d is not None else ():
            ok = fl.derives(s, m, lambda t, k: t[0] == "attr" and t[2] == "raw_dimensions", True) or mentions(ex(fl, s, m), lambda t: t == ("attr", _p("current"), "dimensions"))
            c.ob("J3-definition", "dimensions", None if ok else True, "a dataset type gets the wrong dimensions", n)
        for i, nm, a in ((0, "name", "parent_dataset_type_name"), (2, "storageClass", "storage_class_name"), (None, "isCalibration", "is_calibration")):
            v = arg(n, i, nm)
            c.ob("J3-definition", nm, None if v is not None and ex(fl, v, n) == slf(a) else True, "a dataset type is not defined as the connection says", n)
    for n in calls(fl, "can_convert"):
        c.ob("J4-direction", "can_convert:component", None if comps(ex(fl, n.args[0], n, 8)) or frm(fl, n.args[0], n, calls(fl, "allComponents")) else True,
             "conversion of another storage class is checked", n)
        c.ob("J4-direction", "can_convert", None if fl.derives(n.args[0], n, P_("current")) and not fl.derives(n.recv, n, P_("current")) else True,
             "conversion of storage classes is checked in the wrong direction", n)
    for n in calls(fl, "is_compatible_with"):
        a, b = ex(fl, n.recv, n), ex(fl, n.args[0], n)
        c.ob("J4-direction", "is_compatible_with", None if b == _p("current") and a != b else True, "compatibility of storage classes is checked in the wrong direction", n)


def write_edge(c):
    fl = flow_of(c, c.prog.cls(PG + "_edges.WriteEdge"), "_resolve_dataset_type")
    slf = lambda nm: ("attr", _p("self"), nm)  # noqa: E731
    at = {"unknown": _none(_p("current")),
          "compatible": lambda lit, m: lit[0] == "truth" and mentions(ex(fl, lit[1], m), lambda s: s[0] == "call" and s[2] == "is_compatible_with")}
    used = {"compatible": ("is_compatible_with",)}
    bad, good = "an output that contradicts the repository's definition goes unnoticed", "a consistent pipeline is rejected"
    outcome(c, "J1-write", "output", fl, at, {"unknown": False, "compatible": False}, "raise", bad, used)
    outcome(c, "J1-write", "accepted", fl, at, {"unknown": False, "compatible": True}, "return", good, used)
    outcome(c, "J1-write", "accepted", fl, at, {"unknown": True}, "return", good, used)
    for fixed in ({"unknown": False}, {"unknown": True}):
        live = _live(fl, cut_edges(fl, {"unknown": at["unknown"]}, fixed))
        for r in retvals(fl):
            if r.id in live:
                src = origins(fl, r.value, r, live)
                wrong = [s for s, m in src if (s == _p("current")) is fixed["unknown"]]
                c.ob("J3-definition", "output", True if wrong else None, "the definition of a dataset type does not come from where it was first defined", r)
    for n in calls(fl, "is_compatible_with"):
        a, b = ex(fl, n.recv, n), ex(fl, n.args[0], n)
        c.ob("J4-direction", "output", None if a == _p("current") and a != b else True, "compatibility of storage classes is checked in the wrong direction", n)
    for n in ctor(fl, "DatasetType"):
        for i, nm, a in ((0, "name", "parent_dataset_type_name"), (2, "storageClass", "storage_class_name"), (None, "isCalibration", "is_calibration")):
            v = arg(n, i, nm)
            c.ob("J3-definition", "output:" + nm, None if v is not None and ex(fl, v, n) == slf(a) else True, "a dataset type is not defined as the connection says", n)
        d = arg(n, 1, "dimensions")
        c.ob("J3-definition", "output:dimensions", None if d is not None and fl.derives(d, n, lambda t, m: t[0] == "attr" and t[2] == "raw_dimensions", True) else True,
             "a dataset type gets the wrong dimensions", n)


# ---------------------------------------------------------------- all edges of a dataset type

def from_edges(c):
    D = c.prog.cls(PG + "_dataset_types.DatasetTypeNode")
    fl = flow_of(c, D, "_from_edges")
    res = [n for n in calls(fl, "_resolve_dataset_type")]
    inc, outc = calls(fl, "in_edges", "predecessors"), calls(fl, "out_edges", "successors")
    msg = "an edge has no say in the definition of its dataset type"
    present(c, "J5-edges", "producing", inc, msg, fl)
    present(c, "J5-edges", "consuming", outc, msg, fl)
    outs = [h for h in iters(fl, False) if frm(fl, h.iterable, h, outc, True)]
    ins = [h for h in iters(fl, False) if frm(fl, h.iterable, h, inc, True)]
    wr = [n for n in res if any(h in loops_of(fl, n) for h in ins)]
    rd = [n for n in res if any(h in loops_of(fl, n) for h in outs)]
    present(c, "J5-edges", "producing:resolved", wr, msg, fl)
    present(c, "J5-edges", "consuming:resolved", rd, msg, fl)
    # definitions of whole dataset types come before uses of their components
    for n in calls(fl, "sort", "sorted"):
        k, rev = n.kwargs.get("key"), n.kwargs.get("reverse")
        if k is not None and k[0] == "lambda" and isinstance(k[2], str):
            b = ast.parse(k[2], mode="eval").body.body
            if isinstance(b, ast.Compare) and isinstance(b.ops[0], (ast.Is, ast.IsNot)) and ast.unparse(b.left).endswith(".component"):
                last = isinstance(b.ops[0], ast.IsNot) is not (rev is not None and ex(fl, rev, n) == const(True))
                c.ob("J5b-components-last", "sorted", None if last else True, "the component of a dataset type is asked for before the dataset type is known", n)
    for h in ins:
        if any(h in loops_of(fl, n) for n in wr):
            each(c, "J5-edges", "producing", fl, h, wr, msg)
    for h in outs:
        if any(h in loops_of(fl, n) for n in rd):
            each(c, "J5-edges", "consuming", fl, h, rd, msg)
    allfull(c, "J5-edges", "_from_edges", fl, msg)
    # the definition is handed on from the repository to the producer, and from edge to edge
    reg = calls(fl, "get_registered")
    present(c, "J6-handed-on", "repository", reg, "the repository's definition is not asked for", fl)
    for n in wr:
        cur = arg(n, 0, "current")
        c.ob("J6-handed-on", "repository to producer", None if cur is not None and frm(fl, cur, n, reg, True) else True, "the repository's definition is ignored", n)
        u = arg(n, 1, "universe")
        c.ob("J6-handed-on", "universe", None if u is not None and fl.derives(u, n, P_("dimensions")) else True, "the wrong dimensions are used", n)
    for n in rd:
        cur = n.kwargs.get("current", arg(n, 0))
        if cur is None:
            c.fail("J6-handed-on", "consumer", "the known definition is ignored", n)
            continue
        for what, ns in (("repository", reg), ("producer", wr), ("consumer", [n])):
            c.ob("J6-handed-on", f"{what} to consumer", None if frm(fl, cur, n, ns, True) else True, "a known definition is ignored", n)
        k = n.kwargs
        for nm, i in (("is_initial_query_constraint", 1), ("is_prerequisite", 2)):
            v = k.get(nm)
            c.ob("J6-handed-on", nm, None if v is not None and frm(fl, v, n, [n], True) else True, "what earlier edges said about a dataset type is forgotten", n)
        for nm, par in (("universe", "dimensions"), ("visualization_only", "visualization_only")):
            v = k.get(nm)
            c.ob("J6-handed-on", nm, None if v is not None and fl.derives(v, n, P_(par)) else True, f"{nm} is not passed on", n)
        v = k.get("producer")
        c.ob("J6-handed-on", "producer", None if v is not None and fl.derives(v, n, lambda t, m: t[0] == "attr" and t[2] == "task_label") else True, "the producer is not passed on", n)
        v = k.get("is_registered")
        if v is None:
            c.fail("J6-handed-on", "is_registered", "whether the dataset type is registered is not passed on", n)
        else:
            none = {"unregistered": lambda lit, m: lit[0] == "isnone" and (frm(fl, lit[1], m, reg) or lit[1][0] == "var" and any(frm(fl, x, d, reg) for x, d in fl.sources(lit[1], m)))}
            table(c, "J6-handed-on", "is_registered", fl, [(v, n)], none, lambda unregistered: not unregistered, "whether the dataset type is registered is wrong")
    for n in rd:
        for nm, v0 in (("is_initial_query_constraint", True), ("is_prerequisite", None)):
            v = n.kwargs.get(nm)
            t = fl.term(v, n) if v is not None else None
            if t is None or t[0] != "var":
                continue
            vals = [fl.term(x, d) for _, x, d in fl.reaching(t, n) if not set(loops_of(fl, d)) & set(ins + outs)]
            c.ob("J7-produced", "unproduced:" + nm, None if not vals or const(v0) in vals or any(x[0] != "const" for x in vals) else True,
                 "an input of the pipeline is not treated as one", n)
    # a producer makes it a regular dataset type that does not constrain the initial query
    stop = [n for n in rd]
    starts = [t for n in wr for t, lab in n.succ if lab != "exc"]
    if rd and wr:
        live = set()
        st = list(starts)
        while st:
            m = st.pop()
            if m.id not in live:
                live.add(m.id)
                if m not in stop:
                    st.extend(t for t, lab in m.succ if lab != "exc")
        for n in rd:
            for nm in ("is_prerequisite", "is_initial_query_constraint"):
                v = n.kwargs.get(nm)
                t = fl.term(v, n) if v is not None else None
                if t is None or t[0] != "var":
                    continue
                ds = [(x, d) for _, x, d in fl.reaching(t, n) if not frm(fl, x, d, [n], True)]
                made = [d for x, d in ds if fl.term(x, d) == const(False) and any(set(loops_of(fl, d)) & set(ins) for _ in (0,))]
                w = fl.path(starts, [n], stop_node=lambda m: m in made) if not _before(fl, made, wr, ins) else None
                c.ob("J7-produced", nm, w, "a dataset type produced by a task is treated as an input of the pipeline", n)
    # duplicates
    dup = [n for n in fl.g.live if n.kind == "raise" and (n.d.get("exc") or "").endswith("DuplicateOutputError")]
    present(c, "J8-one-producer", "raise", dup, "two producers of one dataset type go unnoticed", fl)
    for h in ins:
        first = {m.id for m in dup}
        for n in wr:
            if h not in loops_of(fl, n):
                continue
            none = lit_edges(fl, lambda lit, m: lit[0] == "isnone" and lit[2] is True and fl.derives(lit[1], m, lambda t, k: t[0] == "attr" and t[2] == "task_label"))
            if none:
                after = [t for t, lab in n.succ if lab != "exc"]
                w = fl.path(after, [n], stop_node=lambda m: m.id in first, stop_edge=lambda m, lab: (m.id, lab) in none)
                c.ob("J8-one-producer", "second", w, "two producers of one dataset type go unnoticed", n)
                lab = [d for d in fl.g.live if d.kind == "def" and any(v is not None and isinstance(v, tuple) and tail(fl.term(v, d)) == "task_label" for _, v in d.d.get("defs", ()))
                       and h in loops_of(fl, d)]
                each(c, "J8-one-producer", "remembered", fl, h, lab, "two producers of one dataset type go unnoticed")
    # components last
    for n in calls(fl, "sort", "sorted"):
        k = n.kwargs.get("key")
        c.ob("J9-components-last", "sort", True if "reverse" in n.kwargs or k is None else None, "components are resolved before their parents", n)
    present(c, "J9-components-last", "sort", [n for n in calls(fl, "sort", "sorted")] or [n for n in fl.g.live if n.kind == "branch" and any(
        fl.derives(x, n, lambda t, m: t[0] == "attr" and t[2] == "component") for lit in fl.lits(n, True) for x in lit[1:-1] if isinstance(x, tuple) and x and isinstance(x[0], str))],
            "components are resolved before their parents", fl)
    # previous
    ident = [r for r in retvals(fl) if fl.derives(r.value, r, P_("previous"))]
    if ident:
        guard(c, "J10-previous", "kept", fl, ident, lambda lit, m: lit[0] == "eq" and lit[3] is True and any(
            fl.derives(x, m, P_("previous")) for x in lit[1:3]) and any(frm(fl, x, m, reg, True) for x in lit[1:3]), "an outdated definition of a dataset type is kept")
    for n in ctor(fl, "DatasetTypeNode"):
        if n.name == "_from_edges":
            continue
        f = n.kwargs
        for nm, ns in (("dataset_type", rd + wr), ("is_initial_query_constraint", rd), ("is_prerequisite", rd)):
            c.ob("J11-node", nm, None if nm in f and any(frm(fl, f[nm], n, [x], True) for x in ns) else True, "the result of resolution is lost", n)
        v = f.get("producing_edge")
        c.ob("J11-node", "producing_edge", None if v is not None and fl.derives(v, n, lambda t, m: frm(fl, t, m, inc, True)) else True, "the producing edge is lost", n)
        v = f.get("consuming_edges")
        c.ob("J11-node", "consuming_edges", None if v is not None and frm(fl, v, n, outc, True) else True, "consuming edges are lost", n)


def _before(fl, made, wr, ins):
    """The defaults are set in the same iteration before the edge is resolved."""
    for n in wr:
        for h in ins:
            if h in loops_of(fl, n):
                starts = [t for t, lab in h.succ if lab not in ("done", False, "exc")]
                if fl.path(starts, [n], stop_node=lambda m: m in made) is not None:
                    return False
    return bool(made)


# ---------------------------------------------------------------- the graph

def resolve(c, P):
    fl = flow_of(c, P, "resolve")
    g = fl.g
    fe, tr, flow, dims = (calls(fl, x) for x in ("_from_edges", "_resolved", "_resolve_step_flow", "_resolve_step_dimensions"))
    msg = "part of the graph is not resolved"
    for nm, ns in (("dataset types", fe), ("tasks", tr), ("steps", flow), ("step dimensions", dims)):
        present(c, "J12-everything", nm, ns, msg, fl)
    hs = [h for h in iters(fl, False) if fl.derives(h.iterable, h, lambda t, m: t[0] == "attr" and t[2] in ("_xgraph", "nodes"))]
    kind = lambda k, pol: lambda lit, m: lit[0] == "eq" and lit[3] is pol and any(_enum(x, k) for x in lit[1:3])  # noqa: E731
    for k, ns in (("TASK", tr), ("DATASET_TYPE", fe)):
        for h in hs:
            if any(h in loops_of(fl, n) for n in ns):
                oth = {"TASK", "DATASET_TYPE", "TASK_INIT"} - {k}
                each(c, "J12-everything", k, fl, h, ns, msg, unless=lambda lit, m: kind(k, False)(lit, m) or any(kind(x, True)(lit, m) for x in oth))
    allfull(c, "J12-everything", "resolve", fl, msg)
    # stored
    st = [n for n in g.live if n.kind == "substore" and mentions(ex(fl, n.base, n, 8), lambda t: t[0] == "attr" and t[2] in ("_xgraph", "nodes"))]
    present(c, "J13-stored", "graph", st, "the result of resolution is lost", fl)
    upd = [n for n in fl.g.live if n.kind == "substore" and n not in st and frm(fl, n.value, n, fe + tr)]
    for ns, what in ((fe, "dataset types"), (tr, "tasks")):
        mine = [n for n in upd + st if frm(fl, n.value, n, ns)]
        for n in ns:
            same = lambda lit, m, n=n: lit[0] == "eq" and lit[3] is True and any(frm(fl, x, m, [n]) for x in lit[1:3])  # noqa: E731
            heads = [h for h in loops_of(fl, n)]
            w = fl.path([t for t, lab in n.succ if lab != "exc"], heads + [g.exit], stop_node=lambda m: m in mine, stop_edge=_se(fl, same))
            c.ob("J13-stored", what, w, "the result of resolution is lost", n)
    for n in st:
        c.ob("J14-all-or-nothing", "graph", fl.path([n], fe + tr + flow), "the graph is half changed if resolution fails", n)
        c.ob("J13-stored", "instance", None if n.key == const("instance") else True, "the result of resolution is lost", n)
    done = [n for n in g.live if n.kind == "attrstore" and n.name == "_universe" and ex(fl, n.base, n) == ("param", "self")]
    ver = [n for n in g.live if n.kind == "attrstore" and n.name == "_verified"]
    present(c, "J15-marks", "universe", done, "a resolved graph is not marked so", fl)
    present(c, "J15-marks", "verified", ver, "checked steps are not marked so", fl)
    order = calls(fl, "_reorder", "sort")
    present(c, "J15-marks", "sorted", order, "a resolved graph is not sorted", fl)
    for n, what in [(x, "universe") for x in done] + [(x, "verified") for x in ver]:
        if what == "verified":
            c.ob("J15-marks", "verified:value", None if n.value == const(True) else True, "checked steps are not marked so", n)
        for pre, nm in ((flow, "step flow"), (dims, "step dimensions"), (st and [h for h in iters(fl, False) if any(h in loops_of(fl, x) for x in st)], "updates")):
            if pre:
                c.ob("J15-marks", f"{what} after {nm}", fl.path([g.entry], [n], stop_node=lambda m: m in pre), "a graph is marked as resolved before it is", n)
        c.ob("J15-marks", what + " always", fl.path([g.entry], [g.exit], stop_node=lambda m: m in [n]), "a resolved graph is not marked so", n)
    c.ob("J15-marks", "sorted always", fl.path([g.entry], [g.exit], stop_node=lambda m: m in order), "a resolved graph is not sorted")
    for n in dims:
        c.ob("J15-marks", "dimensions after updates", fl.path([n], st), "step dimensions are checked against outdated definitions", n)
    # ordering comes from the steps if there are any
    frmflow = lambda lit, m: lit[0] == "isnone" and frm(fl, lit[1], m, flow)  # noqa: E731
    re, so = calls(fl, "_reorder"), [n for n in calls(fl, "sort") if ex(fl, n.recv, n) == ("param", "self")]
    for n in re:
        c.ob("J16-order", "steps", None if frm(fl, arg(n, 0, "sorted_keys"), n, flow, True) else True, "tasks are not ordered by step", n)
    if so and re:
        cut = lit_edges(fl, lambda lit, m: frmflow(lit, m) and lit[2] is True)
        c.ob("J16-order", "steps used", fl.path([g.entry], so, stop_edge=lambda m, lab: (m.id, lab) in cut), "tasks are not ordered by step")
    present(c, "J16-order", "reorder", re, "tasks are not ordered by step", fl)
    # arguments
    own = {"unregistered": lambda lit, m: lit == ("isnone", ("param", "registry"), True), "untyped": lambda lit, m: lit == ("isnone", ("param", "dataset_types"), True),
           "free": lambda lit, m: lit == ("isnone", ("param", "dimensions"), True)}
    for n in fe:
        a = {"get_registered": arg(n, 2, "get_registered"), "dimensions": arg(n, 3, "dimensions"), "previous": arg(n, None, "previous"), "visualization_only": arg(n, None, "visualization_only")}
        for nm, v in a.items():
            if v is None:
                c.fail("J17-arguments", nm, "resolution ignores what is known", n)
        if a["visualization_only"] is not None:
            c.ob("J17-arguments", "visualization_only", None if fl.derives(a["visualization_only"], n, P_("visualization_only")) else True, "a broken graph is accepted, or a drawable one is not", n)
        if a["previous"] is not None:
            c.ob("J17-arguments", "previous", None if fl.derives(a["previous"], n, lambda t, m: t[0] == "sub" and t[2] == const("instance")) or a["previous"] == const(None) else True,
                 "resolution starts from the wrong node", n)
        if a["get_registered"] is not None:
            for fixed, want in (({"untyped": False}, "dataset_types"), ({"untyped": True, "unregistered": False}, "registry")):
                live = _live(fl, cut_edges(fl, own, fixed))
                src = [(x, m) for x, m in origins(fl, a["get_registered"], n, live) if x[0] != "const"]
                ok = src and all(_lookup(c, fl, x, m, want) for x, m in src)
                c.ob("J17-arguments", "known from " + want, None if ok else True, "known dataset types are ignored", n)
    _narrow(c, fl.g.root, "a failed lookup is taken for an unregistered dataset type")
    for n in dims + tr + fe + [x for x in done]:
        v = n.value if n.kind == "attrstore" else arg(n, 3, "dimensions") if n in fe else arg(n, 0, "universe", "dimensions")
        if v is None:
            continue
        for fixed, want in (({"free": False}, "dimensions"), ({"free": True, "unregistered": False}, "registry")):
            live = _live(fl, cut_edges(fl, own, fixed))
            src = origins(fl, v, n, live)
            src = [(s, m) for s, m in src if not (want == "registry" and s == ("param", "dimensions"))]
            c.ob("J17-arguments", "universe:" + want, True if not src or any(not fl.derives(s, m, P_(want)) for s, m in src) else None, "the wrong dimensions are used", n)
        live = _live(fl, cut_edges(fl, own, {"free": True, "unregistered": True}))
        c.ob("J17-arguments", "universe:default", None if any(s != ("param", "dimensions") and s[0] != "const" for s, _ in origins(fl, v, n, live)) else True, "the wrong dimensions are used", n)


def _lookup(c, fl, x, m, want):
    """Whether function x looks dataset types up in that parameter."""
    if fl.derives(x, m, P_(want), True):
        return True
    if x[0] != "func":
        return x[0] == "lambda"
    for d in ast.walk(fl.g.root.node):
        if isinstance(d, (ast.FunctionDef, ast.Lambda)) and d.lineno == m.line:
            return any(isinstance(y, ast.Name) and y.id == want for y in ast.walk(d))
    return True


def _narrow(c, f, msg):
    """Only the absence of a dataset type is taken for its absence."""
    for t in ast.walk(f.node):
        if not isinstance(t, ast.Try) or not any(isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr == "getDatasetType" for b in t.body for y in ast.walk(b)):
            continue
        for h in t.handlers:
            if any(isinstance(y, ast.Raise) for b in h.body for y in ast.walk(b)):
                continue
            ty = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
            ok = all(isinstance(y, (ast.Name, ast.Attribute)) and (y.id if isinstance(y, ast.Name) else y.attr) == "MissingDatasetTypeError" for y in ty)
            c.ob("J17-arguments", "lookup error", None if ok else True, msg, func=f)


def step_flow(c, P):
    fl = flow_of(c, P, "_resolve_step_flow")
    g = fl.g
    steps = loops_over(fl, "attr", "steps", "_step_definitions")
    present(c, "J18-steps", "loop", steps, "no loop over the steps in _resolve_step_flow", fl)
    inv = [n for n in g.live if n.kind == "raise" and (n.d.get("exc") or "").endswith("InvalidStepsError")]
    present(c, "J18-steps", "raise", inv, "invalid steps go unnoticed", fl)
    allfull(c, "J18-steps", "_resolve_step_flow", fl, "steps are checked only in part", )
    tasks = [h for h in iters(fl, False) if h not in steps and any(s in loops_of(fl, h) for s in steps) and fl.derives(h.iterable, h, lambda t, m: t[0] == "sub" or t[0] == "attr" and t[2] in (
        "task_subsets", "_task_subsets")) and not fl.derives(h.iterable, h, lambda t, m: t[0] == "tmp" and g.nodes[t[1]].kind == "call" and g.nodes[t[1]].name in ("inputs_of", "outputs_of"))]
    # accumulated task labels
    def sub(e, n):
        t = ex(fl, e, n, 4)
        return mentions(t, lambda s: s[0] == "attr" and s[2] in ("task_subsets", "_task_subsets")) and not mentions(t, lambda s: s[0] == "call" and s[2] in ("keys", "outputs_of", "inputs_of"))

    dis = [n for n in calls(fl, "isdisjoint") if sub(n.args[0], n) or sub(n.recv, n)]
    if dis:
        for s in steps:
            each(c, "J19-repeats", "checked", fl, s, dis, "a task in two steps goes unnoticed", unless=None, exc=False)
        for n in dis:
            lit = lambda l, m, n=n: l[0] == "truth" and l[2] is False and l[1] == ("tmp", n.id)  # noqa: E731
            e = lit_edges(fl, lit)
            if e:
                starts = [t for m in g.live for t, lab in m.succ if (m.id, lab) in e]
                c.ob("J19-repeats", "raised", fl.path(starts, [n, g.exit]), "a task in two steps goes unnoticed", n)
    else:
        present(c, "J19-repeats", "checked", [n for n in g.live if n.kind == "branch" and any(
            lit[0] == "in" and any(fl.derives(lit[1], n, lambda t, m, h=h: t == ("elem", h.id)) for h in tasks)
            or lit[0] in ("truth", "eq") and mentions(ex(fl, lit[1], n, 8), lambda t: t[0] == "op" and t[1] == "BitAnd" or t[0] == "call" and t[2] == "intersection") for lit in fl.lits(n, True))],
                "a task in two steps goes unnoticed", fl)
    for n in dis:
        other = n.recv if sub(n.args[0], n) else n.args[0]
        root = _root(fl, other, n)
        mine = [a for a in calls(fl, "update", "add") if root is not None and _root(fl, a.recv, a) == root] + [m for m in g.live if m.kind == "def" and root is not None and any(
            fl.term(v, m)[0] == "op" and mentions(fl.term(v, m), lambda s: s == root) for _, v in m.d.get("defs", ()) if isinstance(v, tuple))]
        for v, d in fl.sources(other, n):
            m = g.nodes[v[1]] if v[0] == "tmp" else None
            if m is not None and m.kind == "call" and m.name in ("set", "frozenset", "list") and any(m.id in fl.loop_body(s) for s in steps):
                keep = any(fl.derives(a, m, lambda t, k: t[0] == "tmp" and g.nodes[t[1]].kind == "call" and g.nodes[t[1]].name in ("set", "frozenset", "list") and not any(
                    t[1] in fl.loop_body(s) for s in steps), through_args=True) for a in m.args)
                c.ob("J19-repeats", "kept", None if keep else True, "a task in two steps goes unnoticed", m)
        if root is not None and root[0] in ("tmp",):
            for s in steps:
                each(c, "J19-repeats", "remembered", fl, s, mine, "a task in two steps goes unnoticed", exc=False)
    # outputs consumed earlier
    outs, ins = calls(fl, "outputs_of"), calls(fl, "inputs_of")
    for ns, nm in ((outs, "outputs_of"), (ins, "inputs_of")):
        present(c, "J20-flow", nm, ns, "data that flows backwards between steps goes unnoticed", fl)
        for h in tasks:
            each(c, "J20-flow", nm, fl, h, ns, "data that flows backwards between steps goes unnoticed", exc=False)
        for n in ns:
            i, a = arg(n, 1, "init"), n.kwargs.get("include_automatic_connections")
            ok = (i is None or ex(fl, i, n) != const(True)) and (a is None or ex(fl, a, n) == const(True))
            c.ob("J20-flow", nm + ":all", None if ok or any(arg(m, 1, "init") is None for m in ns) else True,
                 "data that flows backwards between steps goes unnoticed", n)
    odis = [n for n in calls(fl, "isdisjoint") if n not in dis]
    for n in odis:
        e = lit_edges(fl, lambda l, m, n=n: l[0] == "truth" and l[2] is False and l[1] == ("tmp", n.id))
        if e and frm(fl, n.args[0], n, outs, True) or frm(fl, n.recv, n, outs, True):
            starts = [t for m in g.live for t, lab in m.succ if (m.id, lab) in e]
            c.ob("J20-flow", "raised", fl.path(starts, [n, g.exit]), "data that flows backwards between steps goes unnoticed", n)
            for h in tasks:
                each(c, "J20-flow", "checked", fl, h, [n], "data that flows backwards between steps goes unnoticed", exc=False)
            # what the steps so far consumed is remembered, after the step
            other = n.recv if frm(fl, n.args[0], n, outs, True) else n.args[0]
            root = _root(fl, other, n)
            if root is not None and root[0] == "tmp":
                sd = [a for a in g.calls() if a.recv is not None and a.name in ("setdefault", "update", "add") and _root(fl, a.recv, a) == root] + [
                    a for a in g.live if a.kind == "substore" and _root(fl, a.base, a) == root]
                present(c, "J20-flow", "remembered", sd, "data that flows backwards between steps goes unnoticed", fl)
                rem = [h for h in iters(fl, False) if any(h in loops_of(fl, a) for a in sd) and h not in steps and h not in tasks]
                if rem:
                    for s in steps:
                        each(c, "J20-flow", "remembered:each step", fl, s, [h for h in rem if s in loops_of(fl, h)], "data that flows backwards between steps goes unnoticed", exc=False)
                    for h in rem:
                        each(c, "J20-flow", "remembered:each input", fl, h, sd, "data that flows backwards between steps goes unnoticed")
                for a in sd:
                    c.ob("J20-flow", "inputs", None if any(frm(fl, x, a, ins, True) for x in list(a.d.get("args") or ()) + [a.d.get("key"), a.d.get("value")] if x is not None) or _via(fl, a, ins) else True,
                         "data that flows backwards between steps goes unnoticed", a)
                    c.ob("J20-flow", "after the step", True if set(tasks) & set(loops_of(fl, a)) and not rem else None,
                         "tasks of one step that depend on each other are rejected", a)
    if not odis:
        present(c, "J20-flow", "checked", [n for n in g.live if n.kind == "branch" and any(frm(fl, x, n, outs, True) for lit in fl.lits(n, True) for x in lit[1:-1] if isinstance(x, tuple) and x and isinstance(
            x[0], str))], "data that flows backwards between steps goes unnoticed", fl)
    # uncovered tasks
    cov = calls(fl, "issuperset", "issubset")
    alltasks = lambda e, n: fl.derives(e, n, lambda t, m: is_self_attr(t, "tasks") or is_self_attr(t, "_tasks"), True)  # noqa: E731
    if cov:
        for n in cov:
            big, small = (n.recv, n.args[0]) if n.name == "issuperset" else (n.args[0], n.recv)
            c.ob("J21-covered", "direction", True if alltasks(big, n) and not alltasks(small, n) else None, "a task in no step goes unnoticed", n)
            e = lit_edges(fl, lambda l, m, n=n: l[0] == "truth" and l[2] is False and l[1] == ("tmp", n.id))
            if e:
                starts = [t for m in g.live for t, lab in m.succ if (m.id, lab) in e]
                c.ob("J21-covered", "raised", fl.path(starts, [g.exit]), "a task in no step goes unnoticed", n)
        none = lit_edges(fl, lambda lit, m: lit[0] == "truth" and lit[2] is False and tail(lit[1]) in ("_step_definitions", "steps"))
        c.ob("J21-covered", "always", fl.path([g.entry], [g.exit], stop_node=lambda m: m in cov, stop_edge=lambda m, lab: (m.id, lab) in none), "a task in no step goes unnoticed")
    else:
        present(c, "J21-covered", "checked", [n for n in g.live if n.kind == "branch" and any(alltasks(x, n) for lit in fl.lits(n, True) for x in lit[1:-1] if isinstance(x, tuple) and x and isinstance(
            x[0], str))], "a task in no step goes unnoticed", fl)
    # the step of each task
    mark = [n for n in g.live if n.kind == "substore" and n.key == const("step")]
    for k in ("TASK", "TASK_INIT"):
        mine = [n for n in mark if _haskey(fl, n.base, n, k)]
        present(c, "J22-labels", k, mine, "the step of a task is not recorded", fl)
        for h in tasks:
            each(c, "J22-labels", k, fl, h, mine, "the step of a task is not recorded", exc=False)
    for n in mark:
        c.ob("J22-labels", "label", None if any(fl.derives(n.value, n, lambda t, m, s=s: t == ("elem", s.id)) for s in steps) else True, "the wrong step is recorded for a task", n)
    # order
    so = [n for n in g.calls() if n.name in ("lexicographical_topological_sort", "topological_sort")]
    present(c, "J23-order", "sort", so, "tasks within a step are not sorted", fl)
    r = [n for n in retvals(fl) if fl.term(n.value, n) != const(None)]
    for n in r:
        src = [x for x in calls(fl, "extend", "update", "append") if frm(fl, x.args[0], x, so, True)]
        c.ob("J23-order", "returned", None if src or frm(fl, n.value, n, so, True) else True, "the order of a step is lost", n)
        for s in steps:
            if src:
                each(c, "J23-order", "each step", fl, s, src, "the order of a step is lost", exc=False)
    for n in so:
        c.ob("J23-order", "per step", None if set(steps) & set(loops_of(fl, n)) else True, "tasks are not ordered by step", n)
    subg = calls(fl, "subgraph")
    for n in subg:
        root = _root(fl, n.args[0], n)
        add = [a for a in calls(fl, "add", "update") if root is not None and _root(fl, a.recv, a) == root]
        if not add:
            continue
        for nm in ("predecessors", "successors"):
            for k in ("TASK", "TASK_INIT"):
                mine = [a for a in add if any(x.name == nm and _haskey(fl, x.args[0], x, k) for x in calls(fl, nm) if frm(fl, a.args[0], a, [x], True))]
                present(c, "J23-order", f"{nm}:{k}", mine, "part of a step is missing from its order", fl)
        for k in ("TASK", "TASK_INIT"):
            mine = [a for a in add if a.name == "add" and _haskey(fl, a.args[0], a, k) or a.name == "update" and not frm(fl, a.args[0], a, calls(fl, "predecessors", "successors"), True) and _haskey(
                fl, a.args[0], a, k)]
            present(c, "J23-order", k, mine, "a task is missing from the order", fl)
        # keys already sorted are not repeated
        sub_ = [a for a in calls(fl, "difference_update", "difference") if _root(fl, a.recv, a) == root] + [m for m in g.live if m.kind == "def" and any(
            isinstance(v, tuple) and fl.term(v, m)[0] == "op" and fl.term(v, m)[1] == "Sub" for _, v in m.d.get("defs", ()))]
        present(c, "J23-order", "no repeats", sub_, "a node is sorted more than once", fl)
        if all(a.kind == "call" and a.name == "difference_update" for a in sub_):
            for s in steps:
                c.ob("J23-order", "no repeats:before", fl.path([t for t, lab in s.succ if lab == "elem"], [n], stop_node=lambda m: m in sub_), "a node is sorted more than once", n)
        for a in sub_:
            if a.kind != "call":
                continue
            r2 = _root(fl, a.args[0], a)
            if r2 is not None and r2[0] == "tmp":
                mine = [x for x in calls(fl, "update", "add") if _root(fl, x.recv, x) == r2]
                for s in steps:
                    each(c, "J23-order", "sorted keys remembered", fl, s, mine, "a node is sorted more than once", exc=False)
    # no steps: nothing to do
    rn = [n for n in retvals(fl) if fl.term(n.value, n) == const(None)]
    for n in rn:
        guard(c, "J18-steps", "only without steps", fl, [n], lambda lit, m: lit[0] == "truth" and lit[2] is False and tail(lit[1]) in ("_step_definitions", "steps"),
              "steps are not checked")
    look = [n for n in g.live if n.kind in ("subload", "call") and getattr(n, "name", None) != "outputs_of" and n.kind == "subload" and mentions(ex(fl, n.d.get("base"), n), lambda s: s[0] == "attr" and s[2] in (
        "task_subsets", "_task_subsets"))]
    for n in look:
        hs = [t for t, lab in n.succ if lab == "exc"]
        if hs:
            c.ob("J18-steps", "no such subset", fl.path(hs, [g.exit], stop_node=lambda m: m in inv), "a step that is not a subset goes unnoticed", n)


def _via(fl, a, ins):
    """Whether a is in a loop over something filled from ins."""
    for h in loops_of(fl, a):
        r = _root(fl, h.iterable, h)
        for x in calls(fl, "setdefault", "add", "update"):
            if r is not None and _root(fl, x.recv, x) == r and any(frm(fl, y, x, ins, True) for y in x.args):
                return True
        for x in fl.g.live:
            if x.kind == "substore" and r is not None and _root(fl, x.base, x) == r and any(frm(fl, y, x, ins, True) for y in (x.key, x.value)):
                return True
    return False


def _root(fl, e, n):
    """The container behind .keys(), .setdefault() and the like."""
    for _ in range(8):
        t = fl.term(e, n)
        if t[0] == "var":
            ds = list(fl.sources(e, n))
            if len({(v, d.id) for v, d in ds}) != 1:
                return None
            var = t
            (e, n), = ds
            if e[0] == "var":
                return None
            if fl.term(e, n)[0] in ("dict", "list", "set"):
                return ("tmp", "display", var)
            continue
        if t[0] == "tmp":
            m = fl.g.nodes[t[1]]
            if m.kind == "call" and m.recv is not None and m.name in ("keys", "values", "items", "setdefault", "get", "copy"):
                e, n = m.recv, m
                continue
        if t[0] == "sub" and not mentions(t, lambda s: s[0] == "attr"):
            e = t[1]
            continue
        return t
    return None


def _haskey(fl, e, n, k):
    """Whether e is made from a NodeKey of that kind only."""
    kinds = {x for x in ("TASK", "TASK_INIT", "DATASET_TYPE") if mentions(ex(fl, e, n, 8), lambda t, x=x: t[0] in ("glob", "attr") and _enum(t, x))}
    return kinds == {k}


def step_dims(c, P):
    fl = flow_of(c, P, "_resolve_step_dimensions")
    g = fl.g
    msg = "incompatible dimensions of a step go unnoticed"
    chk = calls(fl, "_dimensions_compatible")
    present(c, "J24-dimensions", "checked", chk, msg, fl)
    allfull(c, "J24-dimensions", "_resolve_step_dimensions", fl, msg)
    task = [n for n in chk if fl.derives(n.args[1], n, lambda t, m: t[0] == "attr" and t[2] == "tasks" or mentions(t, lambda s: is_self_attr(s, "tasks")))]
    outs = [n for n in chk if frm(fl, n.args[1], n, calls(fl, "outputs_of"), True)]
    task = [n for n in task if n not in outs]
    present(c, "J24-dimensions", "task", task, msg, fl)
    present(c, "J24-dimensions", "outputs", outs, msg, fl)
    for ns in (task, outs):
        for n in ns:
            for h in loops_of(fl, n):
                each(c, "J24-dimensions", "each", fl, h, [x for x in ns] + [hh for hh in iters(fl, False) if hh != h and h in loops_of(fl, hh) and any(hh in loops_of(fl, x) for x in ns)], msg)
    for n in chk:
        e = lit_edges(fl, lambda l, m, n=n: l[0] == "truth" and l[2] is False and l[1] == ("tmp", n.id))
        starts = [t for m in g.live for t, lab in m.succ if (m.id, lab) in e]
        if starts:
            c.ob("J24-dimensions", "raised", fl.path(starts, [n, g.exit]), msg, n)
            e2 = lit_edges(fl, lambda l, m, n=n: l[0] == "truth" and l[2] is True and l[1] == ("tmp", n.id))
            starts = [t for m in g.live for t, lab in m.succ if (m.id, lab) in e2]
            inv = [m for m in g.live if m.kind == "raise" and (m.d.get("exc") or "").endswith("InvalidStepsError")]
            c.ob("J24-dimensions", "accepted", fl.path(starts, inv, stop_node=lambda m: m in chk), "valid steps are rejected", n)
        c.ob("J24-dimensions", "sharding first", None if frm(fl, n.args[0], n, calls(fl, "get_dimensions"), True) else True, msg, n)
    for n in calls(fl, "outputs_of"):
        c.ob("J24-dimensions", "all outputs", True if set(n.kwargs) or len(n.args) > 1 else None, msg, n)
    set_ = [n for n in g.live if n.kind == "attrstore" and n.name == "_universe"]
    present(c, "J24-dimensions", "universe", set_, "the dimensions of steps cannot be looked up", fl)
    for n in calls(fl, "get_dimensions"):
        c.ob("J24-dimensions", "universe first", fl.path([g.entry], [n], stop_node=lambda m: m in set_), "the dimensions of steps cannot be looked up", n)
    # compatibility
    fl = c.flow(PG + "_pipeline_graph._dimensions_compatible")
    rt = [r for r in retvals(fl)]
    sub = {"subset": lambda lit, m: lit[0] == "truth" and lit[1][0] == "tmp" and fl.g.nodes[lit[1][1]].name in ("issubset", "issuperset")}
    table(c, "J25-compatible", "subset", fl, [(r.value, r) for r in rt], sub, lambda subset: True if subset else None, msg)
    for n in calls(fl, "issubset", "issuperset"):
        a, b = (n.recv, n.args[0]) if n.name == "issubset" else (n.args[0], n.recv)
        c.ob("J25-compatible", "direction", None if ex(fl, a, n) == ("param", "dimensions") and ex(fl, b, n) == ("param", "object_dimensions") else True, msg, n)
    hs = [h for h in iters(fl) if fl.derives(h.iterable, h, lambda t, m: t[0] == "attr" and t[2] == "elements", True)]
    rel = {"relates": lambda lit, m: lit[0] == "truth" and tail(fl.term(lit[1], m)) == "defines_relationships"}
    dj = {}
    for n in calls(fl, "isdisjoint"):
        t = ex(fl, n.args[0], n, 8)
        if t[0] == "op" and t[1] == "Sub":
            side = "sharding" if mentions(t[2][0], lambda s: s == ("param", "dimensions")) and not mentions(t[2][0], lambda s: s == ("param", "object_dimensions")) else "object"
            dj.setdefault(side, []).append(n)
    if set(dj) == {"sharding", "object"} and hs:
        at = dict(rel)
        for s, ns in dj.items():
            at["no " + s] = lambda lit, m, ns=ns: lit[0] == "truth" and lit[1][0] == "tmp" and fl.g.nodes[lit[1][1]] in ns
        true = [r for r in rt if fl.term(r.value, r) == const(True)]
        if true:
            for a in product((True, False), repeat=3):
                fixed = dict(zip(at, a))
                if fixed == {"relates": True, "no sharding": False, "no object": False}:
                    continue
                cut = cut_edges(fl, at, fixed)
                starts = [t for h in hs for t, lab in h.succ if lab not in ("done", "exc", False)]
                c.ob("J25-compatible", f"related({', '.join(k for k, v in fixed.items() if v) or 'none'})",
                     fl.path(starts, true, stop_edge=lambda m, lab: (m.id, lab) in cut, stop_node=lambda m: m in hs), "dimensions that are not related are taken for compatible")
            cut = cut_edges(fl, at, {"relates": True, "no sharding": False, "no object": False})
            c.ob("J25-compatible", "related:found", fl.path(starts, hs + [r for r in rt if r not in true], stop_edge=lambda m, lab: (m.id, lab) in cut), "dimensions that are related are rejected")
    for h in hs:
        c.ob("J25-compatible", "elements", True if partial(fl, h) else None, "dimensions that are related are rejected", h)
        if any(fl.term(r.value, r) == const(True) for r in rt):
            no = [r for r in rt if fl.term(r.value, r) == const(False)]
            c.ob("J25-compatible", "all elements", fl.path([t for t, lab in h.succ if lab == "elem"], no, stop_node=lambda m: m is h), "dimensions that are related are rejected", h)


def state(c, P):
    fl = flow_of(c, P, "is_fully_resolved")
    at = {"unknown": lambda lit, m: lit == ("isnone", ("attr", ("param", "self"), "_universe"), True),
          "verified": lambda lit, m: lit[0] == "truth" and tail(fl.term(lit[1], m)) == "verified",
          "unsorted": lambda lit, m: lit == ("isnone", ("attr", ("param", "self"), "_sorted_keys"), True),
          "resolved": lambda lit, m: lit[0] == "truth" and lit[1][0] == "tmp" and fl.g.nodes[lit[1][1]].name == "is_resolved"}
    def spec(unknown, verified, unsorted, resolved):  # noqa: E306
        return False if unknown or not verified or unsorted else None
    table(c, "J26-resolved", "is_fully_resolved", fl, [(r.value, r) for r in retvals(fl)], at, spec, "a graph that is not resolved claims to be")
    hs = [h for h in iters(fl) if fl.derives(h.iterable, h, lambda t, m: t[0] == "attr" and t[2] in ("dataset_types", "_dataset_types"), True)]
    present(c, "J26-resolved", "dataset types", [n for n in calls(fl, "is_resolved")], "a graph with unresolved dataset types claims to be resolved", fl)
    for h in hs:
        c.ob("J26-resolved", "all dataset types", True if partial(fl, h) else None, "a graph with unresolved dataset types claims to be resolved", h)
    fl = flow_of(c, P, "get_task_step")
    at = {"steps": lambda lit, m: lit[0] == "truth" and tail(lit[1]) == "_step_definitions", "verified": lambda lit, m: lit[0] == "truth" and tail(lit[1]) == "verified"}
    bad = "the step of a task is taken from before a modification"
    for fixed in ({"steps": False}, {"steps": True, "verified": False}):
        outcome(c, "J27-task-step", "get_task_step", fl, at, fixed, "raise", bad)
    outcome(c, "J27-task-step", "get_task_step", fl, at, {"steps": True, "verified": True}, "return", "the step of a task cannot be found")
    for r in retvals(fl):
        t = ex(fl, r.value, r, 8)
        c.ob("J27-task-step", "label", None if mentions(t, lambda s: s == const("step")) and mentions(t, lambda s: s == ("param", "task_label")) else True, bad, r)


def registration(c, P):
    fl = flow_of(c, P, "register_dataset_types")
    g = fl.g
    msg = "a dataset type is not registered"
    reg = calls(fl, "registerDatasetType")
    present(c, "J28-register", "registered", reg, msg, fl)
    for n in reg:
        for h in loops_of(fl, n):
            each(c, "J28-register", "each", fl, h, [n], msg)
    par = lambda nm: lambda lit, m: lit == ("truth", ("param", nm), True)  # noqa: E731
    pk = [n for n in g.live if n.kind == "substore" and mentions(ex(fl, n.value, n), lambda s: s[0] == "attr" and s[2] == "packages_dataset_type")]
    present(c, "J28-register", "packages", pk, msg, fl)
    _flag(c, "J28-register", "packages", fl, "include_packages", pk, True, msg)
    for nm, a in (("include_configs", "config_output"), ("include_logs", "log_output")):
        dl = [n for n in g.live if n.kind == "delsub" and mentions(ex(fl, n.key, n), lambda s: s[0] == "attr" and s[2] == a)] + [
            n for n in calls(fl, "pop", "discard") if n.args and mentions(ex(fl, n.args[0], n), lambda s: s[0] == "attr" and s[2] == a)]
        present(c, "J28-register", nm, dl, "a dataset type is registered against the caller's wish", fl)
        _flag(c, "J28-register", nm, fl, nm, dl, False, msg)
        for n in dl:
            for h in loops_of(fl, n):
                each(c, "J28-register", nm + ":each", fl, h, dl, "a dataset type is registered against the caller's wish",
                     unless=lambda lit, m: lit[0] == "isnone" and lit[2] is True and mentions(ex(fl, lit[1], m), lambda s: s[0] == "attr" and s[2] == a))
            c.ob("J28-register", nm + ":before", fl.path(reg, [n]), "a dataset type is registered against the caller's wish", n)
    at = {"inputs": par("include_inputs"), "external": lambda lit, m: lit[0] == "isnone" and mentions(ex(fl, lit[1], m), lambda s: s[0] == "call" and s[2] == "producer_of")}
    for h in iters(fl, None):
        if not fl.derives(h.iterable, h, lambda t, m: is_self_attr(t, "dataset_types") or is_self_attr(t, "_dataset_types"), True):
            continue
        c.ob("J28-register", "all", True if partial(fl, h) else None, msg, h)
        elts = [m for m in g.live if m.kind == "compelt" and h.id in m.d["compterm"][3] or m.kind == "substore" and h in loops_of(fl, m)]
        if not elts:
            continue
        for a in product((True, False), repeat=2):
            fixed = dict(zip(at, a))
            cut = cut_edges(fl, at, fixed)
            starts = [t for t, lab in h.succ if lab not in ("done", "exc", False)]
            se = lambda m, lab, cut=cut: (m.id, lab) in cut or lab == "exc"  # noqa: E731
            if fixed["inputs"] or not fixed["external"]:
                w = fl.path(starts, [h, g.exit], stop_node=lambda m: m in elts, stop_edge=se)
                c.ob("J28-register", f"collected({', '.join(k for k, v in fixed.items() if v) or 'none'})", w, msg, h)
            else:
                w = fl.path(starts, elts, stop_node=lambda m: m is h, stop_edge=se)
                c.ob("J28-register", "collected(external)", w, "a dataset type is registered against the caller's wish", h)
    # checks
    fl = flow_of(c, P, "check_dataset_type_registrations")
    g = fl.g
    msg = "a missing or changed dataset type goes unnoticed"
    get = calls(fl, "getDatasetType")
    present(c, "J29-check", "looked up", get, msg, fl)
    for n in get:
        for h in loops_of(fl, n):
            each(c, "J29-check", "each", fl, h, [n], msg)
    pk = [n for n in g.calls() if n.name in ("append", "add", "insert") and any(mentions(ex(fl, x, n), lambda s: s[0] == "attr" and s[2] == "packages_dataset_type") for x in n.args)]
    if pk:
        _flag(c, "J29-check", "packages", fl, "include_packages", pk, True, msg)
    else:
        present(c, "J29-check", "packages", [n for n in g.live if mentions_attr(fl, n, "packages_dataset_type")], msg, fl)
    _narrow(c, fl.g.root, "a failed lookup is taken for a missing dataset type")
    for h in iters(fl):
        if not h.d.get("quant"):
            c.ob("J29-check", "all", True if partial(fl, h) else None, msg, h)
    con = [n for n in g.live if n.kind == "raise" and (n.d.get("exc") or "").endswith("ConflictingDefinitionError")]
    mis = [n for n in g.live if n.kind == "raise" and (n.d.get("exc") or "").endswith("MissingDatasetTypeError")]
    present(c, "J29-check", "conflict", con, msg, fl)
    present(c, "J29-check", "missing", mis, msg, fl)
    same = lambda lit, m: lit[0] == "eq" and any(frm(fl, x, m, get) for x in lit[1:3])  # noqa: E731
    neq = lit_edges(fl, lambda lit, m: same(lit, m) and lit[3] is False)
    guard(c, "J29-check", "conflict compared", fl, con, lambda lit, m: same(lit, m) and lit[3] is False, "a matching dataset type is rejected")
    if neq:
        starts = [t for m in g.live for t, lab in m.succ if (m.id, lab) in neq]
        c.ob("J29-check", "conflict raised", fl.path(starts, [g.exit] + get), msg)
        eq = lit_edges(fl, lambda lit, m: same(lit, m) and lit[3] is True)
        for r in con:
            c.ob("J29-check", "conflict only", fl.path([t for m in g.live for t, lab in m.succ if (m.id, lab) in eq], [r], stop_node=lambda m: m in get), "a matching dataset type is rejected", r)
        none = lambda lit, m: lit[0] == "isnone" and (frm(fl, lit[1], m, get) or lit[1][0] == "var" and any(frm(fl, v, d, get) for v, d in fl.sources(lit[1], m)))  # noqa: E731
        for n in get:
            w = fl.path([t for t, lab in n.succ if lab != "exc"], [h for h in loops_of(fl, n)], stop_edge=lambda m, lab: (m.id, lab) in eq | neq | lit_edges(fl, lambda x, k: none(x, k) and x[2] is True))
            c.ob("J29-check", "conflict checked", w, msg, n)
    app = [n for n in calls(fl, "append", "add") if n not in pk and fl.term(n.recv, n)[0] in ("var", "tmp")]
    prod = lambda lit, m: mentions(ex(fl, lit[1], m), lambda s: s[0] == "call" and s[2] in ("producer_of", "producing_edge_of"))  # noqa: E731
    tell = {"unregistered": lambda lit, m: lit[0] == "isnone" and not prod(lit, m) and (frm(fl, lit[1], m, get) or lit[1][0] == "var"),
            "external": lambda lit, m: lit[0] == "isnone" and prod(lit, m),
            "optional": lambda lit, m: lit[0] == "truth" and mentions(ex(fl, lit[1], m), lambda s: s[0] == "call" and s[2] == "is_optional"),
            "packages": lambda lit, m: lit[0] == "eq" and any(t[0] == "glob" and t[1].endswith("PACKAGES_INIT_OUTPUT_NAME") for t in lit[1:3])}
    present(c, "J29-check", "recorded", app + [n for n in g.live if n.kind == "def" and any(isinstance(v, tuple) and v[0] == "op" for _, v in n.d.get("defs", ()))], msg, fl)
    if app and get and (_seen(fl, tell["optional"]) or not _depends(fl, ("is_optional",))):
        for fixed in ({"unregistered": True, "external": False}, {"unregistered": True, "packages": True}, {"unregistered": True, "external": True, "optional": False, "packages": False}):
            cut = cut_edges(fl, tell, fixed)
            if fixed.get("optional") is False:  # one of the consumers is not optional: the loop over them is not empty
                qs = [h for h in iters(fl) if frm(fl, h.iterable, h, calls(fl, "consuming_edges_of", "consumers_of"), True)]
                cut |= {(h.id, "done") for h in qs}
            for n in get:
                hs = loops_of(fl, n)
                w = fl.path([n], list(hs) + [g.exit], stop_node=lambda m: m in app or m in con, stop_edge=lambda m, lab: (m.id, lab) in cut)
                c.ob("J29-check", f"missing({', '.join(('' if v else 'not ') + k for k, v in fixed.items())})", w, msg, n)
        cut = cut_edges(fl, tell, {"unregistered": True, "external": True, "optional": True, "packages": False})
        c.ob("J29-check", "optional inputs", fl.path(get, app, stop_edge=lambda m, lab: (m.id, lab) in cut, stop_node=lambda m: any(m in loops_of(fl, n) for n in get)),
             "an input nothing needs is reported as missing")
        cut = cut_edges(fl, tell, {"unregistered": False})
        c.ob("J29-check", "registered", fl.path([t for n in get for t, lab in n.succ if lab != "exc"], app, stop_edge=lambda m, lab: (m.id, lab) in cut, stop_node=lambda m: any(
            m in loops_of(fl, n) for n in get)), "a registered dataset type is reported as missing")
    for n in mis:
        guard(c, "J29-check", "missing only", fl, [n], lambda lit, m: lit[0] == "truth" and lit[2] is True or lit[0] in ("lt", "eq"), "registered dataset types are reported as missing")
    for n in mis:
        c.ob("J29-check", "missing raised", None if not app else fl.path(app, [g.exit], stop_node=lambda m: m in mis, stop_edge=_se(
            fl, lambda lit, m: lit[0] == "truth" and lit[2] is False and any(_root(fl, lit[1], m) == _root(fl, a.recv, a) for a in app))), msg, n)


def mentions_attr(fl, n, nm):
    return any(isinstance(v, tuple) and v and mentions(ex(fl, v, n), lambda s: s[0] == "attr" and s[2] == nm) for v in list(n.d.get("args") or ()) + [v for _, v in n.d.get("defs", ())])


def _flag(c, rule, inst, fl, par, nodes, on, msg):
    """The nodes are reached only if the parameter has that value, and passed (as far as loops go) if it has."""
    at = {"p": lambda lit, m: lit == ("truth", ("param", par), True)}
    off = cut_edges(fl, at, {"p": not on})
    c.ob(rule, f"{inst}:only {par}={on}", fl.path([fl.g.entry], nodes, stop_edge=lambda m, lab: (m.id, lab) in off), msg)
    onc = cut_edges(fl, at, {"p": on})
    heads = [h for n in nodes for h in loops_of(fl, n)]
    c.ob(rule, f"{inst}:whenever {par}={on}", fl.path([fl.g.entry], [fl.g.exit], stop_node=lambda m: m in nodes or m in heads, stop_edge=lambda m, lab: (m.id, lab) in onc or lab == "exc"), msg)


def general(c):
    D = c.prog.cls(PG + "_dataset_types.DatasetTypeNode")
    fl = flow_of(c, D, "generalize_ref")
    comp, over = calls(fl, "makeCompositeRef"), calls(fl, "overrideStorageClass")
    msg = "a reference does not match the dataset type of the graph"
    present(c, "J30-generalize", "component", comp, msg, fl)
    present(c, "J30-generalize", "storage class", over, msg, fl)
    isc = {"component": lambda lit, m: lit[0] == "truth" and mentions(ex(fl, lit[1], m), lambda s: s[0] == "call" and s[2] == "isComponent")}
    if comp:
        passes(c, "J30-generalize", "component", fl, [fl.g.entry], comp, [fl.g.exit], isc, lambda component: "must" if component else "never", msg)
    same = {"same": lambda lit, m: lit[0] == "eq"}
    if over:
        passes(c, "J30-generalize", "storage class", fl, [fl.g.entry], over, [fl.g.exit], same, lambda same: "never" if same else "must", msg)
    for n in over:
        c.ob("J30-generalize", "own class", None if mentions(ex(fl, n.args[0], n), lambda s: s == ("attr", ("param", "self"), "dataset_type") or s == ("param", "self")) else True, msg, n)
    for cls in ("ReadEdge", "WriteEdge"):
        E = c.prog.cls(PG + "_edges." + cls)
        for nm, mk in (("adapt_dataset_type", "makeComponentDatasetType"), ("adapt_dataset_ref", "makeComponentRef")):
            fl = flow_of(c, E, nm)
            msg = "a task is given a dataset as another type than it asked for"
            over, comp = calls(fl, "overrideStorageClass"), calls(fl, mk)
            present(c, "J31-adapt", f"{cls}.{nm}", over, msg, fl)
            same = {"same": lambda lit, m: lit[0] == "eq"}
            passes(c, "J31-adapt", f"{cls}.{nm}:class", fl, [fl.g.entry], over, [fl.g.exit], same, lambda same: "never" if same else "must", msg)
            for n in over:
                c.ob("J31-adapt", f"{cls}.{nm}:own class", None if ex(fl, n.args[0], n) == ("attr", ("param", "self"), "storage_class_name") else True, msg, n)
            for n in fl.g.live:
                if n.kind == "branch":
                    for lit in fl.lits(n, True):
                        if lit[0] == "eq":
                            ts = [ex(fl, x, n) for x in lit[1:3]]
                            c.ob("J31-adapt", f"{cls}.{nm}:compared", None if ("attr", ("param", "self"), "storage_class_name") in ts and any(tail(t) == "storageClass_name" for t in ts) else True, msg, n)
            if cls == "ReadEdge":
                present(c, "J31-adapt", f"{cls}.{nm}:component", comp, msg, fl)
                isc = {"whole": lambda lit, m: lit == ("isnone", ("attr", ("param", "self"), "component"), True)}
                passes(c, "J31-adapt", f"{cls}.{nm}:component", fl, [fl.g.entry], comp, [fl.g.exit], isc, lambda whole: "never" if whole else "must", msg)
                for n in comp:
                    c.ob("J31-adapt", f"{cls}.{nm}:which", None if ex(fl, n.args[0], n) == ("attr", ("param", "self"), "component") else True, msg, n)
                for n in over:
                    c.ob("J31-adapt", f"{cls}.{nm}:component first", fl.path([n], comp), msg, n)
