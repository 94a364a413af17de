"""Pipeline definitions: imports, merging, subsets, configuration overrides, reading and writing."""

from __future__ import annotations

import ast
from itertools import product

from ..lib import Check, const
from ..q import allfull, arg, calls, ctor, each, ex, flow_of, frm, guard, iters, lit_edges, loops_of, loops_over, mentions, partial, present, retvals, subterms, tail
from .boolval import cut_edges, passes
from .pgresolve import _root, _seen, outcome
from .pgstruct import P_

B = "lsst.pipe.base."
IR = B + "pipelineIR."


def run(c: Check):
    I, P = c.prog.cls(IR + "ImportIR"), c.prog.cls(IR + "PipelineIR")
    importing(c, I)
    merging(c, P)
    subsetting(c, P)
    contracts(c, P)
    construction(c, P)
    reading(c, P)
    verification(c, P)
    primitives(c, P)
    configs(c)
    overrides(c)
    pipeline(c)
    whole(c)
    clashes(c, P)


def at(t, *names):
    """Whether term t is (a chain ending in) one of the attributes."""
    return t[0] == "attr" and t[2] in names


def self_(nm):
    return ("attr", ("param", "self"), nm)


def _into(fl, n, *attr):
    """Whether call or store n changes attribute attr of something (the container itself)."""
    b = n.recv if n.kind == "call" else n.d.get("base")
    return b is not None and at(ex(fl, b, n, 8), *attr)


def _attrstores(fl, *names):
    return [n for n in fl.g.live if n.kind == "attrstore" and n.name in names]


def _true(t0):
    return lambda lit, m: lit == ("truth", t0, True)


def _isnone(t0):
    return lambda lit, m: lit == ("isnone", t0, True)


def _raises(fl):
    return [n for n in fl.g.live if n.kind == "raise" and n.d.get("value") is not None]


def must(c, rule, inst, fl, starts, nodes, goals, msg, cut=()):
    """No path from starts to goals avoids the nodes."""
    c.ob(rule, inst, fl.path(starts, goals, stop_node=lambda m: m in nodes, stop_edge=lambda m, lab: (m.id, lab) in cut or lab == "exc"), msg)


def after(c, rule, inst, fl, first, then, msg):
    """No path leads from then back to first: first comes before then."""
    if first and then:
        c.ob(rule, inst, fl.path(then, first), msg)


def direct(fl, h, nm):
    """The attribute nm that loop h goes over (itself, its items or a copy of it), or None."""
    t = ex(fl, h.iterable, h, 8)
    for _ in range(6):
        if t[0] == "call" and t[2] in ("items", "keys", "values", "copy") and t[3] is not None and not t[4]:
            t = t[3]
        elif t[0] == "call" and t[2] in ("list", "tuple", "set", "sorted", "copy", "deepcopy", "dict", "frozenset", "reversed") and t[4]:
            t = t[4][0]
        else:
            break
    return t if at(t, nm) else None


def elems(h):
    return [(h, "elem")]


# ---------------------------------------------------------------- imports

def importing(c, C):
    fl = flow_of(c, C, "toPipelineIR")
    g = fl.g
    sub = calls(fl, "subset_from_labels")
    present(c, "K1-import", "selected", sub, "an import ignores include and exclude", fl)
    for n in sub:
        m = arg(n, 1, "subsetCtrl")
        c.ob("K1-import", "mode", None if m is not None and ex(fl, m, n) == self_("labeledSubsetModifyMode") else True, "an import ignores how subsets are to be treated", n)
    for r in retvals(fl):
        c.ob("K1-import", "result", None if frm(fl, r.value, r, sub) else True, "an import ignores include and exclude", r)
    roots = {_root(fl, arg(n, 0, "labelSpecifier"), n) for n in sub if n.args or n.kwargs} - {None}
    sel = [n for n in g.calls() if n.recv is not None and _root(fl, n.recv, n) in roots]
    add, upd, rem = ([n for n in sel if n.name in ns] for ns in (("add",), ("update",), ("difference_update", "discard", "remove")))
    tasks = [h for h in iters(fl, False) if at(ex(fl, h.iterable, h, 4), "tasks") or mentions(ex(fl, h.iterable, h, 4), lambda s: at(s, "tasks")) and not mentions(
        ex(fl, h.iterable, h, 4), lambda s: at(s, "labeled_subsets"))]
    hs = [h for h in tasks if any(h in loops_of(fl, n) for n in add)]
    present(c, "K1-import", "tasks", hs, "an import ignores include and exclude", fl)
    inc, exc = self_("include"), self_("exclude")
    atoms = {"inc": _true(inc), "incnone": _isnone(inc), "ininc": lambda lit, m: lit[0] == "in" and lit[2] == inc, "exc": _true(exc), "excnone": _isnone(exc),
             "inexc": lambda lit, m: lit[0] == "in" and lit[2] == exc}

    def spec(inc, incnone, ininc, exc, excnone, inexc):
        if inc and incnone or exc and excnone or ininc and not inc or inexc and not exc or inc and exc:
            return None
        if inc:
            return "must" if ininc else "never"
        if not incnone:
            return None  # an empty list
        if excnone:
            return "must"
        return "never" if inexc else "must"

    for h in hs:
        passes(c, "K2-selection", "labels", fl, elems(h), [n for n in add if h in loops_of(fl, n)], [h, g.exit], atoms, spec, "an import takes other tasks than it says", stop=[h], exc=False)
        each_break(c, "K2-selection", "all labels", fl, h, "an import takes other tasks than it says")
    ren = calls(fl, "get")
    ren = [n for n in ren if ex(fl, n.recv, n) == self_("rename")] + [n for n in g.live if n.kind == "subload" and ex(fl, n.d.get("base"), n) == self_("rename")]
    present(c, "K3-rename", "looked up", ren, "a task of an import is not renamed", fl)
    for n in add:
        v = n.args[0]
        c.ob("K3-rename", "label", None if frm(fl, v, n, ren) else True, "a renamed task is not selected under its new name", n)
        # without a new name the label itself
        src = [t for t, m in ((fl.term(v, n), n),) if t[0] != "var"] or [fl.term(x, d) for x, d in fl.sources(v, n)]
        c.ob("K3-rename", "unrenamed", None if any(t[0] == "elem" for t in src) or any(t[0] == "tmp" and g.nodes[t[1]].kind == "call" and len(g.nodes[t[1]].args) > 1 for t in src) else True,
             "a task that is not renamed is lost", n)
    # rewriting the include list keeps the other entries
    for n in _attrstores(fl, "include"):
        t = fl.term(n.value, n)
        if t[0] != "comp":
            continue
        heads = set(t[3])
        for e in g.live:
            if e.kind == "compelt" and set(e.d["compterm"][3]) == heads:
                c.ob("K3-rename", "include:complete", True if any(partial(fl, g.nodes[i]) for i in heads) else None, "a label of an include list is lost", e)
                val = e.d["value"]
                tt = fl.term(val, e)
                vals = [(tt, e)] if tt[0] != "var" else [(fl.term(x, d), d) for x, d in fl.sources(val, e)]
                c.ob("K3-rename", "include", None if any(x == ("elem", i) for x, _ in vals for i in heads) else True, "a label of an include list is lost when another is renamed", e)
    pops = [n for n in calls(fl, "pop") if _into(fl, n, "tasks")] + [n for n in g.live if n.kind == "delsub" and _into(fl, n, "tasks")]
    st = [n for n in g.live if n.kind == "substore" and _into(fl, n, "tasks")]
    lab = _attrstores(fl, "label")
    for nm, ns in (("removed", pops), ("stored", st), ("label", lab)):
        present(c, "K3-rename", nm, ns, "a renamed task is lost or keeps its old name", fl)
        for h in {h for n in ns for h in loops_of(fl, n)}:
            each(c, "K3-rename", nm, fl, h, ns, "a renamed task is lost or keeps its old name", unless=lambda l, m: l[0] == "in" and l[3] is True and mentions(ex(fl, l[2], m), lambda s: at(s, "tasks")),
                 exc=False)
    for n in st:
        c.ob("K3-rename", "same task", None if frm(fl, n.value, n, pops) or not pops or any(p.kind != "call" for p in pops) else True, "a renamed task becomes another", n)
        guard(c, "K3-rename", "no overwriting", fl, [n], lambda l, m: l[0] == "in" and l[3] is False and mentions(ex(fl, l[2], m), lambda s: at(s, "tasks")), "a renamed task replaces another")
    # subset names
    for ns, a, what in ((upd, "include", "included"), (rem, "exclude", "excluded")):
        ns = [n for n in ns if mentions(ex(fl, n.args[0], n, 8), lambda s: at(s, "subset"))]
        present(c, "K4-subsets", what, ns, f"a subset cannot be {what} by its name", fl)
        for n in ns:
            for h in loops_of(fl, n):
                t = ex(fl, h.iterable, h, 8)
                c.ob("K4-subsets", what, None if mentions(t, lambda s: s == self_(a)) else True, f"a subset cannot be {what} by its name", n)
                each(c, "K4-subsets", what + ":each", fl, h, ns, f"a subset is not {what}", unless=lambda l, m: l[0] == "in" and l[3] is False)
            c.ob("K4-subsets", what + ":before", fl.path(sub, [n]), f"a subset is not {what}", n)
            for b in add:
                c.ob("K4-subsets", what + ":after", fl.path([n], [b]), f"a subset is not {what}", n)
            guard(c, "K4-subsets", what + ":only", fl, [n], lambda l, m, a=a: l[0] in ("isnone", "truth") and l[1] == self_(a) and l[2] is (l[0] == "truth") or l[0] == "in" and l[3] is True
                  and l[2] == self_(a), "labels are selected that were not asked for")
    # flags
    for flag, field in (("importSteps", "steps"), ("importContracts", "contracts")):
        z = [n for n in _attrstores(fl, field)]
        present(c, "K5-flags", flag, z, f"{field} are imported against the wish of the import", fl)
        a = {"on": _true(self_(flag))}
        passes(c, "K5-flags", flag, fl, [g.entry], z, [g.exit], a, lambda on: "never" if on else "must", f"{field} are imported against the wish of the import, or not imported", exc=False)
    z = _attrstores(fl, "instrument")
    present(c, "K5-flags", "instrument", z, "the instrument of an import is not replaced", fl)
    keep = {"keep": lambda lit, m: lit[0] == "eq" and any(t[0] == "glob" and t[1].endswith("KeepInstrument") for t in lit[1:3])}
    passes(c, "K5-flags", "instrument", fl, [g.entry], z, [g.exit], keep, lambda keep: "never" if keep else "must", "the instrument of an import is wrong", exc=False)
    for n in z:
        c.ob("K5-flags", "instrument:value", None if ex(fl, n.value, n) == self_("instrument") else True, "the instrument of an import is wrong", n)
    both = {"inc": _true(inc), "exc": _true(exc)}
    outcome(c, "K6-rejected", "include and exclude", fl, both, {"inc": True, "exc": True}, "raise", "contradicting selections are accepted")
    present(c, "K6-rejected", "rename", [n for n in _raises(fl) if any(fl.derives(x, m, lambda t, k: at(t, "rename")) for m in g.live if m.kind == "branch" for lab_ in (True, False)
                                                                     for lit in fl.lits(m, lab_) for x in lit[1:-1] if isinstance(x, tuple) and x and isinstance(x[0], str))],
            "ambiguous renames are accepted", fl)
    err = [n for n in calls(fl, "append", "add") if any(h in [x for s in st for x in loops_of(fl, s)] for h in loops_of(fl, n)) and n not in add]
    if not err:
        e = lit_edges(fl, lambda l, m: l[0] == "in" and l[3] is True and mentions(ex(fl, l[2], m), lambda s: at(s, "tasks")) and any(h in loops_of(fl, m) for s in st for h in loops_of(fl, s)))
        c.ob("K6-rejected", "existing label", fl.path([t for m in g.live for t, lab_ in m.succ if (m.id, lab_) in e], [g.exit]), "a rename to an existing label is accepted")
    for n in err:
        root = _root(fl, n.recv, n)
        es = lit_edges(fl, lambda l, m: l[0] == "truth" and l[2] is False and _root(fl, l[1], m) == root)
        c.ob("K6-rejected", "existing label", fl.path([n], [g.exit], stop_edge=lambda m, lab: (m.id, lab) in es), "a rename to an existing label is accepted", n)


def each_break(c, rule, inst, fl, h, msg):
    """Loop h visits everything unless an exception ends it."""
    body = fl.loop_body(h)
    bad = partial(fl, h) or any(t.id not in body and t is not h and lab != "exc" and t.kind != "raise" and n is not h and not _onlyraises(fl, t)
                               for n in fl.g.live if n.id in body for t, lab in n.succ)
    c.ob(rule, inst, True if bad else None, msg, h)


def _onlyraises(fl, t):
    return fl.path([t], [fl.g.exit]) is None


# ---------------------------------------------------------------- merging

def merging(c, C):
    fl = flow_of(c, C, "merge_pipelines")
    g = fl.g
    hs = loops_over(fl, "param", "pipelines")
    present(c, "K7-merge", "pipelines", hs, "a merged pipeline is ignored", fl)
    for h in hs:
        each_break(c, "K7-merge", "all pipelines", fl, h, "a merged pipeline is ignored")

    def of(e, n, nm, own):
        """Whether e is attribute nm of self (own) or of the pipeline that is merged."""
        t = ex(fl, e, n, 8)
        return mentions(t, lambda s: at(s, nm) and (s[1] == ("param", "self") if own else any(s[1] in (("elem", h.id), ("elemof", ex(fl, h.iterable, h, 7))) for h in hs)))

    final = {nm: [n for n in _attrstores(fl, nm) if ex(fl, n.base, n) == ("param", "self")] for nm in ("tasks", "labeled_subsets", "parameters", "steps")}
    for nm, ns in final.items():
        present(c, "K8-result", nm, ns, f"merged {nm} are lost", fl)
        must(c, "K8-result", nm, fl, [g.entry], ns, [g.exit], f"merged {nm} are lost")
    acc = {nm: {_root(fl, n.value, n) if _root(fl, n.value, n) is not None else None for n in ns} - {None} for nm, ns in final.items()}
    for nm in ("tasks", "labeled_subsets", "parameters"):
        up = [n for n in calls(fl, "update") if _acc(fl, n.recv, n) in acc[nm]] + [n for n in g.live if n.kind == "substore" and _acc(fl, n.base, n) in acc[nm]]
        theirs = [n for n in up if of(n.args[0] if n.kind == "call" else n.value, n, nm, False)]
        present(c, "K7-merge", nm, theirs, f"{nm} of a merged pipeline are lost", fl)
        for h in hs:
            must(c, "K7-merge", nm + ":each", fl, elems(h), theirs, [h], f"{nm} of a merged pipeline are lost")
        own = [n for n in up if of(n.args[0] if n.kind == "call" else n.value, n, nm, True)]
        present(c, "K9-own", nm, own, f"the pipeline's own {nm} are lost", fl)
        after(c, "K9-own", nm + ":last", fl, theirs, own, f"a merged pipeline overrides the pipeline's own {nm}")
        if nm != "tasks":
            must(c, "K9-own", nm + ":always", fl, [g.entry], own, [g.exit], f"the pipeline's own {nm} are lost")
    con = [n for n in calls(fl, "extend") if _into(fl, n, "contracts")] + [n for n in _attrstores(fl, "contracts")]
    con = [n for n in con if of(n.args[0] if n.kind == "call" else n.value, n, "contracts", False)]
    present(c, "K7-merge", "contracts", con, "contracts of a merged pipeline are lost", fl)
    for h in hs:
        must(c, "K7-merge", "contracts:each", fl, elems(h), con, [h], "contracts of a merged pipeline are lost")
    # steps
    for own in (False, True):
        sh = [h for h in iters(fl, False) if h not in hs and of(h.iterable, h, "steps", own)]
        what = "own" if own else "merged"
        sd = [n for n in g.calls() if n.name == "setdefault" and any(h in loops_of(fl, n) for h in sh)] + [n for n in g.live if n.kind == "substore" and any(h in loops_of(fl, n) for h in sh)]
        present(c, "K7-merge", f"steps:{what}", sd, f"{what} steps are lost", fl)
        for h in sh:
            each_break(c, "K7-merge", f"steps:{what}:all", fl, h, f"{what} steps are lost")
            known = lit_edges(fl, lambda l, m: l[0] == "in" and l[3] is True or l[0] == "isnone" and l[2] is False)
            must(c, "K7-merge", f"steps:{what}:each", fl, elems(h), sd, [h], f"{what} steps are lost", cut=known)
        for n in sd:
            if n.kind == "call":
                e = lit_edges(fl, lambda l, m: l[0] == "eq" and l[3] is False and any(frm(fl, x, m, [n]) for x in l[1:3]))
                if e:
                    c.ob("K10-conflicts", f"steps:{what}", fl.path([t for m in g.live for t, lab in m.succ if (m.id, lab) in e], [g.exit] + sd), "conflicting steps are accepted", n)
                else:
                    c.fail("K10-conflicts", f"steps:{what}", "conflicting steps are accepted", n)
    # instrument
    none, same, other = _isnone(self_("instrument")), (lambda lit, m: lit[0] == "eq" and any(t == self_("instrument") for t in lit[1:3])), (
        lambda lit, m: lit[0] == "isnone" and at(lit[1], "instrument") and lit[1][1][0] in ("elem", "elemof", "var") and lit[1] != self_("instrument"))
    ins = [n for n in _attrstores(fl, "instrument")]
    atoms = {"unset": none, "same": same, "theirs unset": other}
    for h in hs:
        cut = cut_edges(fl, {"unset": none}, {"unset": True})
        must(c, "K11-instrument", "adopted", fl, elems(h), ins, [h], "the instrument of a merged pipeline is lost", cut)
        cut = cut_edges(fl, {"unset": none}, {"unset": False})
        c.ob("K11-instrument", "kept", fl.path(elems(h), ins, stop_node=lambda m: m is h, stop_edge=lambda m, lab: (m.id, lab) in cut), "a merged pipeline replaces the instrument")
        cut = cut_edges(fl, atoms, {"unset": False, "same": False, "theirs unset": False})
        c.ob("K11-instrument", "conflict", fl.path(elems(h), [h, g.exit], stop_edge=lambda m, lab: (m.id, lab) in cut), "conflicting instruments are accepted")
        for fixed in ({"unset": False, "same": True}, {"unset": False, "theirs unset": True}, {"unset": True}):
            cut = cut_edges(fl, atoms, fixed)
            bad = [r for r in _raises(fl) if mentions(ex(fl, r.d["value"], r, 8), lambda s: at(s, "instrument"))]
            c.ob("K11-instrument", f"accepted({', '.join(k for k, v in fixed.items() if v) or 'none'})", fl.path(elems(h), bad, stop_node=lambda m: m is h, stop_edge=lambda m, lab: (m.id, lab) in cut),
                 "compatible instruments are rejected")
    for n in ins:
        c.ob("K11-instrument", "value", None if of(n.value, n, "instrument", False) else True, "the instrument of a merged pipeline is lost", n)
    # duplicates among merged pipelines
    for nm in ("tasks", "labeled_subsets"):
        theirs = [n for n in calls(fl, "update") if _acc(fl, n.recv, n) in acc[nm] and of(n.args[0], n, nm, False)]
        e = lit_edges(fl, lambda l, m: l[0] == "truth" and l[2] is True and mentions(ex(fl, l[1], m, 8), lambda s: s[0] in ("op", "call")) and _both(fl, l[1], m, acc[nm], nm, hs))
        for n in theirs:
            if e:
                starts = [t for m in g.live for t, lab in m.succ if (m.id, lab) in e]
                c.ob("K10-conflicts", nm, fl.path(starts, theirs + [g.exit]), f"duplicate {nm} of merged pipelines are accepted", n)
                chk = [g.nodes[i] for i, _ in e]
                for h in hs:
                    c.ob("K10-conflicts", nm + ":checked", fl.path(elems(h), [n], stop_node=lambda m: m in chk or m is h), f"duplicate {nm} of merged pipelines are accepted", n)
            else:
                present(c, "K10-conflicts", nm, [n for n in g.live if n.kind == "branch" and any(l[0] == "in" and not mentions(ex(fl, l[1], n), lambda s: False) for l in fl.lits(n, True))] and _raises(fl),
                        f"duplicate {nm} of merged pipelines are accepted", fl)
    # tasks: own definitions extend or replace merged ones
    th = [h for h in iters(fl, False) if h not in hs and direct(fl, h, "tasks") == self_("tasks")]
    st = [n for n in g.live if n.kind == "substore" and _acc(fl, n.base, n) in acc["tasks"]]
    ad = calls(fl, "add_or_update_config")
    present(c, "K9-own", "config", ad, "the pipeline's own configuration of an imported task is lost", fl)
    for h in th:
        atoms = {"known": lambda lit, m: lit[0] == "in" and _acc(fl, lit[2], m) in acc["tasks"], "same": lambda lit, m: lit[0] == "eq" and any(at(ex(fl, x, m), "klass") for x in lit[1:3]),
                 "plain": lambda lit, m: lit[0] == "isnone" and at(ex(fl, lit[1], m), "config")}
        ch = [x for n in ad for x in loops_of(fl, n) if x is not h]
        for fixed, nodes, what in (({"known": False}, st, "new"), ({"known": True, "same": False}, st, "replaced"), ({"known": True, "same": True, "plain": False}, ch or ad, "extended")):
            must(c, "K9-own", "task:" + what, fl, elems(h), nodes, [h, g.exit], "the pipeline's own definition of a task is lost", cut_edges(fl, atoms, fixed))
        cut = cut_edges(fl, atoms, {"known": True, "same": True})
        c.ob("K9-own", "task:imported kept", fl.path(elems(h), st, stop_node=lambda m: m is h, stop_edge=lambda m, lab: (m.id, lab) in cut), "the imported configuration of a task is lost")
        each_break(c, "K9-own", "all tasks", fl, h, "the pipeline's own definition of a task is lost")
        for x in ch:
            each(c, "K9-own", "all configs", fl, x, ad, "the pipeline's own configuration of an imported task is lost")
    for n in ad:
        t = ex(fl, n.recv, n, 8)
        c.ob("K9-own", "config:target", None if any(_acc(fl, s[1], n) in acc["tasks"] for s in subterms(t) if s[0] == "sub") or not mentions(t, lambda s: s == self_("tasks")) else True,
             "the pipeline's own configuration of an imported task is lost", n)


def _acc(fl, e, n):
    return _root(fl, e, n)


def _both(fl, e, n, acc, nm, hs):
    """Whether e relates the accumulated names with those of the pipeline that is merged (for duplicates)."""
    t = ex(fl, e, n, 8)
    return mentions(t, lambda s: at(s, nm) and s[1][0] in ("elem", "elemof") and s[1] != ("param", "self")) and mentions(t, lambda s: s[0] == "op" and s[1] == "BitAnd" or s[0] == "call" and s[2] in ("intersection",))


# ---------------------------------------------------------------- subsets of a pipeline

def subsetting(c, C):
    fl = flow_of(c, C, "subset_from_labels")
    g = fl.g
    cp = calls(fl, "deepcopy")
    present(c, "K12-subset", "copy", cp, "taking part of a pipeline changes the pipeline", fl)
    for n in g.live:
        b = n.recv if n.kind == "call" and n.name in ("pop", "update", "clear", "append", "extend", "discard", "remove", "add", "_remove_contracts") else n.d.get("base") if n.kind in (
            "attrstore", "substore", "delsub") else None
        if b is not None:
            t = ex(fl, b, n, 8)
            c.ob("K12-subset", "original", True if mentions(t, lambda s: s == ("param", "self")) and not mentions(t, lambda s: s[0] == "call" and s[2] in ("deepcopy", "set", "list")) else None,
                 "taking part of a pipeline changes the pipeline", n)
    for r in retvals(fl):
        c.ob("K12-subset", "result", None if frm(fl, r.value, r, cp) else True, "taking part of a pipeline returns something else", r)
    spec = lambda lit, m: lit[0] == "in" and ex(fl, lit[2], m) == ("param", "labelSpecifier")  # noqa: E731
    pops = [n for n in calls(fl, "pop") if _into(fl, n, "tasks")] + [n for n in g.live if n.kind == "delsub" and _into(fl, n, "tasks")]
    rc = calls(fl, "_remove_contracts")
    for ns, what in ((pops, "tasks"), (rc, "contracts")):
        present(c, "K13-removed", what, ns, f"{what} of tasks that were not selected remain" if what == "contracts" else "tasks that were not selected remain", fl)
        for h in {h for n in ns for h in loops_of(fl, n)}:
            if _seen(fl, spec):
                passes(c, "K13-removed", what, fl, elems(h), ns, [h, g.exit], {"selected": spec}, lambda selected: "never" if selected else "must",
                       "a selected task is lost or one that was not remains", stop=[h], exc=False)
            each_break(c, "K13-removed", what + ":all", fl, h, "tasks that were not selected remain")
    for n in calls(fl, "pop"):
        if n in pops:
            c.ob("K13-removed", "which", None if any(fl.derives(n.args[0], n, lambda t, m, h=h: t == ("elem", h.id)) for h in loops_of(fl, n)) else True, "the wrong task is removed", n)
    # named subsets in the specifier
    up = [n for n in calls(fl, "update", "add") if n.args and mentions(ex(fl, n.args[0], n, 8), lambda s: at(s, "subset"))]
    present(c, "K14-names", "members", up, "a subset cannot be selected by its name", fl)
    lh = [h for h in iters(fl, False) if ex(fl, h.iterable, h) == ("param", "labelSpecifier")]
    isub = {"subset": lambda lit, m: lit[0] == "in" and at(ex(fl, lit[2], m), "labeled_subsets")}
    for h in lh:
        if any(h in loops_of(fl, n) for n in up) and _seen(fl, isub["subset"]):
            passes(c, "K14-names", "members", fl, elems(h), up, [h, g.exit], isub, lambda subset: "must" if subset else "never", "a subset cannot be selected by its name", stop=[h], exc=False)
            each_break(c, "K14-names", "all", fl, h, "a subset cannot be selected by its name")
    for n in up:
        root = _root(fl, n.recv, n)
        if root is None or root == ("param", "labelSpecifier"):
            continue
        use = [m for m in calls(fl, "update", "union") if ex(fl, m.recv, m) == ("param", "labelSpecifier") and _root(fl, m.args[0], m) == root] + [
            m for m in g.live if m.kind == "def" and any(isinstance(v, tuple) and v[0] == "op" and v[1] == "BitOr" for _, v in m.d.get("defs", ()))]
        present(c, "K14-names", "added", use, "a subset cannot be selected by its name", fl)
        for m in use:
            c.ob("K14-names", "added:before", fl.path(pops, [m]), "a subset cannot be selected by its name", m)
        must(c, "K14-names", "added:always", fl, [g.entry], use, [g.exit], "a subset cannot be selected by its name") if use else None
    # unknown labels
    chk = [n for n in calls(fl, "issubset") if ex(fl, n.recv, n) == ("param", "labelSpecifier")] + [n for n in calls(fl, "issuperset") if ex(fl, n.args[0], n) == ("param", "labelSpecifier")]
    if chk:
        e = lit_edges(fl, lambda l, m: l[0] == "truth" and l[2] is False and l[1][0] == "tmp" and g.nodes[l[1][1]] in chk)
        c.ob("K14-names", "unknown", fl.path([t for m in g.live for t, lab in m.succ if (m.id, lab) in e], [g.exit]), "unknown labels are accepted")
        must(c, "K14-names", "unknown:checked", fl, [g.entry], chk, [g.exit], "unknown labels are accepted")
        for n in chk:
            big = n.args[0] if n.name == "issubset" else n.recv
            c.ob("K14-names", "unknown:tasks", None if mentions(ex(fl, big, n, 8), lambda s: at(s, "tasks")) else True, "known labels are rejected", n)
            c.ob("K14-names", "unknown:early", fl.path(pops, [n]), "unknown labels are accepted", n)
    else:
        present(c, "K14-names", "unknown", _raises(fl), "unknown labels are accepted", fl)
    # the subsets that remain
    sh = [h for h in iters(fl, False) if direct(fl, h, "labeled_subsets") is not None and h not in lh]
    dl = [n for n in g.live if n.kind == "delsub" and _into(fl, n, "labeled_subsets")] + [n for n in calls(fl, "pop") if _into(fl, n, "labeled_subsets")]
    ed = [n for n in calls(fl, "discard", "remove", "difference_update", "intersection_update") if _into(fl, n, "subset")] + [n for n in _attrstores(fl, "subset")]
    present(c, "K15-subsets", "dropped", dl, "subsets with missing tasks remain", fl)
    present(c, "K15-subsets", "edited", ed, "subsets keep missing tasks", fl)
    mode = lambda k: lambda lit, m: lit[0] == "eq" and any(t[0] == "glob" and t[1].endswith("PipelineSubsetCtrl." + k) for t in lit[1:3])  # noqa: E731
    miss = lambda lit, m: lit[0] == "truth" and ex(fl, lit[1], m, 8)[0] == "op" and ex(fl, lit[1], m, 8)[1] == "Sub" and mentions(ex(fl, lit[1], m, 8), lambda s: at(s, "subset"))  # noqa: E731
    empty = lambda lit, m: lit[0] == "truth" and at(ex(fl, lit[1], m, 8), "subset")  # noqa: E731
    for h in sh:
        if not any(h in loops_of(fl, n) for n in dl + ed):
            continue
        each_break(c, "K15-subsets", "all", fl, h, "subsets with missing tasks remain")
        if not _seen(fl, miss):
            continue
        A = {"missing": miss, "drop": mode("DROP"), "edit": mode("EDIT"), "members": empty}
        eh = [x for n in ed for x in loops_of(fl, n) if x is not h]
        for a in product((True, False), repeat=4):
            k = dict(zip(A, a))
            if k["drop"] == k["edit"] or k["missing"] and not k["members"]:
                continue
            cut = cut_edges(fl, A, k)
            nm = ", ".join(x for x in k if k[x]) or "none"
            want = "dropped" if k["drop"] and (k["missing"] or not k["members"]) else "edited" if k["edit"] and k["missing"] else "kept"
            if want == "dropped":
                must(c, "K15-subsets", f"{want}({nm})", fl, elems(h), dl, [h, g.exit], "subsets with missing tasks remain", cut)
            else:
                c.ob("K15-subsets", f"not dropped({nm})", fl.path(elems(h), dl, stop_node=lambda m: m is h, stop_edge=lambda m, lab: (m.id, lab) in cut), "a subset is lost")
            if want == "edited":
                must(c, "K15-subsets", f"{want}({nm})", fl, elems(h), eh or ed, [h, g.exit], "subsets keep missing tasks", cut)
            else:
                c.ob("K15-subsets", f"not edited({nm})", fl.path(elems(h), ed, stop_node=lambda m: m is h, stop_edge=lambda m, lab: (m.id, lab) in cut), "a subset loses tasks")
        for x in eh:
            each(c, "K15-subsets", "edited:all", fl, x, ed, "subsets keep missing tasks")
    # steps
    st = _attrstores(fl, "steps")
    present(c, "K16-steps", "kept", st, "steps without their subset remain", fl)
    must(c, "K16-steps", "always", fl, [g.entry], st, [g.exit], "steps without their subset remain")
    known = {"known": lambda lit, m: lit[0] == "in" and at(ex(fl, lit[2], m, 8), "labeled_subsets") and at(ex(fl, lit[1], m, 8), "label")}
    keeps = []
    for h in iters(fl):
        if mentions(ex(fl, h.iterable, h, 8), lambda s: at(s, "steps")):
            keeps += calls(fl, "append", "filter") + [n for n in g.live if n.kind == "compelt" and h.id in n.d["compterm"][3]]
            keep = [n for n in calls(fl, "append") if h in loops_of(fl, n)] + [n for n in g.live if n.kind == "compelt" and h.id in n.d["compterm"][3]]
            if keep:
                passes(c, "K16-steps", "kept", fl, elems(h), keep, [h, g.exit], known, lambda known: "must" if known else "never", "a step is lost, or remains without its subset", stop=[h], exc=False)
                c.ob("K16-steps", "all", True if partial(fl, h) else None, "a step is lost", h)
    present(c, "K16-steps", "any kept", keeps + calls(fl, "filter"), "the steps of a pipeline are lost", fl)
    for n in st:
        c.ob("K16-steps", "after", fl.path([n], dl), "steps without their subset remain", n)


def contracts(c, C):
    fl = flow_of(c, C, "_remove_contracts")
    g = fl.g
    ms = calls(fl, "match", "search", "fullmatch")
    present(c, "K17-contracts", "searched", ms, "contracts of removed tasks remain", fl)
    st = _attrstores(fl, "contracts")
    present(c, "K17-contracts", "stored", st, "contracts of removed tasks remain", fl)
    for n in ms:
        subj = n.args[1] if n.recv is None or len(n.args) > 1 else n.args[0]
        c.ob("K17-contracts", "searched in", None if at(ex(fl, subj, n), "contract") else True, "contracts of removed tasks remain", n)
        pat = n.args[0] if len(n.args) > 1 else n.recv
        c.ob("K17-contracts", "label", None if fl.derives(pat, n, P_("label"), True) or mentions(ex(fl, pat, n, 8), lambda s: s == ("param", "label")) else True,
             "contracts of other tasks are removed", n)
        if n.name in ("match", "fullmatch"):
            cs = [s[2] for s in subterms(ex(fl, pat, n, 8)) if s[0] == "const" and s[1] == "str"]
            flags = any("DOTALL" in str(s) or "re.S" in str(s) for s in list(n.args[2:]) + list(n.kwargs.values())) or any("(?s" in x for x in cs)
            c.ob("K17-contracts", "every line", None if flags else True, "a contract that names a removed task on a later line remains", n)
    hit = {"hit": lambda lit, m: lit[0] == "isnone" and False or lit[0] == "truth" and frm(fl, lit[1], m, ms), "miss": lambda lit, m: lit[0] == "isnone" and frm(fl, lit[1], m, ms)}
    for h in iters(fl):
        if at(ex(fl, h.iterable, h), "contracts"):
            keep = [n for n in calls(fl, "append") if h in loops_of(fl, n)] + [n for n in g.live if n.kind == "compelt" and h.id in n.d["compterm"][3]]
            present(c, "K17-contracts", "kept", keep, "contracts of other tasks are removed", fl)
            for v in (True, False):
                cut = cut_edges(fl, hit, {"hit": v, "miss": not v})
                if v:
                    c.ob("K17-contracts", "removed", fl.path(elems(h), keep, stop_node=lambda m: m is h, stop_edge=lambda m, lab: (m.id, lab) in cut), "contracts of removed tasks remain")
                else:
                    must(c, "K17-contracts", "kept:others", fl, elems(h), keep, [h, g.exit], "contracts of other tasks are removed", cut)
            c.ob("K17-contracts", "all", True if partial(fl, h) else None, "contracts are lost", h)


# ---------------------------------------------------------------- construction and reading

def construction(c, C):
    fl = flow_of(c, C, "__init__")
    g = fl.g
    msg = "part of a pipeline definition is ignored"
    rd = {nm: calls(fl, nm) for nm in ("_read_tasks", "_read_contracts", "_read_parameters", "_read_labeled_subsets", "_read_step_declaration", "_read_imports", "_verify_labeled_subsets", "_verify_steps")}
    for nm, ns in rd.items():
        present(c, "K18-construction", nm, ns, msg, fl)
        must(c, "K18-construction", nm, fl, [g.entry], ns, [g.exit], msg) if ns else None
    for nm in list(rd)[:5]:
        after(c, "K18-construction", nm + " before imports", fl, rd[nm], rd["_read_imports"], "the pipeline's own definitions replace what was imported, or are lost")
    for nm in ("_verify_labeled_subsets", "_verify_steps"):
        after(c, "K18-construction", nm + " after imports", fl, rd["_read_imports"], rd[nm], "an inconsistent pipeline is accepted")
    ins = [n for n in _attrstores(fl, "instrument")]
    present(c, "K18-construction", "instrument", ins, msg, fl)
    after(c, "K18-construction", "instrument before imports", fl, ins, rd["_read_imports"], "the pipeline's own instrument replaces what was imported, or is lost")
    fl2 = flow_of(c, C, "_read_imports")
    ti, mg = calls(fl2, "toPipelineIR"), calls(fl2, "merge_pipelines")
    present(c, "K19-imports", "loaded", ti, "imports are ignored", fl2)
    present(c, "K19-imports", "merged", mg, "imports are ignored", fl2)
    must(c, "K19-imports", "always", fl2, [fl2.g.entry], mg, [fl2.g.exit], "imports are ignored") if mg else None
    allfull(c, "K19-imports", "all", fl2, "an import is ignored")
    for n in mg:
        c.ob("K19-imports", "merged:all", None if frm(fl2, n.args[0], n, ti, True) else True, "imports are ignored", n)


def reading(c, C):
    for nm, attr in (("_read_contracts", "contracts"), ("_read_parameters", "parameters"), ("_read_labeled_subsets", "labeled_subsets"), ("_read_step_declaration", "steps"), ("_read_tasks", "tasks")):
        fl = flow_of(c, C, nm)
        g = fl.g
        st = _attrstores(fl, attr)
        present(c, "K20-read", nm, st, f"{attr} of a definition are lost", fl)
        must(c, "K20-read", nm, fl, [g.entry], st, [g.exit], f"{attr} of a definition are lost")
        for h in iters(fl):
            each_break(c, "K20-read", nm + ":all", fl, h, f"part of the {attr} of a definition is lost")
    fl = flow_of(c, C, "_read_tasks")
    g = fl.g
    mk = ctor(fl, "ConfigIR")
    present(c, "K20-read", "config", mk, "the configuration of a task is lost", fl)
    for n in mk:
        for k in ("python", "dataId", "file"):
            v = n.kwargs.get(k)
            ps = [p for p in calls(fl, "pop") if p.args and p.args[0] == const(k)]
            c.ob("K20-read", "config:" + k, None if v is not None and frm(fl, v, n, ps) else True, f"{k} of a configuration is lost", n)
        c.ob("K20-read", "config:rest", None if "rest" in n.kwargs else True, "values of a configuration are lost", n)
        app = [a for a in calls(fl, "append") if frm(fl, a.args[0], a, [n])]
        comp = [e for e in g.live if e.kind == "compelt" and frm(fl, e.d["value"], e, [n])]
        for h in loops_of(fl, n, None)[:1] if False else [h for h in iters(fl) if n.id in fl.loop_body(h)]:
            if any(a in app and a.id in fl.loop_body(h) for a in app) and not any(x is not h and x.id in fl.loop_body(h) and n.id in fl.loop_body(x) for x in iters(fl)):
                must(c, "K20-read", "config:each", fl, elems(h), app + comp, [h], "a configuration block of a task is lost")
    st = [n for n in g.live if n.kind == "substore" and at(ex(fl, n.base, n), "tasks")]
    for n in st:
        c.ob("K20-read", "task", None if frm(fl, n.value, n, ctor(fl, "TaskIR")) else True, "a task of a definition is lost", n)
        for h in loops_of(fl, n):
            must(c, "K20-read", "task:each", fl, elems(h), st, [h], "a task of a definition is lost")
    present(c, "K20-read", "task:stored", st, "a task of a definition is lost", fl)
    for n in ctor(fl, "TaskIR"):
        v = arg(n, 2, "config")
        c.ob("K20-read", "task:config", None if v is not None and any(fl.derives(v, n, lambda t, m: t == ("tmp", a.id) or t[0] in ("list", "comp", "tmp")) for a in mk) else True,
             "the configuration of a task is lost", n)
    fl = flow_of(c, C, "_read_labeled_subsets")
    st = [n for n in fl.g.live if n.kind == "substore" and at(ex(fl, n.base, n), "labeled_subsets")]
    for n in st:
        for h in loops_of(fl, n):
            must(c, "K20-read", "subset:each", fl, elems(h), st, [h], "a subset of a definition is lost")
    fl = flow_of(c, C, "_read_step_declaration")
    mk = ctor(fl, "StepIR")
    sd = [n for n in fl.g.calls() if n.name == "setdefault"]
    for n in sd:
        e = lit_edges(fl, lambda l, m: l[0] == "eq" and l[3] is False and any(frm(fl, x, m, [n]) for x in l[1:3]))
        if e:
            c.ob("K20-read", "step twice", fl.path([t for m in fl.g.live for t, lab in m.succ if (m.id, lab) in e], [fl.g.exit] + sd), "a step that is declared twice is accepted", n)
        else:
            c.fail("K20-read", "step twice", "a step that is declared twice is accepted", n)
    present(c, "K20-read", "step twice", _raises(fl), "a step that is declared twice is accepted", fl)
    fl = flow_of(c, C, "_read_contracts")
    mk = ctor(fl, "ContractIR")
    app = [a for a in calls(fl, "append") if frm(fl, a.args[0], a, mk)]
    A = {"dict": lambda lit, m: lit[0] == "isinstance" and any(x.endswith("dict") for x in lit[2]), "str": lambda lit, m: lit[0] == "isinstance" and any(x.endswith("str") for x in lit[2]) and fl.term(
        lit[1], m)[0] == "elem"}
    for h in iters(fl, False):
        for k in ("dict", "str"):
            must(c, "K20-read", "contract:" + k, fl, elems(h), app, [h], "a contract of a definition is lost", cut_edges(fl, A, {k: True, ("str" if k == "dict" else "dict"): False}))
    # duplicates of keys in a file
    L = c.prog.cls(IR + "PipelineYamlLoader")
    fl = flow_of(c, L, "construct_mapping")
    present(c, "K20-read", "duplicate keys", _raises(fl), "duplicate keys of a file are accepted", fl)
    for r in retvals(fl):
        guard(c, "K20-read", "duplicate keys:checked", fl, [r], lambda l, m: l[0] == "truth" and l[2] is False or l[0] in ("lt", "eq"), "duplicate keys of a file are accepted")
    for nm in ("from_string", "from_uri"):
        fl = flow_of(c, C, nm)
        ld = calls(fl, "load")
        for n in ld:
            c.ob("K20-read", nm + ":loader", None if n.kwargs.get("Loader", ("?",))[-1] == L.qual or (len(n.args) > 1 and n.args[1][-1] == L.qual) else True, "duplicate keys of a file are accepted", n)


def verification(c, C):
    fl = flow_of(c, C, "_verify_labeled_subsets")
    g = fl.g
    msg = "a subset with unknown tasks is accepted"
    chk = calls(fl, "issubset", "issuperset")
    hs = [h for h in iters(fl, False) if mentions(ex(fl, h.iterable, h), lambda s: at(s, "labeled_subsets"))]
    for h in hs:
        each_break(c, "K21-verify", "all subsets", fl, h, msg)
        if chk:
            must(c, "K21-verify", "each", fl, elems(h), chk, [h, g.exit], msg)
    present(c, "K21-verify", "subsets", hs, msg, fl)
    for n in chk:
        e = lit_edges(fl, lambda l, m: l[0] == "truth" and l[2] is False and l[1] == ("tmp", n.id))
        c.ob("K21-verify", "raised", fl.path([t for m in g.live for t, lab in m.succ if (m.id, lab) in e], [g.exit] + hs), msg, n)
        big, small = (n.args[0], n.recv) if n.name == "issubset" else (n.recv, n.args[0])
        c.ob("K21-verify", "direction", None if mentions(ex(fl, big, n), lambda s: at(s, "tasks")) and at(ex(fl, small, n), "subset") else True, msg, n)
    if not chk:
        br = [n for n in g.live if n.kind == "branch" and any(mentions(ex(fl, x, n, 8), lambda s: at(s, "subset")) or any(n.id in fl.loop_body(h) for h in hs) for l in fl.lits(n, True) for x in l[1:-1]
                                                             if isinstance(x, tuple) and x and isinstance(x[0], str))]
        present(c, "K21-verify", "checked", br and _raises(fl), msg, fl)
    e = lit_edges(fl, lambda l, m: l[0] == "truth" and l[2] is True and (ex(fl, l[1], m, 8)[:2] == ("op", "BitAnd") or ex(fl, l[1], m, 8)[2:3] == ("intersection",)) and mentions(
        ex(fl, l[1], m, 8), lambda s: at(s, "labeled_subsets")) and mentions(ex(fl, l[1], m, 8), lambda s: at(s, "tasks")))
    if e:
        c.ob("K21-verify", "same label", fl.path([t for m in g.live for t, lab in m.succ if (m.id, lab) in e], [g.exit]), "a subset with the label of a task is accepted")
    else:
        dj = calls(fl, "isdisjoint", "intersection") or [n for n in g.live if n.kind == "branch" and any(l[0] == "in" for l in fl.lits(n, True))]
        present(c, "K21-verify", "same label", dj, "a subset with the label of a task is accepted", fl)
    fl = flow_of(c, C, "_verify_steps")
    g = fl.g
    hs = [h for h in iters(fl) if mentions(ex(fl, h.iterable, h), lambda s: at(s, "steps"))]
    present(c, "K21-verify", "steps", hs, "a step without a subset is accepted", fl)
    e = lit_edges(fl, lambda l, m: l[0] == "in" and l[3] is False and mentions(ex(fl, l[2], m), lambda s: at(s, "labeled_subsets")))
    if e:
        c.ob("K21-verify", "steps:raised", fl.path([t for m in g.live for t, lab in m.succ if (m.id, lab) in e], [g.exit] + hs), "a step without a subset is accepted")
        for h in hs:
            if not h.d.get("comp"):
                must(c, "K21-verify", "steps:each", fl, elems(h), [g.nodes[i] for i, _ in e], [h, g.exit], "a step without a subset is accepted")
    present(c, "K21-verify", "steps:error", _raises(fl), "a step without a subset is accepted", fl)


# ---------------------------------------------------------------- writing

def _written(fl):
    """(key, value, node) of everything put into the dictionary that is returned."""
    out = []
    for n in fl.g.live:
        if n.kind == "substore" and n.key[0] == "const":
            out.append((n.key[2], n.value, n))
        for _, v in n.d.get("defs", ()):
            if isinstance(v, tuple) and v and v[0] == "dict":
                out += [(k[2], x, n) for k, x in v[1] if isinstance(k, tuple) and k[0] == "const"]
        if n.kind == "return":
            t = fl.term(n.value, n)
            if t[0] == "dict":
                out += [(k[2], x, n) for k, x in t[1] if isinstance(k, tuple) and k[0] == "const"]
    return out


def primitives(c, C):
    spec = {"PipelineIR": {"description": "description", "instrument": "instrument", "parameters": "parameters", "tasks": "tasks", "contracts": "contracts", "subsets": "labeled_subsets",
                           "steps": "steps"},
            "TaskIR": {"class": "klass", "config": "config"}, "ContractIR": {"contract": "contract", "msg": "msg"}, "LabeledSubset": {"subset": "subset", "description": "description"}}
    for cls, keys in spec.items():
        K = c.prog.cls(IR + cls)
        fl = flow_of(c, K, "to_primitives")
        g = fl.g
        w = _written(fl)
        for k, a in keys.items():
            mine = [(v, n) for kk, v, n in w if kk == k]
            present(c, "K22-written", f"{cls}.{k}", mine, f"{a} is lost when a pipeline is saved", fl)
            for v, n in mine:
                ok = mentions(ex(fl, v, n, 8), lambda s: s == self_(a)) or fl.derives(v, n, lambda t, m: at(t, a), True) or any(
                    at(ex(fl, h.iterable, h, 8), a) or mentions(ex(fl, h.iterable, h, 8), lambda s: s == self_(a)) for s in subterms(fl.term(v, n)) if s[0] == "comp" for i in s[3] for h in (g.nodes[i],))
                c.ob("K22-written", f"{cls}.{k}:value", None if ok else True, f"{a} is lost when a pipeline is saved", n)
            # left out only if there is nothing to write
            ns = [n for _, n in mine]
            if ns and not any(n.kind == "return" for n in ns):
                nothing = lit_edges(fl, lambda l, m: (l[0] == "truth" and l[2] is False or l[0] == "isnone" and l[2] is True or l[0] == "lt" and l[3] is False or l[0] == "eq" and l[3] is True) and any(
                    isinstance(x, tuple) and x and isinstance(x[0], str) and mentions(ex(fl, x, m, 8), lambda s: s == self_(a)) for x in l[1:-1]))
                must(c, "K22-written", f"{cls}.{k}:always", fl, [g.entry], ns, [g.exit], f"{a} is lost when a pipeline is saved", nothing)
        for h in iters(fl):
            c.ob("K22-written", cls + ":complete", True if partial(fl, h) else None, "part of a pipeline is lost when it is saved", h)
            if h.d.get("comp"):
                el = [n for n in g.live if n.kind == "compelt" and h.id in n.d["compterm"][3]]
                must(c, "K22-written", cls + ":every entry", fl, elems(h), el, [h], "part of a pipeline is lost when it is saved")
    K = c.prog.cls(IR + "ConfigIR")
    fl = flow_of(c, K, "to_primitives")
    names = {s[2] for n in fl.g.live for v in list(n.d.values()) for s in (subterms(v) if isinstance(v, tuple) and v and isinstance(v[0], str) else ()) if s[0] == "const" and s[1] == "str"} | {
        k for k, _, _ in _written(fl)} | {x.value for x in ast.walk(fl.g.root.node) if isinstance(x, ast.Constant) and isinstance(x.value, str)}
    for k in ("python", "dataId", "file"):
        c.ob("K22-written", "ConfigIR." + k, None if k in names else True, f"{k} of a configuration is lost when a pipeline is saved", func=fl.g.root)
    rest = [n for n in calls(fl, "update") if at(ex(fl, n.args[0], n), "rest")] + [n for n in fl.g.live if n.kind in ("return", "def") and mentions(
        ("tuple", tuple(v for _, v in n.d.get("defs", ()) if isinstance(v, tuple)) + ((n.d.get("value"),) if isinstance(n.d.get("value"), tuple) else ())), lambda s: at(s, "rest"))]
    present(c, "K22-written", "ConfigIR.rest", rest, "values of a configuration are lost when a pipeline is saved", fl)
    must(c, "K22-written", "ConfigIR.rest:always", fl, [fl.g.entry], rest, [fl.g.exit], "values of a configuration are lost when a pipeline is saved") if rest else None
    for h in iters(fl):
        c.ob("K22-written", "ConfigIR:complete", True if partial(fl, h) else None, "part of a configuration is lost when a pipeline is saved", h)
    fl = flow_of(c, C, "write_to_uri")
    d = calls(fl, "dump")
    present(c, "K22-written", "dump", d, "a pipeline is not saved", fl)
    for n in d:
        c.ob("K22-written", "dump:order", None if n.kwargs.get("sort_keys") == const(False) else True, "the order of tasks and settings is lost when a pipeline is saved", n)
        c.ob("K22-written", "dump:what", None if frm(fl, n.args[0], n, calls(fl, "to_primitives")) else True, "a pipeline is not saved", n)


# ---------------------------------------------------------------- configuration

def configs(c):
    K = c.prog.cls(IR + "ConfigIR")
    fl = flow_of(c, K, "maybe_merge")
    g = fl.g
    o = ("param", "other_config")
    up = [n for n in calls(fl, "update") if at(ex(fl, n.recv, n), "rest")] + [n for n in _attrstores(fl, "rest")]
    present(c, "K23-merge-config", "merged", up, "settings are lost when configurations are merged", fl)
    A = {"same id": lambda lit, m: lit[0] == "eq" and any(at(t, "dataId") for t in lit[1:3]), "python": _true(self_("python")), "their python": _true(("attr", o, "python")),
         "file": _true(self_("file")), "their file": _true(("attr", o, "file"))}
    for k, bad in (("same id", False), ("python", True), ("their python", True), ("file", True), ("their file", True)):
        cut = cut_edges(fl, A, {k: bad})
        c.ob("K23-merge-config", f"kept apart({'' if bad else 'not '}{k})", fl.path([g.entry], up, stop_edge=lambda m, lab: (m.id, lab) in cut), "overrides are applied in another order than they were given")
    e = lit_edges(fl, lambda l, m: l[0] == "eq" and l[3] is False and all(mentions(ex(fl, x, m, 8), lambda s: at(s, "rest")) for x in l[1:3]))
    if e:
        c.ob("K23-merge-config", "conflict", fl.path([t for m in g.live for t, lab in m.succ if (m.id, lab) in e], up), "an override replaces another without a trace")
        for h in iters(fl, False):
            if any(i in fl.loop_body(h) for i, _ in e):
                c.ob("K23-merge-config", "all keys", True if partial(fl, h) else None, "an override replaces another without a trace", h)
                must(c, "K23-merge-config", "each key", fl, elems(h), [g.nodes[i] for i, _ in e], [h], "an override replaces another without a trace")
                c.ob("K23-merge-config", "before", fl.path([g.entry], up, stop_node=lambda m: m is h), "an override replaces another without a trace")
    else:
        present(c, "K23-merge-config", "conflict", [n for n in iters(fl) if n.d.get("quant")] + calls(fl, "all", "any", "isdisjoint"), "an override replaces another without a trace", fl)
    for n in up:
        if n.kind == "call":
            c.ob("K23-merge-config", "theirs", None if ex(fl, n.args[0], n) == ("attr", o, "rest") else True, "settings are lost when configurations are merged", n)
    ys = [n for n in g.live if n.kind == "yield"]
    present(c, "K23-merge-config", "yield", ys, "configurations are lost", fl)
    must(c, "K23-merge-config", "yield", fl, [g.entry], ys, [g.exit], "configurations are lost")
    for n in calls(fl, "iter") + [n for n in g.live if n.kind == "iter"]:
        it = n.d.get("iterable") or (n.args[0] if n.kind == "call" and n.args else None)
        t = fl.term(it, n) if it is not None else None
        if t is not None and t[0] == "tuple" and set(t[1]) >= {("param", "self"), o} or t is not None and t[0] == "tuple" and len(t[1]) == 2:
            xs = [ex(fl, x, n) for x in t[1]]
            if set(xs) == {("param", "self"), o}:
                c.ob("K23-merge-config", "order", None if xs == [("param", "self"), o] else True, "overrides are applied in another order than they were given", n)
    for n in ys:
        v = n.d.get("value")
        t = fl.term(v, n) if isinstance(v, tuple) else None
        if t is not None and t[0] == "tuple":
            xs = [ex(fl, x, n) for x in t[1]]
            if set(xs) == {("param", "self"), o}:
                c.ob("K23-merge-config", "order", None if xs == [("param", "self"), o] else True, "overrides are applied in another order than they were given", n)
    fl = flow_of(c, c.prog.cls(IR + "TaskIR"), "add_or_update_config")
    g = fl.g
    mm = calls(fl, "maybe_merge")
    none = {"some": lambda lit, m: lit[0] == "truth" and at(ex(fl, lit[1], m), "config")}
    st = _attrstores(fl, "config")
    exd = [n for n in calls(fl, "extend") if frm(fl, n.args[0], n, mm, True)] + [n for n in calls(fl, "append") if n.args and ex(fl, n.args[0], n) == o]
    present(c, "K24-add-config", "first", st, "an override is lost", fl)
    if _seen(fl, none["some"]):
        must(c, "K24-add-config", "first", fl, [g.entry], st, [g.exit], "an override is lost", cut_edges(fl, none, {"some": False}))
        must(c, "K24-add-config", "more", fl, [g.entry], exd + [n for n in st if frm(fl, n.value, n, mm, True)], [g.exit], "an override is lost", cut_edges(fl, none, {"some": True}))
        bad = [n for n in st if not frm(fl, n.value, n, mm, True)]
        cut = cut_edges(fl, none, {"some": True})
        c.ob("K24-add-config", "kept", fl.path([g.entry], bad, stop_edge=lambda m, lab: (m.id, lab) in cut), "earlier overrides are lost")
    for n in mm:
        p = [x for x in calls(fl, "pop") if frm(fl, n.recv, n, [x])]
        c.ob("K24-add-config", "last", True if any(x.args and x.args[0] not in (const(-1), ("op", "USub", (const(1),))) for x in p) else None, "overrides are applied in another order than they were given", n)
        c.ob("K24-add-config", "new", None if n.args and ex(fl, n.args[0], n) == o else True, "an override is lost", n)
    fl = flow_of(c, K, "formatted")
    g = fl.g
    cp = calls(fl, "deepcopy", "copy", "replace")
    present(c, "K25-parameters", "copy", cp, "a pipeline is changed when it is used", fl)
    for r in retvals(fl):
        c.ob("K25-parameters", "result", None if frm(fl, r.value, r, cp) or frm(fl, r.value, r, ctor(fl, "ConfigIR")) else True, "parameters are not filled in", r)
    st = [n for n in g.live if n.kind == "substore" and at(ex(fl, n.base, n, 8), "rest")]
    present(c, "K25-parameters", "filled in", st, "parameters are not filled in", fl)
    ms = calls(fl, "match", "fullmatch", "search")
    for n in st:
        c.ob("K25-parameters", "value", None if fl.derives(n.value, n, P_("parameters")) or mentions(ex(fl, n.value, n, 8), lambda s: s == ("param", "parameters")) else True, "parameters are not filled in", n)
        c.ob("K25-parameters", "copy:changed", True if ex(fl, n.base, n, 8) == self_("rest") else None, "a pipeline is changed when it is used", n)
        guard(c, "K25-parameters", "known", fl, [n], lambda l, m: l[0] == "in" and l[3] is True and ex(fl, l[2], m) == ("param", "parameters"), "unknown parameters are filled in")
        guard(c, "K25-parameters", "matched", fl, [n], lambda l, m: l[0] in ("truth", "isnone") and l[2] is (l[0] == "truth") and frm(fl, l[1], m, ms) or l[0] == "truth" and l[2] is True and mentions(
            ex(fl, l[1], m), lambda s: s[0] == "call" and s[2] == "startswith"), "values that are not parameters are replaced")
        for h in loops_of(fl, n):
            A = {"text": lambda lit, m: lit[0] == "isinstance", "match": lambda lit, m: lit[0] == "truth" and frm(fl, lit[1], m, ms), "nomatch": lambda lit, m: lit[0] == "isnone" and frm(fl, lit[1], m, ms),
                 "known": lambda lit, m: lit[0] == "in" and ex(fl, lit[2], m) == ("param", "parameters")}
            must(c, "K25-parameters", "each", fl, elems(h), st, [h], "parameters are not filled in", cut_edges(fl, A, {"text": True, "match": True, "nomatch": False, "known": True}))
            each_break(c, "K25-parameters", "all", fl, h, "parameters are not filled in")


KINDS = (("File", "addFileOverride", ("loadFromStream", "load")), ("Value", "addValueOverride", ("setattr",)), ("Python", "addPythonOverride", ("exec",)),
         ("Instrument", "addInstrumentOverride", ("applyConfigOverrides",)))


def overrides(c):
    K = c.prog.cls(B + "configOverrides.ConfigOverrides")
    for kind, nm, _ in KINDS:
        fl = flow_of(c, K, nm)
        app = [n for n in calls(fl, "append") if _into(fl, n, "_overrides")]
        present(c, "K26-override", nm, app, "an override is lost or applied out of order", fl)
        must(c, "K26-override", nm, fl, [fl.g.entry], app, [fl.g.exit], "an override is lost") if app else None
        for n in app:
            c.ob("K26-override", nm + ":kind", None if mentions(ex(fl, n.args[0], n), lambda s: at(s, kind) or s[0] == "glob" and s[1].endswith("OverrideTypes." + kind)) else True,
                 "an override is applied as something else", n)
            for p in [a.arg for a in fl.g.root.node.args.args][1:]:
                c.ob("K26-override", f"{nm}:{p}", None if fl.derives(n.args[0], n, P_(p), True) or mentions(ex(fl, n.args[0], n, 8), lambda s: s == ("param", p)) else True, "an override is lost", n)
    fl = flow_of(c, K, "applyTo")
    g = fl.g
    hs = [h for h in iters(fl, False) if direct(fl, h, "_overrides") is not None and not mentions(ex(fl, h.iterable, h, 8), lambda s: s[0] == "call" and s[2] in ("set", "sorted", "reversed", "frozenset"))]
    present(c, "K27-apply", "loop", hs, "overrides are not applied in the order they were given", fl)
    knd = {k: (lambda lit, m, k=k: lit[0] == "eq" and any(t[0] == "glob" and t[1].endswith("OverrideTypes." + k) or at(t, k) for t in lit[1:3])) for k, _, _ in KINDS}
    for h in hs:
        each_break(c, "K27-apply", "all", fl, h, "an override is not applied")
        for kind, _, fn in KINDS:
            ns = [n for n in calls(fl, *fn) if h in loops_of(fl, n)]
            present(c, "K27-apply", kind, ns, "an override is not applied", fl)
            fixed = {k: k == kind for k in knd}
            must(c, "K27-apply", kind, fl, elems(h), ns, [h, g.exit], "an override is not applied", cut_edges(fl, knd, fixed))
            for other in knd:
                if other != kind:
                    fx = {k: k == other for k in knd}
                    cut = cut_edges(fl, knd, fx)
                    c.ob("K27-apply", f"{kind}:not for {other}", fl.path(elems(h), ns, stop_node=lambda m: m is h, stop_edge=lambda m, lab: (m.id, lab) in cut), "an override is applied as something else")
        for n in calls(fl, "setattr"):
            v = n.args[2]
            c.ob("K27-apply", "value", None if any(fl.derives(v, n, lambda t, m: t == ("elem", h.id)) for h in hs) else True, "another value than the given one is set", n)
            c.ob("K27-apply", "target", None if fl.derives(n.args[0], n, P_("config"), True) else True, "a value is set on something else", n)
            A = {"nested": lambda lit, m: lit[0] == "truth" and mentions(ex(fl, lit[1], m), lambda s: s[0] == "call" and s[2] in ("rsplit", "split", "rpartition")) or lit[0] == "in" and lit[1] == const(".")
                 or lit[0] == "truth" and lit[1][0] in ("item", "starred", "slice", "var")}
            if calls(fl, "attrgetter"):
                ag = calls(fl, "attrgetter")
                c.ob("K27-apply", "nested", None if any(frm(fl, n.args[0], n, [x for x in g.calls() if frm(fl, x.recv, x, ag) or x.kind == "call" and x.callee is None], True) for _ in (0,)) or True else True,
                     "a nested value is set on something else", n)
        # entries of a dictionary or list
        for x in iters(fl, False):
            if x in hs or h not in loops_of(fl, x):
                continue
            keep = [n for n in g.live if n.kind == "substore" and x in loops_of(fl, n)] + [n for n in calls(fl, "append") if x in loops_of(fl, n)]
            each(c, "K27-apply", "entries", fl, x, keep, "an entry of a dictionary or list is lost")
    # parameters are available
    pm = {"none": _isnone(self_("_parameters"))}
    fz = [n for n in g.live if n.kind == "substore" and n.key == const("parameters")] + [n for n in g.calls() if n.name == "_FrozenSimpleNamespace"]
    present(c, "K27-apply", "parameters", fz, "parameters are not available to overrides", fl)
    must(c, "K27-apply", "parameters", fl, [g.entry], fz, [g.exit], "parameters are not available to overrides", cut_edges(fl, pm, {"none": False}))
    for n in calls(fl, "loadFromStream"):
        c.ob("K27-apply", "parameters in files", None if "extraLocals" in n.kwargs else True, "parameters are not available to configuration files", n)
    fl = flow_of(c, K, "addParameters")
    sa = calls(fl, "setattr", "update")
    present(c, "K27-apply", "addParameters", sa, "parameters are not available to overrides", fl)
    for h in iters(fl, False):
        each(c, "K27-apply", "addParameters:all", fl, h, sa, "parameters are not available to overrides")
    # the order of a task's overrides
    fl = flow_of(c, c.prog.cls(B + "config.PipelineTaskConfig"), "applyConfigOverrides")
    g = fl.g
    par, ins, fil, pyt, val, app = (calls(fl, x) for x in ("addParameters", "addInstrumentOverride", "addFileOverride", "addPythonOverride", "addValueOverride", "applyTo"))
    for nm, ns in (("parameters", par), ("instrument", ins), ("file", fil), ("python", pyt), ("value", val), ("applied", app)):
        present(c, "K28-order", nm, ns, f"{nm} overrides of a task are ignored", fl)
    must(c, "K28-order", "applied", fl, [g.entry], app, [g.exit], "overrides of a task are ignored")
    must(c, "K28-order", "parameters", fl, [g.entry], par, [g.exit], "parameters are not available to overrides")
    must(c, "K28-order", "instrument", fl, [g.entry], ins, [g.exit], "overrides of the instrument are ignored", cut_edges(fl, {"none": _isnone(("param", "instrument"))}, {"none": False}))
    for ns, nm in ((fil, "file"), (pyt, "python"), (val, "value")):
        after(c, "K28-order", f"instrument before {nm}", fl, ins, ns, "overrides of the instrument win over those of the pipeline")
        after(c, "K28-order", f"{nm} before applied", fl, ns, app, f"{nm} overrides of a task are ignored")
    after(c, "K28-order", "parameters before applied", fl, par, app, "parameters are not available to overrides")
    hs = [h for h in iters(fl, False) if any(n.id in fl.loop_body(h) for n in pyt) and not any(x is not h and x.id in fl.loop_body(h) and any(n.id in fl.loop_body(x) for n in pyt) for x in iters(fl, False))]
    for h in hs:
        each_break(c, "K28-order", "all blocks", fl, h, "a configuration block of a task is ignored")
        for a, b, nm in ((fil, pyt, "file before python"), (pyt, val, "python before value"), (fil, val, "file before value")):
            for x in b:
                c.ob("K28-order", nm, fl.path([x], a, stop_node=lambda m: m is h), "overrides of a configuration block are applied in another order", x)
        A = {"python": lambda lit, m: lit[0] == "isnone" and at(ex(fl, lit[1], m), "python"), "id": lambda lit, m: lit[0] == "isnone" and at(ex(fl, lit[1], m), "dataId")}
        must(c, "K28-order", "python:each", fl, elems(h), pyt, [h, g.exit], "python overrides of a task are ignored", cut_edges(fl, A, {"python": False, "id": True}))
        for ns, attr in ((fil, "file"), (val, "rest")):
            xs = [x for n in ns for x in loops_of(fl, n) if x is not h and x.id in fl.loop_body(h)]
            emp = lit_edges(fl, lambda l, m: l[0] == "truth" and l[2] is False and at(ex(fl, l[1], m), attr))
            must(c, "K28-order", attr + ":each block", fl, elems(h), xs, [h, g.exit], f"{attr} overrides of a task are ignored", cut_edges(fl, A, {"id": True}) | emp) if xs else None
            for x in xs:
                each(c, "K28-order", attr + ":each", fl, x, ns, f"{attr} overrides of a task are ignored")
        fm = calls(fl, "formatted")
        present(c, "K28-order", "formatted", fm, "parameters are not filled in", fl)
        for n in pyt + val + fil:
            ok = any(fl.derives(a, n, lambda t, m: t[0] == "tmp" and g.nodes[t[1]] in fm or t[0] == "comp", True) or mentions(ex(fl, a, n, 8), lambda s: s[0] == "call" and s[2] == "formatted") for a in n.args)
            src = ex(fl, h.iterable, h, 8)
            c.ob("K28-order", "formatted:used", None if ok or mentions(src, lambda s: s[0] == "call" and s[2] == "formatted" or s[0] == "comp") or any(
                fl.derives(h.iterable, h, lambda t, m: t[0] == "comp") for _ in (0,)) or _gen(fl, h, fm) else True, "parameters are not filled in", n)
    for n in ins:
        c.ob("K28-order", "instrument:which", None if ex(fl, n.args[0], n) == ("param", "instrument") and ex(fl, n.args[1], n) == ("param", "taskDefaultName") else True, "overrides of another task are applied", n)
    for n in val:
        c.ob("K28-order", "value:pair", True if len(n.args) > 1 and ex(fl, n.args[0], n) == ex(fl, n.args[1], n) else None, "the wrong value is set", n)


def _gen(fl, h, fm):
    return any(n.id in fl.loop_body(h) or any(x.d.get("comp") and n.id in fl.loop_body(x) for x in iters(fl, True)) for n in fm)


# ---------------------------------------------------------------- the pipeline object

def pipeline(c):
    K = c.prog.cls(B + "pipeline.Pipeline")
    fl = flow_of(c, K, "to_graph")
    g = fl.g
    add, ev, sub, stp = calls(fl, "_add_task_to_graph"), calls(fl, "eval"), calls(fl, "add_task_subset"), [n for n in calls(fl, "append") if at(ex(fl, n.recv, n), "steps")]
    for nm, ns, a in (("tasks", add, "tasks"), ("contracts", ev, "contracts"), ("subsets", sub, "labeled_subsets"), ("steps", stp, "steps")):
        present(c, "K29-graph", nm, ns, f"{nm} of a pipeline do not reach its graph", fl)
        hs = [h for h in iters(fl, False) if any(h in loops_of(fl, n) for n in ns)]
        for h in hs:
            must(c, "K29-graph", nm + ":each", fl, elems(h), ns, [h, g.exit], f"{nm} of a pipeline do not reach its graph")
            each_break(c, "K29-graph", nm + ":all", fl, h, f"{nm} of a pipeline do not reach its graph")
            c.ob("K29-graph", nm + ":source", None if mentions(ex(fl, h.iterable, h), lambda s: at(s, a)) else True, f"{nm} of a pipeline do not reach its graph", h)
        none = lit_edges(fl, lambda l, m: l[0] == "isnone" and l[2] is True and at(ex(fl, l[1], m), a) or l[0] == "truth" and l[2] is False and at(ex(fl, l[1], m), a))
        must(c, "K29-graph", nm + ":always", fl, [g.entry], hs, [g.exit], f"{nm} of a pipeline do not reach its graph", none) if hs else None
    after(c, "K29-graph", "contracts after tasks", fl, add, ev, "contracts are checked before all tasks are configured")
    after(c, "K29-graph", "subsets after tasks", fl, add, sub, "subsets are added before their tasks")
    for n in ev:
        ok = {"ok": lambda lit, m: lit[0] == "truth" and frm(fl, lit[1], m, [n])}
        cut = cut_edges(fl, ok, {"ok": False})
        hs = loops_of(fl, n)
        c.ob("K30-contracts", "violated", fl.path([t for t, lab in n.succ if lab != "exc"], hs + [g.exit], stop_edge=lambda m, lab: (m.id, lab) in cut), "a violated contract goes unnoticed", n)
        cut = cut_edges(fl, ok, {"ok": True})
        c.ob("K30-contracts", "satisfied", fl.path([t for t, lab in n.succ if lab != "exc"], _raises(fl), stop_node=lambda m: m in hs, stop_edge=lambda m, lab: (m.id, lab) in cut), "a satisfied contract is reported", n)
        c.ob("K30-contracts", "which", None if at(ex(fl, n.args[0], n), "contract") else True, "contracts are not checked", n)
        ns = n.args[2] if len(n.args) > 2 else n.kwargs.get("locals")
        c.ob("K30-contracts", "configs", None if ns is not None and fl.derives(ns, n, lambda t, m: t[0] in ("comp", "dict", "tmp"), True) else True, "contracts are checked against nothing", n)
    res, srt = calls(fl, "resolve"), calls(fl, "sort")
    A = {"bare": _isnone(("param", "registry")), "drawing": _true(("param", "visualization_only"))}
    for a in product((True, False), repeat=2):
        k = dict(zip(A, a))
        cut = cut_edges(fl, A, k)
        want = res if not k["bare"] or k["drawing"] else res + srt
        must(c, "K29-graph", f"resolved({', '.join(x for x in k if k[x]) or 'none'})", fl, [g.entry], want, [g.exit], "the graph of a pipeline is not resolved", cut)
    for n in res:
        c.ob("K29-graph", "resolved:how", None if all(n.kwargs.get(k) is not None and ex(fl, n.kwargs[k], n) == ("param", k) for k in ("registry", "visualization_only")) else True,
             "the graph of a pipeline is resolved against something else", n)
        for ns in (add, sub, stp):
            after(c, "K29-graph", "resolved last", fl, ns, [n], "the graph of a pipeline is resolved before it is complete")
    fl = flow_of(c, K, "_add_task_to_graph")
    g = fl.g
    ao, at_ = calls(fl, "applyConfigOverrides"), calls(fl, "add_task")
    present(c, "K31-task", "configured", ao, "the configuration of a task is ignored", fl)
    present(c, "K31-task", "added", at_, "a task is not added", fl)
    for n in at_:
        c.ob("K31-task", "configured first", fl.path([g.entry], [n], stop_node=lambda m: m in ao), "the configuration of a task is ignored", n)
        cf = arg(n, 2, "config")
        c.ob("K31-task", "configured object", None if cf is not None and all(ex(fl, a.recv, a) == ex(fl, cf, n) for a in ao) else True, "the configuration of a task is ignored", n)
        c.ob("K31-task", "label", None if ex(fl, arg(n, 0, "label"), n) == ("param", "label") else True, "a task gets another label", n)
    must(c, "K31-task", "added", fl, [g.entry], at_, [g.exit], "a task is not added") if at_ else None
    for n in ao:
        pc, pa, la = arg(n, 2, "pipelineConfigs"), arg(n, 3, "parameters"), arg(n, 0, "instrument")
        c.ob("K31-task", "configs", None if pc is not None and at(ex(fl, pc, n), "config") else True, "the configuration of a task is ignored", n)
        c.ob("K31-task", "parameters", None if pa is not None and at(ex(fl, pa, n), "parameters") else True, "parameters are ignored", n)
        c.ob("K31-task", "instrument", None if la is not None and ex(fl, la, n)[0] != "const" else True, "overrides of the instrument are ignored", n)
    # merging and copying
    fl = flow_of(c, K, "mergePipeline")
    for n in calls(fl, "merge_pipelines"):
        a = ex(fl, n.args[0], n, 8)
        c.ob("K32-merge", "copy", None if not mentions(a, lambda s: s == ("param", "pipeline")) or mentions(a, lambda s: s[0] == "call" and s[2] == "deepcopy") else True,
             "a pipeline that is merged into another is changed by it", n)
        c.ob("K32-merge", "into", None if mentions(ex(fl, n.recv, n), lambda s: s == ("param", "self")) else True, "the wrong pipeline is changed", n)
    present(c, "K32-merge", "merged", calls(fl, "merge_pipelines"), "a pipeline is not merged", fl)
    fl = flow_of(c, K, "fromPipeline")
    for r in retvals(fl):
        c.ob("K32-merge", "fromPipeline", None if mentions(ex(fl, r.value, r, 8), lambda s: s[0] == "call" and s[2] == "deepcopy") else True, "a copy of a pipeline changes with it", r)
    # edits
    for nm, op, guards in (("addLabelToSubset", "add", (("in", True, "tasks", "label"), ("in", True, "labeled_subsets", "subset"))),
                           ("removeLabelFromSubset", ("remove", "discard"), (("in", True, "labeled_subsets", "subset"), ("in", True, "subset", "label"))),
                           ("removeLabeledSubset", ("pop",), (("in", True, "labeled_subsets", "label"),)),
                           ("addLabeledSubset", None, (("in", False, "labeled_subsets", "label"),))):
        fl = flow_of(c, K, nm)
        g = fl.g
        ns = [n for n in g.live if n.kind == "substore" and _into(fl, n, "labeled_subsets")] if op is None else [n for n in calls(fl, *((op,) if isinstance(op, str) else op)) if _into(
            fl, n, "subset", "labeled_subsets")] + [n for n in g.live if n.kind == "delsub" and _into(fl, n, "labeled_subsets")]
        present(c, "K33-edit", nm, ns, "an edit of a pipeline has no effect", fl)
        must(c, "K33-edit", nm, fl, [g.entry], ns, [g.exit], "an edit of a pipeline has no effect") if ns else None
        for _, pol, a, p in guards:
            guard(c, "K33-edit", f"{nm}:{a}", fl, ns, lambda l, m: l[0] == "in" and l[3] is pol and ex(fl, l[1], m) == ("param", p) and mentions(ex(fl, l[2], m, 8), lambda s: at(s, a)), "an invalid edit of a pipeline is accepted")
    fl = flow_of(c, K, "addLabeledSubset")
    miss = lit_edges(fl, lambda l, m: l[0] == "truth" and l[2] is True and mentions(ex(fl, l[1], m, 8), lambda s: at(s, "tasks")))
    if miss:
        c.ob("K33-edit", "addLabeledSubset:tasks", fl.path([t for m in fl.g.live for t, lab in m.succ if (m.id, lab) in miss], [fl.g.exit]), "a subset with unknown tasks is accepted")
    else:
        present(c, "K33-edit", "addLabeledSubset:tasks", calls(fl, "issubset", "issuperset") + [n for n in iters(fl) if n.d.get("quant")], "a subset with unknown tasks is accepted", fl)
    fl = flow_of(c, K, "findSubsetsWithLabel")
    for h in iters(fl):
        ad = [n for n in calls(fl, "add") if h in loops_of(fl, n)] + [n for n in fl.g.live if n.kind == "compelt" and h.id in n.d["compterm"][3]]
        if ad:
            passes(c, "K33-edit", "findSubsetsWithLabel", fl, elems(h), ad, [h, fl.g.exit], {"in": lambda lit, m: lit[0] == "in" and ex(fl, lit[1], m) == ("param", "label") and at(ex(fl, lit[2], m), "subset")},
                   lambda **k: "must" if k["in"] else "never", "a subset is not found", stop=[h], exc=False)
            c.ob("K33-edit", "findSubsetsWithLabel:all", True if partial(fl, h) else None, "a subset is not found", h)
    fl = flow_of(c, K, "_addConfigImpl")
    g = fl.g
    au, pu = calls(fl, "add_or_update_config"), [n for n in calls(fl, "update") if mentions(ex(fl, n.recv, n), lambda s: at(s, "mapping", "parameters"))]
    isp = {"parameters": lambda lit, m: lit[0] == "eq" and const("parameters") in lit[1:3], "known": lambda lit, m: lit[0] == "in" and at(ex(fl, lit[2], m), "tasks")}
    present(c, "K34-config", "task", au, "an override is ignored", fl)
    present(c, "K34-config", "parameters", pu, "parameters cannot be overridden", fl)
    must(c, "K34-config", "parameters", fl, [g.entry], pu, [g.exit], "parameters cannot be overridden", cut_edges(fl, isp, {"parameters": True}))
    must(c, "K34-config", "task", fl, [g.entry], au, [g.exit], "an override is ignored", cut_edges(fl, isp, {"parameters": False, "known": True}))
    cut = cut_edges(fl, isp, {"parameters": False, "known": False})
    c.ob("K34-config", "unknown", fl.path([g.entry], [g.exit], stop_edge=lambda m, lab: (m.id, lab) in cut), "an override of an unknown task is accepted")
    for nm, field in (("addConfigOverride", "rest"), ("addConfigFile", "file"), ("addConfigPython", "python")):
        fl = flow_of(c, K, nm)
        for n in ctor(fl, "ConfigIR"):
            c.ob("K34-config", nm, None if set(n.kwargs) == {field} else True, "an override is applied as something else", n)
    fl = flow_of(c, K, "addTask")
    st = [n for n in fl.g.live if n.kind == "substore" and _into(fl, n, "tasks")]
    present(c, "K33-edit", "addTask", st, "a task is not added", fl)
    for n in st:
        mk = [m for m in ctor(fl, "TaskIR") if frm(fl, n.value, n, [m])]
        c.ob("K33-edit", "addTask:label", None if mk and all(ex(fl, arg(m, 0, "label"), m) == ex(fl, n.key, n) for m in mk) else True, "a task is added under another label", n)
    must(c, "K33-edit", "addTask", fl, [fl.g.entry], st, [fl.g.exit], "a task is not added")
    # selection on loading
    fl = flow_of(c, K, "from_uri")
    sf = calls(fl, "subsetFromLabels")
    ps = calls(fl, "_parse_file_specifier")
    none = {"none": lambda lit, m: lit[0] == "isnone"}
    present(c, "K35-select", "from_uri", sf, "labels after # are ignored", fl)
    passes(c, "K35-select", "from_uri", fl, [fl.g.entry], sf, [fl.g.exit], none, lambda none: "never" if none else "must", "labels after # are ignored", exc=False)
    for r in retvals(fl):
        c.ob("K35-select", "from_uri:result", None if frm(fl, r.value, r, sf) else True, "labels after # are ignored", r)
    fl = flow_of(c, K, "subsetFromLabels")
    g = fl.g
    sb, bt = calls(fl, "subset_from_labels"), calls(fl, "between")
    present(c, "K35-select", "subset", sb, "labels are ignored", fl)
    present(c, "K35-select", "range", bt, "a range of tasks is ignored", fl)
    for n in sb:
        c.ob("K35-select", "mode", None if len(n.args) > 1 and ex(fl, n.args[1], n) == ("param", "subsetCtrl") or ex(fl, n.kwargs.get("subsetCtrl", const(None)), n) == ("param", "subsetCtrl") else True,
             "the way subsets are to be treated is ignored", n)
        L = {"labels": lambda lit, m: lit[0] == "truth" and at(ex(fl, lit[1], m), "labels")}
        if _seen(fl, L["labels"]):
            for v in (True, False):
                cut = cut_edges(fl, L, {"labels": v})
                c.ob("K35-select", f"range({'labels' if v else 'no labels'})", fl.path([g.entry], bt if v else [n], stop_node=lambda m: not v and m in bt, stop_edge=lambda m, lab: (m.id, lab) in cut),
                     "labels or a range of tasks are ignored")
    for n in bt:
        for i, a in ((0, "begin"), (1, "end")):
            v = arg(n, i, a)
            c.ob("K35-select", "range:" + a, None if v is not None and at(ex(fl, v, n), a) else True, "a range of tasks is ignored", n)
            A = {"none": lambda lit, m: lit[0] == "isnone" and at(ex(fl, lit[1], m), a), "known": lambda lit, m: lit[0] == "in" and at(ex(fl, lit[1], m), a), "labels": L["labels"] if sb else (lambda lit, m: False)}
            cut = cut_edges(fl, A, {"none": False, "known": False, "labels": False})
            c.ob("K35-select", f"range:{a}:unknown", fl.path([g.entry], [g.exit], stop_edge=lambda m, lab: (m.id, lab) in cut), "an unknown end of a range is accepted")
    fl = flow_of(c, K, "_parse_file_specifier")
    g = fl.g
    A = {"none": lambda lit, m: lit[0] == "isnone" and not fl.derives(lit[1], m, lambda t, k: False), "comma": lambda lit, m: lit[0] == "in" and lit[1] == const(","),
         "range": lambda lit, m: lit[0] == "in" and lit[1] == const("..")}
    if _seen(fl, A["comma"]) and _seen(fl, A["range"]):
        outcome(c, "K36-specifier", "both", fl, A, {"none": False, "comma": True, "range": True}, "raise", "a list and a range of labels are mixed up")
        mk = ctor(fl, "LabelSpecifier")
        for fixed in ({"none": False, "comma": True, "range": False}, {"none": False, "comma": False, "range": True}, {"none": False, "comma": False, "range": False}):
            must(c, "K36-specifier", f"used({', '.join(k for k, v in fixed.items() if v) or 'single'})", fl, [g.entry], mk, [g.exit], "labels after # are ignored", cut_edges(fl, A, fixed))
    sp = calls(fl, "split")
    for n in sp:
        if n.args and n.args[0] == const(","):
            c.ob("K36-specifier", "list", None if len(n.args) == 1 and not n.kwargs else True, "labels after # are ignored", n)


# ---------------------------------------------------------------- nothing is left out

WHOLE = (("pipelineIR.PipelineIR", ("merge_pipelines", "subset_from_labels", "_remove_contracts", "_verify_labeled_subsets", "_verify_steps", "_read_imports", "to_primitives")),
         ("pipelineIR.ImportIR", ("toPipelineIR",)), ("pipelineIR.ConfigIR", ("to_primitives", "formatted")), ("pipeline.Pipeline", ("to_graph", "subsets", "addLabeledSubset")),
         ("configOverrides.ConfigOverrides", ("addParameters",)), ("config.PipelineTaskConfig", ("applyConfigOverrides",)))


def whole(c):
    for k, ms in WHOLE:
        K = c.prog.cls(B + k)
        for nm in ms:
            fl = flow_of(c, K, nm)
            for h in iters(fl):
                if h.d.get("quant"):
                    c.ob("K37-whole", nm, True if partial(fl, h) else None, "part of a pipeline definition is left out", h)
                else:
                    each_break(c, "K37-whole", nm, fl, h, "part of a pipeline definition is left out")
    # parameters are merged
    fl = flow_of(c, c.prog.cls(IR + "ParametersIR"), "update")
    up = [n for n in fl.g.calls() if n.name == "update"] + _attrstores(fl, "mapping") + [n for n in fl.g.live if n.kind == "substore"]
    present(c, "K7-merge", "ParametersIR.update", up, "parameters are lost", fl)
    if up:
        must(c, "K7-merge", "ParametersIR.update", fl, [fl.g.entry], up + [h for n in up for h in loops_of(fl, n)], [fl.g.exit], "parameters are lost",
             cut_edges(fl, {"none": _isnone(("param", "other")), "some": _true(("param", "other"))}, {"none": False, "some": True}))
    # every kind of override is written
    fl = flow_of(c, c.prog.cls(IR + "ConfigIR"), "to_primitives")
    ga = [n for n in fl.g.calls() if n.name == "getattr"]
    st = [n for n in fl.g.live if n.kind == "substore"]
    for h in iters(fl, False):
        t = fl.term(h.iterable, h)
        if t[0] in ("tuple", "list") and ga:
            present(c, "K22-written", "ConfigIR:entries", [n for n in st if h in loops_of(fl, n)], "part of a configuration is lost when a pipeline is saved", fl)
            empty = lit_edges(fl, lambda l, m: l[0] in ("truth", "isnone") and l[2] is (l[0] == "isnone") and frm(fl, l[1], m, ga))
            must(c, "K22-written", "ConfigIR:each", fl, elems(h), [n for n in st if h in loops_of(fl, n)], [h], "part of a configuration is lost when a pipeline is saved", empty)


def _mention(fl, e, n, want):
    return any(want(s) for s in subterms(ex(fl, e, n, 8)))


def clash(c, inst, fl, a, b, starts, goals, msg):
    """Every path from starts to goals checks that the label sets a and b have nothing in common, and no path from a hit reaches the goals.

    Accepted forms: the truth of ``A & B`` or ``A.intersection(B)`` (possibly of a union), ``A.isdisjoint(B)`` and ``x in A`` in a loop over B.
    """
    g = fl.g

    def common(t, m):
        t = ex(fl, t, m, 8)
        if t[:2] == ("op", "BitAnd"):
            x, y = t[2]
        elif t[0] == "call" and t[2] in ("intersection", "isdisjoint") and t[3] is not None and t[4]:
            x, y = t[3], t[4][0]
        else:
            return None
        has = lambda z, w: any(w(s) for s in subterms(z))  # noqa: E731
        if has(x, a) and has(y, b) or has(x, b) and has(y, a):
            return t
        return None

    hit, chk = set(), []
    for m in g.live:
        if m.kind != "branch":
            continue
        for _, lab in m.succ:
            for l in fl.lits(m, lab):
                if l[0] == "truth":
                    t = common(l[1], m)
                    if t is not None:
                        chk.append(m)
                        if l[2] is not (t[0] == "call" and t[2] == "isdisjoint"):
                            hit.add((m.id, lab))
                elif l[0] == "in":
                    if any(b(s) for s in subterms(ex(fl, l[2], m, 8))) and any(a(s) for s in subterms(ex(fl, l[1], m, 8))) or any(a(s) for s in subterms(ex(fl, l[2], m, 8))) and any(
                            b(s) for s in subterms(ex(fl, l[1], m, 8))):
                        chk += [m] + loops_of(fl, m)
                        if l[3]:
                            hit.add((m.id, lab))
    present(c, "K10-conflicts", inst, chk, msg, fl)
    if not chk:
        return
    # a condition that is evaluated only when another one, which raises as well, did not hold is reached on all remaining paths
    c.ob("K10-conflicts", inst + ":checked", fl.path(starts, goals, stop_node=lambda m: m in chk, stop_edge=lambda m, lab: lab == "exc"), msg)
    c.ob("K10-conflicts", inst + ":raised", fl.path([t for m in g.live for t, lab in m.succ if (m.id, lab) in hit], goals), msg)


def clashes(c, C):
    fl = flow_of(c, C, "merge_pipelines")
    g = fl.g
    hs = loops_over(fl, "param", "pipelines")
    final = {nm: [n for n in _attrstores(fl, nm) if ex(fl, n.base, n) == ("param", "self")] for nm in ("tasks", "labeled_subsets")}
    acc = {nm: {fl.term(n.value, n) for n in ns} for nm, ns in final.items()}
    if any(t[0] not in ("var", "tmp") for ts in acc.values() for t in ts) or not all(acc.values()):
        return
    accx = {nm: {ex(fl, n.value, n, 8) for n in ns} | acc[nm] for nm, ns in final.items()}
    mine = lambda nm: lambda s: s in accx[nm]  # noqa: E731
    theirs = lambda nm: lambda s: at(s, nm) and s[1][0] in ("elem", "elemof")  # noqa: E731
    own = lambda nm: lambda s: s == self_(nm)  # noqa: E731
    for h in hs:
        clash(c, "merged tasks", fl, mine("tasks"), theirs("tasks"), elems(h), [h, g.exit], "duplicate tasks of merged pipelines are accepted")
        clash(c, "merged subsets", fl, mine("labeled_subsets"), theirs("labeled_subsets"), elems(h), [h, g.exit], "duplicate subsets of merged pipelines are accepted")
        clash(c, "merged subsets and tasks", fl, lambda s: mine("labeled_subsets")(s) or theirs("labeled_subsets")(s), lambda s: mine("tasks")(s) or theirs("tasks")(s), elems(h), [h, g.exit],
              "a subset with the label of a merged task is accepted")
    clash(c, "own tasks", fl, mine("labeled_subsets"), own("tasks"), [g.entry], [g.exit], "a merged subset with the label of one of the pipeline's own tasks is accepted")
    I = c.prog.cls(IR + "ImportIR")
    fl = flow_of(c, I, "toPipelineIR")
    g = fl.g
    ren = self_("rename")
    some = {"some": lambda lit, m: lit[0] == "truth" and mentions(ex(fl, lit[1], m, 8), lambda s: s == ren) and ex(fl, lit[1], m, 8)[0] in ("attr", "call") and (
        ex(fl, lit[1], m, 8) == ren or ex(fl, lit[1], m, 8)[2] in ("keys", "values", "items", "len"))}
    cut = cut_edges(fl, some, {"some": True})
    dup, ins = [], []
    for m in g.live:
        for _, lab in m.succ if m.kind == "branch" else ():
            for l in fl.lits(m, lab):
                ts = [ex(fl, x, m, 8) for x in l[1:-1] if isinstance(x, tuple) and x and isinstance(x[0], str)]
                if l[0] in ("eq", "lt") and all(t[0] == "call" and t[2] == "len" and mentions(t, lambda s: s == ren) for t in ts):
                    dup.append((m, lab, l))
                if l[0] == "truth" and ts[0][0] == "call" and ts[0][2] in ("intersection", "isdisjoint") and mentions(ts[0], lambda s: s == ren):
                    ins.append((m, lab, l[2] is (ts[0][2] == "intersection")))
                if l[0] == "truth" and ts[0][:2] == ("op", "BitAnd") and mentions(ts[0], lambda s: s == ren):
                    ins.append((m, lab, l[2]))
    for nm, es, bad in (("rename:duplicates", dup, lambda e: e[2][0] == "eq" and e[2][3] is False or e[2][0] == "lt" and e[2][3] is True), ("rename:chain", ins, lambda e: e[2])):
        present(c, "K6-rejected", nm, es, "ambiguous renames are accepted", fl)
        if es:
            chk = [m for m, _, _ in es]
            c.ob("K6-rejected", nm + ":checked", fl.path([g.entry], [g.exit], stop_node=lambda m: m in chk, stop_edge=lambda m, lab: (m.id, lab) in cut or lab == "exc"), "ambiguous renames are accepted")
            c.ob("K6-rejected", nm + ":raised", fl.path([t for e in es if bad(e) for t, lab in e[0].succ if lab == e[1]], [g.exit]), "ambiguous renames are accepted")
