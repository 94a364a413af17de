"""More of the structure of pipeline graphs: differences between graphs, name lookup in selections, exported state, steps."""

from __future__ import annotations

from ..lib import Check, const, is_self_attr
from ..q import (allfull, arg, as_edges, bycall, calls, each, ex, flow_of, frm, full, guard, iters, lit_edges, loops_of, loops_over, mentions, present, retvals, subterms, tail)
from .boolval import passes, table
from .fields import got
from .pgio import PG
from .pgstruct import P_, _enum, _never


def more(c: Check):
    P = c.prog.cls(PG + "_pipeline_graph.PipelineGraph")
    diff_tasks(c, P)
    identifiers(c, P)
    between(c)
    lookup(c)
    exported(c, P)
    grouping(c, P)
    parts(c, P)
    steps(c)
    nodes(c)
    removal(c, P)
    adding(c, P)
    for nm in ("remove_tasks", "add_task_nodes", "_replace_task_nodes", "select_tasks", "make_dataset_type_xgraph", "_make_task_xgraph_internal", "_make_bipartite_xgraph_internal", "copy",
               "_import_and_configure", "reconfigure_tasks", "_iter_task_defs", "group_by_dimensions", "diff_tasks"):
        if nm in P.methods:
            allfull(c, "H13-complete", nm, flow_of(c, P, nm), "part of a pipeline graph is left out")
    fl = flow_of(c, P, "split_independent")
    for h in iters(fl, True):
        full(c, "H13-complete", "split_independent", fl, h, "part of a pipeline graph is left out")


def _defs(m):
    return [v for _, v in m.d.get("defs", ())]


def _mem(fl, kind, pol):
    """Literal: a key of that kind is (not) in the graph."""
    def p(lit, m):
        return lit[0] == "in" and lit[3] is pol and _keykind(fl, lit[1], m) == {kind}
    return p


def _keykind(fl, e, n):
    return {k for k in ("TASK", "DATASET_TYPE", "TASK_INIT") if fl.derives(e, n, lambda t, m, k=k: _enum(t, k))}


def diff_tasks(c, P):
    fl = flow_of(c, P, "diff_tasks")
    g = fl.g
    msg = "different pipelines look the same"
    app = calls(fl, "append", "extend", "insert")
    de = calls(fl, "diff_edges")
    present(c, "H1-diff", "edges", de, msg, fl)
    hs = [h for h in iters(fl, False) if fl.derives(h.iterable, h, lambda t, m: t[0] == "attr" and t[2] == "tasks")]
    for n in de:
        own = [{p for p in ("self", "other") if mentions(ex(fl, x, n), lambda s, p=p: s[0] == "attr" and s[1] == ("param", p))} for x in (n.recv, n.args[0])]
        c.ob("H1-diff", "edges:both", None if not all(own) or own[0] != own[1] else True, msg, n)
    for h in hs:
        dh = [n for n in de if h in loops_of(fl, n)]
        if dh:
            each(c, "H1-diff", "edges:each", fl, h, dh, msg)
            for n in dh:
                ok = any(frm(fl, x, m, [n]) for m in app for x in m.args) or any(frm(fl, v, m, [n]) for m in g.live if m.kind == "def" for v in _defs(m))
                c.ob("H1-diff", "edges:kept", None if ok else True, msg, n)
    same = lambda at: lambda lit, m: lit[0] == "eq" and mentions(lit, lambda s: tail(s) == at) and {("param", "self"), ("param", "other")} <= _params(fl, lit[1], m) | _params(fl, lit[2], m)  # noqa: E731
    for what, at in (("tasks", "tasks"), ("classes", "task_class")):
        lit = [(m, lab, x) for m in g.live if m.kind == "branch" for lab in (True, False) for x in fl.lits(m, lab) if x[0] == "eq" and x[3] is False
               and (any(fl.derives(y, m, lambda t, k, at=at: t[0] == "attr" and t[2] == at) and (at == "tasks" or tail(fl.expand(y)) == at or True) for y in x[1:3]))]
        if at == "task_class":
            lit = [z for z in lit if any(tail(fl.expand(y)) in ("task_class", "task_class_name") for y in z[2][1:3])]
        else:
            lit = [z for z in lit if not any(tail(fl.expand(y)) in ("task_class", "task_class_name") for y in z[2][1:3])]
        present(c, "H1-diff", what, lit, msg, fl)
        for m, lab, _ in lit:
            _never(c, "H1-diff", what + ":told", fl, [(m, lab)], de + [g.exit] if at == "task_class" else hs + [g.exit], msg, stop=[a for a in app if a not in de and not any(frm(fl, x, a, de) for x in a.args)])
    for r in retvals(fl):
        c.ob("H1-diff", "returned", None if any(fl.term(a.recv, a) == fl.term(r.value, r) for a in app) or not app else True, msg, r)


def _params(fl, e, n):
    return {("param", p) for p in ("self", "other") if fl.derives(e, n, P_(p))}


def identifiers(c, P):
    fl = flow_of(c, P, "_select_identifier")
    g = fl.g
    msg = "a name in a selection is not what the user meant"
    isq = lambda x: lambda lit, m: lit[0] == "eq" and lit[3] is True and const(x) in lit[1:3]  # noqa: E731
    notq = lambda x: lit_edges(fl, isq(x))  # noqa: E731
    rs = [(r, _keykind(fl, r.value, r)) for r in retvals(fl)]
    for kind in ("TASK", "DATASET_TYPE"):
        own = [r for r, k in rs if k == {kind}]
        present(c, "H2-names", kind, own, msg, fl)
        guard(c, "H2-names", kind + ":exists", fl, own, _mem(fl, kind, True), msg)
        # unqualified names have to be unambiguous
        qual = notq("T") | notq("D") | notq("S")
        if kind == "TASK":
            es = lit_edges(fl, _mem(fl, "DATASET_TYPE", False))
        else:
            es = lit_edges(fl, _mem(fl, "TASK", False))
        _never(c, "H2-names", kind + ":unambiguous", fl, [g.entry], own, msg + " (ambiguous)", stop_edges=qual | es)
        other = lit_edges(fl, isq("D" if kind == "TASK" else "T")) | lit_edges(fl, isq("S"))
        w = fl.path(as_edges(fl, other), own)
        c.ob("H2-names", kind + ":qualifier", w, msg)
    sub = [r for r, k in rs if fl.derives(r.value, r, lambda t, m: t[0] == "attr" and t[2] in ("_task_subsets", "task_subsets"))]
    present(c, "H2-names", "subset", sub, msg, fl)
    insub = lambda pol: lambda lit, m: lit[0] == "in" and lit[3] is pol and mentions(lit[2], lambda s: tail(s) in ("_task_subsets", "task_subsets"))  # noqa: E731
    qual = notq("T") | notq("D") | notq("S")
    _never(c, "H2-names", "subset:unqualified", fl, [g.entry], sub, msg, stop_edges=qual | lit_edges(fl, insub(True)))
    _never(c, "H2-names", "dataset type:not a subset", fl, [g.entry], [r for r, k in rs if k == {"DATASET_TYPE"}], msg + " (ambiguous)", stop_edges=qual | lit_edges(fl, insub(False)))
    # unknown names are rejected as such
    bad = [n for n in g.live if n.kind == "raise"]
    ok = [n for n in bad if n.d.get("exc") and "InvalidExpressionError" in str(n.d["exc"])]
    keyerr = [n for n in g.live if n.kind == "branch" and n.atom[0] == "excis" and any("KeyError" in t or "LookupError" in t for t in n.atom[1] or ())]
    for n in keyerr:
        _never(c, "H2-names", "subset:unknown", fl, [(n, True)], [g.exit, g.exc_exit], msg + " (a missing subset is not reported as such)", stop=ok)
    for nm in ("_select_expression", "_select_dataset_type_ancestors", "_select_dataset_type_descendants"):
        fl2 = flow_of(c, P, nm)
        for h in iters(fl2, None):
            c.ob("H2-names", nm + ":whole", True if fl2.partial(h) else None, "part of a selection is lost", h)
        if nm == "_select_dataset_type_descendants":
            continue
        for h in [h for h in iters(fl2, False) if bycall(fl2, h.iterable, h, "in_edges", "predecessors")]:
            use = [n for n in fl2.g.live if n.id in fl2.loop_body(h) and n.kind == "call" and n.name in ("ancestors", "add") and n.args] + [
                r for r in retvals(fl2) if fl2.derives(r.value, r, lambda t, m, h=h: t == ("elem", h.id))]
            init = lambda pol: lambda lit, m: lit[0] in ("eq", "is") and lit[3] is pol and mentions(lit, lambda s: _enum(s, "TASK_INIT")) or lit[0] in ("eq", "is") and lit[3] is not pol and mentions(lit, lambda s: _enum(s, "TASK"))  # noqa: E731
            guard(c, "H2-names", nm + ":init-outputs", fl2, use, init(False), "the construction of a task is selected as a task", starts=[(h, "elem")])


def between(c):
    fl = flow_of(c, c.prog.cls(PG + "_mapping_views.TaskMappingView"), "between") if "between" in c.prog.cls(PG + "_mapping_views.TaskMappingView").methods else None
    if fl is None:
        return
    g = fl.g
    msg = "tasks between two others are missing or too many"
    for p, fn in (("first", "descendants"), ("last", "ancestors")):
        ns = calls(fl, fn)
        present(c, "H3-between", p, ns, msg, fl)
        none = lit_edges(fl, lambda lit, m, p=p: lit[0] in ("isnone", "truth") and (lit[2] is True) is (lit[0] == "isnone") and fl.term(lit[1], m) == ("param", p))
        some = lit_edges(fl, lambda lit, m, p=p: lit[0] in ("isnone", "truth") and (lit[2] is True) is not (lit[0] == "isnone") and fl.term(lit[1], m) == ("param", p))
        _never(c, "H3-between", p + ":given", fl, [g.entry], [g.exit], msg, stop=ns, stop_edges=none)
        _never(c, "H3-between", p + ":not given", fl, [g.entry], ns, msg, stop_edges=some)
        for n in ns:
            v = arg(n, 1, "source")
            c.ob("H3-between", p + ":own", None if v is not None and fl.derives(v, n, P_(p)) else True, msg, n)
        add = [n for n in calls(fl, "add", "update", "union") if n.args and fl.derives(n.args[0], n, P_(p))]
        if add or not any(m.kind == "def" for m in g.live if False):
            present(c, "H3-between", p + ":inclusive", add or [m for m in g.live if m.kind == "call" and m.name == "NodeKey" and False] or _setop(fl, p), msg, fl)
            _never(c, "H3-between", p + ":inclusive:always", fl, [g.entry], [g.exit], msg, stop=add, stop_edges=none) if add else None
    for r in retvals(fl):
        both = fl.derives(r.value, r, lambda t, m: t[0] == "op" and t[1] == "BitAnd") or bycall(fl, r.value, r, "intersection")
        c.ob("H3-between", "both", None if both else True, msg, r) if both or fl.derives(r.value, r, lambda t, m: t[0] == "op" and t[1] in ("BitOr", "Sub", "BitXor")) else None
    for h in iters(fl, None):
        if fl.derives(h.iterable, h, lambda t, m: t[0] == "op") or bycall(fl, h.iterable, h, "intersection"):
            out = [n for n in g.live if n.id in fl.loop_body(h) and n.kind in ("compelt", "substore")]
            guard(c, "H3-between", "tasks", fl, out, lambda lit, m: lit[0] in ("eq", "is") and lit[3] is True and mentions(lit, lambda s: _enum(s, "TASK")), "something that is not a task is listed as one", starts=[(h, "elem")])
            each(c, "H3-between", "all", fl, h, out, msg, unless=lambda lit, m: lit[0] in ("eq", "is") and lit[3] is False and mentions(lit, lambda s: _enum(s, "TASK")))


def _setop(fl, p):
    return [m for m in fl.g.live if m.kind == "def" and any(fl.derives(v, m, lambda t, k: t[0] in ("set", "op")) and fl.derives(v, m, P_(p)) for v in _defs(m))]


def lookup(c):
    D = c.prog.cls(PG + "_mapping_views.DatasetTypeMappingView")
    msg = "a dataset type that was not resolved is handed out"
    none = lambda pol: lambda lit, m: lit[0] in ("isnone", "truth") and (lit[2] is pol) is (lit[0] == "isnone") and bycall(fl, lit[1], m, "__getitem__")  # noqa: E731
    for nm in ("__getitem__", "get_if_resolved"):
        if nm not in D.methods:
            continue
        fl = flow_of(c, D, nm)
        got_ = calls(fl, "__getitem__")
        rs = retvals(fl)
        own = [r for r in rs if frm(fl, r.value, r, got_)]
        present(c, "H4-resolved", nm, own, msg, fl)
        guard(c, "H4-resolved", nm + ":resolved", fl, own, none(False), msg) if lit_edges(fl, none(False)) or nm == "__getitem__" else None
        for r in rs:
            if r not in own:
                guard(c, "H4-resolved", nm + ":default", fl, [r], none(True), "a dataset type that was resolved is not handed out")
        bad = as_edges(fl, lit_edges(fl, none(True)))
        if nm == "__getitem__" and bad:
            _never(c, "H4-resolved", nm + ":raises", fl, bad, [fl.g.exit], msg)
    if "is_resolved" in D.methods:
        fl = flow_of(c, D, "is_resolved")
        table(c, "H4-resolved", "is_resolved", fl, [(r.value, r) for r in retvals(fl)], {"missing": lambda lit, m: lit[0] == "isnone"}, lambda missing: not missing, msg)
    T = c.prog.cls(PG + "_tasks.TaskNode")
    fl = flow_of(c, T, "dimensions")
    ok = lambda pol: lambda lit, m: (lit[0] == "truth" and tail(fl.expand(lit[1])) == "has_resolved_dimensions" or lit[0] == "isinstance" and "DimensionGroup" in str(lit[2])) and lit[-1] is pol  # noqa: E731
    rs = retvals(fl)
    guard(c, "H4-resolved", "task dimensions", fl, rs, ok(True), "dimensions of a task are handed out before they are resolved")
    fl = flow_of(c, T, "raw_dimensions")
    if lit_edges(fl, ok(True)):
        for r in retvals(fl):
            nm = fl.derives(r.value, r, lambda t, m: t[0] == "attr" and t[2] in ("names", "required"))
            guard(c, "H4-resolved", "raw dimensions", fl, [r], ok(nm), "dimensions of a task are misread")


def exported(c, P):
    fl = flow_of(c, P, "_transform_xgraph_state")
    g = fl.g
    msg = "an exported graph lacks state"
    up = [n for n in calls(fl, "update") if n.args and bycall(fl, n.args[0], n, "_to_xgraph_state")]
    ns = [h for h in iters(fl, False) if mentions(ex(fl, h.iterable, h), lambda s: tail(s) == "nodes" or s[0] == "call" and s[2] == "nodes")]
    es = [h for h in iters(fl, False) if mentions(ex(fl, h.iterable, h), lambda s: tail(s) == "edges" or s[0] == "call" and s[2] == "edges")]
    present(c, "H5-exported", "nodes", ns, msg, fl)
    present(c, "H5-exported", "edges", es, msg, fl)
    skip = lit_edges(fl, lambda lit, m: lit[0] == "truth" and lit[2] is True and fl.term(lit[1], m) == ("param", "skip_edges"))
    _never(c, "H5-exported", "edges:always", fl, [g.entry], [g.exit], msg, stop=es, stop_edges=skip)
    none = lambda lit, m: lit[0] in ("isnone", "truth") and (lit[2] is True) is (lit[0] == "isnone")  # noqa: E731
    for what, hs in (("nodes", ns), ("edges", es)):
        for h in hs:
            full(c, "H5-exported", what + ":all", fl, h, msg)
            each(c, "H5-exported", what + ":each", fl, h, [n for n in up if h in loops_of(fl, n)], msg, unless=none)
            if what == "nodes":
                bp = [n for n in g.live if n.kind == "substore" and n.id in fl.loop_body(h) and const("bipartite") == fl.term(n.key, n)]
                each(c, "H5-exported", "unresolved", fl, h, bp + up, msg) if bp else present(c, "H5-exported", "unresolved", bp + calls(fl, "setdefault"), msg, fl)
    for r in retvals(fl):
        c.ob("H5-exported", "returned", None if fl.term(r.value, r) == ("param", "xgraph") or not fl.derives(r.value, r, P_("self")) else True, msg, r)
    for cl, fs in (("_tasks.TaskNode", {"dimensions": ("_dimensions", "dimensions"), "raw_dimensions": ("raw_dimensions",)}), ("_tasks.TaskInitNode", {"task_class": ("task_class",), "config": ("config",)})):
        K = c.prog.cls(PG + cl)
        if "_to_xgraph_state" not in K.methods:
            continue
        fl = flow_of(c, K, "_to_xgraph_state")
        for k, at in fs.items():
            st = [n for n in fl.g.live if n.kind == "substore" and fl.term(n.key, n) == const(k)]
            disp = any(mentions(ex(fl, r.value, r), lambda s, k=k: s == const(k)) for r in retvals(fl)) or any(k in n.kwargs for n in fl.g.calls())
            present(c, "H5-exported", f"{cl}:{k}", st or disp, msg, fl)
            for n in st:
                c.ob("H5-exported", f"{cl}:{k}:value", None if tail(ex(fl, n.value, n)) in at or mentions(ex(fl, n.value, n), lambda s, at=at: tail(s) in at) else True, msg, n)
            if k == "task_class" or k == "dimensions":
                have = lit_edges(fl, lambda lit, m: (lit[0] in ("truth", "hasattr", "isinstance")) and lit[-1] is False)
                _never(c, "H5-exported", f"{cl}:{k}:always", fl, [fl.g.entry], [fl.g.exit], msg, stop=st, stop_edges=have) if st and have else None


def grouping(c, P):
    fl = flow_of(c, P, "group_by_dimensions")
    g = fl.g
    for n in calls(fl, "setdefault"):
        if len(n.args) < 2:
            continue
        v = n.args[1]
        if v[0] != "var":
            continue
        new = lit_edges(fl, lambda lit, m, n=n: lit[0] in ("is", "eq") and lit[3] is True and any(frm(fl, x, m, [n], False) for x in lit[1:3]))
        defs = [d for _, _, d in fl.defs if _ == v] if False else [d for (vv, _, d) in fl.defs if vv == v]
        inl = [d for d in defs if d.id in set().union(*[fl.loop_body(h) for h in loops_of(fl, n)] or [set()])]
        # once the new group was used it must not be offered again
        st = as_edges(fl, new) if new else fl.out_edges([n])
        ok = [x for x in calls(fl, "setdefault") if len(x.args) > 1 and x.args[1][0] == "var" and x.args[1][2] == v[2]]
        _never(c, "H6-groups", "fresh", fl, st, ok, "two groups of dimensions share their members", stop=inl or defs)


    for h in [h for h in iters(fl, False) if fl.derives(h.iterable, h, lambda t, m: t[0] == "attr" and t[2] == "dataset_types")]:
        put = [n for n in g.live if n.kind == "substore" and n.id in fl.loop_body(h)]
        passes(c, "H6-groups", "prerequisites", fl, [(h, "elem")], put, [h],
               {"prerequisite": lambda lit, m: lit[0] == "truth" and tail(fl.expand(lit[1])) == "is_prerequisite", "wanted": lambda lit, m: lit[0] == "truth" and fl.term(lit[1], m) == ("param", "prerequisites")},
               lambda prerequisite, wanted: "must" if wanted or not prerequisite else "never", "dataset types are grouped that should not be, or not grouped", stop=[]) if put else None


def parts(c, P):
    fl = flow_of(c, P, "split_independent")
    g = fl.g
    msg = "tasks are missing from the independent parts of a pipeline"
    hs = [h for h in iters(fl, False) if bycall(fl, h.iterable, h, "weakly_connected_components", "connected_components")]
    ys = [n for n in g.live if n.kind == "yield"]
    ad = calls(fl, "add_task_nodes")
    for h in hs:
        whole = lit_edges(fl, lambda lit, m: lit[0] == "eq" and lit[3] is True)
        c.ob("H7-parts", "all", True if fl.partial(h) else fl.path([(h, "elem")], [g.exit], stop_node=lambda m, h=h: m is h, stop_edge=lambda m, lab: (m.id, lab) in whole), msg, h)
        _never(c, "H7-parts", "each", fl, [(h, "elem")], [h, g.exit], msg, stop=ys)
        mk = [n for n in g.live if n.kind == "call" and n.name == "PipelineGraph" and n.id in fl.loop_body(h)]
        for n in mk:
            _never(c, "H7-parts", "tasks", fl, fl.out_edges([n]), ys, msg, stop=ad)
        for n in ad:
            if h in loops_of(fl, n):
                v = arg(n, 0, "nodes")
                c.ob("H7-parts", "tasks:own", None if v is not None and fl.derives(v, n, lambda t, m, h=h: t == ("elem", h.id)) else True, msg, n)
                for x in iters(fl, True):
                    if fl.derives(x.iterable, x, lambda t, m, h=h: t == ("elem", h.id)):
                        full(c, "H7-parts", "tasks:all", fl, x, msg)
    fl = flow_of(c, P, "iter_overall_inputs")
    for n in calls(fl, "topological_generations"):
        for h in [h for h in iters(fl, False) if fl.derives(h.iterable, h, lambda t, m: t[0] == "elem")]:
            ys = [m for m in fl.g.live if m.kind == "yield" and m.id in fl.loop_body(h)]
            each(c, "H7-parts", "overall inputs", fl, h, ys, "overall inputs of a pipeline are missing", unless=lambda lit, m: lit[0] in ("eq", "is") and lit[3] is False and mentions(lit, lambda s: _enum(s, "DATASET_TYPE")))
            guard(c, "H7-parts", "overall inputs:own", fl, ys, lambda lit, m: lit[0] in ("eq", "is") and lit[3] is True and mentions(lit, lambda s: _enum(s, "DATASET_TYPE")), "something else is listed as an overall input", starts=[(h, "elem")])
        top = [h for h in iters(fl, False) if frm(fl, h.iterable, h, [n]) and not fl.derives(h.iterable, h, lambda t, m: t[0] == "elem")]
        present(c, "H7-parts", "first generation", top or calls(fl, "next"), "overall inputs of a pipeline are missing", fl)
        for h in top:
            c.ob("H7-parts", "first generation:own", True if fl.partial(h) else None, "overall inputs of a pipeline are missing", h)
            again = fl.path([(h, "elem")], lambda m, h=h: m is h)
            c.ob("H7-parts", "first generation:only", again, "intermediate datasets are listed as overall inputs", h)
    fl = flow_of(c, P, "iter_nodes")
    hs = iters(fl, None)
    ys = [m for m in fl.g.live if m.kind == "yield"]
    _never(c, "H7-parts", "nodes", fl, [fl.g.entry], [fl.g.exit], "nodes of an unsorted graph are not iterated over", stop=hs + ys)
    for h in hs:
        if not h.d.get("comp"):
            each(c, "H7-parts", "nodes:each", fl, h, ys, "nodes are not iterated over")
    for h in hs:
        if bycall(fl, h.iterable, h, "nodes"):
            n = next((x for x in calls(fl, "nodes") if frm(fl, h.iterable, h, [x])), None)


def steps(c):
    S = c.prog.cls(PG + "_task_subsets.StepDefinitions")
    msg = "the dimensions of a step are not what was set"
    for nm in ("append", "set_dimensions"):
        fl = flow_of(c, S, nm, also=("_unverified_on_success",))
        g = fl.g
        cf = calls(fl, "conform")
        st = [n for n in g.live if n.kind == "substore"]
        nouni = lit_edges(fl, lambda lit, m: lit[0] in ("isnone", "truth") and (lit[2] is True) is (lit[0] == "isnone") and tail(fl.expand(lit[1])) == "_universe")
        _never(c, "H8-steps", nm + ":conformed", fl, [g.entry], st, msg + " (not expanded)", stop=cf, stop_edges=nouni)
        for n in cf:
            c.ob("H8-steps", nm + ":own", None if n.args and fl.derives(n.args[0], n, P_("dimensions")) else True, msg, n)
        for n in st:
            c.ob("H8-steps", nm + ":value", None if fl.derives(n.value, n, P_("dimensions")) and fl.term(n.key, n) == ("param", "label") else True, msg, n)
            fz = bycall(fl, n.value, n, "frozenset", "sorted", "set", "tuple")
            c.ob("H8-steps", nm + ":iterated once", None if fz or fl.derives(n.value, n, lambda t, m: t[0] == "attr" and t[2] == "names") else True, msg, n)
    fl = flow_of(c, S, "set_dimensions", also=("_unverified_on_success",))
    st = [n for n in fl.g.live if n.kind == "substore"]
    guard(c, "H8-steps", "set:only steps", fl, st, lambda lit, m: lit[0] == "in" and lit[3] is True or lit[0] == "isnone" and lit[2] is False, "a subset becomes a step by having its dimensions set")
    fl = flow_of(c, S, "get_dimensions")
    for r in retvals(fl):
        c.ob("H8-steps", "get:conformed", None if bycall(fl, r.value, r, "conform") else True, msg, r)
    guard(c, "H8-steps", "get:resolved", fl, calls(fl, "conform"), lambda lit, m: lit[0] in ("isnone", "truth") and (lit[2] is True) is not (lit[0] == "isnone") and tail(fl.expand(lit[1])) == "_universe", "an unresolved step has no definite error")
    for n in [n for n in fl.g.live if n.kind == "branch" and n.atom[0] == "excis" and any("KeyError" in t for t in n.atom[1] or ())]:
        _never(c, "H8-steps", "get:not a step", fl, [(n, True)], [fl.g.exit], "a subset that is not a step has dimensions")
    fl = flow_of(c, S, "assign", also=("_unverified_on_success",))
    for n in [n for n in fl.g.live if n.kind == "attrstore" and n.name == "_dimensions_by_label"]:
        c.ob("H8-steps", "assign", None if fl.derives(n.value, n, P_("labels")) else True, "steps are not what was assigned", n)
        if not (bycall(fl, n.value, n, "get", "setdefault", "copy", "dict", "conform")):
            c.fail("H8-steps", "assign:dimensions", "the dimensions of a step are lost when steps are assigned", n)
    for h in iters(fl, None):
        if fl.term(h.iterable, h) == ("param", "labels"):
            full(c, "H8-steps", "assign:all", fl, h, "steps are not what was assigned")
    other = lambda pol: lambda lit, m: lit[0] == "isinstance" and lit[3] is pol  # noqa: E731
    cp = [n for n in calls(fl, "copy") if fl.derives(n.recv, n, P_("labels"))]
    guard(c, "H8-steps", "assign:other", fl, cp, other(True), "steps are not what was assigned") if lit_edges(fl, other(True)) else None
    if "clear" in S.methods:
        fl = flow_of(c, S, "clear", also=("_unverified_on_success",))
        ns = calls(fl, "assign", "clear") + [n for n in fl.g.live if n.kind == "attrstore" and n.name == "_dimensions_by_label"]
        _never(c, "H8-steps", "clear", fl, [fl.g.entry], [fl.g.exit], "steps stay after they were cleared", stop=ns)
    fl = flow_of(c, S, "_unverified_on_success")
    ys = [n for n in fl.g.live if n.kind == "yield"]
    st = [n for n in fl.g.live if n.kind == "attrstore" and n.name == "_verified"]
    present(c, "H8-steps", "unverified:body", ys, "changed steps count as verified", fl)
    c.ob("H8-steps", "unverified:after", fl.path(fl.out_edges(ys), [fl.g.exit], stop_node=lambda m: m in st), "changed steps count as verified")
    for n in st:
        c.ob("H8-steps", "unverified:value", None if fl.term(n.value, n) == const(False) else True, "changed steps count as verified", n)
    fl = flow_of(c, S, "verified")
    table(c, "H8-steps", "verified", fl, [(r.value, r) for r in retvals(fl)],
          {"checked": lambda lit, m: lit[0] == "truth" and is_self_attr(fl.expand(lit[1]), "_verified"), "steps": lambda lit, m: lit[0] == "truth" and is_self_attr(fl.expand(lit[1]), "_dimensions_by_label")},
          lambda checked, steps: checked or not steps, "whether steps were checked is misreported")
    if "__eq__" in S.methods:
        fl = flow_of(c, S, "__eq__")
        for r in retvals(fl):
            if mentions(ex(fl, r.value, r), lambda s: s[0] == "cmp"):
                guard(c, "H8-steps", "equality", fl, [r], lambda lit, m: lit[0] == "isinstance" and lit[3] is True, "steps compare equal to something else")
    T = c.prog.cls(PG + "_task_subsets.TaskSubset")
    for prop, call, a in (("description", None, "_description"), ("dimensions", "set_dimensions", None)):
        q = f"{T.qual}.{prop}.setter"
        f = next((f for k, f in c.prog.funcs.items() if k.startswith(T.qual + "." + prop) and f.name == prop and any("setter" in ast_dump(d) for d in f.node.decorator_list)), None)
        if f is None:
            continue
        fl = c.flow(f.qual)
        ns = calls(fl, call) + [n for n in fl.g.live if n.kind == "substore"] if call else [n for n in fl.g.live if n.kind == "attrstore" and n.name == a]
        _never(c, "H8-steps", f"subset {prop} set", fl, [fl.g.entry], [fl.g.exit], f"the {prop} of a subset stay as they were", stop=ns)


def ast_dump(d):
    import ast
    return ast.dump(d)


def nodes(c):
    T = c.prog.cls(PG + "_tasks.TaskNode")
    fl = flow_of(c, T, "is_optional")
    table(c, "H9-node", "optional", fl, [(r.value, r) for r in retvals(fl)],
          {"input": lambda lit, m: lit[0] in ("isinstance", "truth") and "BaseInput" in repr(lit) + repr([fl.g.nodes[lit[1][1]].args] if lit[0] == "truth" and lit[1][0] == "tmp" else ""),
           "none needed": lambda lit, m: lit[0] == "eq" and const(0) in lit[1:3] and mentions(lit, lambda s: tail(s) == "minimum")},
          lambda **k: k["input"] and k["none needed"], "which inputs a task can do without is misreported")
    for r in retvals(fl):
        for t in subterms(ex(fl, r.value, r)):
            if t[0] == "cmp" and any(tail(x) == "minimum" for x in t[2:4]) and any(x[0] == "const" for x in t[2:4]):
                mine = tail(t[2]) == "minimum"
                k, op = (t[3] if mine else t[2])[2], t[1]
                flip = {"Lt": "Gt", "Gt": "Lt", "LtE": "GtE", "GtE": "LtE"}
                op = op if mine else flip.get(op, op)
                ok = (op, k) in {("Eq", 0), ("Lt", 1), ("LtE", 0), ("NotEq", 0), ("Gt", 0), ("GtE", 1)}
                c.ob("H9-node", "optional:minimum", None if ok else True, "which inputs a task can do without is misreported", r)
    fl = flow_of(c, T, "_resolved")
    at = {"resolved": lambda lit, m: lit[0] == "truth" and tail(fl.expand(lit[1])) == "has_resolved_dimensions",
          "same": lambda lit, m: lit[0] == "eq" and any(tail(fl.expand(x)) == "universe" and x[0] == "attr" for x in lit[1:3]) and ("param", "universe") in lit[1:3]}
    if lit_edges(fl, lambda lit, m: at["resolved"](lit, m)):
        un = [r for r in retvals(fl) if ex(fl, r.value, r) == ("param", "self")]
        passes(c, "H9-node", "resolved", fl, [fl.g.entry], un, [], at, lambda resolved, same: "never" if resolved and not same else None,
               "a task keeps the dimensions of another universe")
    fl = flow_of(c, T, "get_output_edge")
    log = [r for r in retvals(fl) if tail(ex(fl, r.value, r)) == "log_output"]
    guard(c, "H9-node", "log", fl, log, lambda lit, m: lit[0] in ("isnone", "truth") and (lit[2] is True) is not (lit[0] == "isnone") and tail(fl.expand(lit[1])) == "log_output", "a task without a log has a log output edge")
    fl = flow_of(c, T, "get_input_edge")
    for r in retvals(fl):
        if fl.derives(r.value, r, lambda t, m: t[0] == "attr" and t[2] == "inputs") and bycall(fl, r.value, r, "get"):
            guard(c, "H9-node", "input", fl, [r], lambda lit, m: lit[0] in ("isnone", "truth") and (lit[2] is True) is not (lit[0] == "isnone"), "an input edge is not found")
    R = c.prog.cls(PG + "_edges.ReadEdge")
    fl = flow_of(c, R, "_from_connection_map")
    at = lambda k, d: lambda lit, m: (lit[0] == "truth" and k == "deferGraphConstraint" or lit[0] == "eq" and const(0) in lit[1:3] and k == "minimum") and any(  # noqa: E731
        _getattr(fl, x, m, k) for x in lit[1:-1])
    for n in fl.g.calls():
        v = n.kwargs.get("defer_query_constraint")
        if v is not None:
            table(c, "H9-node", "constraint", fl, [(v, n)], {"deferred": at("deferGraphConstraint", False), "optional": at("minimum", 1)}, lambda deferred, optional: deferred or optional,
                  "an optional or deferred input constrains which quanta exist, or a regular one does not")
    for m in calls(fl, "getattr"):
        if len(m.args) == 3 and m.args[1] == const("deferGraphConstraint"):
            c.ob("H9-node", "constraint:default", None if fl.term(m.args[2], m) in (const(False), const(None)) else True, "inputs that say nothing are deferred", m)
        if len(m.args) == 3 and m.args[1] == const("isCalibration"):
            c.ob("H9-node", "calibration:default", None if fl.term(m.args[2], m) in (const(False), const(None)) else True, "inputs that say nothing are calibrations", m)
        if len(m.args) == 3 and m.args[1] == const("minimum"):
            c.ob("H9-node", "minimum:default", None if fl.term(m.args[2], m) != const(0) else True, "inputs that say nothing are optional", m)
    W = c.prog.cls(PG + "_edges.WriteEdge")
    fl = flow_of(c, W, "_from_connection_map")
    for m in calls(fl, "getattr"):
        if len(m.args) == 3 and m.args[1] == const("isCalibration"):
            c.ob("H9-node", "calibration:default out", None if fl.term(m.args[2], m) in (const(False), const(None)) else True, "outputs that say nothing are calibrations", m)
    D = c.prog.cls(PG + "_tasks._TaskNodeImportedData")
    fl = flow_of(c, D, "configure")
    for n in fl.g.calls():
        if n.name == "cls" or n.callee and str(n.callee).endswith("_TaskNodeImportedData"):
            for i, p in enumerate(("task_class", "config", "connection_map", "connections")):
                v = arg(n, i, p)
                if v is None:
                    continue
                if p in ("task_class", "config"):
                    c.ob("H9-node", "configured:" + p, None if fl.derives(v, n, P_(p)) else True, "a task is configured with something else", n)
                if p == "connections":
                    ok = fl.derives(v, n, P_("connections")) or bycall(fl, v, n, "ConnectionsClass")
                    c.ob("H9-node", "configured:" + p, None if ok and not mentions(ex(fl, v, n), lambda s: tail(s) == "allConnections") else True, "a task is configured with something else", n)
    for n in calls(fl, "ConnectionsClass"):
        v = arg(n, 0, "config")
        c.ob("H9-node", "connections", None if v is not None and fl.term(v, n) == ("param", "config") else True, "connections do not follow the configuration", n)
        _never(c, "H9-node", "validated", fl, [fl.g.entry], [n], "an invalid configuration is accepted", stop=calls(fl, "validate"))
        # validation problems are told


def _getattr(fl, t, m, k):
    t = fl.expand(t)
    if mentions(t, lambda s: tail(s) == k):
        return True
    return mentions(t, lambda s: s[0] == "call" and s[2] == "getattr" and len(s[4]) > 1 and s[4][1] == const(k))


def removal(c, P):
    fl = flow_of(c, P, "remove_tasks")
    g = fl.g
    msg = "removing a task leaves dataset types behind"
    hs = loops_over(fl, "param", "labels")
    for h in hs:
        rec = [n for n in calls(fl, "append", "add", "extend") if h in loops_of(fl, n) and n.args and ex(fl, n.args[0], n)[0] == "tuple"]
        present(c, "H10-removal", "returned", rec, "removed tasks are not reported", fl)
        each(c, "H10-removal", "returned:each", fl, h, rec, "removed tasks are not reported") if rec else None
        for r in retvals(fl):
            if rec:
                c.ob("H10-removal", "returned:all", None if any(fl.term(n.recv, n) == fl.term(r.value, r) for n in rec) else True, "removed tasks are not reported", r)
    # the memberships reported are those of the removed task
    for h in iters(fl, True):
        if fl.derives(h.iterable, h, lambda t, m: t[0] == "attr" and t[2] in ("task_subsets", "_task_subsets")):
            ce = [n for n in g.live if n.kind == "compelt" and n.id in fl.loop_body(h)]
            guard(c, "H10-removal", "memberships", fl, ce, lambda lit, m: lit[0] == "in" and lit[3] is True, "a task is dropped from subsets it is not in", starts=[(h, "elem")])
    rel = [h for h in iters(fl, False) if h not in hs and any(h in loops_of(fl, n) for n in calls(fl, "predecessors", "successors", "in_edges", "out_edges"))]
    present(c, "H10-removal", "dataset types", rel, msg, fl)
    for n in calls(fl, "difference_update", "difference"):
        pass
    un = [n for n in g.live if n.kind == "substore" and fl.term(n.value, n) == const(None) and fl.term(n.key, n) == const("instance")]
    for n in un:
        c.ob("H10-removal", "unresolved:each", None if loops_of(fl, n) else True, "a dataset type stays resolved although its tasks changed", n)
        for h in loops_of(fl, n):
            full(c, "H10-removal", "unresolved:all", fl, h, "a dataset type stays resolved although its tasks changed")
    rm = calls(fl, "remove_nodes_from")
    for h in rel:
        # what stays related is judged without the tasks being removed
        tests = lit_edges(fl, lambda lit, m, h=h: lit[0] == "truth" and m.id in fl.loop_body(h))
        diff = [n for n in calls(fl, "difference_update", "difference", "discard", "remove", "issubset") if n.id in fl.loop_body(h)]
        op = any(fl.derives(lit[1], m, lambda t, k: t[0] == "op" and t[1] == "Sub") for m in g.live if m.kind == "branch" and m.id in fl.loop_body(h) for lit in fl.lits(m, True) if lit[0] == "truth")
        inn = any(lit[0] in ("in", "lt") for m in g.live if m.kind == "branch" and m.id in fl.loop_body(h) for lit in fl.lits(m, True))
        present(c, "H10-removal", "without the removed", diff or ([1] if op or inn else []), msg, fl)


def adding(c, P):
    fl = flow_of(c, P, "add_task")
    g = fl.g
    msg = "an added task is not the one that was asked for"
    ad = calls(fl, "add_task_nodes")
    _never(c, "H11-add task", "added", fl, [g.entry], [g.exit], msg, stop=ad)
    for n in calls(fl, "configure"):
        for i, p in enumerate(("label", "task_class", "config", "connections")):
            v = arg(n, i, p)
            c.ob("H11-add task", p, None if v is not None and fl.derives(v, n, P_(p)) and (p == "task_class" or p == "connections" or not (fl.term(v, n)[0] == "param" and fl.term(v, n)[1] != p)) else True, msg, n)
    for nm, dflt in (("label", "_DefaultName"), ("config", "ConfigClass")):
        none = lambda pol: lit_edges(fl, lambda lit, m, nm=nm: lit[0] in ("isnone", "truth") and (lit[2] is pol) is (lit[0] == "isnone") and fl.term(lit[1], m) == ("param", nm))  # noqa: E731, B023
        use = [m for m in g.live if m.kind in ("def", "call") and mentions_node(fl, m, dflt)]
        if use:
            _never(c, "H11-add task", nm + ":default only", fl, [g.entry], use, msg, stop_edges=none(True))
    for n in calls(fl, "_from_imported_data"):
        for k, want in (("key", "TASK"), ("init_key", "TASK_INIT")):
            v = arg(n, 0 if k == "key" else 1, k)
            c.ob("H11-add task", k, None if v is not None and _keykind(fl, v, n) == {want} and fl.derives(v, n, P_("label")) else True, msg, n)
        v = arg(n, 3, "universe")
        c.ob("H11-add task", "universe", None if v is not None and tail(ex(fl, v, n)) in ("_universe", "universe") else True, msg, n) if v is not None else None
    fl = flow_of(c, P, "_replace_task_nodes")
    g = fl.g
    msg = "a task that is replaced stays as it was"
    hs = loops_over(fl, "param", "updates")
    for h in hs:
        ins = [n for n in g.live if n.kind == "substore" and h in loops_of(fl, n)] + [n for n in calls(fl, "append", "add", "update", "setdefault") if h in loops_of(fl, n)]
        each(c, "H12-replace", "each", fl, h, ins, msg)
        # changed edges mean the task has to be taken out and put back
        df = calls(fl, "diff_edges")
        chg = lambda pol: lambda lit, m: lit[0] == "truth" and lit[2] is pol and frm(fl, lit[1], m, df)  # noqa: E731
    rm, ad = calls(fl, "remove_tasks"), calls(fl, "add_task_nodes")
    for n in rm:
        v = arg(n, 1, "drop_from_subsets")
        c.ob("H12-replace", "members", None if v is None or ex(fl, v, n) == const(True) else True, "a task that is in a subset cannot be replaced", n)
        t = fl.term(n.args[0], n) if n.args else None
        deep = n.args and [x for x in g.live if x.kind == "substore" and fl.derives(n.args[0], n, lambda t, m, x=x: t == fl.term(x.base, x))]
    emp = lit_edges(fl, lambda lit, m: lit[0] == "truth" and lit[2] is False and not frm(fl, lit[1], m, calls(fl, "diff_edges")) and fl.term(lit[1], m)[0] != "param")
    asm = lit_edges(fl, lambda lit, m: lit[0] == "truth" and lit[2] is True and fl.term(lit[1], m) == ("param", "assume_edges_unchanged"))
    deepst = [n for n in g.live if n.kind == "substore" and n.id in set().union(set(), *[fl.loop_body(h) for h in hs]) and lit_edges(fl, lambda lit, m: False) is not None
              and _after_changed(fl, n)]
    for n in deepst:
        _never(c, "H12-replace", "deep:removed", fl, fl.out_edges([n]), [g.exit], msg, stop=rm, stop_edges=emp)
        _never(c, "H12-replace", "deep:added", fl, fl.out_edges([n]), [g.exit], msg, stop=ad, stop_edges=emp)
    ue = [n for n in calls(fl, "update", "dict") if n.args and fl.term(n.args[0], n) == ("param", "updates")] or hs
    starts = as_edges(fl, asm)
    if starts:
        up = [n for n in calls(fl, "update", "dict", "items", "values") if any(fl.derives(x, n, P_("updates")) for x in [*n.args, *([n.recv] if n.recv else [])])]
        dd = [m for m in g.live if m.kind == "def" and any(v[0] != "param" and fl.derives(v, m, P_("updates")) for v in _defs(m))]
        _never(c, "H12-replace", "assumed", fl, starts, [g.exit], msg, stop=up + hs + dd)
    safe = lit_edges(fl, lambda lit, m: False)
    both = lit_edges(fl, lambda lit, m: lit[0] == "truth" and lit[2] is True and fl.term(lit[1], m) == ("param", "check_edges_unchanged"))
    if starts and both:
        _never(c, "H12-replace", "assume and check", fl, starts, [g.exit], "contradictory instructions are accepted", stop_edges=lit_edges(fl, lambda lit, m: lit[0] == "truth" and lit[2] is False and fl.term(lit[1], m) == ("param", "check_edges_unchanged")))


def _after_changed(fl, n):
    es = lit_edges(fl, lambda lit, m: lit[0] == "truth" and lit[2] is True and frm(fl, lit[1], m, calls(fl, "diff_edges")))
    return bool(es) and fl.path([fl.g.entry], [n], stop_edge=lambda m, lab: (m.id, lab) in es) is None


def mentions_node(fl, m, nm):
    if m.kind == "call":
        return m.name == nm
    return any(mentions(fl.expand(fl.term(v, m)), lambda s: tail(s) == nm) for v in _defs(m))
