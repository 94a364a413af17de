"""Quantum graph generation, continued: the dimension-group tree and prerequisite lookups are complete."""

from __future__ import annotations

from ..lib import Check, const, is_self_attr
from ..q import (arg, as_edges, bycall, calls, ctor, each, ex, flow_of, frm, full, guard, iters, lit_edges, loops_of, loops_over, mentions, present, retvals, subterms, tail)
from .qgdata import M, PH, P, _of, _tl

BBD = "branches_by_dimensions"


def complete(c: Check):
    T = c.prog.cls(M + "_DimensionGroupTree")
    build(c, T)
    constraint(c, T)
    new_branches(c, T)
    insertion(c, T)
    generators(c, T)
    query(c, c.prog.cls(M + "AllDimensionsQuantumGraphBuilder"))
    finder(c, c.prog.cls(PH + "PrerequisiteFinder"))
    bounds(c)


def build(c, T):
    fl = flow_of(c, T, "build")
    g = fl.g
    qd = [n for n in g.live if n.kind == "attrstore" and n.name == "queryable_dimensions"]
    base = [n for n in qd if not loops_of(fl, n) and mentions(ex(fl, n.value, n), lambda s: tail(s) == "all_dimensions")]
    present(c, "N33-queryable", "base", base, "the dimensions of the pipeline are not queried", fl)
    for src, nm in (("attr", "dataset_constraint"), ("param", "data_id_tables")):
        hs = loops_over(fl, src, nm)
        present(c, "N33-queryable", nm, hs, "dimensions of a constraint are not queried", fl)
        for h in hs:
            full(c, "N33-queryable", nm + ":all", fl, h, "dimensions of a constraint are not queried")
            if src == "attr":
                c.ob("N33-queryable", "constraint first", fl.path([(h, "done")], calls(fl, "_set_dataset_constraint")), "dimensions of a constraint are not queried")
        for b in base:
            c.ob("N33-queryable", nm + ":kept", fl.path([(h, "elem") for h in hs], [b]) if hs else None, "dimensions of a constraint are not queried")
    # every set of dimensions below a generator is tried with every generator
    pj = calls(fl, "_maybe_insert_projection_branch")
    for n in pj:
        hs = loops_of(fl, n)
        gen = [h for h in hs if fl.derives(h.iterable, h, lambda t, m: tail(t) == "generators")]
        for h in gen:
            full(c, "N34-project", "generators", fl, h, "data IDs of some generators are not projected") if not h.d.get("comp") and not _breaks_on(fl, h, pj) else None
        a = [arg(n, i, k) for i, k in enumerate(("target_dimensions", "candidate_dimensions", "candidate_projection_branches"))]
        if all(x is not None for x in a) and gen:
            ok = tail(ex(fl, a[1], n)) == "dimensions" and tail(ex(fl, a[2], n)) == "branches" and any(_of(fl, a[1], n, h) for h in gen) and any(_of(fl, a[2], n, h) for h in gen)
            c.ob("N34-project", "arguments", None if ok else True, "dimensions are projected from others", n)
    gn = calls(fl, "_make_general_overlap_branch_generator")
    jn = calls(fl, "_make_join_branch_generator")
    todo = lit_edges(fl, lambda lit, n: lit[0] == "truth" and lit[2] is False and not bycall(fl, lit[1], n, "_make_general_overlap_branch_generator", "_make_join_branch_generator"))
    w = fl.path([g.entry], [g.exit], stop_node=lambda m: m in jn, stop_edge=lambda n, lab: (n.id, lab) in todo)
    c.ob("N17c-until-done", "left by the last step", w, "dimensions are left without data IDs")
    yes = as_edges(fl, lit_edges(fl, lambda lit, n: lit[0] == "truth" and lit[2] is True and bycall(fl, lit[1], n, "_make_general_overlap_branch_generator")))
    if pj and gn:
        w = fl.path(yes, jn, stop_node=lambda m: m in pj or any(m is h for n in pj for h in loops_of(fl, n)), stop_edge=lambda n, lab: (n.id, lab) in todo)
        c.ob("N34-project", "again", w, "dimensions that could be projected from new data IDs are joined from others")


def _breaks_on(fl, h, pj):
    return any(m.kind == "branch" and m.id in fl.loop_body(h) and any(bycall(fl, lit[1], m, "_maybe_insert_projection_branch") for lit in fl.lits(m, True)) and fl.partial(h)
               for m in fl.g.live)


def constraint(c, T):
    fl = flow_of(c, T, "_set_dataset_constraint")
    g = fl.g
    ov = calls(fl, "iter_overall_inputs")
    st = [n for n in g.live if n.kind == "attrstore" and n.name == "dataset_constraint"]
    dflt = [n for n in st if frm(fl, n.value, n, ov)]
    present(c, "N15b-default", "used", dflt + calls(fl, "add", "update"), "the inputs do not restrict the query", fl)
    for h in iters(fl, comp=None):
        if h.d.get("quant") is None and frm(fl, h.iterable, h, ov):
            full(c, "N15-constraint", "every input", fl, h, "an overall input is left out of the constraint")
    for n in calls(fl, "intersection_update", "intersection"):
        if n.args and frm(fl, n.args[0], n, ov):
            t = fl.term(n.args[0], n)
            if t[0] == "comp":
                h = g.nodes[t[3][-1]]
                ce = [m for m in g.live if m.kind == "compelt" and m.id in fl.loop_body(h)]
                guard(c, "N15c-list", "dimensions", fl, ce, _tl("dimensions", True)(fl), "inputs without dimensions restrict the query", starts=[(h, "elem")])
    lst = [n for n in st if fl.derives(n.value, n, P("requested"))]
    cut = calls(fl, "intersection_update", "intersection", "remove", "discard", "difference_update") + [n for n in g.live if n.kind == "compelt"]
    if not any(frm(fl, n.value, n, ov) for n in lst):
        c.ob("N15c-list", "inputs of this part only", None if [n for n in cut if n.kind == "call"] else True, "datasets that are no inputs restrict the query", func=g.root)


def new_branches(c, T):
    """Dimension groups made while planning never replace others, and are planned themselves."""
    for nm, also, how in (("_make_edge_branches", ("update_edge_branch",), ()), ("_make_queryable_overlap_branch_generators", (), ("_maybe_insert_projection_branch", "add")),
                          ("_append_data_id_generator", (), ("add", "_maybe_insert_projection_branch"))):
        fl = flow_of(c, T, nm, also=also)
        g = fl.g
        st = [n for n in g.live if n.kind == "substore" and tail(ex(fl, n.base, n)) == BBD]
        mk = ctor(fl, "_DimensionGroupBranch")
        sd = [n for n in calls(fl, "setdefault") if n.recv is not None and tail(ex(fl, n.recv, n)) == BBD]
        new = lambda lit, n: lit[0] == "in" and lit[3] is False and tail(fl.expand(lit[2])) == BBD or (  # noqa: E731
            lit[0] == "isnone" and lit[2] is True or lit[0] == "truth" and lit[2] is False) and bycall(fl, lit[1], n, "get")
        for n in st:
            hs = loops_of(fl, n)
            guard(c, "N35-not-replaced", nm, fl, [n], new, "the tasks and dataset types of some dimensions are forgotten", starts=[(h, "elem") for h in hs] or None)
        stop = set(st) | set(sd)
        w = fl.path(fl.out_edges([n for n in mk if n not in sd]), lambda m: m.kind == "iter" and not m.d.get("comp") or m is g.exit, stop_node=lambda m: m in stop) if not sd else None
        c.ob("N35-not-replaced", nm + ":kept", w, "new dimensions are not planned")
        if how and st:
            plan = calls(fl, *how)
            w = fl.path(fl.out_edges(st), lambda m: m.kind == "iter" and not m.d.get("comp") or m is g.exit, stop_node=lambda m: m in plan)
            c.ob("N35b-planned", nm, w, "dimensions needed by others are left without data IDs")
        if nm == "_append_data_id_generator":
            rec = calls(fl, nm)
            ap = [n for n in calls(fl, "append") if n.recv is not None and tail(ex(fl, n.recv, n)) == "generators"]
            if st:
                c.ob("N35c-before", "generator", fl.path(fl.out_edges(st), ap, stop_node=lambda m: m in rec), "data IDs are joined with ones generated later")
            for n in rec:
                a = [arg(n, i, k) for i, k in enumerate(("source_dimensions", "source_region_element", "target_dimensions", "remainder_skypix", "branches_not_in_tree"))]
                ok = a[2] is not None and fl.derives(a[2], n, P("source_region_element")) and fl.derives(a[2], n, P("remainder_skypix")) and not fl.derives(
                    a[2], n, P("target_dimensions")) and fl.term(a[3], n) == ("param", "remainder_skypix") and fl.term(a[1], n) == ("param", "source_region_element")
                c.ob("N35c-before", "arguments", None if ok else True, "data IDs are generated for other dimensions", n)
            sub = [n for n in g.live if n.kind == "substore" and tail(ex(fl, n.base, n)) == "branches"]
            rm = [n for n in calls(fl, "discard", "remove") if n.args and tail(ex(fl, n.args[0], n)) == "minimal_group"]
            for n in rm:
                c.ob("N35d-pixels", "projected", fl.path([g.entry], [n], stop_node=lambda m: m in sub), "pixels are taken to be planned although they are not", n)
            eq = lambda pol: lambda lit, n: lit[0] == "eq" and lit[3] is pol and ("param", "target_dimensions") in lit[1:3]  # noqa: E731
            direct = ctor(fl, "SkyPixGatherDataIdGenerator", "SkyPixScatterDataIdGenerator", "CrossSystemDataIdGenerator", "DatabaseSourceDataIdGenerator")
            guard(c, "N19b-kind", "direct", fl, direct, eq(True), "data IDs are generated for other dimensions")
            guard(c, "N19b-kind", "join", fl, ctor(fl, "JoinDataIdGenerator"), eq(False), "data IDs are joined to themselves")
            isp = lambda pol: lambda lit, n: lit[0] == "isinstance" and lit[3] is pol and lit[1] == ("param", "source_region_element")  # noqa: E731
            guard(c, "N19b-kind", "pixels", fl, [n for n in direct if not n.callee.endswith("DatabaseSourceDataIdGenerator")], isp(True), "regions are taken for pixels")
            guard(c, "N19b-kind", "regions", fl, [n for n in direct if n.callee.endswith("DatabaseSourceDataIdGenerator")], isp(False), "pixels are taken for regions")


def insertion(c, T):
    fl = flow_of(c, T, "_maybe_insert_projection_branch")
    rec = calls(fl, "_maybe_insert_projection_branch")
    own = [n for n in rec if fl.term(arg(n, 0, "target_dimensions"), n) == ("param", "target_dimensions")]
    yes = as_edges(fl, lit_edges(fl, lambda lit, n: lit[0] == "truth" and lit[2] is True and frm(fl, lit[1], n, own)))
    for r in retvals(fl):
        if ex(fl, r.value, r) == ("const", "bool", False):
            c.ob("N18b-told", "inserted below", fl.path(yes, [r]) if yes else None, "dimensions are planned twice", r)
    for n in own:
        ok = any(_of(fl, arg(n, 1, "candidate_dimensions"), n, h) and _of(fl, arg(n, 2, "candidate_projection_branches"), n, h) for h in loops_of(fl, n))
        c.ob("N18c-insert", "below a child", None if ok or not loops_of(fl, n) else True, "dimensions are projected from others", n)
    for n in [m for m in rec if m not in own]:
        a = [arg(n, i, k) for i, k in enumerate(("target_dimensions", "candidate_dimensions", "candidate_projection_branches"))]
        ok = fl.term(a[1], n) == ("param", "target_dimensions") and tail(ex(fl, a[2], n)) == "branches" and fl.derives(a[2], n, P("target_dimensions"))
        c.ob("N18c-insert", "move below", None if ok else True, "dimensions move below others that do not contain them", n)
    fl = flow_of(c, T, "_make_queryable_branch_tree")
    hs = [h for h in iters(fl, comp=False) if fl.derives(h.iterable, h, P("branches_not_in_tree"))]
    present(c, "N17f-queryable", "all", hs, "dimensions that can be queried are not", fl)
    for h in hs:
        full(c, "N17f-queryable", "all", fl, h, "dimensions that can be queried are not")
    for n in calls(fl, "_maybe_insert_projection_branch"):
        a = [arg(n, i, k) for i, k in enumerate(("target_dimensions", "candidate_dimensions", "candidate_projection_branches"))]
        ok = is_self_attr(ex(fl, a[1], n), "queryable_dimensions") and is_self_attr(ex(fl, a[2], n), "queryable_branches")
        c.ob("N17f-queryable", "arguments", None if ok else True, "dimensions are projected from others", n)
    fl = flow_of(c, T, "_make_queryable_overlap_branch_generators")
    for n in calls(fl, "_maybe_insert_projection_branch"):
        a = [arg(n, i, k) for i, k in enumerate(("target_dimensions", "candidate_dimensions", "candidate_projection_branches"))]
        ok = is_self_attr(ex(fl, a[1], n), "queryable_dimensions") and is_self_attr(ex(fl, a[2], n), "queryable_branches")
        c.ob("N17f-queryable", "overlap arguments", None if ok else True, "dimensions are projected from others", n)


def generators(c, T):
    for nm in ("_make_queryable_overlap_branch_generators", "_make_general_overlap_branch_generator"):
        fl = flow_of(c, T, nm)
        ap = calls(fl, "_append_data_id_generator")
        present(c, "N36-overlaps", nm, ap, "no data IDs are generated for overlaps", fl)
        for n in ap:
            a = [arg(n, i, k) for i, k in enumerate(("source_dimensions", "source_region_element", "target_dimensions", "remainder_skypix", "branches_not_in_tree"))]
            tg = [h for h in iters(fl, comp=False) if fl.term(a[2], n) == ("elem", h.id) and h.iterable is not None and fl.derives(h.iterable, h, P("branches_not_in_tree"))]
            ok = tg and bycall(fl, a[3], n, "get_single_skypix") and not (fl.term(a[0], n) == ("elem", tg[0].id))
            c.ob("N36-overlaps", nm + ":arguments", None if ok else True, "data IDs are generated for other dimensions", n)
        guard(c, "N36-overlaps", nm + ":one pixelization", fl, ap, lambda lit, n: (lit[0] == "isnone" and lit[2] is False or lit[0] == "truth" and lit[2] is True) and bycall(
            fl, lit[1], n, "get_single_skypix"), "data IDs are generated without a pixelization")
        guard(c, "N36-overlaps", nm + ":region", fl, ap, lambda lit, n: (lit[0] == "truth" and lit[2] is True or lit[0] == "isnone" and lit[2] is False) and tail(
            fl.expand(lit[1])) == "region_dimension", "data IDs are generated without a region")
        if nm == "_make_general_overlap_branch_generator":
            guard(c, "N36-overlaps", nm + ":subset", fl, ap, lambda lit, n: lit[0] == "lt" or lit[0] == "truth" and lit[2] is True and bycall(fl, lit[1], n, "issubset", "issuperset"),
                  "data IDs are generated from dimensions that are not part of the target")
            for r in retvals(fl):
                if ex(fl, r.value, r) == ("const", "bool", False):
                    c.ob("N36b-progress", "told", fl.path(fl.out_edges(ap), [r]), "progress is taken for failure", r)
            hs = [h for h in iters(fl, comp=False)]
            for h in hs:
                br = fl.path([(h, "elem")], lambda m: m is fl.g.exit or any(m is x for x in hs if h.id in fl.loop_body(x) and x is not h), stop_node=lambda m: m is h or m in ap or (
                    m.kind == "return" and m.frame.id == 0))
                c.ob("N36b-progress", "all tried", br, "dimensions that could be generated are given up", h)
    fl = flow_of(c, T, "_make_join_branch_generator")
    mk = ctor(fl, "JoinDataIdGenerator")
    present(c, "N36c-join", "made", mk, "data IDs are not joined", fl)
    comb = calls(fl, "combinations")
    for h in iters(fl, comp=False):
        if frm(fl, h.iterable, h, comb, False):
            full(c, "N36c-join", "all pairs", fl, h, "dimensions that could be joined are given up") if not any(n.id in fl.loop_body(h) for n in mk) else None
            st = [n for n in fl.g.live if n.kind == "substore" and n.id in fl.loop_body(h)]
            if st:
                each(c, "N36c-join", "candidates", fl, h, st, "dimensions that could be joined are given up", unless=lambda lit, n: lit[0] == "eq" and lit[3] is False)
    for n in mk:
        ts = [fl.term(x, n) for x in n.args]
        if len(ts) >= 4:
            c.ob("N36c-join", "operands", None if ts[2] != ts[3] and ts[1] not in ts[2:4] else True, "data IDs are joined to themselves", n)
    for r in retvals(fl):
        if ex(fl, r.value, r) == ("const", "bool", False):
            ap = [n for n in calls(fl, "append") if n.recv is not None and tail(ex(fl, n.recv, n)) == "generators"]
            c.ob("N36b-progress", "join told", fl.path(fl.out_edges(ap), [r]), "progress is taken for failure", r)


def query(c, A):
    fl = flow_of(c, A, "_query_for_data_ids")
    js = calls(fl, "join_dataset_search")
    present(c, "N2-query", "datasets", js, "existing inputs do not restrict the query", fl)
    hs = loops_over(fl, "attr", "dataset_constraint")
    present(c, "N2-query", "dataset types", hs, "existing inputs do not restrict the query", fl)
    no = lit_edges(fl, _tl("dataset_constraint", False)(fl))
    rows = [n for n in calls(fl, "data_ids")]
    w = fl.path([fl.g.entry], rows, stop_node=lambda m: m in hs, stop_edge=lambda n, lab: (n.id, lab) in no) if rows else None
    c.ob("N2-query", "dataset types:always", w, "existing inputs do not restrict the query")
    fl = flow_of(c, A, "_fetch_most_dimension_records")
    hs = loops_over(fl, "attr", "branches_by_dimensions")
    present(c, "N8-records", "dimensions", hs, "dimension records are not fetched", fl)
    ap = calls(fl, "append", "extend", "add")
    for h in loops_over(fl, "attr", "dimension_records"):
        each(c, "N8-records", "kept", fl, h, ap, "dimension records are lost")


def finder(c, K):
    fl = flow_of(c, K, "__init__")
    g = fl.g
    for at in ("edge", "_bounds", "dataset_type_node", "lookup_function", "dataset_skypix", "dataset_other_spatial", "dataset_has_timespan", "constraint_dimensions"):
        st = [n for n in g.live if n.kind == "attrstore" and n.name == at]
        c.ob("N37-finder", at, fl.path([g.entry], [g.exit], stop_node=lambda m, st=st: m in st), "a prerequisite finder is incomplete")
    lk = lambda lit, n: is_self_attr(fl.expand(lit[1]), "lookup_function") if lit[0] in ("truth", "isnone") else False  # noqa: E731
    has = lit_edges(fl, lambda lit, n: lk(lit, n) and (lit[0] == "truth" and lit[2] is True or lit[0] == "isnone" and lit[2] is False))
    for what, ts in (("spatial", [h for h in iters(fl, comp=False) if mentions(ex(fl, h.iterable, h), lambda s: tail(s) == "spatial")]),
                     ("temporal", [n for n in g.live if n.kind == "attrstore" and n.name == "dataset_has_timespan" and fl.derives(n.value, n, lambda t, m: tail(t) == "temporal")]),
                     ("constraint", [n for n in g.live if n.kind == "attrstore" and n.name == "constraint_dimensions" and bycall(fl, n.value, n, "conform")])):
        present(c, "N37b-relation", what, ts, f"the {what} relation between quanta and prerequisites is ignored", fl)
        w = fl.path([g.entry], [g.exit], stop_node=lambda m, ts=ts: m in ts, stop_edge=lambda n, lab: (n.id, lab) in has)
        c.ob("N37b-relation", what + ":always", w, f"the {what} relation between quanta and prerequisites is ignored")
    for h in iters(fl, comp=False):
        t = ex(fl, h.iterable, h)
        if mentions(t, lambda s: tail(s) == "spatial"):
            ok = any(t[0] == "op" and t[1] == "Sub" and [mentions(x, lambda s: tail(s) == "dataset_type_node") for x in t[2]] == [True, False] or t[0] == "call" and t[
                2] == "difference" and mentions(t[3], lambda s: tail(s) == "dataset_type_node") for t in subterms(t))
            c.ob("N37b-relation", "spatial:difference", None if ok else True, "spatial dimensions shared with the task are taken for overlaps", h)
            sp = [n for n in g.live if n.kind == "substore" and n.id in fl.loop_body(h)]
            for n in sp:
                b = tail(ex(fl, n.base, n))
                if b in ("dataset_skypix", "dataset_other_spatial"):
                    pol = b == "dataset_skypix"
                    guard(c, "N37b-relation", b, fl, [n], lambda lit, m, pol=pol: lit[0] == "isinstance" and lit[3] is pol, "pixels are taken for regions, or regions for pixels", starts=[(h, "elem")])
    # a timespan matters if the task is temporal and the dataset is a calibration or has a timespan of its own
    for n in g.live:
        if n.kind == "attrstore" and n.name == "dataset_has_timespan" and fl.derives(n.value, n, lambda t, m: tail(t) == "temporal"):
            c.ob("N37c-timespan", "calibrations", None if fl.derives(n.value, n, lambda t, m: tail(t) == "is_calibration") or _decides(fl, n, "is_calibration") else True,
                 "calibrations are looked up without a timespan", n)
    fl = flow_of(c, K, "find")
    g = fl.g
    fd, qd = calls(fl, "find_dataset"), calls(fl, "query_datasets")
    sub = lambda lit, n: lit[0] == "lt" and lit[3] is False and [tail(fl.expand(x)) for x in lit[1:3]] == ["constraint_dimensions", "dimensions"] or (  # noqa: E731
        lit[0] == "lt" and lit[3] is True and [tail(fl.expand(x)) for x in lit[1:3]] == ["dimensions", "constraint_dimensions"]) or lit[0] == "truth" and (
        lit[2] is True and bycall(fl, lit[1], n, "issubset", "issuperset") or lit[2] is False and fl.term(lit[1], n)[0] == "op")
    present(c, "N38-kind", "one:used", fd, "calibrations are looked up without a timespan", fl)
    guard(c, "N38-kind", "one", fl, fd, sub, "a single prerequisite is looked up although there are many")
    pl = [n for n in qd if "bind" not in n.kwargs]
    bd = [n for n in qd if "bind" in n.kwargs]
    for at in ("spatial_connections", "temporal_connections"):
        guard(c, "N38-kind", "plain:" + at, fl, pl, _tl(at, False)(fl), "bounds from other connections are ignored")
    guard(c, "N38-kind", "pixels:other regions", fl, bd, _tl("dataset_other_spatial", False)(fl), "spatial bounds are ignored")
    guard(c, "N38-kind", "plain:pixels", fl, pl, _tl("dataset_skypix", False)(fl), "spatial bounds are ignored")
    ht = [h for h in loops_over(fl, "attr", "dataset_skypix")]
    if bd:
        c.ob("N38-kind", "pixels:bound", fl.path([g.entry], bd, stop_node=lambda m: m in ht), "spatial bounds are ignored")
    for n in bd:
        v = n.kwargs.get("data_id")
        c.ob("N38b-data ID", "pixels", None if v is not None and fl.derives(v, n, P("data_id")) and (bycall(fl, v, n, "subset")) else True, "prerequisites are looked for at another data ID", n)
        if "where" not in n.kwargs:
            c.fail("N38b-data ID", "where", "spatial bounds are ignored", n)
    for h in iters(fl, comp=False):
        if h not in ht and any(h.id in fl.loop_body(x) for x in ht) and not h.d.get("quant"):
            ok = fl.derives(h.iterable, h, P("skypix_bounds")) and any(_of(fl, h.iterable, h, x) for x in ht)
            c.ob("N38c-bounds", "own", None if ok else True, "the bounds of another pixelization are used", h)
    present(c, "N38-kind", "pixels:used", bd, "spatial bounds are ignored", fl)
    present(c, "N38-kind", "plain:used", pl, "prerequisites are not looked up", fl)
    for n in qd:
        ok = n.kwargs.get("limit") is not None and ex(fl, n.kwargs["limit"], n) == const(None)
        c.ob("N38e-all", "limit", None if ok else True, "only some of the prerequisites are found", n)
        ok = n.kwargs.get("explain") is not None and ex(fl, n.kwargs["explain"], n) == const(False)
        c.ob("N38e-all", "none", None if ok else True, "a lookup without results fails", n)
    pix = [n for n in g.live if n.kind == "iter" and not n.d.get("quant") and fl.derives(n.iterable, n, P("skypix_bounds"))]
    add = [n for n in calls(fl, "extend", "append", "update", "add") if n.args and fl.derives(n.args[0], n, P("skypix_bounds"))]
    if any(h.id in fl.loop_body(x) for x in ht for h in pix) or not pix and not add:
        present(c, "N38c-bounds", "pixels", add + [n for n in g.live if n.kind == "compelt"], "the bounds are ignored", fl)
    for n in calls(fl, "range"):
        if len(n.args) == 2:
            a, b = (ex(fl, x, n) for x in n.args)
            c.ob("N38c-bounds", "order", True if a[0] == "item" == b[0] and a[1] == b[1] and a[2] == 1 and b[2] == 0 else None, "the bounds are reversed", n)
    # what was found is returned
    for n in fd:
        some = as_edges(fl, lit_edges(fl, lambda lit, m: (lit[0] == "isnone" and lit[2] is False or lit[0] == "truth" and lit[2] is True) and frm(fl, lit[1], m, [n], False)))
        rs = [r for r in retvals(fl) if frm(fl, r.value, r, [n])]
        present(c, "N38d-returned", "one", rs, "a prerequisite that was found is dropped", fl)
        del some


def _decides(fl, n, at):
    return any(m.kind == "branch" and any(mentions(fl.expand(x), lambda s: tail(s) == at) for lit in fl.lits(m, True) for x in lit[1:2] if isinstance(x, tuple)) for m in fl.g.live)


def bounds(c):
    I = c.prog.cls(PH + "PrerequisiteInfo")
    fl = flow_of(c, I, "__init__")
    mk = ctor(fl, "PrerequisiteFinder")
    b = ctor(fl, "PrerequisiteBounds")
    for n in mk:
        v = arg(n, 1, "bounds")
        ok = v is not None and (frm(fl, v, n, b) or tail(ex(fl, v, n)) == "bounds")
        c.ob("N22-finders", "bounds", None if ok else True, "prerequisites are looked up within other bounds", n)
    fl = flow_of(c, I, "update_bounds")
    g = fl.g
    hs = loops_over(fl, "attr", "finders", comp=None)
    present(c, "N23-bounds", "finders", hs, "prerequisites are looked up without bounds", fl)
    rs = [n for n in g.live if n.kind == "attrstore" and n.name == "any_dataset_has_timespan"]
    use = [n for n in rs if fl.derives(n.value, n, lambda t, m: tail(t) == "dataset_has_timespan") or fl.term(n.value, n) == ("const", "bool", True)]
    present(c, "N23-bounds", "temporal", use, "temporal bounds are ignored", fl)
    c.ob("N23-bounds", "temporal:fresh", None if len(rs) > len(use) or any(h.d.get("quant") or h.d.get("comp") for h in hs) else True,
         "temporal bounds of prerequisites that were found already are kept", func=g.root)
    for n in use:
        t = fl.expand(fl.term(n.value, n))
        if t[0] == "and":
            c.fail("N23-bounds", "temporal:any", "temporal bounds are ignored unless all prerequisites have them", n)
    for nm in ("_ConnectionSkyPixBoundsBuilder", "_ConnectionTimespanBuilder"):
        K = c.prog.cls(PH + nm)
        fl = flow_of(c, K, "__init__")
        g = fl.g
        present(c, "N26-connections", nm, loops_over(fl, "param", "bounds_connections", comp=None), "connections that determine bounds are ignored", fl)
        if "Timespan" in nm:
            for at, i in (("_begin_nsec", 0), ("_end_nsec", 1)):
                st = [n for n in g.live if n.kind == "attrstore" and n.name == at]
                c.ob("N26b-quantum", at, fl.path([g.entry], [g.exit], stop_node=lambda m, st=st: m in st), "the quantum's own timespan is ignored")
                for n in st:
                    t = ex(fl, n.value, n, 6)
                    if t[0] in ("sub", "item") and tail(t[1]) == "nsec":
                        c.ob("N26b-quantum", at + ":index", None if t[2] in (i, ("const", "int", i)) else True, "the timespan is reversed", n)
            emp = calls(fl, "makeEmpty")
            guard(c, "N26b-quantum", "empty", fl, emp, _tl("temporal", False)(fl), "the quantum's own timespan is ignored") if emp else None
        else:
            fl = flow_of(c, K, "finish")
            present(c, "N28-finish", nm + ":dimensions", loops_over(fl, "attr", "_dimensions", comp=None), "bounds are incomplete", fl)
            present(c, "N28-finish", nm + ":regions", loops_over(fl, "attr", "_regions", comp=None), "regions are left out of the bounds", fl)
    fl = flow_of(c, c.prog.cls(PH + "_ConnectionTimespanBuilder"), "finish")
    for r in retvals(fl):
        ok = all(mentions(ex(fl, r.value, r, 8), lambda s, at=at: tail(s) == at) or fl.derives(r.value, r, lambda t, m, at=at: tail(t) == at) for at in ("_begin_nsec", "_end_nsec"))
        c.ob("N28-finish", "both ends", None if ok else True, "the timespan is unbounded", r)
