"""Quantum graph generation: data ID query results, derived data IDs and prerequisite lookups reach the graph completely."""

from __future__ import annotations

from ..known import fresh
from ..lib import Check, is_self_attr
from ..q import (allfull, arg, as_edges, bycall, calls, const, ctor, each, ex, flow_of, frm, guard, iters, kws, lit_edges, loops_of,
                 loops_over, mentions, none_lit, present, retvals, subterms, tail)

M = "all_dimensions_quantum_graph_builder."
AD = M + "AllDimensionsQuantumGraphBuilder"
PH = "prerequisite_helpers."


def run(c: Check):
    A = c.prog.cls(AD)
    steps(c, A)
    query(c, A)
    subskeleton(c, A)
    prerequisites(c, A)
    records(c, A)
    branch(c, c.prog.cls(M + "_DimensionGroupBranch"))
    tree(c, c.prog.cls(M + "_DimensionGroupTree"))
    generators(c)
    helpers(c)
    trivial(c, c.prog.cls("trivial_quantum_graph_builder.TrivialQuantumGraphBuilder"))


def P(name):
    return lambda t, m: t == ("param", name)


def _of(fl, e, n, h):
    return e is not None and fl.derives(e, n, lambda t, m: t == ("elem", h.id))


def _tl(name, pol):
    """Literal on the truth (or presence) of something called ``name``."""
    def p(fl):
        def q(lit, n):
            if lit[0] == "truth" and lit[2] is pol or lit[0] == "isnone" and lit[2] is (not pol):
                return tail(fl.expand(lit[1])) == name or mentions(fl.expand(lit[1]), lambda s: s[0] == "call" and s[2] in ("bool", "len") and s[4] and tail(s[4][0]) == name)
            if lit[0] == "lt":  # 0 < len(x)
                for a, b, pp in ((lit[1], lit[2], lit[3]), (lit[2], lit[1], not lit[3])):
                    if a[0] == "const" and mentions(fl.expand(b), lambda s: s[0] == "call" and s[2] == "len" and s[4] and tail(s[4][0]) == name):
                        return pp is pol
            if lit[0] == "eq" and const(0) in lit[1:3]:
                b = lit[1] if lit[2] == const(0) else lit[2]
                return mentions(fl.expand(b), lambda s: s[0] == "call" and s[2] == "len" and s[4] and tail(s[4][0]) == name) and lit[3] is (not pol)
            return False
        return q
    return p


def steps(c, A):
    fl = flow_of(c, A, "process_subgraph")
    g = fl.g
    order = ["build", "_query_for_data_ids", "_fetch_most_dimension_records", "generate_data_ids", "_make_subgraph_skeleton", "_find_followup_datasets",
             "attach_dimension_records"]
    empty = lit_edges(fl, lambda lit, n: lit[0] == "truth" and lit[2] is False and tail(fl.expand(lit[1])) == "has_any_quanta")
    prev = None
    for nm in order:
        ns = calls(fl, nm)
        w = fl.path([g.entry], [g.exit], stop_node=lambda m, ns=ns: m in ns, stop_edge=lambda n, lab: (n.id, lab) in empty and nm in order[5:])
        c.ob("N1-steps", nm, w, "a step of finding the data IDs is left out")
        if prev:
            c.ob("N1-steps", f"{prev[0]} before {nm}", fl.path(fl.out_edges(ns), prev[1]), "the steps of finding the data IDs happen in the wrong order")
        prev = (nm, ns)
    for n in calls(fl, "build"):
        ok = len(n.args) + len(n.kwargs) >= 2 and is_self_attr(ex(fl, arg(n, 0, "requested"), n), "dataset_query_constraint") and is_self_attr(
            ex(fl, arg(n, 1, "data_id_tables"), n), "data_id_tables")
        c.ob("N1b-constraints", "tree", None if ok else True, "the dataset constraint or the data ID tables of the caller are ignored", n)
    for n in calls(fl, "attach_dimension_records"):
        v = arg(n, 2, "dimension_records")
        c.ob("N1c-records", "used", None if v is None or frm(fl, v, n, calls(fl, "_fetch_most_dimension_records")) else True, "other dimension records are attached", n)
        v = arg(n, 1, "dimensions")
        c.ob("N1c-records", "dimensions", None if v is not None and bycall(fl, v, n, "get_all_dimensions") else True, "data IDs get dimension records of other dimensions", n)
    mk = calls(fl, "_make_subgraph_skeleton")
    for r in retvals(fl):
        c.ob("N1-steps", "returned", None if frm(fl, r.value, r, mk) else True, "the skeleton returned is not the one that was filled", r)
    fl = flow_of(c, A, "__init__")
    for nm in ("where", "dataset_query_constraint", "bind", "data_id_tables"):
        st = [n for n in fl.g.live if n.kind == "attrstore" and n.name == nm]
        ok = st and all(fl.derives(n.value, n, P(nm)) for n in st)
        c.ob("N1d-options", nm, None if ok else True, "an option restricting the graph is ignored", func=fl.g.root)


def query(c, A):
    fl = flow_of(c, A, "_query_for_data_ids")
    g = fl.g
    di = [n for n in calls(fl, "data_ids") if n.args or n.kwargs]
    present(c, "N2-query", "run", di, "data IDs are not queried for", fl)
    jd, js, wh, jt = calls(fl, "join_dimensions"), calls(fl, "join_dataset_search"), calls(fl, "where"), calls(fl, "join_data_coordinate_table")
    hs, ht = loops_over(fl, "attr", "dataset_constraint"), loops_over(fl, "attr", "data_id_tables")
    for nm, ns, via in (("dimensions", jd, jd), ("dataset constraint", js, hs), ("where", wh, wh), ("tables", jt, ht)):
        ok = ns and all(frm(fl, n.recv, n, ns, False) for n in di)
        c.ob("N2-query", nm + ":used", None if ok else True, f"the {nm} does not restrict the query", func=g.root)
        c.ob("N2-query", nm + ":always", fl.path([g.entry], di, stop_node=lambda m, via=via: m in via), f"the {nm} does not restrict the query")
    for h in hs:
        each(c, "N2-query", "every dataset type", fl, h, js, "a dataset type is left out of the constraint")
    for h in ht:
        each(c, "N2-query", "every table", fl, h, jt, "a table of data IDs is left out of the constraint")
    for n in js:
        a, b = arg(n, 0, "dataset_type"), arg(n, 1, "collections")
        ok = a is not None and any(_of(fl, a, n, h) for h in hs) and b is not None and is_self_attr(ex(fl, b, n), "input_collections")
        c.ob("N2b-arguments", "datasets", None if ok else True, "the dataset constraint is searched for something else", n)
    for n in jt:
        c.ob("N2b-arguments", "tables", None if n.args and any(_of(fl, n.args[0], n, h) for h in ht) else True, "another table restricts the query", n)
    for n in jd + di:
        a = n.args[0] if n.args else None
        c.ob("N2b-arguments", n.name, None if a is not None and tail(ex(fl, a, n)) == "queryable_dimensions" else True, "other dimensions are queried", n)
    for n in wh:
        al = [ex(fl, a, n) for a in n.args] + [ex(fl, v, n) for k, v in kws(n).items() if k != "bind"]
        ok = any(tail(t) == "data_id" for t in al) and any(is_self_attr(t, "where") for t in al)
        c.ob("N2b-arguments", "where", None if ok else True, "the where expression or the pipeline's data ID does not restrict the query", n)
        b = n.kwargs.get("bind")
        c.ob("N2b-arguments", "bind", None if b is not None and is_self_attr(ex(fl, b, n), "bind") else True, "the where expression is evaluated without its values", n)
    # a chain: each constraint starts from what the others made
    for n in js + wh + jt:
        c.ob("N2c-chain", n.name, None if n.recv is not None and frm(fl, n.recv, n, [m for m in jd] , False) else True, "a constraint is not added to the others", n)
    miss = [n for n in g.live if n.kind == "branch" and n.atom[0] == "excis" and n.atom[1] and any(q.endswith("MissingDatasetTypeError") for q in n.atom[1])]
    w = fl.path([(n, True) for n in miss], di) if miss else None
    c.ob("N2d-missing-type", "raises", w, "a constraint on an unregistered dataset type is dropped")
    # rows
    hr = [h for h in iters(fl, comp=False) if frm(fl, h.iterable, h, di)]
    present(c, "N3-rows", "loop", hr, "the data IDs found are not used", fl)
    hb = loops_over(fl, "attr", "queryable_branches")
    ad = [n for n in calls(fl, "add") if n.recv is not None and tail(ex(fl, n.recv, n)) == "data_ids"]
    for h in hr:
        inner = [x for x in hb if x.id in fl.loop_body(h)]
        each(c, "N3-rows", "every row", fl, h, inner, "a data ID that was found is lost")
        for x in inner:
            each(c, "N3-rows", "every branch", fl, x, ad, "a data ID that was found does not reach all tasks and dataset types")
            for n in ad:
                ok = _of(fl, n.args[0], n, h) and _of(fl, n.args[0], n, x) and _of(fl, n.recv, n, x)
                c.ob("N3b-projected", "subset", None if ok else True, "a data ID is added to the wrong dimensions", n)
    pr = calls(fl, "project_data_ids")
    zero = lit_edges(fl, lambda lit, n: lit[0] == "eq" and lit[3] is True and const(0) in lit[1:3] or lit[0] == "lt" and (
        lit[3] is True and lit[2] == const(1) or lit[3] is False and lit[1] == const(0)) or lit[0] == "truth" and lit[2] is False)
    w = fl.path([(h, "elem") for h in hr], [g.exit], stop_node=lambda m: m in pr, stop_edge=lambda n, lab: (n.id, lab) in zero)
    c.ob("N3c-project", "always", w, "the data IDs found do not reach the other dimensions")
    c.ob("N3c-project", "last", fl.path(fl.out_edges(pr), ad), "data IDs are projected before all have been found")
    for n in g.live:
        if n.kind == "def":
            for v, val in n.defs:
                t = fl.term(val, n)
                if t[0] == "op" and t[1] in ("Add", "AugAdd") and t[2][1] == const(1):
                    for h in hr:
                        if n.id in fl.loop_body(h) and fl.loop_body(h) and not any(n.id in fl.loop_body(x) for x in hb):
                            each(c, "N3d-count", "rows", fl, h, [n], "rows are not counted, so that results may be taken for none")


def subskeleton(c, A):
    fl = flow_of(c, A, "_make_subgraph_skeleton")
    allfull(c, "N4-branches", "all", fl, "only some dimensions reach the skeleton")
    un, ue = calls(fl, "update_skeleton_nodes"), calls(fl, "update_skeleton_edges")
    hs = loops_over(fl, "attr", "branches_by_dimensions")
    mk = ctor(fl, "QuantumGraphSkeleton")
    for nm, ns in (("nodes", un), ("edges", ue)):
        hh = [h for h in hs if any(n.id in fl.loop_body(h) for n in ns)]
        present(c, "N4-branches", nm, hh, f"the {nm} do not reach the skeleton", fl)
        for h in hh:
            each(c, "N4-branches", nm, fl, h, ns, f"the {nm} of some dimensions do not reach the skeleton")
        for n in ns:
            ok = n.recv is not None and any(_of(fl, n.recv, n, h) for h in hh) and n.args and frm(fl, n.args[0], n, mk)
            c.ob("N4-branches", nm + ":same", None if ok else True, f"the {nm} go somewhere else", n)
    c.ob("N4b-order", "nodes first", fl.path(fl.out_edges(ue), un), "edges are added before all nodes are there")
    for n in mk:
        c.ob("N4c-tasks", "labels", None if n.args and tail(ex(fl, n.args[0], n)) == "tasks" else True, "tasks are left out of the skeleton", n)
    for r in retvals(fl):
        c.ob("N4c-tasks", "returned", None if frm(fl, r.value, r, mk) else True, "another skeleton is returned", r)


def prerequisites(c, A):
    fl = flow_of(c, A, "_find_followup_datasets")
    g = fl.g
    hb = loops_over(fl, "attr", "branches_by_dimensions")
    hd, ht, hf = loops_over(fl, "attr", "dataset_types"), loops_over(fl, "attr", "tasks"), loops_over(fl, "attr", "finders")
    present(c, "N5-followup", "branches", hb, "existing datasets are not looked for", fl)
    bulk = [n for n in calls(fl, "iter_tuples", "general")]
    allfull(c, "N5-followup", "loops", fl, "existing datasets are looked for only in part")
    q = [h for h in hd if any(h.id in fl.loop_body(b) for b in hb) and any(n.id in fl.loop_body(h) for n in calls(fl, "datasets", "query_datasets"))]
    z = [h for h in hd if h not in q]
    no = [_tl("data_ids", False)(fl), lambda lit, n: lit[0] == "truth" and lit[2] is False and lit[1][0] in ("elem", "item", "var") and any(
        lit[1] in (("elem", b.id), ("item", ("elem", b.id), 0), ("sub", ("elem", b.id), const(0))) or fl.derives(lit[1], n, lambda t, m: t[0] == "item" and t[2] == 0) for b in hb)]
    for b in hb:
        for what, targets in (("dataset types", q), ("tasks", ht)):
            for other in ("tasks", "dataset_types"):
                each(c, "N5-followup", f"{what}:{other}", fl, b, targets, f"the {what} of some dimensions are not looked for",
                     unless=lambda lit, n, other=other: any(p(lit, n) for p in no) or _tl(other, False)(fl)(lit, n))
        if z:
            w = fl.path([(b, "elem")], lambda m: m is b, stop_node=lambda m: m in z or m in q or m in ht, stop_edge=lambda n, lab: (
                any(_tl(x, False)(fl)(lit, n) for lit in fl.lits(n, lab) for x in ("data_ids", "dataset_types", "tasks")) if n.kind == "branch" and lab in (True, False) else False))
            c.ob("N5-followup", "no dimensions", w, "datasets without dimensions are not looked for")
    for n in calls(fl, "join_data_coordinates"):
        ok = n.args and tail(ex(fl, n.args[0], n)) == "data_ids" and any(_of(fl, n.args[0], n, b) for b in hb)
        c.ob("N5b-restricted", "data ids", None if ok else True, "datasets are looked for at other data IDs", n)
    present(c, "N6-bulk", "search", bulk, "prerequisites are not looked for", fl)
    for h in hf:
        for name, want, pol in (("lookup_function", None, None), ("dataset_skypix", "spatial_connections", False), ("dataset_skypix", "spatial", True),
                                ("dataset_other_spatial", "spatial_connections", False), ("dataset_other_spatial", "spatial", True),
                                ("dataset_has_timespan", "temporal_connections", False), ("dataset_has_timespan", "temporal", True)):
            ps = [_tl(name, False)(fl)] + ([_tl(want, pol)(fl)] if want else [])
            es = lit_edges(fl, lambda lit, n: any(p(lit, n) for p in ps))
            w = fl.path([(h, "elem")], bulk, stop_edge=lambda n, lab: (n.id, lab) in es, stop_node=lambda m: m is h)
            c.ob("N6b-deferred", f"{name}:{want}", w, "prerequisites are found for the data IDs alone, ignoring their lookup function or bounds")
        dl = [n for n in g.live if n.kind == "delsub" and tail(ex(fl, n.base, n)) == "finders"] + [n for n in calls(fl, "pop") if n.recv is not None and tail(
            ex(fl, n.recv, n)) == "finders"]
        present(c, "N6c-handled-once", "removed", dl, "prerequisites that were found are looked up again for each quantum", fl)
        att = set(bulk) | {n for n in calls(fl, "join_dataset_search") if n.id in fl.loop_body(h)}
        w = fl.path([(h, "elem")], dl, stop_node=lambda m: m in att or m is h)
        c.ob("N6c-handled-once", "only if found", w, "a prerequisite is neither looked up now nor later")
        w = fl.path(fl.out_edges(bulk), lambda m: m is h, stop_node=lambda m: m in dl)
        c.ob("N6c-handled-once", "always", w, "prerequisites that were found are looked up again for each quantum")
        for n in dl:
            k = n.key if n.kind == "delsub" else (n.args[0] if n.args else None)
            c.ob("N6c-handled-once", "own", None if _of(fl, k, n, h) else True, "another prerequisite is not looked up any more", n)
        each(c, "N6d-all-finders", "handled", fl, h, dl, "a prerequisite is neither found nor deferred", unless=lambda lit, n: any(
            _tl(a, True)(fl)(lit, n) for a in ("lookup_function", "spatial_connections", "temporal_connections")) or any(
            _tl(a, False)(fl)(lit, n) for a in ("spatial", "temporal")))
        js = [n for n in calls(fl, "join_dataset_search") if n.id in fl.loop_body(h)]
        for n in js:
            ok = _of(fl, arg(n, 0, "dataset_type"), n, h) and is_self_attr(ex(fl, arg(n, 1, "collections"), n), "input_collections")
            c.ob("N6e-search", "arguments", None if ok else True, "prerequisites are looked for elsewhere", n)
        for n in calls(fl, "general"):
            v = n.kwargs.get("find_first")
            c.ob("N6e-search", "first", None if v is not None and fl.term(v, n) == const(True) else True, "prerequisites hidden by others are found", n)
            a = n.args[0] if n.args else n.kwargs.get("dimensions")
            ok = a is not None and any(_of(fl, a, n, b) for b in hb) and _of(fl, a, n, h)
            c.ob("N6e-search", "dimensions", None if ok else True, "prerequisites are not found per quantum", n)
        an, ae, qk = calls(fl, "add_prerequisite_node"), calls(fl, "add_input_edge", "add_input_edges"), ctor(fl, "QuantumKey")
        hr = [x for x in iters(fl, comp=False) if x.id in fl.loop_body(h) and x is not h and any(n.id in fl.loop_body(x) for n in an)]
        present(c, "N7-found-used", "loop", hr, "the prerequisites found are not used", fl)
        for x in hr:
            ok = frm(fl, x.iterable, x, bulk) or not any(v[0] == "tmp" for v, d in fl.sources(x.iterable, x))
            c.ob("N7-found-used", "results", None if ok else True, "something else than the prerequisites found is used", x)
            each(c, "N7-found-used", "node", fl, x, an, "a prerequisite that was found is dropped")
            each(c, "N7-found-used", "edge", fl, x, ae, "a prerequisite that was found is not connected to its quantum")
            for n in ae:
                ok = frm(fl, arg(n, 0, "task_key"), n, qk) and frm(fl, arg(n, 1, "dataset_key", "dataset_keys"), n, an)
                c.ob("N7b-edge", "ends", None if ok else True, "a prerequisite is connected to something else", n)
            for n in qk:
                if n.id not in fl.loop_body(x):
                    continue
                a, b = arg(n, 0, "task_label"), arg(n, 1, "data_id_values")
                ok = a is not None and tail(ex(fl, a, n)) == "label" and any(_of(fl, a, n, y) for y in ht) and _of(fl, b, n, x) and any(_of(fl, b, n, y) for y in hb) and (
                    tail(ex(fl, b, n)) == "required_values") and bycall(fl, b, n, "subset", "standardize", "from_required_values", "from_full_values")
                c.ob("N7b-edge", "quantum", None if ok else True, "a prerequisite is connected to another quantum", n)
            for n in an:
                c.ob("N7b-edge", "dataset", None if n.args and _of(fl, n.args[0], n, x) else True, "another dataset is connected", n)


def records(c, A):
    fl = flow_of(c, A, "_fetch_most_dimension_records")
    allfull(c, "N8-records", "all", fl, "dimension records are fetched only in part")
    hb, hr = loops_over(fl, "attr", "branches_by_dimensions"), loops_over(fl, "attr", "dimension_records")
    up, ap = calls(fl, "update"), calls(fl, "append", "extend")
    for h in hb:
        each(c, "N8-records", "branches", fl, h, hr, "the records of some dimensions are not fetched", unless=lambda lit, n: _tl("dimension_records", False)(fl)(
            lit, n) or _tl("data_ids", False)(fl)(lit, n))
    for h in hr:
        for nm, ns in (("fetched", up), ("returned", ap)):
            each(c, "N8-records", nm, fl, h, ns, "the records of some dimensions are lost")
    for n in up:
        ok = n.args and bycall(fl, n.args[0], n, "dimension_records") and n.recv is not None and any(_of(fl, n.recv, n, h) for h in hr)
        c.ob("N8b-own", "update", None if ok else True, "records are attached to other dimensions", n)
    for n in calls(fl, "dimension_records"):
        c.ob("N8b-own", "element", None if n.args and any(_of(fl, n.args[0], n, h) for h in hr) else True, "records of other dimensions are fetched", n)
    for r in retvals(fl):
        c.ob("N8-records", "result", None if not ap or any(fl.term(r.value, r) == fl.term(n.recv, n) for n in ap if n.recv is not None) else True, "the records fetched are lost", r)


def branch(c, K):
    fl = flow_of(c, K, "project_data_ids")
    g = fl.g
    allfull(c, "N9-project", "loops", fl, "data IDs are projected only in part")
    hd, hb = loops_over(fl, "attr", "data_ids"), loops_over(fl, "attr", "branches")
    ad, rec = [n for n in calls(fl, "add") if n.recv is not None and tail(ex(fl, n.recv, n)) == "data_ids"], calls(fl, "project_data_ids")
    present(c, "N9-project", "added", ad or calls(fl, "update"), "data IDs are not projected", fl)
    outer = [h for h in hd if not any(h.id in fl.loop_body(x) for x in hb)]
    for h in hd + hb:
        if any(n.id in fl.loop_body(h) for n in ad):
            each(c, "N9-project", "every", fl, h, ad, "a data ID is not projected to all dimensions below")
    for n in ad:
        a = n.args[0] if n.args else None
        ok = any(_of(fl, a, n, h) for h in hd) and any(_of(fl, a, n, h) for h in hb) and any(_of(fl, n.recv, n, h) for h in hb) and bycall(fl, a, n, "subset")
        c.ob("N9-project", "subset", None if ok else True, "a data ID is projected to the wrong dimensions", n)
    hh = [h for h in hb if any(n.id in fl.loop_body(h) for n in rec)]
    present(c, "N9b-recursive", "recursion", hh, "data IDs are not projected further", fl)
    for h in hh:
        each(c, "N9b-recursive", "every", fl, h, rec, "data IDs are not projected further")
        w = fl.path([g.entry], [g.exit], stop_node=lambda m, h=h: m is h)
        c.ob("N9b-recursive", "always", w, "data IDs are not projected further")
    if not any(n.id in fl.loop_body(h) for h in outer for n in rec):
        c.ob("N9b-recursive", "after", fl.path(fl.out_edges(rec), ad) if not any(any(n.id in fl.loop_body(x) for n in ad) for x in hh) else None,
             "data IDs are projected further before all have arrived")
    fl = flow_of(c, K, "update_skeleton_nodes")
    g = fl.g
    allfull(c, "N10-nodes", "loops", fl, "quanta or datasets are added only in part")
    for at, nm, what in (("tasks", "add_quantum_node", "quantum"), ("dataset_types", "add_dataset_node", "dataset")):
        hd, hx, ns = loops_over(fl, "attr", "data_ids"), loops_over(fl, "attr", at), calls(fl, nm)
        present(c, "N10-nodes", what, ns, f"no {what} is added", fl)
        for h in hd + hx:
            if any(n.id in fl.loop_body(h) for n in ns):
                each(c, "N10-nodes", what, fl, h, ns, f"a {what} is missing for a data ID")
        for n in ns:
            ok = any(_of(fl, n.args[0], n, h) for h in hx) and len(n.args) > 1 and any(_of(fl, n.args[1], n, h) for h in hd)
            c.ob("N10-nodes", what + ":own", None if ok else True, f"a {what} is added for another data ID", n)
    fl = flow_of(c, K, "update_skeleton_edges")
    g = fl.g
    allfull(c, "N11-edges", "loops", fl, "edges are added only in part")
    T = c.prog.cls(M + "_DimensionGroupTree")
    ft = c.flow(T.methods["_make_edge_branches"].qual, inline=lambda f: f.name == "update_edge_branch" or fresh(f))
    hd, htw = loops_over(fl, "attr", "data_ids"), loops_over(fl, "attr", "twigs")
    for at, nm in (("input_edges", "add_input_edge"), ("output_edges", "add_output_edge")):
        # writer: which position holds the task
        wr = [n for n in calls(ft, "append", "add") if n.recv is not None and tail(ex(ft, n.recv, n)) == at]
        present(c, "N11-edges", at + ":planned", wr, "edges are not planned", ft)
        pos = None
        for n in wr:
            t = ft.term(n.args[0], n)
            if t[0] == "tuple" and len(t[1]) == 2:
                tl = [tail(ex(ft, x, n)) for x in t[1]]
                c.ob("N11b-pairs", at, None if sorted(map(str, tl)) == ["label", "name"] else True, "an edge is planned between the wrong things", n)
                if "label" in tl:
                    pos = tl.index("label")
        hs, ns = loops_over(fl, "attr", at), calls(fl, nm)
        present(c, "N11-edges", nm, ns, "edges are not added", fl)
        for h in hs:
            each(c, "N11-edges", nm, fl, h, ns, "an edge is missing")
            for n in ns:
                for e, want in ((arg(n, 0, "task_key"), pos), (arg(n, 1, "dataset_key"), None if pos is None else 1 - pos)):
                    if want is None or e is None:
                        continue
                    t = fl.term(e, n)
                    used = {s[2] for s in subterms(fl.expand(t)) if s[0] == "item" and s[1] == ("elem", h.id)} | {
                        s[2] for s in subterms(t) if s[0] == "item" and s[1] == ("elem", h.id)}
                    if used:
                        c.ob("N11c-ends", f"{nm}:{want}", None if used == {want} else True, "an edge connects the wrong things", n)
                    else:
                        c.ob("N11c-ends", f"{nm}:{want}", None if _of(fl, e, n, h) else True, "an edge connects the wrong things", n)
        for h in hd:
            each(c, "N11-edges", nm + ":every data ID", fl, h, hs, "the edges of a data ID are missing")
    for at, kc, wk in (("parent_edge_tasks", "QuantumKey", "label"), ("parent_edge_dataset_types", "DatasetKey", "name")):
        hs, mk = loops_over(fl, "attr", at), ctor(fl, kc)
        st = [n for n in g.live if n.kind == "substore" and frm(fl, n.value, n, mk)]
        for h in hs:
            each(c, "N11d-keys", kc, fl, h, st or mk, "a node is not connected")
        for h in htw:
            each(c, "N11d-keys", kc + ":every twig", fl, h, hs, "nodes of some dimensions are not connected")
        for n in st:
            ok = any(_of(fl, n.key, n, h) for h in hs) and any(_of(fl, n.value, n, h) for h in hs)
            c.ob("N11d-keys", kc + ":own", None if ok else True, "a node is connected in place of another", n)
        for n in mk:
            b = arg(n, 1, "data_id_values")
            ok = any(_of(fl, n.args[0], n, h) for h in hs) and any(_of(fl, b, n, h) for h in hd) and any(_of(fl, b, n, h) for h in htw) and bycall(fl, b, n, "subset")
            c.ob("N11d-keys", kc + ":data ID", None if ok else True, "an edge leads to another data ID", n)
        w = [n for n in calls(ft, "add") if n.recv is not None and tail(ex(ft, n.recv, n)) == at]
        if not w and any(n.kind == "call" and n.callee is None and n.recv is not None and n.recv[0] == "var" and n.recv[2] == n.name for n in ft.g.live):
            continue  # a closure is called through a variable
        present(c, "N11e-twigs", at, w, "nodes are not connected", ft)
        for n in w:
            ok = n.args and tail(ex(ft, n.args[0], n)) == wk
            c.ob("N11e-twigs", at + ":name", None if ok else True, "nodes are connected in place of others", n)
            r = ex(ft, n.recv, n, 8)
            keys = [s[2] for s in subterms(r) if s[0] == "sub" and tail(s[1]) == "twigs"]
            same = [k for k in keys if tail(k) == "dimensions" and n.args and ex(ft, n.args[0], n, 8)[1] == k[1]]
            c.ob("N11e-twigs", at + ":dimensions", None if same or not keys else True, "nodes are connected under the dimensions of others", n)
    dl = [n for n in g.live if n.kind == "delattr" and n.name == "data_ids"] + [n for n in g.live if n.kind == "attrstore" and n.name == "data_ids"]
    if dl:
        for at in ("tasks", "dataset_types"):
            guard(c, "N11f-kept", at, fl, dl, _tl(at, False)(fl), "data IDs that are still needed are dropped")
        c.ob("N11f-kept", "last", fl.path(fl.out_edges(dl), calls(fl, "add_input_edge", "add_output_edge")), "data IDs are dropped before they are used")


def tree(c, T):
    fl = c.flow(T.methods["_make_edge_branches"].qual, inline=lambda f: f.name == "update_edge_branch" or fresh(f))
    g = fl.g
    allfull(c, "N12-plan", "loops", fl, "connections are left out")
    ht = loops_over(fl, "attr", "tasks")
    for it, at, pre in (("inputs_of", "input_edges", True), ("outputs_of", "output_edges", False)):
        hs = loops_over(fl, "call", it)
        ns = [n for n in calls(fl, "append", "add") if n.recv is not None and tail(ex(fl, n.recv, n)) == at]
        present(c, "N12-plan", it, hs, "connections are left out", fl)
        for h in hs:
            each(c, "N12-plan", at, fl, h, ns, "a connection is left out", unless=_tl("is_prerequisite", True)(fl) if pre else None)
            for n in ns:
                if n.id in fl.loop_body(h):
                    t = fl.term(n.args[0], n)
                    ok = t[0] != "tuple" or all(any(_of(fl, x, n, y) for y in ht + [h]) for x in t[1]) and any(_of(fl, x, n, h) for x in t[1])
                    c.ob("N12-plan", at + ":own", None if ok else True, "a connection is planned for something else", n)
        for h in ht:
            each(c, "N12-plan", it + ":every task", fl, h, hs, "the connections of a task are left out")
        if pre:
            guard(c, "N12b-no-prerequisites", "inputs", fl, ns, _tl("is_prerequisite", False)(fl), "prerequisites are treated as ordinary inputs", starts=[(h, "elem") for h in hs])
    un = [n for n in calls(fl, "union") if n.recv is not None] + [n for n in g.live if n.kind == "x"]
    st = [n for n in g.live if n.kind == "substore" and tail(ex(fl, n.base, n)) == "branches_by_dimensions"]
    for n in st + [m for m in calls(fl, "get", "setdefault") if m.recv is not None and tail(ex(fl, m.recv, m)) == "branches_by_dimensions"]:
        k = n.key if n.kind == "substore" else n.args[0]
        t = ex(fl, k, n, 8)
        ok = not un or (mentions(t, lambda s: s[0] == "call" and s[2] == "union") and len([s for s in subterms(t) if tail(s) == "dimensions"]) >= 2)
        c.ob("N12c-union", "dimensions", None if ok else True, "edges are planned for dimensions that do not cover both ends", n)
    fl = flow_of(c, T, "_make_dimension_record_branches")
    allfull(c, "N13-elements", "loops", fl, "dimension records are left out")
    mk = ctor(fl, "DimensionRecordSet")
    use = [n for n in calls(fl, "append") if n.args and frm(fl, n.args[0], n, mk)] + [n for n in ctor(fl, "_DimensionGroupBranch") if any(
        frm(fl, v, n, mk) for v in n.kwargs.values())]
    for h in loops_over(fl, "attr", "elements"):
        each(c, "N13-elements", "every", fl, h, use, "the records of a dimension are left out")
    st = [n for n in fl.g.live if n.kind == "substore" and tail(ex(fl, n.base, n)) == "branches_by_dimensions"]
    guard(c, "N13b-not-replaced", "branch", fl, st, lambda lit, n: lit[0] == "in" and lit[3] is False or lit[0] == "isnone" and lit[2] is True,
          "dimension records replace the tasks and dataset types of their dimensions") if st else None
    # initialisation from the pipeline
    fl = flow_of(c, T, "__post_init__")
    mk = ctor(fl, "_DimensionGroupBranch")
    for n in mk:
        a, b = arg(n, 0, "tasks"), arg(n, 1, "dataset_types")
        ok = a is not None and b is not None
        c.ob("N14-groups", "branch", None if ok else True, "tasks or dataset types of some dimensions are left out", n)
    st = [n for n in fl.g.live if n.kind == "attrstore" and n.name == "branches_by_dimensions"]
    hs = loops_over(fl, "call", "group_by_dimensions", comp=None)
    for h in hs:
        if h.d.get("comp"):
            ce = {m.id for m in fl.g.live if m.kind == "compelt" and m.id in fl.loop_body(h)}
            c.ob("N14-groups", "all", True if fl.partial(h) else fl.path([(h, "elem")], lambda m, h=h: m is h, stop_node=lambda m: m.id in ce), "some dimensions are left out", h)
    for n in mk:
        a, b = arg(n, 0, "tasks"), arg(n, 1, "dataset_types")
        ia = [s[2] for s in subterms(fl.term(a, n)) if s[0] == "item"] if a is not None else []
        ib = [s[2] for s in subterms(fl.term(b, n)) if s[0] == "item"] if b is not None else []
        if ia and ib:
            c.ob("N14-groups", "order", None if (ia[0], ib[0]) == (0, 1) else True, "tasks and dataset types are confused", n)
    # constraints
    fl = flow_of(c, T, "_set_dataset_constraint")
    g = fl.g
    present(c, "N15-constraint", "overall inputs", calls(fl, "iter_overall_inputs"), "the constraint is not taken from the overall inputs", fl)
    own = {("tmp", n.id) for n in calls(fl, "iter_overall_inputs")}
    for h in loops_over(fl, "call", "iter_overall_inputs", comp=None):
        if not h.d.get("comp") or fl.term(h.iterable, h) not in own:
            continue
        ce = [m for m in g.live if m.kind == "compelt" and m.id in fl.loop_body(h)]
        guard(c, "N15-constraint", "no prerequisites", fl, ce, _tl("is_prerequisite", False)(fl), "prerequisites restrict the data ID query", starts=[(h, "elem")])
        es = lit_edges(fl, _tl("is_prerequisite", True)(fl))
        ids = {m.id for m in ce}
        c.ob("N15-constraint", "all inputs", fl.path([(h, "elem")], lambda m: m is h, stop_node=lambda m: m.id in ids, stop_edge=lambda n, lab: (n.id, lab) in es),
             "an overall input is left out of the constraint")
    st = [n for n in g.live if n.kind == "attrstore" and n.name == "dataset_constraint"]
    for n in st:
        t = fl.term(n.value, n)
        if t[0] == "comp":
            h = g.nodes[t[3][-1]]
            ce = [m for m in g.live if m.kind == "compelt" and m.id in fl.loop_body(h)]
            ids = {m.id for m in ce}
            for at in ("is_initial_query_constraint", "dimensions"):
                guard(c, "N15b-default", at, fl, ce, _tl(at, True)(fl), "inputs that must not restrict the query do", starts=[(h, "elem")])
            es = lit_edges(fl, lambda lit, b: any(_tl(at, False)(fl)(lit, b) for at in ("is_initial_query_constraint", "dimensions")))
            c.ob("N15b-default", "all", fl.path([(h, "elem")], lambda m: m is h, stop_node=lambda m: m.id in ids, stop_edge=lambda b, lab: (b.id, lab) in es),
                 "an overall input does not restrict the query", h)
    iu = calls(fl, "intersection_update", "intersection")
    lst = [n for n in st if fl.derives(n.value, n, P("requested"))]
    present(c, "N15c-list", "used", lst, "an explicit dataset constraint is ignored", fl)
    w = fl.path(fl.out_edges(lst), [g.exit], stop_node=lambda m: m in iu) if iu else None
    c.ob("N15c-list", "inputs only", w if iu else None, "datasets that are no inputs restrict the query")
    no = as_edges(fl, {(i, lab) for i, lab in lit_edges(fl, _tl("dataset_constraint", False)(fl)) if fl.path(fl.out_edges(lst), [g.nodes[i]]) is not None})
    c.ob("N15c-list", "empty raises", (fl.path(no, [g.exit]) if no else True), "an explicit dataset constraint without effect is accepted", func=g.root)
    # queryable dimensions and the tree
    fl = flow_of(c, T, "build")
    g = fl.g
    qd = [n for n in g.live if n.kind == "attrstore" and n.name == "queryable_dimensions"]
    for src, nm in (("attr", "dataset_constraint"), ("param", "data_id_tables")):
        for h in loops_over(fl, src, nm):
            ns = [n for n in qd if n.id in fl.loop_body(h)]
            each(c, "N16-queryable", nm, fl, h, ns, "dimensions of a constraint are not queried", unless=_tl("skypix", False)(fl) if src == "param" else None)
            for n in ns:
                t = ex(fl, n.value, n)
                ok = mentions(t, lambda s: tail(s) == "queryable_dimensions") and _of(fl, n.value, n, h)
                c.ob("N16-queryable", nm + ":added", None if ok else True, "dimensions to be queried are lost", n)
    heads = ["_make_dimension_record_branches", "_make_edge_branches", "_set_dataset_constraint", "_make_queryable_branch_tree", "_make_queryable_overlap_branch_generators"]
    for nm in heads:
        ns = calls(fl, nm)
        c.ob("N17-tree", nm, fl.path([g.entry], [g.exit], stop_node=lambda m, ns=ns: m in ns), "part of the dimensions is not planned")
    for a, b in zip(heads, heads[1:]):
        if a not in heads[:2] or b not in heads[:2]:
            c.ob("N17-tree", f"{a} before {b}", fl.path(fl.out_edges(calls(fl, b)), calls(fl, a)), "dimensions are planned in the wrong order")
    jn = calls(fl, "_make_join_branch_generator")
    fail = as_edges(fl, lit_edges(fl, lambda lit, n: lit[0] == "truth" and lit[2] is False and frm(fl, lit[1], n, jn)))
    c.ob("N17b-impossible", "raises", fl.path(fail, [g.exit]) if fail else True, "data IDs that cannot be generated are silently left out", func=g.root)
    todo = lambda lit, n: lit[0] == "truth" and lit[2] is False and lit[1][0] in ("tmp", "var")  # noqa: E731
    es = lit_edges(fl, todo)
    w = fl.path([g.entry], [g.exit], stop_node=lambda m: m in jn, stop_edge=lambda n, lab: (n.id, lab) in es)
    c.ob("N17c-until-done", "left", w, "dimensions are left without data IDs")
    st = [n for n in g.live if n.kind == "call" and n.name == "set" and n.args]
    for n in st:
        c.ob("N17d-all-dimensions", "set", None if mentions(ex(fl, n.args[0], n), lambda s: tail(s) == "branches_by_dimensions") else True, "some dimensions are not planned", n)
    disc = calls(fl, "discard", "remove")
    for n in disc:
        guard(c, "N17e-inserted", "generators", fl, [n], lambda lit, b: lit[0] == "truth" and lit[2] is True and bycall(fl, lit[1], b, "_maybe_insert_projection_branch"),
              "dimensions are taken to be planned although they are not", starts=[(h, "elem") for h in loops_of(fl, n)])
    fl = flow_of(c, T, "_make_queryable_branch_tree")
    rm = calls(fl, "remove", "discard")
    for n in rm:
        guard(c, "N17e-inserted", "queryable", fl, [n], lambda lit, b: lit[0] == "truth" and lit[2] is True and bycall(fl, lit[1], b, "_maybe_insert_projection_branch"),
              "dimensions are taken to be planned although they are not")
    for h in iters(fl, comp=False):
        each(c, "N17f-queryable", "every", fl, h, rm, "dimensions that can be queried are not", unless=lambda lit, n: lit[0] == "truth" and lit[2] is False and bycall(
            fl, lit[1], n, "issubset") or lit[0] == "lt")
    # projections: a branch that moves below another leaves its old place
    fl = flow_of(c, T, "_maybe_insert_projection_branch")
    g = fl.g
    rec = calls(fl, "_maybe_insert_projection_branch")
    dl = [n for n in g.live if n.kind == "delsub"] + calls(fl, "pop")
    ins = [n for n in g.live if n.kind == "substore" and fl.term(n.base, n) == ("param", "candidate_projection_branches")]
    for n in dl:
        guard(c, "N18-projection", "moved", fl, [n], lambda lit, b: lit[0] == "truth" and lit[2] is True and frm(fl, lit[1], b, rec),
              "dimensions vanish from the plan", starts=[(h, "elem") for h in loops_of(fl, n)] or None)
    yes = as_edges(fl, {(i, lab) for i, lab in lit_edges(fl, lambda lit, b: lit[0] == "truth" and lit[2] is True and frm(fl, lit[1], b, rec)) if any(
        g.nodes[i].id in fl.loop_body(h) for n in dl for h in loops_of(fl, n))})
    hs = {h for n in dl for h in loops_of(fl, n)}
    c.ob("N18-projection", "not twice", fl.path(yes, lambda m: m in hs, stop_node=lambda m: m in dl) if yes else None, "data IDs of dimensions that moved are projected twice")
    for r in retvals(fl):
        v = ex(fl, r.value, r)
        if v == const(True):
            yes2 = lit_edges(fl, lambda lit, b: lit[0] == "truth" and lit[2] is True and frm(fl, lit[1], b, rec))
            w = fl.path([g.entry], [r], stop_node=lambda m: m in ins, stop_edge=lambda n, lab: (n.id, lab) in yes2)
            c.ob("N18b-told", "inserted", w, "dimensions are taken to be planned although they are not", r)
        elif v == const(False):
            w = fl.path(fl.out_edges(ins), [r])
            c.ob("N18b-told", "not inserted", w, "dimensions are planned twice", r)
    for n in ins:
        ok = fl.term(n.key, n) == ("param", "target_dimensions") and mentions(ex(fl, n.value, n), lambda s: tail(s) == "branches_by_dimensions")
        c.ob("N18c-insert", "target", None if ok else True, "other dimensions are planned", n)
        guard(c, "N18c-insert", "covered", fl, [n], lambda lit, b: lit[0] == "lt" and {lit[1], lit[2]} == {("param", "candidate_dimensions"), ("param", "target_dimensions")} or (
            lit[0] == "truth" and lit[2] is True and bycall(fl, lit[1], b, "issuperset", "issubset")), "dimensions are projected from others that do not contain them")
    for nm in ("_append_data_id_generator",):
        fl = flow_of(c, T, nm)
        g = fl.g
        ap = [n for n in calls(fl, "append") if n.recv is not None and tail(ex(fl, n.recv, n)) == "generators"]
        rm = [n for n in calls(fl, "remove", "discard") if n.args and fl.term(n.args[0], n) == ("param", "target_dimensions")]
        c.ob("N19-generators", "added", fl.path([g.entry], [g.exit], stop_node=lambda m: m in ap), "no data IDs are generated for some dimensions")
        c.ob("N19-generators", "done", fl.path([g.entry], [g.exit], stop_node=lambda m: m in rm), "dimensions are planned twice")
        lt = lambda a, b, pol: (lambda lit, n: lit[0] == "lt" and (  # noqa: E731
            _lvl(fl, lit[1], a) and _lvl(fl, lit[2], b) and lit[3] is pol))
        gather, scatter = ctor(fl, "SkyPixGatherDataIdGenerator"), ctor(fl, "SkyPixScatterDataIdGenerator")
        guard(c, "N19b-kind", "gather", fl, gather, lambda lit, n: lt("remainder_skypix", "source_region_element", True)(lit, n), "pixel IDs are scaled the wrong way")
        guard(c, "N19b-kind", "scatter", fl, scatter, lambda lit, n: lt("remainder_skypix", "source_region_element", False)(lit, n) or lt(
            "source_region_element", "remainder_skypix", True)(lit, n) or lit[0] == "lt" and lit[3] is True and _lvl(fl, lit[1], "source_region_element"),
            "pixel IDs are scaled the wrong way")
        same = lambda lit, n: lit[0] == "eq" and lit[3] is True and all(tail(fl.expand(x)) == "system" for x in lit[1:3])  # noqa: E731
        guard(c, "N19b-kind", "same system", fl, gather + scatter, same, "pixel IDs of different pixelizations are scaled")
        for n in gather + scatter + ctor(fl, "CrossSystemDataIdGenerator", "DatabaseSourceDataIdGenerator", "JoinDataIdGenerator"):
            a = [fl.term(x, n) for x in n.args]
            cls = n.callee.rsplit(".", 1)[-1]
            want = [None, ("param", "target_dimensions"), ("param", "source_dimensions")] + ([("param", "remainder_skypix"), ("param", "source_region_element")] if cls != "JoinDataIdGenerator" else [])
            for i, w in enumerate(want):
                if w is not None and i < len(a):
                    c.ob("N19c-arguments", f"{cls}:{i}", None if a[i] == w or fl.derives(n.args[i], n, lambda t, m, w=w: t == w, through_args=False) else True,
                         "data IDs are generated from or for other dimensions", n)
    fl = flow_of(c, T, "_make_join_branch_generator")
    mk = ctor(fl, "JoinDataIdGenerator")
    for n in mk:
        ok = len(n.args) + len(n.kwargs) >= 4
        c.ob("N19d-join", "operands", None if ok else True, "data IDs are joined wrongly", n)
    st = [n for n in fl.g.live if n.kind == "substore"]
    guard(c, "N19d-join", "union", fl, st, lambda lit, n: lit[0] == "eq" and lit[3] is True and bycall(fl, lit[1], n, "union") or lit[0] == "eq" and lit[3] is True and bycall(
        fl, lit[2], n, "union"), "data IDs are joined from dimensions that do not make up the target") if st else None
    ap = [n for n in calls(fl, "append") if n.recv is not None and tail(ex(fl, n.recv, n)) == "generators"]
    rm = calls(fl, "remove", "discard")
    for r in retvals(fl):
        if ex(fl, r.value, r) == const(True):
            for nm, ns in (("added", ap), ("done", rm)):
                c.ob("N19d-join", nm, fl.path([fl.g.entry], [r], stop_node=lambda m, ns=ns: m in ns), "data IDs are taken to be generated although they are not", r)
    for nm, at, need in (("project_data_ids", "queryable_branches", ("project_data_ids",)), ("generate_data_ids", "generators", ("run", "project_data_ids"))):
        fl = flow_of(c, T, nm)
        allfull(c, "N20-all", nm, fl, "data IDs are generated only in part")
        for h in loops_over(fl, "attr", at):
            for x in need:
                each(c, "N20-all", f"{nm}:{x}", fl, h, calls(fl, x), "data IDs are generated only in part")
        if len(need) == 2:
            a, b = (calls(fl, x) for x in need)
            w = fl.path(fl.out_edges(b), a, stop_node=lambda m: m.kind == "iter")
            c.ob("N20-all", "order", w, "data IDs are projected before they are generated")
        present(c, "N20-all", nm, loops_over(fl, "attr", at), "data IDs are not generated", fl)


def _lvl(fl, t, name):
    t = fl.expand(t)
    return tail(t) == "level" and (t[1] == ("param", name) or mentions(t[1], lambda s: s == ("param", name)) or tail(t[1]) == name)


def generators(c):
    for nm in ("DatabaseSourceDataIdGenerator", "CrossSystemDataIdGenerator", "SkyPixScatterDataIdGenerator", "SkyPixGatherDataIdGenerator", "JoinDataIdGenerator"):
        K = c.prog.cls(M + nm)
        fl = flow_of(c, K, "run")
        g = fl.g
        allfull(c, "N21-generate", nm, fl, "data IDs are generated only in part")
        ad = [n for n in calls(fl, "add", "update") if n.recv is not None and tail(ex(fl, n.recv, n)) == "data_ids"]
        present(c, "N21-generate", nm + ":kept", ad, "the data IDs generated are lost", fl)
        for n in ad:
            hs = loops_of(fl, n)
            for h in hs:
                each(c, "N21-generate", nm + ":every", fl, h, ad, "a data ID is not generated")
            ok = mentions(ex(fl, n.recv, n), lambda s: is_self_attr(s, "branch"))
            c.ob("N21b-target", nm, None if ok else True, "data IDs are added to other dimensions", n)
        src = [h for h in loops_over(fl, "attr", "data_ids")]
        present(c, "N21-generate", nm + ":source", src, "data IDs are generated from nothing", fl)
        if nm != "JoinDataIdGenerator":
            for n in calls(fl, "standardize"):
                ok = n.args and any(_of(fl, n.args[0], n, h) for h in src)
                c.ob("N21c-combined", nm, None if ok else True, "data IDs generated lack their origin", n)
                vals = [v for k, v in n.kwargs.items()]
                t = [ex(fl, v, n) for v in vals]
                if None in n.kwargs:
                    ok = mentions(ex(fl, n.kwargs[None], n), lambda s: tail(s) == "name" and is_self_attr(s[1], "remainder_skypix"))
                    c.ob("N21c-combined", nm + ":pixel", None if ok else True, "data IDs are generated for another dimension", n)
            for n in ad:
                c.ob("N21c-combined", nm + ":added", None if bycall(fl, n.args[0], n, "standardize") else True, "something else than the combined data ID is added", n)
            for n in calls(fl, "interior"):
                c.fail("N21d-envelope", nm, "pixels that overlap only partially are left out", n)
            if nm in ("DatabaseSourceDataIdGenerator", "CrossSystemDataIdGenerator"):
                present(c, "N21d-envelope", nm, calls(fl, "envelope"), "pixels that overlap only partially are left out", fl)
                for n in calls(fl, "envelope"):
                    ok = mentions(ex(fl, n.recv, n, 8), lambda s: is_self_attr(s, "remainder_skypix")) and n.args and any(_of(fl, n.args[0], n, h) for h in src)
                    c.ob("N21d-envelope", nm + ":region", None if ok else True, "the pixels of another region are used", n)
            for n in calls(fl, "pixel"):
                src_pix = lambda e: e is not None and mentions(ex(fl, e, n, 8), lambda s: is_self_attr(s, "source_skypix"))  # noqa: E731
                c.ob("N21d-envelope", nm + ":source pixel", None if src_pix(n.recv) and n.args and src_pix(n.args[0]) else True, "the region of another pixel is used", n)
        if nm.startswith("SkyPix"):
            pos, negv = ("remainder_skypix", "source_skypix") if "Scatter" in nm else ("source_skypix", "remainder_skypix")
            pw = []
            for n in g.live:
                for e in [v for _, v in n.defs] if n.kind == "def" else list(n.args) if n.kind == "call" else []:
                    pw += [s for s in subterms(ex(fl, e, n, 8)) if s[0] == "op" and s[1] in ("Pow", "LShift")]
            ok = [s for s in pw if s[1] == "Pow" and s[2][0] == const(4) and s[2][1][0] == "op" and s[2][1][1] == "Sub" and [tail(x) == "level" and is_self_attr(x[1], y) for x, y in zip(
                s[2][1][2], (pos, negv))] == [True, True]]
            c.ob("N21e-factor", nm, None if ok or not pw else True, "pixel IDs are scaled by the wrong factor", func=g.root)
            if "Gather" in nm:
                dv = [s for n in g.live if n.kind in ("def", "call") for e in ([v for _, v in n.defs] if n.kind == "def" else list(n.args) + list(n.kwargs.values())) for s in subterms(
                    ex(fl, e, n, 8)) if s[0] == "op" and s[1] in ("FloorDiv", "Div", "Mult", "RShift", "Mod")]
                c.ob("N21e-factor", nm + ":division", None if dv and all(s[1] in ("FloorDiv", "RShift") for s in dv) else True, "pixel IDs are scaled the wrong way", func=g.root)
            else:
                present(c, "N21e-factor", nm + ":scale", calls(fl, "scale", "scaled"), "pixel IDs are not scaled", fl)
        if nm == "JoinDataIdGenerator":
            for n in ad:
                ok = bycall(fl, n.args[0], n, "union") and len({h.id for h in loops_of(fl, n)}) >= 2
                c.ob("N21f-join", "union", None if ok else True, "data IDs are joined wrongly", n)
            sb = calls(fl, "subset")
            for n in sb:
                t = ex(fl, n.args[0], n) if n.args else ()
                ok = t and (t[0] == "op" and t[1] == "BitAnd" or mentions(t, lambda s: s[0] == "call" and s[2] == "intersection")) and mentions(
                    t, lambda s: is_self_attr(s, "source")) and mentions(t, lambda s: is_self_attr(s, "other"))
                c.ob("N21f-join", "common", None if ok else True, "data IDs that disagree are joined", n)
            ap = calls(fl, "append", "add")
            for h in src:
                each(c, "N21f-join", "grouped", fl, h, [n for n in ap if n.id in fl.loop_body(h)], "a data ID is left out of the join")
            for h in iters(fl, comp=None):
                t = ex(fl, h.iterable, h)
                if t[0] == "op" and t[1] in ("BitAnd", "BitOr", "Sub", "BitXor"):
                    c.ob("N21f-join", "both", None if t[1] == "BitAnd" else True, "data IDs without counterpart are joined", h)


def helpers(c):
    I = c.prog.cls(PH + "PrerequisiteInfo")
    fl = flow_of(c, I, "__init__")
    mk = ctor(fl, "PrerequisiteFinder")
    present(c, "N22-finders", "made", mk, "prerequisites are not looked up", fl)
    hs = loops_over(fl, "attr", "prerequisite_inputs", comp=None)
    present(c, "N22-finders", "all", hs, "prerequisites are not looked up", fl)
    for h in hs:
        ce = {m.id for m in fl.g.live if m.id in fl.loop_body(h) and (m.kind == "compelt" or m.kind == "substore")}
        w = True if fl.partial(h) else fl.path([(h, "elem")], lambda m, h=h: m is h, stop_node=lambda m: m.id in ce)
        c.ob("N22-finders", "every", w, "a prerequisite is not looked up", h)
    for m in fl.g.live:
        if m.kind in ("compelt", "substore") and m.d.get("key") is not None:
            c.ob("N22-finders", "key", None if tail(ex(fl, m.key, m)) == "connection_name" else True, "prerequisites of two connections are confused", m)
    fl = flow_of(c, I, "update_bounds")
    g = fl.g
    allfull(c, "N23-bounds", "loops", fl, "prerequisites are looked up with incomplete bounds")
    cl = [n for n in calls(fl, "clear")] + [n for n in g.live if n.kind == "attrstore" and n.name == "all_dataset_skypix"]
    up = [n for n in calls(fl, "update")]
    rs = [n for n in g.live if n.kind == "attrstore" and n.name == "any_dataset_has_timespan"]
    hs = loops_over(fl, "attr", "finders")
    inner = [n for n in rs if any(n.id in fl.loop_body(h) for h in hs)]
    for h in hs:
        each(c, "N23-bounds", "spatial", fl, h, up, "the bounds of a prerequisite are ignored")
        if inner:
            each(c, "N23-bounds", "temporal", fl, h, inner, "the bounds of a prerequisite are ignored", unless=_tl("dataset_has_timespan", False)(fl))
    for n in inner:
        t = fl.term(n.value, n)
        tt = fl.expand(t)
        ok = tt == const(True) or t[0] == "or" or t[0] in ("var", "phi") or mentions(tt, lambda s: tail(s) == "any_dataset_has_timespan") or any(
            v == const(True) for v, d in fl.sources(n.value, n))
        # plain overwrite by the last finder forgets the others
        plain = tail(tt) == "dataset_has_timespan" and not lit_edges(fl, _tl("any_dataset_has_timespan", False)(fl))
        c.ob("N23-bounds", "temporal:any", True if plain else None, "only the last prerequisite determines whether a timespan is needed", n)
    c.ob("N23-bounds", "skypix:fresh", fl.path([g.entry], up, stop_node=lambda m: m in cl), "bounds of prerequisites that were found already are kept")
    B = c.prog.cls(PH + "PrerequisiteBounds")
    fl = flow_of(c, B, "__post_init__")
    for at, fn in (("spatial_connections", "get_spatial_bounds_connections"), ("temporal_connections", "get_temporal_bounds_connections")):
        st = [n for n in fl.g.live if n.kind == "attrstore" and n.name == at]
        ok = st and all(bycall(fl, n.value, n, fn) for n in st)
        c.ob("N24-connections", at, None if ok else True, "the connections that determine bounds are ignored", func=fl.g.root)
    for nm, need, con, dim, kinds in (
            ("make_skypix_bounds_builder", "all_dataset_skypix", "spatial_connections", "spatial",
             ("_TrivialSkyPixBoundsBuilder", "_ConnectionSkyPixBoundsBuilder", "_QuantumOnlySkyPixBoundsBuilder", "_UnboundedSkyPixBoundsBuilder")),
            ("make_timespan_builder", "any_dataset_has_timespan", "temporal_connections", "temporal",
             ("_TrivialTimespanBuilder", "_ConnectionTimespanBuilder", "_QuantumOnlyTimespanBuilder", "_UnboundedTimespanBuilder"))):
        fl = flow_of(c, B, nm)
        tr, co, qo, ub = ([n for n in ctor(fl, k)] for k in kinds)
        msg = "prerequisites are looked up within the wrong bounds"
        for what, ns, conds in (("none needed", tr, [(need, False)]), ("connections", co, [(con, True)]), ("quantum", qo, [(con, False), (dim, True)]),
                                ("unbounded", ub, [(con, False), (dim, False)])):
            present(c, "N25-choice", f"{nm}:{what}", ns, msg, fl)
            for at, pol in conds:
                guard(c, "N25-choice", f"{nm}:{what}:{at}", fl, ns, _tl(at, pol)(fl), msg)
        for n in co + qo:
            ok = any(fl.derives(a, n, P("quantum_data_id")) for a in list(n.args) + list(n.kwargs.values()))
            c.ob("N25b-own", f"{nm}:{n.callee.rsplit('.', 1)[-1]}", None if ok else True, msg, n)
        for n in co:
            ok = any(mentions(ex(fl, a, n), lambda s: tail(s) == con) for a in list(n.args) + list(n.kwargs.values()))
            c.ob("N25b-own", f"{nm}:connections", None if ok else True, msg, n)
        for r in retvals(fl):
            c.ob("N25-choice", nm + ":returned", None if frm(fl, r.value, r, tr + co + qo + ub) else True, msg, r)
    for nm, kind in (("_ConnectionSkyPixBoundsBuilder", "_regions"), ("_ConnectionTimespanBuilder", None)):
        K = c.prog.cls(PH + nm)
        fl = flow_of(c, K, "__init__")
        g = fl.g
        allfull(c, "N26-connections", nm, fl, "connections that determine bounds are ignored")
        ad = [n for n in calls(fl, "add") if n.recv is not None and mentions(ex(fl, n.recv, n), lambda s: is_self_attr(s, "_dataset_type_names"))]
        for h in loops_over(fl, "param", "bounds_connections"):
            each(c, "N26-connections", nm + ":every", fl, h, ad, "a connection that determines bounds is ignored")
            for n in ad:
                t = ex(fl, n.args[0], n, 8)
                ok = tail(t) == "parent_dataset_type_name" and _of(fl, n.args[0], n, h)
                c.ob("N26-connections", nm + ":name", None if ok else True, "another connection determines bounds", n)
        for at in ("inputs", "outputs"):
            ok = any(mentions(ex(fl, n.args[0], n, 8), lambda s: tail(s) == at) or fl.derives(n.args[0], n, lambda t, m: tail(t) == at) for n in ad)
            c.ob("N26-connections", f"{nm}:{at}", None if ok else True, f"{at} that determine bounds are ignored", func=g.root)
        own = [n for n in g.live if n.kind in ("attrstore", "call") and (n.kind == "call" and n.name == "append" or n.kind == "attrstore" and n.name == "_begin_nsec")
               and any(fl.derives(a, n, P("quantum_data_id")) for a in (n.args if n.kind == "call" else [n.value]))]
        present(c, "N26b-quantum", nm, own, "the quantum's own region or timespan is ignored", fl)
        if kind:
            es = lit_edges(fl, _tl("spatial", False)(fl))
            w = fl.path([g.entry], [g.exit], stop_node=lambda m: m in own, stop_edge=lambda n, lab: (n.id, lab) in es)
            c.ob("N26b-quantum", nm + ":always", w, "the quantum's own region is ignored")
        fl = flow_of(c, K, "handle_dataset")
        g = fl.g
        ns = [n for n in g.live if n.kind == "call" and n.name == "append" and n.recv is not None and is_self_attr(ex(fl, n.recv, n), "_regions")] if kind else [
            n for n in g.live if n.kind == "attrstore" and n.name in ("_begin_nsec", "_end_nsec")]
        isin = lambda pol: lambda lit, n: lit[0] == "in" and lit[3] is pol and lit[1] == ("param", "parent_dataset_type_name")  # noqa: E731
        guard(c, "N27-extend", nm + ":only", fl, ns, isin(True), "datasets of other connections determine bounds")
        no = lit_edges(fl, isin(False))
        for sub in ([ns] if kind else [[n for n in ns if n.name == "_begin_nsec"], [n for n in ns if n.name == "_end_nsec"]]):
            w = fl.path([g.entry], [g.exit], stop_node=lambda m, sub=sub: m in sub, stop_edge=lambda n, lab: (n.id, lab) in no)
            c.ob("N27-extend", f"{nm}:{sub[0].name if sub else '-'}", w, "a dataset that determines bounds is ignored")
        for n in ns:
            v = n.args[0] if n.kind == "call" else n.value
            c.ob("N27-extend", nm + ":own", None if fl.derives(v, n, P("data_id")) else True, "bounds come from something else", n)
            if n.kind == "attrstore":
                t = ex(fl, v, n, 8)
                want, idx = ("min", 0) if n.name == "_begin_nsec" else ("max", 1)
                ok = t[0] != "call" or t[2] == want and any(s[0] in ("sub", "item") and s[2] in (idx, const(idx)) for s in subterms(t)) and mentions(t, lambda s: is_self_attr(s, n.name))
                c.ob("N27b-timespan", n.name, None if ok else True, "the timespan is extended wrongly", n)
        fl = flow_of(c, K, "finish")
        g = fl.g
        allfull(c, "N28-finish", nm, fl, "bounds are incomplete")
        if kind:
            st = [n for n in g.live if n.kind in ("substore", "compelt")]
            for h in loops_over(fl, "attr", "_dimensions", comp=None):
                each(c, "N28-finish", nm + ":dimensions", fl, h, st, "bounds are incomplete")
            agg = [n for n in g.live if n.kind in ("def",) and any(fl.term(v, n)[0] == "op" and fl.term(v, n)[1] in ("AugBitOr", "BitOr", "AugBitAnd", "BitAnd", "AugSub") for _, v in n.defs)]
            for h in loops_over(fl, "attr", "_regions"):
                each(c, "N28-finish", nm + ":regions", fl, h, agg or calls(fl, "union", "insert"), "a region is left out of the bounds")
                for n in agg:
                    for _, v in n.defs:
                        t = fl.term(v, n)
                        c.ob("N28-finish", nm + ":union", None if t[0] != "op" or t[1] in ("AugBitOr", "BitOr") else True, "bounds shrink with every region", n)
            for n in calls(fl, "interior"):
                c.fail("N28-finish", nm + ":envelope", "pixels that overlap only partially are left out", n)
        else:
            for r in retvals(fl):
                t = ex(fl, r.value, r, 8)
                tup = [s for s in subterms(t) if s[0] == "tuple" and len(s[1]) == 2]
                ok = not tup or any([tail(x) for x in s[1]] == ["_begin_nsec", "_end_nsec"] for s in tup)
                c.ob("N28-finish", nm + ":timespan", None if ok else True, "the timespan is reversed", r)
    for nm, what in (("_QuantumOnlySkyPixBoundsBuilder", "envelope"), ("_UnboundedSkyPixBoundsBuilder", "universe")):
        fl = flow_of(c, c.prog.cls(PH + nm), "finish")
        allfull(c, "N28-finish", nm, fl, "bounds are incomplete")
        present(c, "N28-finish", nm + ":pixels", calls(fl, what), "bounds are too narrow", fl)
        for h in loops_over(fl, "attr", "_dimensions", comp=None):
            each(c, "N28-finish", nm + ":dimensions", fl, h, [n for n in fl.g.live if n.kind in ("substore", "compelt")], "bounds are incomplete")
    finder(c, c.prog.cls(PH + "PrerequisiteFinder"))


def finder(c, K):
    fl = flow_of(c, K, "find")
    g = fl.g
    lk = calls(fl, "lookup_function")
    none = lambda lit, n: (lit[0] == "truth" and lit[2] is False or lit[0] == "isnone" and lit[2] is True) and is_self_attr(fl.expand(lit[1]), "lookup_function")  # noqa: E731
    fd, qd = calls(fl, "find_dataset"), calls(fl, "query_datasets")
    guard(c, "N29-find", "lookup function", fl, fd + qd, none, "the lookup function of a prerequisite is ignored")
    c.ob("N29-find", "lookup function:used", None if lk else True, "the lookup function of a prerequisite is ignored", func=g.root)
    for n in lk:
        ok = len(n.args) >= 4 and fl.term(n.args[2], n) == ("param", "data_id") and fl.term(n.args[3], n) == ("param", "input_collections")
        c.ob("N29-find", "lookup function:arguments", None if ok else True, "the lookup function is called with other arguments", n)
        c.ob("N29-find", "lookup function:type", None if bycall(fl, n.args[0], n, "adapt_dataset_type") else True, "the lookup function gets another dataset type", n)
    for h in iters(fl, comp=None):
        if frm(fl, h.iterable, h, lk):
            ids = {m.id for m in g.live if m.id in fl.loop_body(h) and (m.kind == "compelt" or m.kind == "call" and m.name == "append")}
            es = lit_edges(fl, lambda lit, n: (lit[0] == "isnone" and lit[2] is True or lit[0] == "truth" and lit[2] is False) and fl.derives(lit[1], n, lambda t, m, h=h: t == ("elem", h.id)))
            c.ob("N29-find", "lookup function:results", True if fl.partial(h) else fl.path([(h, "elem")], lambda m, h=h: m is h, stop_node=lambda m: m.id in ids, stop_edge=lambda n, lab: (
                n.id, lab) in es), "a prerequisite found by the lookup function is dropped", h)
    present(c, "N29-find", "generalized", calls(fl, "generalize_ref"), "prerequisites found by a lookup function keep its storage class", fl)
    for n in fd + qd:
        v = n.kwargs.get("collections")
        c.ob("N29b-search", f"{n.name}:collections", None if v is not None and fl.term(v, n) == ("param", "input_collections") else True, "prerequisites are looked for in other collections", n)
        d = arg(n, 1, "data_id")
        c.ob("N29b-search", f"{n.name}:data ID", None if d is not None and fl.derives(d, n, P("data_id")) else True, "prerequisites are looked for at another data ID", n)
        if n.args:
            c.ob("N29b-search", f"{n.name}:type", None if mentions(ex(fl, n.args[0], n), lambda s: tail(s) == "dataset_type_node") else True, "another dataset type is looked for", n)
    for n in fd:
        v = n.kwargs.get("timespan")
        c.ob("N29c-timespan", "find_dataset", None if v is not None and fl.term(v, n) == ("param", "timespan") else True, "calibrations are looked for without their validity range", n)
    for n in qd:
        v = n.kwargs.get("limit")
        c.ob("N29d-unlimited", "limit", None if v is None or fl.term(v, n) == const(None) else True, "prerequisites are cut off", n)
        v = n.kwargs.get("explain")
        c.ob("N29d-unlimited", "explain", None if v is not None and fl.term(v, n) == const(False) else True, "quanta without prerequisites fail", n)
    for h in loops_over(fl, "attr", "dataset_skypix"):
        st = [n for n in g.live if n.kind == "substore" and n.id in fl.loop_body(h)]
        wt = [n for n in calls(fl, "append") if n.id in fl.loop_body(h) and _of(fl, n.args[0], n, h)]
        each(c, "N29e-pixels", "terms", fl, h, wt, "a pixelization does not restrict prerequisites")
        each(c, "N29e-pixels", "values", fl, h, st, "a pixelization does not restrict prerequisites")
        for x in iters(fl, comp=False):
            if x.id in fl.loop_body(h) and x is not h:
                each(c, "N29e-pixels", "ranges", fl, x, calls(fl, "extend", "append", "update"), "some pixels are left out")
    allfull(c, "N29e-pixels", "loops", fl, "some pixels are left out")
    bind = [n for n in qd if "bind" in n.kwargs]
    sky = as_edges(fl, lit_edges(fl, _tl("dataset_skypix", True)(fl)))
    w = fl.path(sky, [n for n in qd if "bind" not in n.kwargs]) if sky else None
    c.ob("N29f-restricted", "skypix", w, "prerequisites are not restricted to the bounds")
    c.ob("N29f-restricted", "tested", None if sky and bind else True, "prerequisites are not restricted to the bounds", func=g.root)
    ts = as_edges(fl, lit_edges(fl, _tl("dataset_has_timespan", True)(fl)))
    w = fl.path(ts, qd) if ts else True
    c.ob("N29f-restricted", "timespan", w, "prerequisites outside of their validity range are used", func=g.root)
    for n in fd:
        none = as_edges(fl, lit_edges(fl, none_lit(fl, [n], False)))
        for r in retvals(fl):
            t = fl.term(r.value, r)
            if t[0] == "list" and not t[1]:
                c.ob("N29g-used", "found", fl.path(none, [r]) if none else None, "a prerequisite that was found is dropped", r)
    fl = flow_of(c, K, "__init__")
    g = fl.g
    allfull(c, "N30-spatial", "loops", fl, "spatial dimensions of a prerequisite are ignored")
    st = [n for n in g.live if n.kind == "substore" and tail(ex(fl, n.base, n)) in ("dataset_skypix", "dataset_other_spatial")]
    for h in iters(fl, comp=False):
        if any(n.id in fl.loop_body(h) for n in st):
            each(c, "N30-spatial", "families", fl, h, st, "a spatial dimension of a prerequisite is ignored")
            t = ex(fl, h.iterable, h)
            ok = t[0] != "op" or t[1] == "Sub" and "dataset_type_node" in str(t[2][0]) and "task_node" in str(t[2][1])
            c.ob("N30-spatial", "difference", None if ok else True, "the spatial dimensions the task does not constrain are ignored", h)
    isp = lambda pol: lambda lit, n: lit[0] == "isinstance" and lit[3] is pol  # noqa: E731
    for at, pol in (("dataset_skypix", True), ("dataset_other_spatial", False)):
        guard(c, "N30b-kind", at, fl, [n for n in st if tail(ex(fl, n.base, n)) == at], isp(pol), "pixelizations and other spatial dimensions are confused")
    ad = [n for n in calls(fl, "add")]
    for h in loops_over(fl, "attr", "names"):
        each(c, "N31-constraint", "dimensions", fl, h, ad, "a dimension of the task does not restrict its prerequisites",
             unless=lambda lit, n: any(_tl(a, True)(fl)(lit, n) for a in ("spatial", "temporal")))
        own = lit_edges(fl, lambda lit, n: lit[0] == "in" and lit[3] is True and mentions(fl.expand(lit[2]), lambda s: tail(s) == "dataset_type_node"))
        w = fl.path(as_edges(fl, own), lambda m: m is h, stop_node=lambda m: m in ad) if own else True
        c.ob("N31-constraint", "shared dimensions", w, "a dimension the task shares with a prerequisite does not restrict it", h)
        for at in ("spatial", "temporal"):
            es = lit_edges(fl, lambda lit, n, at=at: lit[0] == "in" and lit[3] is True or _tl(at, False)(fl)(lit, n))
            w = fl.path([(h, "elem")], ad, stop_edge=lambda n, lab: (n.id, lab) in es, stop_node=lambda m: m is h)
            c.ob("N31-constraint", at, w, f"{at} dimensions are compared by value instead of by overlap", h)
    look = calls(fl, "get_lookup_function")
    for n in look:
        c.ob("N31b-lookup", "connection", None if n.args and tail(ex(fl, n.args[0], n)) == "connection_name" else True, "the lookup function of another connection is used", n)


def trivial(c, K):
    fl = flow_of(c, K, "process_subgraph")
    g = fl.g
    allfull(c, "N32-trivial", "loops", fl, "tasks, connections or datasets are left out")
    ht, hi, ho = loops_over(fl, "attr", "tasks"), loops_over(fl, "call", "iter_all_inputs"), loops_over(fl, "call", "iter_all_outputs")
    aq, ie, oe, an, ap = calls(fl, "add_quantum_node"), calls(fl, "add_input_edge"), calls(fl, "add_output_edge"), calls(fl, "add_dataset_node"), calls(fl, "add_prerequisite_node")
    for h in ht:
        each(c, "N32-trivial", "quanta", fl, h, aq, "a task gets no quantum")
        each(c, "N32-trivial", "inputs", fl, h, hi, "the inputs of a task are left out")
        each(c, "N32-trivial", "outputs", fl, h, ho, "the outputs of a task are left out")
        for n in aq:
            c.ob("N32-trivial", "quanta:own", None if _of(fl, n.args[0], n, h) and _of(fl, n.args[1], n, h) else True, "a quantum is added for another task", n)
    given = [h for h in iters(fl, comp=False) if any(h.id in fl.loop_body(x) for x in hi)]
    for h in given:
        each(c, "N32-trivial", "given refs", fl, h, [n for n in ie if n.id in fl.loop_body(h)], "a dataset given for a connection is not used")
        guard(c, "N32b-kind", "prerequisites", fl, [n for n in ap if n.id in fl.loop_body(h)], _tl("is_prerequisite", True)(fl), "ordinary inputs are treated as prerequisites",
              starts=[(h, "elem")])
        guard(c, "N32b-kind", "inputs", fl, [n for n in an if n.id in fl.loop_body(h)], _tl("is_prerequisite", False)(fl), "prerequisites are treated as ordinary inputs",
              starts=[(h, "elem")])
        for n in an:
            if n.id in fl.loop_body(h):
                v = n.kwargs.get("ref")
                c.ob("N32b-kind", "ref", None if v is not None and _of(fl, v, n, h) else True, "a dataset given for a connection is not used", n)
    main = [n for n in ie if not any(n.id in fl.loop_body(h) for h in given)]
    for h in hi:
        ids = {n.id for n in main}
        es = lit_edges(fl, _tl("is_prerequisite", True)(fl))
        w = fl.path([(h, "elem")], lambda m, h=h: m is h, stop_node=lambda m: m.id in ids, stop_edge=lambda n, lab: (n.id, lab) in es and not any(
            n.id in fl.loop_body(x) for x in given))
        c.ob("N32-trivial", "input edges", w, "an input is left out", h)
        sd = [n for n in calls(fl, "set_dataset_ref") if n.id in fl.loop_body(h)]
        fd = calls(fl, "find_dataset")
        found = as_edges(fl, lit_edges(fl, none_lit(fl, fd, False)))
        hh = {h}
        c.ob("N32c-existing", "used", fl.path(found, lambda m: m in hh, stop_node=lambda m: m in sd) if found else (True if fd else None), "an input that exists is not used", func=g.root)
        guard(c, "N32c-existing", "only overall inputs", fl, fd, none_lit(fl, calls(fl, "producer_of"), True), "intermediate datasets are taken from the repository", starts=[(h, "elem")])
    for h in ho:
        each(c, "N32-trivial", "output edges", fl, h, oe, "an output is left out")
        mk = ctor(fl, "DatasetRef")
        for n in mk:
            v, i = n.kwargs.get("run"), n.kwargs.get("id_generation_mode")
            ok = v is not None and is_self_attr(ex(fl, v, n), "output_run") and i is not None
            c.ob("N32d-id-mode", "ref", None if ok else True, "outputs with predictable IDs go elsewhere", n)
        sd, sw = [n for n in calls(fl, "set_dataset_ref") if n.id in fl.loop_body(h)], calls(fl, "set_output_in_the_way")
        for nm, ns in (("ref", sd), ("kept", sw)):
            c.ob("N32d-id-mode", nm, fl.path(fl.out_edges(mk), lambda m: m is h, stop_node=lambda m, ns=ns: m in ns) if mk else None, "outputs lose their predictable IDs")
    for n in ie:
        ok = frm(fl, arg(n, 0, "task_key"), n, aq) and frm(fl, arg(n, 1, "dataset_key"), n, an + ap)
        c.ob("N32e-edges", "inputs", None if ok else True, "an input is connected to something else", n)
    for n in oe:
        ok = frm(fl, arg(n, 0, "task_key"), n, aq) and frm(fl, arg(n, 1, "dataset_key"), n, an)
        c.ob("N32e-edges", "outputs", None if ok else True, "an output is connected to something else", n)
    for n in an:
        hs = [h for h in hi + ho if n.id in fl.loop_body(h)]
        t = ex(fl, n.args[0], n) if n.args else ()
        ok = t and tail(t) == "parent_dataset_type_name" and any(_of(fl, n.args[0], n, h) for h in hs)
        c.ob("N32e-edges", "datasets", None if ok else True, "a dataset is added under another name", n)
