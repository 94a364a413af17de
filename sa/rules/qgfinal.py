"""Quantum graph generation: everything resolved in the skeleton reaches the graph that is returned, and nothing else does."""

from __future__ import annotations

from ..lib import Check, is_self_attr
from ..q import (allfull, arg, as_edges, bycall, calls, const, ctor, each, ex, flow_of, frm, guard, iters, kws, lit_edges, loops_of, mentions, none_lit,
                 loops_over, present, retvals, subterms, tail)

QB = "quantum_graph_builder.QuantumGraphBuilder"


def run(c: Check):
    B = c.prog.cls(QB)
    skeleton(c, B)
    resolved(c, B)
    adapt(c, B)
    init(c, B)
    records(c, B)
    predicted(c, B)
    components(c, B)
    old_graph(c, B)
    entry(c, B)


def P(name):
    return lambda t, m: t == ("param", name)


def _of(fl, e, n, h):
    return fl.derives(e, n, lambda t, m: t == ("elem", h.id))


def _called(t, *nm):
    return mentions(t, lambda s: s[0] == "call" and s[2] in nm)


def _fromcall(fl, e, n, *nm):
    return bycall(fl, e, n, *nm)


def _loops(fl, *nm, comp=False):
    """Loops over the result of a call with one of the names."""
    return loops_over(fl, "call", *nm, comp=comp)


def _keyed(fl, n, name):
    """Node n stores under the constant key ``name``."""
    return n.kind == "substore" and fl.term(n.key, n) == const(name)


def _all(c, B, name, msg, **kw):
    fl = flow_of(c, B, name)
    allfull(c, "G0-everything", name, fl, msg, **kw)
    return fl


def skeleton(c, B):
    fl = _all(c, B, "_build_skeleton", "only part of the pipeline is processed")
    g = fl.g
    rs, ad = calls(fl, "_resolve_task_quanta"), calls(fl, "_adjust_task_quanta")
    at, ro = calls(fl, "attach_dimension_records"), calls(fl, "remove_orphan_datasets")
    present(c, "G1-order", "dimension records", at, "data IDs are left without dimension records", fl)
    for n in ad:
        c.ob("G1-order", "dimension records first", fl.must_precede(at, [n]), "adjustQuantum sees data IDs without dimension records")
    c.ob("G1-order", "dimension records last", fl.path(fl.out_edges(at), rs), "prerequisites are found after dimension records were attached")
    heads = {h.id for h in iters(fl) if any(n.id in fl.loop_body(h) for n in rs)}
    c.ob("G1-order", "resolved", fl.path([g.entry], at + ad, stop_node=lambda m: m.id in heads or m in rs), "quanta are adjusted without having been resolved")
    cs, un0 = calls(fl, "_compute_skip_decision"), calls(fl, "_unskip_ancestors")
    heads2 = {h.id for h in iters(fl) if any(n.id in fl.loop_body(h) for n in cs)}
    c.ob("G1-order", "decided", fl.path([g.entry], un0, stop_node=lambda m: m.id in heads2), "ancestors are considered although nothing has been decided")
    for n in cs:
        st = [m for m in g.live if m.kind in ("substore", "compelt") and any(v is not None and frm(fl, v, m, [n]) for v in (m.d.get("value"),))]
        c.ob("G1-order", "decision kept", None if st else True, "the decision to skip a quantum is lost", n)
    w = fl.path([g.entry], [g.exit], stop_node=lambda m: m in ro)
    c.ob("G2-orphans", "removed", w, "datasets no quantum uses stay in the graph")
    c.ob("G2-orphans", "after adjustment", fl.path(fl.out_edges(ad), [g.exit], stop_node=lambda m: m in ro), "datasets no quantum uses stay in the graph")
    un = calls(fl, "remove_unanchored_quanta")
    none = lit_edges(fl, lambda lit, n: (lit[0] == "isnone" and lit[2] is True or lit[0] == "truth" and lit[2] is False) and is_self_attr(lit[1], "_prune_unanchored_quanta"))
    w = fl.path([g.entry], [g.exit], stop_node=lambda m: m in un, stop_edge=lambda n, lab: (n.id, lab) in none)
    c.ob("G3-prune", "done", w, "the requested pruning of unanchored quanta is not done")
    for n in un:
        src, anc = arg(n, 0, "source_label"), arg(n, 1, "anchor_label")
        for i, v in ((0, src), (1, anc)):
            t = ex(fl, v, n) if v is not None else ()
            ok = t and t[0] in ("item", "sub") and t[2] in (i, const(i)) and mentions(t, lambda s: is_self_attr(s, "_prune_unanchored_quanta"))
            c.ob("G3-prune", "source" if i == 0 else "anchor", None if ok else True, "source and anchor of the pruning are confused", n)
        c.ob("G3-prune", "after adjustment", fl.path(fl.out_edges([n]), ad), "quanta are pruned before they have been adjusted")
    hit = as_edges(fl, lit_edges(fl, lambda lit, n: lit[0] == "truth" and lit[2] is True and frm(fl, lit[1], n, un)))
    c.ob("G3-prune", "orphans", fl.path(hit or fl.out_edges(un), [g.exit], stop_node=lambda m: m in ro) if un else None, "datasets of pruned quanta stay in the graph")
    ds = calls(fl, "_attach_datastore_records")
    off = lit_edges(fl, lambda lit, n: lit[0] == "truth" and lit[2] is False and lit[1] == ("param", "attach_datastore_records"))
    w = fl.path([g.entry], [g.exit], stop_node=lambda m: m in ds, stop_edge=lambda n, lab: (n.id, lab) in off)
    c.ob("G4-datastore-records", "attached", w, "datastore records are not attached")
    guard(c, "G4-datastore-records", "only on request", fl, ds, lambda lit, n: lit[0] == "truth" and lit[2] is True and lit[1] == ("param", "attach_datastore_records"),
          "datastore records are attached although that was not wanted")
    c.ob("G4-datastore-records", "last", fl.path(fl.out_edges(ds), ad + ro + un), "datastore records are attached before the inputs are final")
    # the skeleton all steps work on is one and the same, and it is returned
    mk = ctor(fl, "QuantumGraphSkeleton")
    for n in mk:
        v = arg(n, 0, "task_labels")
        c.ob("G5-one-skeleton", "tasks", None if v is not None and mentions(ex(fl, v, n), lambda s: tail(s) == "tasks") else True, "the skeleton lacks tasks", n)
    for r in retvals(fl):
        c.ob("G5-one-skeleton", "returned", None if frm(fl, r.value, r, mk, False) else True, "the skeleton returned is not the one that was filled", r)
    for n in rs + ad:
        v = arg(n, 1, "skeleton")
        c.ob("G5-one-skeleton", n.name, None if v is not None and frm(fl, v, n, mk, False) else True, "a step works on another skeleton", n)
        hs = loops_of(fl, n)
        v = arg(n, 0, "task_node")
        c.ob("G5b-own-task", n.name, None if v is not None and any(_of(fl, v, n, h) for h in hs) else True, "a task's quanta are handled as another's", n)
    # what was skipped is reported for the task it belongs to
    put = [n for n in g.live if n.kind == "substore" and frm(fl, n.value, n, rs, False)]
    for n in put:
        ok = mentions(ex(fl, n.key, n), lambda s: tail(s) == "label") and any(_of(fl, n.key, n, h) for h in loops_of(fl, n))
        c.ob("G5c-skipped", "stored", None if ok else True, "skipped quanta are counted for another task", n)
    for n in ad:
        v = arg(n, 2, "skipped_quanta")
        t = ex(fl, v, n) if v is not None else ()
        ok = not (t and t[0] == "sub") or mentions(t[2], lambda s: tail(s) == "label") and any(_of(fl, v, n, h) for h in loops_of(fl, n))
        c.ob("G5c-skipped", "used", None if ok else True, "skipped quanta are counted for another task", n)
    # the init outputs of the run as a whole
    an = [n for n in calls(fl, "add_dataset_node")]
    gl = [n for n in an if n.kwargs.get("is_global_init_output") == const(True) or len(n.args) > 2]
    present(c, "G6-global-init", "added", gl, "the init outputs of the run are not part of the graph", fl)
    sr = calls(fl, "set_dataset_ref")
    for h in loops_over(fl, "attr", "_global_init_output_types"):
        each(c, "G6-global-init", "every", fl, h, gl, "an init output of the run is not part of the graph")
        each(c, "G6-global-init", "resolved", fl, h, sr, "an init output of the run is not resolved")
        look = [n for n in calls(fl, "get") if n.id in fl.loop_body(h)]
        no = as_edges(fl, {x for x in lit_edges(fl, none_lit(fl, look, True)) if x[0] in fl.loop_body(h)})
        new = ctor(fl, "DatasetRef")
        ok = new and (not look or no)
        c.ob("G6-global-init", "new", None if ok else True, "an init output of the run that does not exist yet is not resolved", h)
        for n in sr:
            if len(n.args) > 1:
                c.ob("G6-global-init", "same", None if frm(fl, n.args[1], n, gl) else True, "an init output of the run is resolved as another dataset", n)
    fl = _all(c, B, "_resolve_task_quanta", "only some of the quanta are resolved")
    ub, up = calls(fl, "update_bounds"), calls(fl, "_update_quantum_for_adjust")
    present(c, "G7-bounds", "updated", ub, "bounds of prerequisite lookups are not initialised", fl)
    c.ob("G7-bounds", "first", fl.must_precede(ub, up) if up else True, "prerequisites are looked up with bounds of another stage")
    mb, mt = calls(fl, "make_skypix_bounds_builder"), calls(fl, "make_timespan_builder")
    for n in mb + mt:
        hs = loops_of(fl, n)
        v = arg(n, 0, "quantum_data_id")
        ok = v is not None and any(_of(fl, v, n, h) for h in hs)
        c.ob("G7b-own-bounds", n.name, None if ok else True, "prerequisites of a quantum are looked up with another quantum's bounds", n)
        w = fl.path([fl.g.entry], up, stop_node=lambda m, n=n: m is n)
        c.ob("G7b-own-bounds", n.name + ":per quantum", w, "bounds are shared between quanta", n)
        for h in hs:
            w = fl.path([(h, "elem")], up, stop_node=lambda m, n=n: m.name == n.name if m.kind == "call" else False)
            c.ob("G7b-own-bounds", n.name + ":fresh", w, "bounds accumulate over quanta", n)
    for n in up:
        for v, ns, what in ((arg(n, 3, "skypix_bounds_builder"), mb, "spatial"), (arg(n, 4, "timespan_builder"), mt, "temporal")):
            c.ob("G7c-bounds-used", what, None if v is not None and frm(fl, v, n, ns) else True, "prerequisites are looked up with other bounds", n)
        v = arg(n, 0, "quantum_key")
        c.ob("G7c-bounds-used", "quantum", None if v is not None and any(_of(fl, v, n, h) for h in loops_of(fl, n)) else True, "another quantum is resolved", n)


def resolved(c, B):
    fl = _all(c, B, "_update_quantum_for_adjust", "only some of the datasets of a quantum are resolved")
    g = fl.g
    hd = calls(fl, "handle_dataset")
    sky = [n for n in hd if n.recv is not None and fl.derives(n.recv, n, P("skypix_bounds_builder"))]
    tim = [n for n in hd if n.recv is not None and fl.derives(n.recv, n, P("timespan_builder"))]
    fin = calls(fl, "finish")
    gr = calls(fl, "get_dataset_ref")
    for what, ns in (("spatial", sky), ("temporal", tim)):
        for it, skip in (("iter_outputs_of", None), ("iter_inputs_of", none_lit(fl, gr, True))):
            hs = _loops(fl, it)
            present(c, "G8-bounds-complete", f"{what}:{it}", hs, "the datasets of a quantum are not looked at", fl)
            for h in hs:
                each(c, "G8-bounds-complete", f"{what}:{it}", fl, h, [n for n in ns if n.id in fl.loop_body(h)],
                     "a dataset is left out of the bounds within which prerequisites are looked up", unless=skip)
                for n in ns:
                    if n.id in fl.loop_body(h):
                        for i, v in enumerate((arg(n, 0, "parent_dataset_type_name"), arg(n, 1, "data_id"))):
                            ok = v is not None and _of(fl, v, n, h)
                            c.ob("G8b-own-region", f"{what}:{it}:{i}", None if ok else True, "bounds are taken from another dataset", n)
                        v = arg(n, 0, "parent_dataset_type_name")
                        if v is not None:
                            c.ob("G8b-own-region", f"{what}:{it}:type", None if tail(ex(fl, v, n)) == "parent_dataset_type_name" else True,
                                 "bounds are taken from another dataset type", n)
                        v = arg(n, 1, "data_id")
                        if v is not None:
                            ok = _fromcall(fl, v, n, "get_data_id") or tail(ex(fl, v, n)) == "dataId"
                            c.ob("G8b-own-region", f"{what}:{it}:data id", None if ok else True, "bounds are taken from something other than the data ID", n)
        c.ob("G8c-bounds-order", what, fl.path(fl.out_edges([n for n in fin if n.recv is not None and fl.derives(n.recv, n, P(
            "skypix_bounds_builder" if what == "spatial" else "timespan_builder"))]), ns), "bounds are used before they are complete")
    fd = calls(fl, "find")
    hs = loops_over(fl, "attr", "finders")
    present(c, "G9-prerequisites", "looked up", fd, "prerequisites are not looked up", fl)
    for h in hs:
        each(c, "G9-prerequisites", "every", fl, h, fd, "a prerequisite input is not looked up")
        ae = calls(fl, "add_input_edges", "add_input_edge")
        if not [x for x in iters(fl) if x.id in fl.loop_body(h) and ae and all(a.id in fl.loop_body(x) for a in ae)]:
            each(c, "G9-prerequisites", "connected", fl, h, ae, "the prerequisites found are not connected to the quantum")
    an = calls(fl, "add_prerequisite_node")
    for h in iters(fl, comp=None):
        if not frm(fl, h.iterable, h, fd):
            continue
        if h.d.get("comp"):
            continue
        each(c, "G9b-found-used", "node", fl, h, an, "a prerequisite that was found is dropped")
        ins = [n for n in g.live if n.kind == "call" and n.name in ("append", "add", "add_input_edge") and n.id in fl.loop_body(h) and any(frm(fl, a, n, an) for a in n.args)]
        each(c, "G9b-found-used", "edge", fl, h, ins, "a prerequisite that was found is not connected to the quantum")
    for n in calls(fl, "add_input_edges", "add_input_edge"):
        ok = fl.derives(arg(n, 0, "task_key"), n, P("quantum_key")) and frm(fl, arg(n, 1, "dataset_keys", "dataset_key"), n, an)
        c.ob("G9c-own-edges", n.name, None if ok else True, "a prerequisite is connected to another quantum", n)
    for n in fd:
        sb, ts = arg(n, 3, "skypix_bounds"), arg(n, 4, "timespan")
        for v, ns, what in ((sb, "skypix_bounds_builder", "spatial"), (ts, "timespan_builder", "temporal")):
            ok = v is not None and fl.derives(v, n, P(ns))
            c.ob("G9d-find-arguments", what, None if ok else True, "prerequisites are looked up without the quantum's bounds", n)
        v = arg(n, 2, "data_id")
        ok = v is not None and fl.derives(v, n, P("quantum_key"))
        c.ob("G9d-find-arguments", "data id", None if ok else True, "prerequisites are looked up for another data ID", n)
        v = arg(n, 1, "input_collections")
        c.ob("G9d-find-arguments", "collections", None if v is not None and tail(ex(fl, v, n)) == "input_collections" else True,
             "prerequisites are looked up in other collections", n)
    # a new reference describes the dataset it is made for
    for n in ctor(fl, "DatasetRef"):
        dt, di = arg(n, 0, "datasetType"), arg(n, 1, "dataId")
        ok = dt is not None and mentions(ex(fl, dt, n), lambda s: tail(s) == "dataset_type") and di is not None and _fromcall(fl, di, n, "get_data_id")
        c.ob("G10-new-refs", "output", None if ok else True, "a new output does not have the data ID and type of its node", n)
    for n in calls(fl, "get_data_id"):
        hs = [h for h in loops_of(fl, n)]
        v = arg(n, 0, "key")
        ok = v is not None and (any(_of(fl, v, n, h) for h in hs) if hs else fl.derives(v, n, P("quantum_key")))
        c.ob("G10b-own-data-id", "lookup", None if ok else True, "the data ID of another node is used", n)


def adapt(c, B):
    for name, it, both in (("_adapt_quantum_outputs", "iter_outputs_of", "iter_all_outputs"), ("_adapt_quantum_inputs", "iter_inputs_of", "iter_all_inputs")):
        fl = _all(c, B, name, "only some of the datasets of a quantum are passed on")
        g = fl.g
        gr = calls(fl, "get_dataset_ref")
        hs = _loops(fl, it, comp=None)
        present(c, "G11-all-datasets", name, hs, "the quantum's own datasets are not passed on", fl)
        for n in calls(fl, it):
            c.ob("G11-all-datasets", name + ":own", None if n.args and fl.derives(n.args[0], n, P("quantum_key")) else True, "another quantum's datasets are passed on", n)
        col = [n for n in g.live if n.kind == "call" and n.name in ("append", "add", "extend", "update") and any(frm(fl, a, n, gr) for a in n.args)]
        for h in hs:
            if h.d.get("comp"):
                continue
            each(c, "G11-all-datasets", name + ":collected", fl, h, col, "a dataset of a quantum is not passed on")
        for n in col:
            if n.recv is None:
                continue
            r = ex(fl, n.recv, n, 8)
            keys = [s[4][0] for s in subterms(r) if s[0] == "call" and s[2] in ("setdefault",) and s[4]] + [s[2] for s in subterms(r) if s[0] == "sub"]
            if keys:
                c.ob("G11b-by-type", name + ":grouped", None if any(tail(k) == "parent_dataset_type_name" for k in keys) else True,
                     "datasets are grouped by something other than their type", n)
        st = [n for n in g.live if n.kind == "substore" and _fromcall(fl, n.key, n, "adapt_dataset_type")]
        he = _loops(fl, both)
        present(c, "G11c-all-connections", name, he, "connections are left out", fl)
        for h in he:
            # a type that is there already is shared between connections
            seen = lambda lit, n: (lit[0] == "isnone" and lit[2] is False or lit[0] == "truth" and lit[2] is True or lit[0] == "in" and lit[3] is True)  # noqa: E731
            each(c, "G11c-all-connections", name + ":stored", fl, h, st, "a connection of the task gets no datasets", unless=(
                seen if both == "iter_all_inputs" else None))
            for n in st:
                ok = _of(fl, n.key, n, h) and fl.derives(n.value, n, lambda t, m, h=h: t == ("elem", h.id))
                c.ob("G11d-own-type", name, None if ok else True, "a connection gets the datasets of another", n)
        for r in retvals(fl):
            v = r.value
            c.ob("G11e-returned", name, None if any(fl.term(v, r) == fl.term(n.base, n) for n in st) or not st else True, "what was collected is not returned", r)
        for n in calls(fl, "adapt_dataset_ref"):
            hh = [h for h in he if _of(fl, n.recv, n, h)] if n.recv is not None else []
            c.ob("G11f-converted", name, None if hh else True, "datasets are converted for another connection", n)
        if not calls(fl, "adapt_dataset_ref"):
            c.fail("G11f-converted", name, "datasets are not converted to the type the task asked for", func=g.root)
        for h in iters(fl, comp=True):
            if any(m.id in fl.loop_body(h) for m in calls(fl, "adapt_dataset_ref")):
                ce = {m.id for m in g.live if m.kind == "compelt" and m.id in fl.loop_body(h)}
                w = fl.path([(h, "elem")], lambda m, h=h: m is h, stop_node=lambda m: m.id in ce)
                c.ob("G11g-none-filtered", name, w, "datasets of a quantum are filtered out", h)
    # two connections with one dataset type must agree
    ne = as_edges(fl, lit_edges(fl, lambda lit, n: lit[0] == "eq" and lit[3] is False and any(_fromcall(fl, x, n, "adapt_dataset_type") for x in lit[1:3])))
    c.ob("G12-same-type", "tested", None if ne else True, "two storage classes for one input dataset type go unnoticed", func=fl.g.root)
    c.ob("G12-same-type", "raises", fl.path(ne, [fl.g.exit]) if ne else None, "two storage classes for one input dataset type go unnoticed")


def init(c, B):
    fl = _all(c, B, "_resolve_task_init", "only some of the init datasets of a task are resolved")
    g = fl.g
    hi, ho = _loops(fl, "iter_all_inputs"), _loops(fl, "iter_all_outputs")
    ae, oe, sr, an = calls(fl, "add_input_edge"), calls(fl, "add_output_edge"), calls(fl, "set_dataset_ref"), calls(fl, "add_dataset_node")
    isinit = lambda e, n: fl.derives(e, n, lambda t, m: t[0] == "tmp" and g.nodes[t[1]].kind == "call" and g.nodes[t[1]].name in (  # noqa: E731
        "TaskInitKey", "get_task_init_node"))
    te = [n for n in ae if isinit(arg(n, 0, "task_key"), n)]
    qe = [n for n in ae if n not in te]
    hq = _loops(fl, "get_quanta")
    for h in hi:
        each(c, "G13-init-inputs", "task", fl, h, te, "an init input is not connected to its task")
        inner = [x for x in hq if x.id in fl.loop_body(h)]
        each(c, "G13-init-inputs", "quanta", fl, h, inner or qe, "an init input is not connected to the quanta of the task")
        for x in inner:
            each(c, "G13-init-inputs", "every quantum", fl, x, qe, "an init input is not connected to a quantum of the task")
            for n in qe:
                c.ob("G13b-own-quanta", "edge", None if _of(fl, arg(n, 0, "task_key"), n, x) else True, "an init input is connected to something else", n)
        st = [n for n in g.live if n.kind == "substore" and n.id in fl.loop_body(h) and _fromcall(fl, n.value, n, "adapt_dataset_ref")]
        each(c, "G13c-init-passed", "inputs", fl, h, st, "an init input is not passed to the task")
    for h in ho:
        has = [n for n in oe if n.id in fl.loop_body(h)]
        if has:
            each(c, "G14-init-outputs", "edges", fl, h, has, "an init output is not connected to its task")
            st = [n for n in g.live if n.kind == "substore" and n.id in fl.loop_body(h) and _fromcall(fl, n.value, n, "adapt_dataset_ref")]
            each(c, "G14-init-outputs", "passed", fl, h, st, "an init output is not passed to the task")
        else:
            dc = calls(fl, "discard_output_in_the_way")
            each(c, "G14b-skipped", "in the way", fl, h, dc, "an init output of a skipped task is considered to be in the way")
    present(c, "G14-init-outputs", "edges", oe, "init outputs are not connected to their task", fl)
    for n in te + oe:
        v = arg(n, 1, "dataset_key")
        c.ob("G14c-same-dataset", n.name, None if v is not None and frm(fl, v, n, an) else True, "an init dataset is connected as another", n)
    for n in sr:
        v = arg(n, 1, "key")
        c.ob("G14c-same-dataset", "ref", None if v is None or frm(fl, v, n, an) else True, "an init dataset is resolved as another", n)
    for n in an:
        v = arg(n, 0, "parent_dataset_type_name")
        ok = v is not None and tail(ex(fl, v, n)) == "parent_dataset_type_name" and any(_of(fl, v, n, h) for h in hi + ho)
        c.ob("G14c-same-dataset", "node", None if ok else True, "an init dataset is added under another name", n)
    # state handed to the graph
    adapted = {}
    for kind, hs in (("inputs", hi), ("outputs", ho)):
        adapted[kind] = {fl.term(n.base, n) for h in hs for n in g.live if n.kind == "substore" and n.id in fl.loop_body(h) and _fromcall(fl, n.value, n, "adapt_dataset_ref")}
    inq = [n for n in g.live if _keyed(fl, n, "init_inputs")]
    for h in hq:
        if any(h.id in fl.loop_body(x) for x in hi):
            continue
        if any(n.id in fl.loop_body(h) for n in inq):
            each(c, "G15-init-state", "quanta", fl, h, inq, "a quantum does not know its init inputs")
    present(c, "G15-init-state", "quanta", inq, "quanta do not know their init inputs", fl)
    st = {k: [n for n in g.live if _keyed(fl, n, k)] for k in ("inputs", "outputs")}
    has = [(h, "done") for h in hi]
    for k in ("inputs", "outputs"):
        w = fl.path(has, [g.exit], stop_node=lambda m, k=k: m in st[k])
        c.ob("G15-init-state", k, w if st[k] else True, f"the init {k} of a task are not recorded", func=g.root)
        for n in st[k]:
            ok = fl.term(n.value, n) in adapted[k] or not adapted[k]
            c.ob("G15-init-state", k + ":value", None if ok else True, f"the init {k} recorded for a task are others", n)
            c.ob("G15-init-state", k + ":task", None if isinit(n.base, n) else True, f"the init {k} of a task are recorded for something else", n)
    for n in inq:
        ok = fl.term(n.value, n) in adapted["inputs"] or not adapted["inputs"]
        c.ob("G15-init-state", "quanta:value", None if ok else True, "quanta get other init inputs than their task", n)
    # which of the two cases applies
    gq = calls(fl, "get_quanta")
    for n in te + oe:
        guard(c, "G16-case", n.name, fl, [n], lambda lit, b: lit[0] == "truth" and lit[2] is True and frm(fl, lit[1], b, gq) or lit[0] in ("lt", "eq") and frm(
            fl, lit[1], b, gq) or lit[0] in ("lt", "eq") and frm(fl, lit[2], b, gq), "init datasets of a task without quanta are resolved")
    sk = [h for h in ho if not [n for n in oe if n.id in fl.loop_body(h)]]
    was = lambda pol: lambda lit, b: lit[0] == "truth" and lit[2] is pol and lit[1] == ("param", "has_skipped_quanta")  # noqa: E731
    if sk:
        guard(c, "G16-case", "skipped", fl, sk, was(True), "init outputs are looked up for a task of which nothing was skipped")
        yes = as_edges(fl, lit_edges(fl, was(True)))
        w = fl.path(yes, [g.exit], stop_node=lambda m: m in sk or m in te or m in oe) if yes else True
        c.ob("G16-case", "skipped used", w, "the init outputs of a skipped task are not resolved", func=g.root)
    else:
        c.fail("G16-case", "skipped used", "the init outputs of a skipped task are not resolved", func=g.root)
    inp = [n for n in g.live if n.kind == "subload" and mentions(ex(fl, n.base, n), lambda s: tail(s) == "empty_dimensions_datasets") and tail(ex(fl, n.base, n)) == "inputs"]
    ends = set(sr) | set(hi) | {g.exit}
    w = fl.path([(n, "exc") for n in inp], lambda m: m in ends) if inp else None
    c.ob("G16c-missing", "init input", w, "an init input that does not exist is accepted")
    for a in calls(fl, "adapt_dataset_ref"):
        c.ob("G16b-adapted", "edge", None if a.recv is not None and any(_of(fl, a.recv, a, h) for h in hi + ho) else True, "init datasets are converted for another connection", a)


def records(c, B):
    fl = _all(c, B, "_attach_datastore_records", "datastore records are attached to only some quanta")
    g = fl.g
    eo, xr = calls(fl, "extract_overall_inputs"), calls(fl, "export_records")
    st = [n for n in g.live if _keyed(fl, n, "datastore_records")]
    present(c, "G17-records", "attached", st, "datastore records are not attached", fl)
    for n in xr:
        c.ob("G17-records", "exported", None if n.args and frm(fl, n.args[0], n, eo) else True, "the records of other datasets are exported", n)
    # every task in the skeleton, every quantum
    absent = lambda lit, n: lit[0] == "truth" and lit[2] is False and _fromcall(fl, lit[1], n, "has_task")  # noqa: E731
    hq = _loops(fl, "get_quanta")
    q = [n for n in st if any(n.id in fl.loop_body(h) for h in hq)]
    i = [n for n in st if n not in q]
    for h in hq:
        each(c, "G17-records", "every quantum", fl, h, q, "a quantum has no datastore records")
    for h in loops_over(fl, "attr", "tasks"):
        each(c, "G17-records", "every task", fl, h, i, "the init step of a task has no datastore records", unless=absent)
        each(c, "G17-records", "quanta of every task", fl, h, hq, "the quanta of a task have no datastore records", unless=absent)
    # the records stored are those of the node's own inputs
    sub = calls(fl, "subset")
    hd = [h for h in loops_over(fl, "call", "export_records", comp=None)]
    empty = lit_edges(fl, lambda lit, b: lit[0] == "truth" and lit[2] is False and not _fromcall(fl, lit[1], b, "has_task"))
    for n in st:
        hs = [h for h in hq if n.id in fl.loop_body(h)]
        its = [m for m in calls(fl, "iter_inputs_of") if any(m.id in fl.loop_body(h) for h in hs) == bool(hs)]
        w = fl.path(fl.out_edges(its), [n], stop_node=lambda m: m in hd or m.kind == "iter" and any(m is h for h in hq + loops_over(fl, "attr", "tasks")),
                    stop_edge=lambda b, lab: (b.id, lab) in empty) if hd and its else None
        c.ob("G17f-looked-up", "quantum" if hs else "init", w, "datastore records are not looked up")
    for n in st:
        ins = fl.inserts(n.value) if n.value[0] == "var" else []
        hs = [h for h in hq if n.id in fl.loop_body(h)]
        for m in ins:
            if m.kind == "substore":
                c.ob("G17b-own-records", "records", None if frm(fl, m.value, m, sub) else True, "records of other datasets are attached", m)
    # every datastore: no record set is left out except if empty
    for h in loops_over(fl, "call", "export_records"):
        ins = [n for n in g.live if n.kind == "substore" and n.id in fl.loop_body(h) and frm(fl, n.value, n, sub)]
        each(c, "G17c-all-datastores", "records", fl, h, ins, "the records of a datastore are left out", unless=none_lit(fl, sub, True))
    for n in sub:
        a = n.args[0] if n.args else None
        if a is None:
            continue
        t = fl.term(a, n)
        its = []
        if t[0] == "comp":
            its = [g.nodes[x] for x in t[3]]
        for h in its:
            it = ex(fl, h.iterable, h, 8)
            ok = _called(it, "iter_inputs_of")
            c.ob("G17d-own-inputs", "inputs", None if ok else True, "records of something other than the inputs are attached", h)
            ce = {m.id for m in g.live if m.kind == "compelt" and m.id in fl.loop_body(h)}
            unless = lit_edges(fl, lambda lit, b: (lit[0] == "isnone" and lit[2] is True or lit[0] == "truth" and lit[2] is False) and (
                _fromcall(fl, lit[1], b, "get") or frm(fl, lit[1], b, eo)) or lit[0] == "in" and lit[3] is False)
            w = fl.path([(h, "elem")], lambda m, h=h: m is h, stop_node=lambda m: m.id in ce, stop_edge=lambda b, lab: (b.id, lab) in unless)
            c.ob("G17d-own-inputs", "all", w, "an overall input is left without datastore records", h)
    for n in calls(fl, "iter_inputs_of"):
        hs = [h for h in hq if n.id in fl.loop_body(h)]
        ok = n.args and (any(_of(fl, n.args[0], n, h) for h in hs) if hs else _fromcall(fl, n.args[0], n, "get_task_init_node", "TaskInitKey"))
        c.ob("G17d-own-inputs", "node", None if ok else True, "records of another quantum's inputs are attached", n)
    for n in st:
        hs = [h for h in hq if n.id in fl.loop_body(h)]
        b = n.base
        ok = any(_of(fl, b, n, h) for h in hs) if hs else _fromcall(fl, b, n, "get_task_init_node", "TaskInitKey")
        c.ob("G17e-node", "quantum" if hs else "init", None if ok else True, "records are attached to another quantum", n)
        guard_free = fl.path([fl.g.entry], [n])
        c.ob("G17e-node", "reachable", None if guard_free is not None else True, "records are never attached", n)


def predicted(c, B):
    fl = _all(c, B, "_make_predicted_datasets", "only some of the datasets of a quantum reach the graph")
    g = fl.g
    fr = calls(fl, "from_dataset_ref")
    hs = loops_over(fl, "param", "dataset_keys")
    he = loops_over(fl, "param", "edges", comp=None)
    present(c, "G18-predicted", "datasets", hs, "the datasets of a quantum do not reach the graph", fl)
    present(c, "G18-predicted", "connections", he, "the connections of a task do not reach the graph", fl)
    put = [n for n in g.live if n.kind == "call" and n.name in ("append", "add", "extend") and any(frm(fl, a, n, fr) for a in n.args)]
    app = [n for n in g.live if n.kind == "call" and n.name in ("append", "add") and n.args and tail(ex(fl, n.args[0], n)) == "connection_name"]
    look = calls(fl, "get")
    other = lambda lit, n: (lit[0] == "isnone" and lit[2] is True or lit[0] == "truth" and lit[2] is False) and frm(fl, lit[1], n, look) or (  # noqa: E731
        lit[0] == "in" and lit[3] is False)
    for h in hs:
        inner = [x for x in iters(fl, comp=False) if x.id in fl.loop_body(h) and x is not h]
        each(c, "G18-predicted", "every dataset", fl, h, inner or put, "a dataset of a quantum does not reach the graph", unless=other)
        for x in inner:
            each(c, "G18-predicted", "every connection of it", fl, x, put, "a dataset does not reach all connections it belongs to")
        for n in calls(fl, "get_dataset_ref"):
            c.ob("G18b-own-ref", "ref", None if n.args and _of(fl, n.args[0], n, h) else True, "another dataset reaches the graph", n)
    for n in put:
        ok = any(frm(fl, m.args[0], m, calls(fl, "get_dataset_ref")) for m in fr if m.args)
        c.ob("G18b-own-ref", "model", None if ok else True, "something other than the resolved dataset reaches the graph", n)
    for h in he:
        if h.d.get("comp"):
            continue
        each(c, "G18c-all-connections", "names", fl, h, app, "a connection of the task gets no datasets")
        rs = [n for n in g.live if n.kind == "substore" and tail(ex(fl, n.key, n)) == "connection_name" or n.kind == "call" and n.name == "setdefault" and n.args and tail(
            ex(fl, n.args[0], n)) == "connection_name"]
        each(c, "G18c-all-connections", "entries", fl, h, rs, "a connection without datasets is missing from the quantum")
        for n in app:
            r = ex(fl, n.recv, n, 8) if n.recv is not None else ()
            keys = [s[2] for s in subterms(r) if s[0] == "sub"] + [s[4][0] for s in subterms(r) if s[0] == "call" and s[2] == "setdefault" and s[4]] if r else []
            ok = not keys or any(tail(k) == "parent_dataset_type_name" for k in keys)
            c.ob("G18d-by-type", "names", None if ok else True, "connections are looked up by something other than the dataset type", n)
    present(c, "G18e-order", "sorted", calls(fl, "sort", "sorted"), "datasets are listed in an arbitrary order", fl)
    for n in look:
        if n.args and any(_of(fl, n.args[0], n, h) for h in hs):
            c.ob("G18d-by-type", "lookup", None if tail(ex(fl, n.args[0], n)) == "parent_dataset_type_name" else True,
                 "connections are looked up by something other than the dataset type", n)


def components(c, B):
    fl = _all(c, B, "_construct_components", "only part of the skeleton reaches the graph")
    g = fl.g
    mk = ctor(fl, "PredictedQuantumDatasetsModel")
    hq = _loops(fl, "get_quanta")
    ht = loops_over(fl, "attr", "tasks")
    present(c, "G19-components", "quanta", hq, "the quanta do not reach the graph", fl)
    absent = lambda lit, n: lit[0] == "truth" and lit[2] is False and _fromcall(fl, lit[1], n, "has_task")  # noqa: E731
    st = [n for n in g.live if n.kind == "substore" and tail(ex(fl, n.base, n)) == "quantum_datasets"]
    qm = [n for n in mk if any(n.id in fl.loop_body(h) for h in hq)]
    im = [n for n in mk if n not in qm and any(n.id in fl.loop_body(h) for h in ht)]
    gm = [n for n in mk if n not in qm and n not in im]
    ap = [n for n in calls(fl, "append") if n.args and frm(fl, n.args[0], n, im, False)]
    for h in hq:
        each(c, "G19-components", "every quantum", fl, h, st, "a quantum does not reach the graph")
    for h in ht:
        each(c, "G19-components", "init of every task", fl, h, ap, "the init step of a task does not reach the graph", unless=absent)
        each(c, "G19-components", "quanta of every task", fl, h, hq, "the quanta of a task do not reach the graph", unless=absent)
    for n in st:
        ok = frm(fl, n.value, n, qm, False) and tail(ex(fl, n.key, n)) == "quantum_id" and frm(fl, n.key, n, qm, False)
        c.ob("G19b-own-id", "quantum", None if ok else True, "a quantum is stored under another ID", n)
    for n in ap:
        c.ob("G19c-init-list", "init", None if n.recv is not None and mentions(ex(fl, n.recv, n), lambda s: tail(s) == "init_quanta") else True,
             "init steps are stored somewhere else", n)
    present(c, "G19d-global-init", "quantum", gm, "the init outputs of the run do not reach the graph", fl)
    mp = calls(fl, "_make_predicted_datasets")
    for n in mk:
        where = "quantum" if n in qm else "init" if n in im else "global"
        k = kws(n)
        for f in ("quantum_id", "task_label") + (("inputs", "outputs", "datastore_records") if where != "global" else ("outputs",)) + (
                ("data_coordinate",) if where == "quantum" else ()):
            c.ob("G20-fields", f"{where}:{f}", None if f in k else True, f"a quantum reaches the graph without its {f}", n)
        if "quantum_id" in k:
            c.ob("G20b-values", where + ":id", None if _fromcall(fl, k["quantum_id"], n, "generate_uuidv7", "uuid4", "uuid7") else True, "quanta share IDs", n)
        if "task_label" in k:
            t = ex(fl, k["task_label"], n)
            ok = t == const("") if where == "global" else tail(t) == "label" and any(_of(fl, k["task_label"], n, h) for h in ht)
            c.ob("G20b-values", where + ":label", None if ok else True, "a quantum reaches the graph under another task", n)
        if where == "global":
            continue
        for f, all_, its in (("inputs", "iter_all_inputs", "iter_inputs_of"), ("outputs", "iter_all_outputs", "iter_outputs_of")):
            if f not in k:
                continue
            e, m = k[f], n
            src = [g.nodes[s[1]] for s in [fl.term(e, n)] if s[0] == "tmp"]
            for m in src:
                if m.name != "_make_predicted_datasets":
                    continue
                sk, ed, dk = arg(m, 0, "skeleton"), arg(m, 1, "edges"), arg(m, 2, "dataset_keys")
                te, td = ex(fl, ed, m, 8), ex(fl, dk, m, 8)
                c.ob("G20c-datasets", f"{where}:{f}:edges", None if _called(te, all_) else True, f"a quantum reaches the graph with other {f}", m)
                c.ob("G20c-datasets", f"{where}:{f}:nodes", None if _called(td, its) else True, f"a quantum reaches the graph with other {f}", m)
                isin = mentions(te, lambda s: tail(s) == "init")
                c.ob("G20c-datasets", f"{where}:{f}:kind", None if isin == (where == "init") else True, f"a quantum reaches the graph with other {f}", m)
                for x in calls(fl, its):
                    if frm(fl, dk, m, [x], False):
                        if where == "quantum":
                            ok = x.args and any(_of(fl, x.args[0], x, h) for h in hq)
                        else:
                            ok = x.args and _fromcall(fl, x.args[0], x, "TaskInitKey", "get_task_init_node")
                        c.ob("G20c-datasets", f"{where}:{f}:own", None if ok else True, f"a quantum reaches the graph with the {f} of another", x)
        if "datastore_records" in k:
            t = fl.term(k["datastore_records"], n)
            if t[0] == "comp":
                for x in t[3]:
                    h = g.nodes[x]
                    it = ex(fl, h.iterable, h, 8)
                    ok = mentions(it, lambda s: s == const("datastore_records"))
                    c.ob("G20d-records", where, None if ok else True, "a quantum reaches the graph with other datastore records", h)
                    own = any(_of(fl, h.iterable, h, x2) for x2 in hq) if where == "quantum" else _fromcall(fl, h.iterable, h, "TaskInitKey", "get_task_init_node")
                    c.ob("G20d-records", where + ":own", None if own else True, "a quantum reaches the graph with the datastore records of another", h)
                    ce = {m.id for m in g.live if m.kind == "compelt" and m.id in fl.loop_body(h)}
                    w = fl.path([(h, "elem")], lambda m, h=h: m is h, stop_node=lambda m: m.id in ce)
                    c.ob("G20d-records", where + ":all", w, "datastore records are left out", h)
        if "data_coordinate" in k:
            t = ex(fl, k["data_coordinate"], n, 8)
            ok = mentions(t, lambda s: tail(s) == "full_values") and any(_of(fl, k["data_coordinate"], n, h) for h in hq)
            c.ob("G20e-data-id", "quantum", None if ok else True, "a quantum reaches the graph with another data ID", n)
    for n in gm:
        k = kws(n)
        if "outputs" in k:
            ok = mentions(ex(fl, k["outputs"], n, 8), lambda s: tail(s) == "global_init_outputs") or fl.derives(
                k["outputs"], n, lambda t, m: tail(t) == "global_init_outputs")
            t = fl.term(k["outputs"], n)
            if t[0] == "comp":
                for x in t[3]:
                    h = g.nodes[x]
                    ok = ok or tail(ex(fl, h.iterable, h)) == "global_init_outputs"
                    ce = {m.id for m in g.live if m.kind == "compelt" and m.id in fl.loop_body(h)}
                    c.ob("G19d-global-init", "all", fl.path([(h, "elem")], lambda m, h=h: m is h, stop_node=lambda m: m.id in ce), "init outputs of the run are left out", h)
            c.ob("G19d-global-init", "outputs", None if ok else True, "the init outputs of the run do not reach the graph", n)
    # header, thin graph and counts, computed once everything is there
    for nm in ("set_thin_graph", "set_header_counts"):
        ns = calls(fl, nm)
        w = fl.path([g.entry], [g.exit], stop_node=lambda m, ns=ns: m in ns)
        c.ob("G21-summary", nm, w, "the summary of the graph is not computed")
        c.ob("G21-summary", nm + ":last", fl.path(fl.out_edges(ns), st + ap), "the summary is computed before the graph is complete")
    for at, want in (("inputs", "input_collections"), ("output_run", "output_run"), ("output", None)):
        ns = [n for n in g.live if n.kind == "attrstore" and n.name == at and mentions(ex(fl, n.base, n), lambda s: tail(s) == "header")]
        w = fl.path([g.entry], [g.exit], stop_node=lambda m, ns=ns: m in ns)
        c.ob("G22-header", at, w, f"the graph does not say its {at}")
        for n in ns:
            v = ex(fl, n.value, n)
            ok = v == ("param", "output") if want is None else mentions(v, lambda s: is_self_attr(s, want))
            c.ob("G22-header", at + ":value", None if ok else True, f"the graph records another {at}", n)
    md = [n for n in calls(fl, "update") if n.args and fl.derives(n.args[0], n, P("metadata"))]
    no = lit_edges(fl, lambda lit, n: (lit[0] == "isnone" and lit[2] is True or lit[0] == "truth" and lit[2] is False) and lit[1] == ("param", "metadata"))
    ms = [n for n in g.live if n.kind == "attrstore" and n.name == "metadata"]
    w = fl.path([g.entry], [g.exit], stop_node=lambda m: m in md or m in ms, stop_edge=lambda n, lab: (n.id, lab) in no)
    c.ob("G22-header", "metadata", w, "the caller's metadata is not recorded")
    dd = [n for n in g.live if n.kind == "attrstore" and n.name == "dimension_data"]
    w = fl.path([g.entry], [g.exit], stop_node=lambda m: m in dd)
    c.ob("G23-dimension-data", "set", w, "the graph lacks its dimension records")
    for n in ctor(fl, "DimensionDataAttacher"):
        r, d = n.kwargs.get("records"), n.kwargs.get("dimensions")
        ok = r is not None and _fromcall(fl, r, n, "get_dimension_data") and d is not None and _fromcall(fl, d, n, "get_all_dimensions")
        c.ob("G23-dimension-data", "records", None if ok else True, "the graph lacks dimension records", n)


def old_graph(c, B):
    fl = _all(c, B, "_construct_quantum_graph", "only part of the skeleton reaches the graph")
    g = fl.g
    mk, qg = ctor(fl, "Quantum"), [n for n in ctor(fl, "QuantumGraph")]
    hq, ht = _loops(fl, "get_quanta"), _loops(fl, "_iter_task_defs")
    absent = lambda lit, n: lit[0] == "truth" and lit[2] is False and _fromcall(fl, lit[1], n, "has_task")  # noqa: E731
    present(c, "G24-old-graph", "quanta", mk, "the quanta do not reach the graph", fl)
    for h in hq:
        ad = [n for n in calls(fl, "add", "append") if n.args and frm(fl, n.args[0], n, mk, False)]
        each(c, "G24-old-graph", "every quantum", fl, h, ad, "a quantum does not reach the graph")
    k = kws(qg[0]) if qg else {}
    for h in ht:
        for nm, e in (("quanta", qg[0].args[0] if qg and qg[0].args else k.get("quanta")), ("init inputs", k.get("initInputs")), ("init outputs", k.get("initOutputs"))):
            if e is None:
                c.fail("G24-old-graph", nm, f"the {nm} do not reach the graph", func=g.root)
                continue
            st = [m for m in fl.inserts(e) if m.kind == "substore"]
            want = const(nm.split()[-1])
            ok = [m for m in g.live if m.kind in ("substore", "compelt") and m.d.get("key") is not None and _of(fl, m.key, m, h) and m.d.get("value") is not None and (
                mentions(ex(fl, m.value, m, 8), lambda s: s == want) if nm != "quanta" else m.value[0] in ("var", "tmp") or fl.term(m.value, m)[0] == "comp")]
            if nm == "quanta":
                ok = [m for m in ok if not any(mentions(ex(fl, m.value, m, 8), lambda s, w=w: s == const(w)) for w in ("inputs", "outputs"))]
            c.ob("G24-old-graph", nm + ":any", None if ok else True, f"the {nm} do not reach the graph", qg[0])
            if st:
                each(c, "G24-old-graph", nm, fl, h, st, f"the {nm} of a task do not reach the graph", unless=absent)
            for m in st:
                c.ob("G24b-own-task", nm, None if _of(fl, m.key, m, h) else True, f"the {nm} of a task reach the graph under another", m)
                if nm != "quanta":
                    want = nm.split()[1]
                    t = ex(fl, m.value, m, 8)
                    ok = mentions(t, lambda s: s == const(want)) and not mentions(t, lambda s: s == const("outputs" if want == "inputs" else "inputs"))
                    c.ob("G24b-own-task", nm + ":kind", None if ok else True, f"the {nm} of a task are others", m)
    if qg:
        e = k.get("globalInitOutputs")
        hs = loops_over(fl, "attr", "global_init_outputs")
        gr = calls(fl, "get_dataset_ref")
        ins = [n for n in calls(fl, "append", "add") if n.args and frm(fl, n.args[0], n, gr)]
        if not loops_over(fl, "attr", "global_init_outputs", comp=None):
            c.fail("G24-old-graph", "global init outputs", "the init outputs of the run do not reach the graph", func=g.root)
        for h in hs:
            each(c, "G24-old-graph", "global init outputs", fl, h, ins, "an init output of the run does not reach the graph")
        c.ob("G24-old-graph", "global", None if e is not None else True, "the init outputs of the run do not reach the graph", qg[0])
        for f in ("metadata", "universe", "registryDatasetTypes"):
            c.ob("G24-old-graph", f, None if f in k else True, f"the graph lacks its {f}", qg[0])
        if "metadata" in k:
            ok = fl.derives(k["metadata"], qg[0], P("metadata")) or any(fl.derives(a, m, P("metadata")) for m in fl.inserts(k["metadata"]) for a in fl.inserted(m))
            c.ob("G24-old-graph", "metadata:caller", None if ok else True, "the caller's metadata is not recorded", qg[0])
    for n in mk:
        kk = kws(n)
        for f, key in (("dataId", "data_id"), ("initInputs", "init_inputs"), ("inputs", "inputs"), ("outputs", "outputs"), ("datastore_records", "datastore_records")):
            if f not in kk:
                c.fail("G24c-fields", f, f"a quantum reaches the graph without its {f}", n)
                continue
            ok = mentions(ex(fl, kk[f], n, 8), lambda s: s == const(key)) and any(_of(fl, kk[f], n, h) for h in hq)
            c.ob("G24c-fields", f, None if ok else True, f"a quantum reaches the graph with other {f}", n)
        for f in ("taskName", "taskClass"):
            c.ob("G24c-fields", f, None if f in kk and any(_of(fl, kk[f], n, h) for h in ht) else True, f"a quantum reaches the graph with another {f}", n)
        if "datastore_records" in kk:
            ms = [m for m in calls(fl, "merge_mappings") if frm(fl, kk["datastore_records"], n, [m], False)]
            for m in ms:
                srcs = [any(_of(fl, a, m, h) for h in hq) for a in m.args]
                c.ob("G24c-fields", "init records", None if True in srcs and False in srcs else True, "a quantum lacks the datastore records of its init inputs", m)


def entry(c, B):
    for nm in ("build", "finish"):
        fl = flow_of(c, B, nm)
        bs = calls(fl, "_build_skeleton")
        present(c, "G25-entry", nm, bs, "the graph is not built", fl)
        for n in bs:
            v = arg(n, 0, "attach_datastore_records")
            c.ob("G25-entry", nm + ":records", None if v is not None and fl.derives(v, n, P("attach_datastore_records")) else True,
                 "whether to attach datastore records is ignored", n)
        for n in calls(fl, "_construct_quantum_graph", "_construct_components"):
            v = arg(n, 0, "skeleton")
            c.ob("G25-entry", nm + ":skeleton", None if v is not None and frm(fl, v, n, bs) else True, "another skeleton becomes the graph", n)
            v = n.kwargs.get("metadata") or arg(n, 1 if nm == "build" else 2, "metadata")
            c.ob("G25-entry", nm + ":metadata", None if v is not None and fl.derives(v, n, P("metadata")) else True, "the caller's metadata is ignored", n)
            if nm == "build":
                ds = [m for m in fl.g.live if m.kind == "def" and any(fl.term(v, m)[0] == "dict" and fl.term(v, m)[1] for _, v in m.defs)]
                given = lit_edges(fl, lambda lit, b: (lit[0] == "isnone" and lit[2] is False or lit[0] == "truth" and lit[2] is True) and lit[1] == ("param", "metadata"))
                w = fl.path([fl.g.entry], [n], stop_node=lambda m: m in ds, stop_edge=lambda b, lab: (b.id, lab) in given)
                c.ob("G25-entry", nm + ":default metadata", w, "the graph does not say its collections")
            if nm == "finish":
                v = arg(n, 1, "output")
                c.ob("G25-entry", nm + ":output", None if v is not None and fl.derives(v, n, P("output")) else True, "the output collection is ignored", n)
