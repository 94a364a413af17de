"""Predicted quantum graphs in memory: all views describe the same quanta, datasets and edges; changing the run remaps everything."""

from __future__ import annotations

from .. import q as Q
from ..known import fresh
from ..lib import Check, is_self_attr, self_flag
from ..q import (arg, bycall, calls, comp_filtered, const, ctor, each, evalpoint, ex, follows, guard, iters, kws, lit_edges, mentions, over, retvals,
                 subterms, tail)

PR = "quantum_graph._predicted."
GEN = ("generate_uuidv7", "uuid4", "uuid1", "uuid7")


def run(c: Check):
    C = c.prog.cls(PR + "PredictedQuantumGraphComponents")
    G = c.prog.cls(PR + "PredictedQuantumGraph")
    inl = lambda f: f.module is C.module  # noqa: E731
    thin(c, C, inl)
    counts(c, C, inl)
    rerun(c, C, inl)
    build(c, G, inl)
    execute(c, G, inl)
    init(c, G, inl)
    old(c, C, inl)


def _side(t):
    s = {x[2] for x in subterms(t) if x[0] == "attr" and x[2] in ("inputs", "outputs")}
    s |= {"inputs" for x in subterms(t) if x[0] == "call" and x[2] == "iter_input_dataset_ids"}
    s |= {"outputs" for x in subterms(t) if x[0] == "call" and x[2] == "iter_output_dataset_ids"}
    return s.pop() if len(s) == 1 else None


def _edges(c, fl, where, flags):
    """Reads point from the dataset to the quantum, writes from the quantum to the dataset; none is left out."""
    ae = [n for n in calls(fl, "add_edge") if len(n.args) >= 2]
    sides = set()
    for n in ae:
        a, b = ex(fl, n.args[0], n, 10), ex(fl, n.args[1], n, 10)
        # the dataset end is the one that comes out of the inputs/outputs of a quantum
        qa, qb = tail(a) == "quantum_id", tail(b) == "quantum_id"
        if qa == qb:
            if qa:
                c.fail("S1-edge-ends", where, "an edge does not connect a quantum and a dataset", n)
            continue
        side = _side(b if qa else a)
        if side is None:
            continue
        sides.add(side)
        c.ob("S1-edge-direction", f"{where}:{side}", None if (side == "outputs") == qa else True,
             f"an edge for one of a quantum's {side} points in the wrong direction", n)
        if flags and "is_read" in n.kwargs:
            v = ex(fl, n.kwargs["is_read"], n)
            c.ob("S1b-edge-kind", f"{where}:{side}", None if v == const(side == "inputs") or v[0] != "const" else True,
                 "an edge is marked as a read although it is a write (or vice versa)", n)
        loops = [h for h in fl.enclosing_loops(n) if h.kind == "iter" and _side(ex(fl, h.iterable, h, 10)) == side]
        for h in loops:
            each(c, "S1c-every-edge", f"{where}:{side}", fl, h, [m for m in ae if m.id in fl.loop_body(h)], f"an edge for one of a quantum's {side} is missing")
        outer = [h for h in fl.enclosing_loops(n) if h.kind == "iter" and h not in loops]
        for h in outer:
            hs = [x for x in loops if x.id in fl.loop_body(h)]
            each(c, "S1d-every-quantum", f"{where}:{side}", fl, h, hs, f"the {side} of a quantum are left out of the graph")
    if ae and sides:
        c.ob("S1e-both-sides", where, None if sides == {"inputs", "outputs"} else f"only {sorted(sides)}",
             "only one kind of edges is added", ae[0])
    return ae


def _all_quanta(t):
    return mentions(t, lambda s: is_self_attr(s, "quantum_datasets"))


def thin(c, C, inl):
    fl = c.flow(C.methods["set_thin_graph"].qual, inline=inl)
    g = fl.g
    ae = _edges(c, fl, "set_thin_graph", False)
    mk = ctor(fl, "PredictedThinQuantumModel")
    c.ob("S2-thin-quanta", "instances", None if mk else True, "the thin graph has no quanta", func=g.root)
    for n in mk:
        k = kws(n)
        for name in ("quantum_id", "data_coordinate"):
            ok = name in k and tail(ex(fl, k[name], n)) == name
            c.ob("S2-thin-quanta", name, None if ok else True, f"a thin quantum does not have its quantum's {name}", n)
        loops = [h for h in fl.enclosing_loops(n) if h.kind == "iter" and _all_quanta(ex(fl, h.iterable, h))]
        for h in loops:
            each(c, "S2b-every-quantum", "set_thin_graph", fl, h, mk, "a quantum is missing from the thin graph")
        ap = [m for m in g.live if m.kind == "call" and m.name == "append" and any(fl.derives(a, m, lambda t, z: t == ("tmp", n.id)) for a in m.args)]
        for m in ap:
            r = ex(fl, m.recv, m)
            if r[0] == "sub":
                c.ob("S2c-thin-task", "set_thin_graph", None if tail(r[2]) == "task_label" else True,
                     "a quantum is listed under another task", m)
    pj = calls(fl, "projected_graph")
    st = [n for n in g.live if n.kind == "attrstore" and n.name == "edges"]
    w = fl.must_precede(st, [g.exit])
    c.ob("S3-thin-edges", "stored", w, "the edges of the thin graph are not updated")
    for n in st:
        ok = bycall(fl, n.value, n, "projected_graph") or not pj
        c.ob("S3-thin-edges", "value", None if ok else True, "the edges of the thin graph are not those between its quanta", n)
    w = fl.path(fl.out_edges(pj), ae) if pj and ae else None
    c.ob("S3b-edges-complete", "order", w, "edges are added after the graph was projected onto its quanta")
    for n in pj:
        if len(n.args) < 2:
            continue
        v = n.args[1]
        ins = [m for m in fl.inserts(v) if m.kind == "call"] or [m for m in fl.inserts(fl.term(v, n)) if m.kind == "call"]
        for m in ins:
            t = [ex(fl, a, m) for a in m.args]
            if not any(tail(x) == "quantum_id" for x in t):
                continue
            for h in [h for h in fl.enclosing_loops(m) if h.kind == "iter" and _all_quanta(ex(fl, h.iterable, h))]:
                each(c, "S3c-projected-nodes", "set_thin_graph", fl, h, ins, "the edges of a quantum are dropped from the thin graph")


def _both(fl, h):
    t = ex(fl, h.iterable, h, 10)
    return mentions(t, lambda s: tail(s) == "root" and mentions(s, lambda z: tail(z) == "init_quanta")), mentions(
        t, lambda s: is_self_attr(s, "quantum_datasets"))


def counts(c, C, inl):
    fl = c.flow(C.methods["set_header_counts"].qual, inline=inl)
    g = fl.g
    for name in ("n_quanta", "n_datasets", "n_task_quanta"):
        st = [n for n in g.live if n.kind == "attrstore" and n.name == name]
        w = fl.must_precede(st, [g.exit])
        c.ob("S4-counts", name, w, f"the header's {name} is not updated")
        for n in st:
            t = ex(fl, n.value, n)
            if name == "n_quanta" and t[0] == "call" and t[2] == "len":
                c.ob("S4b-count-value", name, None if is_self_attr(t[4][0], "quantum_datasets") else True, "quanta are counted wrongly", n)
            if name == "n_task_quanta" and t[0] == "comp":
                h = g.nodes[t[3][-1]]
                c.ob("S4b-count-value", name, comp_filtered(fl, h), "a task is left out of the header's counts", n)
            if name == "n_datasets":
                v = fl.term(n.value, n)
                # ids collected over all quanta, init and regular
                got = [set(), set()]
                for h in iters(fl):
                    b = _both(fl, h)
                    if any(b):
                        up = [m for m in g.live if m.id in fl.loop_body(h) and m.kind in ("call", "compelt", "def") and (
                            m.kind != "call" or m.name in ("update", "add", "iter_dataset_ids", "union")) and (m.kind != "def" or any(
                                x[0] == "op" for _, x in m.defs))]
                        if up:
                            each(c, "S4c-datasets-counted", f"loop{h.line - g.root.node.lineno}", fl, h, up, "the datasets of a quantum are not counted")
                            for i in (0, 1):
                                if b[i]:
                                    got[i].add(h.id)
                if got[0] or got[1]:
                    c.ob("S4d-all-datasets", "init", None if got[0] else True, "the datasets of init quanta are not counted", n)
                    c.ob("S4d-all-datasets", "quanta", None if got[1] else True, "the datasets of quanta are not counted", n)
    Q = c.prog.cls(PR + "PredictedQuantumDatasetsModel")
    for nm, side in (("iter_input_dataset_ids", "inputs"), ("iter_output_dataset_ids", "outputs")):
        f = c.flow(Q.methods[nm].qual, inline=fresh)
        ys = [n for n in f.g.live if n.kind == "yield"]
        for n in ys:
            t = ex(f, n.value, n, 10)
            s = _side(t)
            c.ob("S5-dataset-ids", nm, None if s in (side, None) else True, "the IDs of the wrong datasets are listed", n)
        for h in iters(f, comp=False):
            inner = [x for x in iters(f, comp=False) if x.id in f.loop_body(h)]
            each(c, "S5b-all-ids", nm, f, h, inner or ys, "the ID of a dataset is left out")
    f = c.flow(Q.methods["iter_dataset_ids"].qual, inline=fresh)
    for k in ("iter_input_dataset_ids", "iter_output_dataset_ids"):
        ok = calls(f, k)
        c.ob("S5c-both-sides", k, None if ok or not calls(f) else True, "only inputs or only outputs are listed", func=f.g.root)


def rerun(c, C, inl):
    """update_output_run."""
    fl = c.flow(C.methods["update_output_run"].qual, inline=lambda f: inl(f) and f.name != "set_thin_graph")
    g = fl.g
    new = ("param", "output_run")
    qid = [n for n in g.live if n.kind == "attrstore" and n.name == "quantum_id"]
    did = [n for n in g.live if n.kind == "attrstore" and n.name == "dataset_id"]
    runs = [n for n in g.live if n.kind == "attrstore" and n.name == "run"]
    hdr = [n for n in g.live if n.kind == "attrstore" and n.name == "output_run"]
    c.ob("S6-run-changed", "instances", None if did and runs and hdr else True, "changing the output run does not change anything", func=g.root)

    def old(t):
        return tail(t) == "output_run" and tail(t[1]) == "header"

    def olds(t, n):
        return old(fl.expand(t)) or fl.derives(t, n, lambda s, m: old(s), through_args=False)

    for what, nodes in (("quantum IDs", qid),):
        cov = [False, False]
        for n in nodes:
            c.ob("S6b-new-ids", what, None if bycall(fl, n.value, n, *GEN) else True, f"{what} are not replaced by new ones", n)
            for h in [h for h in fl.enclosing_loops(n) if h.kind == "iter"]:
                b = _both(fl, h)
                each(c, "S6c-every-quantum", what, fl, h, nodes, "a quantum keeps its ID although it belongs to another run")
                cov = [cov[0] or b[0], cov[1] or b[1]]
        c.ob("S6d-init-too", what, None if all(cov) or not nodes else f"init {cov[0]}, regular {cov[1]}", f"not all {what} are replaced")
        c.ob("S6d-init-too", what + " replaced", None if nodes else True, f"{what} are not replaced", func=g.root)

    def side_nodes(nodes, side):
        return [n for n in nodes if _side(ex(fl, n.base, n, 12)) == side]

    maps = [n for n in g.live if n.kind == "substore"]
    for side in ("inputs", "outputs"):
        D, R = side_nodes(did, side), side_nodes(runs, side)
        c.ob("S7-remapped", f"{side}:ids", None if D else True, f"the IDs of {side} are not updated", func=g.root)
        c.ob("S7-remapped", f"{side}:runs", None if R else True, f"the runs of {side} are not updated", func=g.root)
        unless = (lambda lit, n: lit[0] == "eq" and lit[3] is False and any(tail(fl.expand(x)) == "run" for x in lit[1:3])
                  and any(olds(x, n) for x in lit[1:3])) if side == "inputs" else None
        cov = [False, False]
        for what, nodes in (("ids", D), ("runs", R)):
            for n in nodes:
                for h in [h for h in fl.enclosing_loops(n) if h.kind == "iter"]:
                    t = ex(fl, h.iterable, h, 10)
                    if _side(t) == side:
                        each(c, "S7b-every-dataset", f"{side}:{what}", fl, h, nodes, f"one of the {side} keeps pointing to the old run", unless=unless)
                    b = _both(fl, h)
                    cov = [cov[0] or b[0], cov[1] or b[1]]
                    if any(b):
                        inner = [x for x in iters(fl) if x.id in fl.loop_body(h) and _side(ex(fl, x.iterable, x, 10)) == side]
                        if inner:
                            each(c, "S7c-every-quantum", f"{side}:{what}", fl, h, inner, f"the {side} of a quantum keep pointing to the old run")
        if D:
            c.ob("S7d-init-too", side, None if all(cov) else f"init {cov[0]}, regular {cov[1]}", f"not all quanta have their {side} updated", D[0])
        for n in R:
            c.ob("S7e-run-value", side, None if fl.term(n.value, n) == new else True, "a dataset is assigned another run than requested", n)
        if side == "outputs":
            for n in D:
                c.ob("S7f-new-ids", side, None if bycall(fl, n.value, n, *GEN) else True, "output dataset IDs are not replaced by new ones", n)
                hs = [h for h in fl.enclosing_loops(n) if h.kind == "iter" and _side(ex(fl, h.iterable, h, 10)) == side]
                mm = [m for m in maps if any(m.id in fl.loop_body(h) for h in hs)]
                c.ob("S7g-mapping", "recorded", None if mm else True, "the new ID of an output is not recorded for its consumers", n)
                for h in hs:
                    each(c, "S7g-mapping", "every", fl, h, mm, "the new ID of an output is not recorded for its consumers")
                    for m in mm:
                        k = fl.term(m.key, m)
                        if tail(k) == "dataset_id":
                            at = evalpoint(fl, m.key, m)[1]
                            w = fl.path(fl.out_edges([n]), [at], stop_node=lambda z: z is h)
                            c.ob("S7h-mapping-key", "order", w, "the new ID of an output is recorded under the new ID instead of the old one", m)
                        v = ex(fl, m.value, m)
                        dv = ex(fl, n.value, n)
                        c.ob("S7i-mapping-value", "same", None if fl.term(m.value, m) == fl.term(n.value, n) or v == dv or tail(v) == "dataset_id" else True,
                             "consumers get another ID than the output itself", m)
        else:
            for n in D:
                ok = fl.derives(n.value, n, lambda t, m: t[0] in ("tmp", "sub", "var") and _maplike(fl, t, maps))
                c.ob("S7j-input-id", "mapped", None if ok else True, "the new ID of an input is not that of the output it refers to", n)
                w = fl.path(fl.out_edges([n]), maps)
                c.ob("S7k-mapping-complete", "order", w, "an input is updated before all new output IDs are known")
            ge = [n for n in D + R]
            guard(c, "S7l-other-runs-kept", side, fl, ge, lambda lit, n: lit[0] == "eq" and lit[3] is True and any(
                tail(fl.expand(x)) == "run" for x in lit[1:3]) and any(olds(x, n) for x in lit[1:3]),
                "inputs that are not in the old output run are reassigned")
            for n in R:
                # comparing after the assignment would always fail
                hs = [h for h in fl.enclosing_loops(n) if h.kind == "iter" and _side(ex(fl, h.iterable, h, 10)) == side]
                br = [b for b in g.live if b.kind == "branch" and any(lit[0] == "eq" and any(tail(fl.expand(x)) == "run" for x in lit[1:3])
                                                                     and any(olds(x, b) for x in lit[1:3]) for lit in fl.lits(b, True))
                      and _side(ex(fl, n.base, n, 12)) == side and any(b.id in fl.loop_body(h) for h in hs)]
                for h in hs:
                    w = fl.path(fl.out_edges([n]), br, stop_node=lambda z: z is h)
                    c.ob("S7m-compare-first", side, w, "an input's run is compared after having been changed")
    # rekeying, thin graph, header
    rk = [n for n in g.live if n.kind == "attrstore" and n.name == "quantum_datasets"]
    w = fl.path(fl.out_edges(qid), [g.exit], stop_node=lambda m: m in rk) if qid else None
    c.ob("S8-rekeyed", "update_output_run", w, "quanta stay registered under their old IDs")
    for n in rk:
        w = fl.path(fl.out_edges([n]), qid)
        c.ob("S8-rekeyed", "order", w, "quanta are registered before getting their new IDs")
        t = fl.term(n.value, n)
        if t[0] == "comp":
            h = g.nodes[t[3][-1]]
            c.ob("S8b-all-rekeyed", "comp", comp_filtered(fl, h), "a quantum is dropped when the run is changed", n)
            for m in fl.compelts(t):
                v = ex(fl, m.value, m)
                if v[0] == "tuple" and len(v[1]) == 2:
                    c.ob("S8c-key", "comp", None if tail(v[1][0]) == "quantum_id" else True, "a quantum is registered under a wrong ID", m)
    th = [n for n in g.live if n.kind in ("call", "enter") and n.name == "set_thin_graph"]
    w = fl.path(fl.out_edges(rk or qid), [g.exit], stop_node=lambda m: m in th)
    c.ob("S9-thin-graph-updated", "after", w, "the thin graph still has the old quantum IDs")
    w = fl.must_precede(hdr, [g.exit])
    c.ob("S10-header", "stored", w, "the header still names the old output run")
    for n in hdr:
        c.ob("S10-header", "value", None if fl.term(n.value, n) == new else True, "the header names another run than requested", n)
        br = []
        for b in g.live:
            if b.kind == "branch" and b.atom[0] == "eq":
                for x in b.atom[1:3]:
                    e, at = evalpoint(fl, x, b)
                    if old(fl.term(e, at)):
                        br.append(at)
        w = fl.path(fl.out_edges([n]), br)
        c.ob("S10b-header-last", "order", w, "datasets are compared with the new run instead of the old one")


def _maplike(fl, t, maps):
    bases = set()
    for m in maps:
        bases.add(m.base)
        bases.add(fl.term(m.base, m))
    if t in bases:
        return True
    if t[0] == "tmp":
        n = fl.g.nodes[t[1]]
        if n.kind == "call" and n.recv is not None:
            return n.recv in bases or fl.term(n.recv, n) in bases
        if n.kind == "subload":
            return True
    if t[0] == "sub":
        return t[1] in bases
    return False


def build(c, G, inl):
    """Construction of the in-memory graph from its components."""
    fl = c.flow(G.methods["__init__"].qual, inline=fresh)
    g = fl.g
    guard(c, "S11-graph-type", "__init__", fl, [g.exit], lambda lit, n: lit[0] == "eq" and lit[3] is True and any(
        tail(x) == "graph_type" for x in lit[1:3]) and const("predicted") in lit[1:3], "a graph of another type is accepted")
    for name, at in (("_add_init_quanta", "init_quanta"), ("_add_thin_graph", "thin_graph")):
        ns = calls(fl, name)
        if name in G.methods:
            w = fl.must_precede(ns, [g.exit])
            c.ob("S12-components-used", name, w, "a component of the graph is not used")
            for n in ns:
                ok = bool(n.args) and tail(ex(fl, n.args[0], n)) == at
                c.ob("S12-components-used", name + ":arg", None if ok else True, "the wrong component is used", n)
    if "_add_quantum_datasets" in G.methods:
        ad = calls(fl, "_add_quantum_datasets")
        loops = over(fl, lambda t: mentions(t, lambda s: tail(s) == "quantum_datasets"), comp=False)
        c.ob("S12b-quanta-added", "__init__", None if ad else True, "the quanta are not added to the graph", func=g.root)
        for h in loops:
            if any(n.id in fl.loop_body(h) for n in ad):
                each(c, "S12b-quanta-added", "every", fl, h, ad, "a quantum is not added to the graph")
    pj = calls(fl, "projected_graph")
    edge = lit_edges(fl, lambda lit, n: lit[0] == "truth" and lit[2] is True and tail(fl.expand(lit[1])) == "edges")
    w = fl.path([g.entry], [g.exit], stop_node=lambda m: m in pj, stop_edge=lambda n, lab: (n.id, lab) in edge)
    c.ob("S13-dependencies", "projected", w, "without a thin graph the quanta have no dependencies on each other")
    up = [n for n in calls(fl, "update") if bycall(fl, n.args[0], n, "projected_graph")] if pj else []
    c.ob("S13-dependencies", "used", None if up or not pj else True, "the dependencies between quanta are not recorded", func=g.root)
    w = fl.path(fl.out_edges(pj), calls(fl, "_add_quantum_datasets")) if pj else None
    c.ob("S13-dependencies", "order", w, "quanta are added after the dependencies were worked out")
    f = c.flow(G.methods["_add_quantum_datasets"].qual, inline=lambda f: inl(f) and f.name not in ("_add_quantum", "_add_dataset"))
    _edges(c, f, "_add_quantum_datasets", True)
    for nm in ("_add_quantum",):
        w = f.must_precede(calls(f, nm), [f.g.exit])
        c.ob("S14-nodes-added", nm, w, "a quantum's node is not added")
    ad = calls(f, "_add_dataset")
    for h in iters(f, comp=False):
        if _side(ex(f, h.iterable, h, 10)) and any(n.id in f.loop_body(h) for n in ad):
            inner = [x for x in iters(f, comp=False) if x.id in f.loop_body(h)]
            each(c, "S14-nodes-added", "datasets", f, h, inner or ad, "a dataset's node is not added")
    st = [n for n in f.g.live if n.kind == "substore" and is_self_attr(f.term(n.base, n), "_quantum_datasets")]
    w = f.must_precede(st, [f.g.exit])
    c.ob("S14b-quantum-registered", "_quantum_datasets", w, "a quantum is not registered")
    f = c.flow(G.methods["_add_thin_graph"].qual, inline=fresh)
    aq = calls(f, "_add_quantum")
    ed = [n for n in calls(f, "add_edges_from", "add_edge", "update")]
    w = f.must_precede([n for n in ed if f.derives(n.args[0], n, lambda t, m: tail(t) == "edges")], [f.g.exit]) if not [
        n for n in ed if n.name == "add_edge"] else None
    c.ob("S15-thin-edges-added", "_add_thin_graph", w, "the dependencies in the thin graph are not used")
    for h in iters(f, comp=False):
        inner = [x for x in iters(f, comp=False) if x.id in f.loop_body(h)]
        if inner or any(n.id in f.loop_body(h) for n in aq):
            each(c, "S15b-thin-quanta-added", "_add_thin_graph", f, h, inner or aq, "a quantum of the thin graph is not added")
    f = c.flow(G.methods["_add_quantum"].qual, inline=fresh)
    for at in ("_quantum_only_xgraph", "_bipartite_xgraph"):
        an = [n for n in calls(f, "add_node") if is_self_attr(f.term(n.recv, n), at) and n.args and f.term(n.args[0], n) == ("param", "quantum_id")]
        w = f.must_precede(an, [f.g.exit])
        c.ob("S16-node-in-both", at, w, "a quantum is missing from one of the graphs")
        for n in an:
            for k in ("task_label",):
                if k in n.kwargs:
                    c.ob("S16b-node-task", at, None if f.term(n.kwargs[k], n) == ("param", "task_label") else True, "a quantum is labelled with another task", n)
    _index(c, f, "_quanta_by_task_label", ("param", "task_label"), ("param", "quantum_id"), "a quantum is not listed under its task and data ID")
    f = c.flow(G.methods["_add_dataset"].qual, inline=fresh)
    an = [n for n in calls(f, "add_node") if is_self_attr(f.term(n.recv, n), "_bipartite_xgraph")]
    w = f.must_precede(an, [f.g.exit])
    c.ob("S16-node-in-both", "dataset", w, "a dataset is missing from the graph")
    for n in an:
        ok = n.args and tail(ex(f, n.args[0], n)) == "dataset_id"
        c.ob("S16c-dataset-node", "id", None if ok else True, "a dataset's node has another ID", n)
        if "run" in n.kwargs:
            c.ob("S16c-dataset-node", "run", None if tail(ex(f, n.kwargs["run"], n)) == "run" else True, "a dataset's node has another run", n)
    _index(c, f, "_datasets_by_type", None, ("attr", ("param", "model"), "dataset_id"), "a dataset is not listed under its type and data ID")
    f = c.flow(G.methods["__iter__"].qual, inline=fresh)
    ys = [n for n in f.g.live if n.kind == "yield"]
    for h in iters(f, comp=False):
        inner = [x for x in iters(f, comp=False) if x.id in f.loop_body(h)]
        each(c, "S17-iteration", "__iter__", f, h, inner or ys, "a quantum is skipped when iterating over the graph")


def _index(c, f, at, key, val, msg):
    st = []
    for n in f.g.live:
        if n.kind == "substore":
            b = ex(f, n.base, n)
            if mentions(b, lambda s: is_self_attr(s, at)):
                st.append((n, b))
    w = f.must_precede([n for n, _ in st], [f.g.exit])
    c.ob("S16d-indexed", at, w, msg)
    for n, b in st:
        c.ob("S16d-indexed", at + ":value", None if ex(f, n.value, n) == val else True, msg, n)
        if key is not None and b[0] == "sub":
            c.ob("S16d-indexed", at + ":key", None if b[2] == key else True, msg, n)
        t = ex(f, n.key, n)
        c.ob("S16d-indexed", at + ":data_id", None if mentions(t, lambda s: s[0] == "call" and "full_values" in s[2]) else True, msg, n)


def execute(c, G, inl):
    """Quanta handed out for execution."""
    keep = ("_expand_execution_quantum_data_ids", "_build_execution_quantum_refs", "get_init_inputs", "deserialize_datastore_records")
    fl = c.flow(G.methods["build_execution_quanta"].qual, inline=lambda f: inl(f) and f.name not in keep)
    g = fl.g
    q = ("param", "quantum_ids")
    guard(c, "S18-incomplete", "init quanta", fl, [g.exit], lambda lit, n: (lit[0] == "truth" and lit[2] is True or lit[0] == "isnone" and lit[2] is False)
          and is_self_attr(fl.expand(lit[1]), "_init_quanta"), "execution quanta are built although init datasets were not loaded")
    ed = calls(fl, "_expand_execution_quantum_data_ids")
    res = [n for n in g.live if n.kind == "substore" and not mentions(fl.expand(fl.term(n.base, n)), lambda s: is_self_attr(s))]
    loops = [h for h in iters(fl, comp=False) if any(n.id in fl.loop_body(h) for n in res)]
    c.ob("S19-every-quantum", "instances", None if loops else True, "no execution quanta are built", func=g.root)
    for h in loops:
        each(c, "S19-every-quantum", "built", fl, h, [n for n in res if n.id in fl.loop_body(h)], "a requested quantum is not built")
        for n in res:
            if n.id in fl.loop_body(h):
                k = fl.term(n.key, n)
                c.ob("S19b-key", "result", None if fl.derives(n.key, n, lambda t, m: t == ("elem", h.id)) else True,
                     "a quantum is returned under another ID", n)
        w = fl.must_precede(ed, [h])
        c.ob("S18-incomplete", "dimension data", w, "execution quanta are built with data IDs that were not expanded")
        # the request is an iterable that is used twice
        lists = {n.id for n in calls(fl, "list", "tuple", "set", "frozenset", "sorted")} | {n.id for n in g.live if n.kind == "compinit"}
        uses = [(h.iterable, h)] + [(a, n) for n in ed for a in n.args]
        if len(uses) > 1 and all(fl.derives(e, n, lambda t, m: t == q) for e, n in uses):
            given = [(g.nodes[i], lab) for i, lab in lit_edges(fl, lambda lit, n: lit[0] == "isnone" and lit[2] is False and lit[1] == q)]
            w = fl.path(given, [h], stop_node=lambda m: m.id in lists) if given else None
            c.ob("S19c-iterable", "request", w, "an iterator over quantum IDs is used up before the quanta are built")
    for n in [x for x in g.calls() if (x.callee or "").rsplit(".", 1)[-1] == "Quantum"]:
        k = kws(n)
        for name, side in (("inputs", "inputs"), ("outputs", "outputs")):
            if name in k:
                s = _side(ex(fl, k[name], n, 8)) if not mentions(ex(fl, k[name], n, 8), lambda s: s[0] == "unknown") else None
                c.ob("S20-quantum-datasets", name, None if s == side else f"from {s}", f"a quantum's {name} are not its {name}", n)
            else:
                c.fail("S20-quantum-datasets", name, f"a quantum is built without {name}", n)
        if "initInputs" in k:
            c.ob("S20-quantum-datasets", "initInputs", None if bycall(fl, k["initInputs"], n, "get_init_inputs") or _comp_over(
                fl, k["initInputs"], n, "get_init_inputs") else True, "a quantum is built without its init inputs", n)
        else:
            c.fail("S20-quantum-datasets", "initInputs", "a quantum is built without its init inputs", n)
        if "datastore_records" in k:
            t = ex(fl, k["datastore_records"], n, 8)
            own = fl.derives(k["datastore_records"], n, lambda s, m: s[0] == "tmp" and g.nodes[s[1]].kind == "call" and g.nodes[s[1]].name in (
                "deserialize_datastore_records", "from_simple") and not mentions(ex(fl, g.nodes[s[1]].recv, g.nodes[s[1]]), lambda z: is_self_attr(z, "_init_quanta")))
            c.ob("S20-quantum-datasets", "records", None if own or mentions(t, lambda s: tail(s) == "datastore_records") else True,
                 "a quantum is built without the datastore records of its inputs", n)
            ini = fl.derives(k["datastore_records"], n, lambda s, m: is_self_attr(s, "_init_quanta")) or mentions(
                t, lambda s: is_self_attr(s, "_init_quanta")) or _inserted(fl, k["datastore_records"], n, "_init_quanta")
            c.ob("S20-quantum-datasets", "init records", None if ini else True, "a quantum is built without the datastore records of its init inputs", n)
        else:
            c.fail("S20-quantum-datasets", "records", "a quantum is built without datastore records", n)
    # a quantum that was not loaded raises
    kn = [b for b in g.live if b.kind == "subload" and is_self_attr(fl.term(b.base, b), "_quantum_datasets")]
    # refs
    f = c.flow(G.methods["_build_execution_quantum_refs"].qual, inline=inl)
    st = [n for n in f.g.live if n.kind == "substore"]
    for h in over(f, lambda t: mentions(t, lambda s: s == ("param", "model_mapping")), comp=False):
        each(c, "S21-connections", "refs", f, h, st, "the datasets of a connection are left out of a quantum")
    for n in st:
        t = f.term(n.value, n)
        if t[0] == "comp":
            c.ob("S21b-datasets", "refs", comp_filtered(f, f.g.nodes[t[3][-1]]), "a dataset is left out of a quantum", n)
    f = c.flow(G.methods["_make_general_ref"].qual, inline=inl)
    for n in calls(f, "DatasetRef"):
        ok = n.kwargs.get("id") is not None and f.term(n.kwargs["id"], n) == ("param", "dataset_id")
        c.ob("S22-reference", "id", None if ok else True, "a reference does not have its dataset's ID", n)
        r = n.kwargs.get("run")
        ok = r is not None and mentions(ex(f, r, n), lambda s: s == const("run")) and mentions(ex(f, r, n), lambda s: s == ("param", "dataset_id"))
        c.ob("S22-reference", "run", None if ok else True, "a reference does not have its dataset's run", n)
    f = c.flow(G.methods["_expand_execution_quantum_data_ids"].qual, inline=inl)
    guard(c, "S18-incomplete", "_dimension_data", f, [f.g.exit], lambda lit, n: (lit[0] == "isnone" and lit[2] is False or lit[0] == "truth" and lit[2] is True)
          and is_self_attr(f.expand(lit[1]), "_dimension_data"), "data IDs are expanded although the dimension data were not loaded")
    ds = [h for h in iters(f, comp=False) if bycall(f, h.iterable, h, "predecessors") or bycall(f, h.iterable, h, "successors")]
    for k in ("predecessors", "successors"):
        ok = any(bycall(f, h.iterable, h, k) for h in ds)
        c.ob("S23-data-ids", k, None if ok or not ds else True, "the data IDs of some datasets of a quantum are not expanded", func=f.g.root)
    ad = [n for n in f.g.live if n.kind == "call" and n.name in ("add", "append", "update") and n.recv is not None] + [
        n for n in f.g.live if n.kind == "substore"]
    for h in ds:
        each(c, "S23b-every-data-id", "datasets", f, h, [n for n in ad if n.id in f.loop_body(h)], "the data ID of a dataset is not expanded")


def _comp_over(fl, e, n, name):
    t = fl.term(e, n)
    return t[0] == "comp" and any(mentions(ex(fl, fl.g.nodes[i].iterable, fl.g.nodes[i]), lambda s: s[0] == "call" and s[2] == name) for i in t[3])


def _inserted(fl, e, n, at):
    """Whether the value at e may contain things stored into a local container from self.<at>."""
    hit = []

    def p(t, m):
        if t[0] == "var":
            for x in fl.inserts(t):
                for y in fl.inserted(x):
                    if mentions(ex(fl, y, x), lambda s: is_self_attr(s, at)):
                        hit.append(x)
        elif t[0] in ("sub", "attr", "item"):
            return p(t[1], m)
        return False
    for s in subterms(ex(fl, e, n, 8)):
        p(s, n)
    fl.derives(e, n, p)
    return bool(hit)


def init(c, G, inl):
    fl = c.flow(G.methods["make_init_qbb"].qual, inline=inl)
    g = fl.g
    fp = calls(fl, "from_predicted")
    c.ob("S24-init-butler", "made", None if fp else True, "no butler is made", func=g.root)
    for n in fp:
        k = kws(n)
        for name, side in (("predicted_inputs", "inputs"), ("predicted_outputs", "outputs")):
            if name not in k:
                c.fail("S24-init-butler", name, f"the butler does not know the {name}", n)
                continue
            v = k[name]
            srcs = [m for m in fl.inserts(v) if m.kind == "call"] or [m for m in fl.inserts(fl.term(v, n)) if m.kind == "call"]
            sides = set()
            for m in srcs:
                for a in m.args:
                    t = fl.term(a, m)
                    its = [fl.g.nodes[i] for i in t[3]] if t[0] == "comp" else []
                    for h in its:
                        sides.add(_side(ex(fl, h.iterable, h, 10)))
                    sides.add(_side(ex(fl, a, m, 10)))
            sides.discard(None)
            if sides:
                c.ob("S24b-init-datasets", name, None if sides == {side} else f"{sorted(sides)}", f"the {name} are not the {side} of init quanta", n)
        if "predicted_inputs" in k and "predicted_outputs" in k:
            def diff(t, m):
                return t[0] == "op" and t[1] in ("AugSub", "Sub")
            v = k["predicted_inputs"]
            ok = fl.derives(v, n, diff) or bycall(fl, v, n, "difference") or any(m.name in ("difference_update", "discard", "remove") for m in g.calls()) \
                or mentions(ex(fl, v, n), lambda s: s[0] == "op" and "Sub" in s[1])
            c.ob("S24c-outputs-not-inputs", "predicted_inputs", None if ok else True,
                 "datasets produced by one init quantum and used by another are treated as existing inputs", n)
    for nm, side in (("get_init_inputs", "inputs"), ("get_init_outputs", "outputs")):
        f = c.flow(G.methods[nm].qual, inline=inl)
        other = "outputs" if side == "inputs" else "inputs"
        for h in iters(f):
            t = ex(f, h.iterable, h, 10)
            if mentions(t, lambda s: is_self_attr(s, "_init_quanta")):
                c.ob("S25-init-refs", nm, None if _side(t) == side else True, f"{other} are returned as {side}", h)
                if h.d.get("comp"):
                    c.ob("S25b-all-init-refs", nm, comp_filtered(f, h), "an init dataset is left out", h)
                else:
                    each(c, "S25b-all-init-refs", nm, f, h, [n for n in f.g.live if n.kind == "substore"], "an init dataset is left out")
    f = c.flow(G.methods["_make_init_ref"].qual, inline=inl)
    for n in calls(f, "DatasetRef"):
        for k, a in (("id", "dataset_id"), ("run", "run")):
            v = n.kwargs.get(k)
            c.ob("S25c-init-ref", k, None if v is not None and ex(f, v, n) == ("attr", ("param", "dataset"), a) else True,
                 f"an init dataset reference has a wrong {k}", n)


def old(c, C, inl):
    """Conversion from old-format graphs."""
    fl = c.flow(C.methods["from_old_quantum_graph"].qual, inline=fresh)
    g = fl.g
    for k in ("set_thin_graph", "set_header_counts", "update_from_old_quantum_graph"):
        w = fl.must_precede(calls(fl, k), [g.exit])
        c.ob("S26-converted", k, w, "a converted graph is incomplete")
    st = [n for n in g.live if n.kind == "substore" and tail(fl.term(n.base, n)) == "quantum_datasets"]
    w = fl.path(fl.out_edges(calls(fl, "set_thin_graph", "set_header_counts")), st)
    c.ob("S26-converted", "order", w, "counts and thin graph are made before all quanta are converted")
    w = fl.path(fl.out_edges(calls(fl, "set_header_counts")), calls(fl, "set_thin_graph"))
    c.ob("S26-converted", "counts", w, "counts are made from the thin graph before it exists")
    for h in iters(fl, comp=False):
        t = ex(fl, h.iterable, h, 8)
        if mentions(t, lambda s: s[0] == "call" and s[2] == "get_task_quanta") and any(
                n.id in fl.loop_body(h) for n in st):
            each(c, "S26b-every-quantum", "from_old", fl, h, st, "a quantum is lost in the conversion")
    for n in st:
        m = [x for x in calls(fl, "from_execution_quantum") if fl.derives(n.value, n, lambda t, z: t == ("tmp", x.id))]
        for x in m:
            a = arg(x, 2, "quantum_id")
            c.ob("S26c-same-id", "from_old", None if a is not None and fl.term(a, x) == fl.term(n.key, n) else True,
                 "a converted quantum changes its ID", x)


def complete(c: Check):
    """No view is filled from part of its source, and nodes and edges carry everything that is documented of them."""
    C = c.prog.cls(PR + "PredictedQuantumGraphComponents")
    G = c.prog.cls(PR + "PredictedQuantumGraph")
    D = c.prog.cls(PR + "PredictedQuantumDatasetsModel")
    inl = lambda f: f.module is C.module  # noqa: E731
    for K, names in ((G, ("_add_init_quanta", "_add_thin_graph", "_add_quantum_datasets", "__iter__", "get_init_inputs", "get_init_outputs",
                          "build_execution_quanta", "_expand_execution_quantum_data_ids", "_build_execution_quantum_refs", "make_init_qbb",
                          "to_old_quantum_graph")),
                     (C, ("set_thin_graph", "set_header_counts", "update_output_run", "from_old_quantum_graph")),
                     (D, ("iter_input_dataset_ids", "iter_output_dataset_ids", "iter_dataset_ids", "deserialize_datastore_records"))):
        for nm in names:
            if nm in K.methods:
                Q.allfull(c, "S27-whole-source", nm, Q.flow_of(c, K, nm), "only part of the quanta or datasets is looked at")
    # init datasets
    f = Q.flow_of(c, G, "_add_init_quanta")
    st = [n for n in f.g.live if n.kind == "substore" and mentions(ex(f, n.base, n), lambda s: is_self_attr(s, "_datasets_by_type"))]
    c.ob("S28-init-datasets", "indexed", None if st else True, "init datasets are not listed under their type", func=f.g.root)
    sides = set()
    for n in st:
        c.ob("S28-init-datasets", "id", None if tail(ex(f, n.value, n)) == "dataset_id" else True, "an init dataset is listed with another ID", n)
        b = ex(f, n.base, n)
        c.ob("S28-init-datasets", "type", None if b[0] != "sub" or tail(b[2]) == "dataset_type_name" else True, "an init dataset is listed under another type", n)
        for h in Q.loops_of(f, n):
            each(c, "S28-init-datasets", "every", f, h, st, "an init dataset is not listed under its type")
            t = ex(f, h.iterable, h, 10)
            sides |= {x[2] for x in subterms(t) if x[0] == "attr" and x[2] in ("inputs", "outputs")}
    if sides:
        c.ob("S28-init-datasets", "both sides", None if sides == {"inputs", "outputs"} else f"{sides}", "only init inputs or only init outputs are listed",
             func=f.g.root)
    iq = [n for n in f.g.live if n.kind == "attrstore" and n.name == "_init_quanta"]
    c.ob("S28-init-datasets", "kept", f.path([f.g.entry], [f.g.exit], stop_node=lambda m: m in iq), "the init quanta are not kept")
    for n in iq:
        t = f.term(n.value, n)
        if t[0] == "comp":
            for i in t[3]:
                c.ob("S28-init-datasets", "all kept", comp_filtered(f, f.g.nodes[i]), "an init quantum is dropped", n)
            for m in f.compelts(t):
                v = f.expand(f.term(m.value, m))
                if v[0] == "pair":
                    c.ob("S28-init-datasets", "label", None if tail(v[1][0]) == "task_label" else True, "an init quantum is kept under another task", n)
    # attributes of nodes and edges
    f = Q.flow_of(c, G, "_add_quantum", also=())
    for at in ("_quantum_only_xgraph", "_bipartite_xgraph"):
        _node(c, f, at, "quantum", ("task_label", "pipeline_node", "data_id"))
    f = Q.flow_of(c, G, "_add_dataset", also=())
    _node(c, f, "_bipartite_xgraph", "dataset", ("dataset_type_name", "pipeline_node", "run", "data_id"))
    f = Q.flow_of(c, G, "_add_quantum_datasets")
    for n in calls(f, "add_edge"):
        side = "inputs" if tail(ex(f, n.args[1], n, 10)) == "quantum_id" else "outputs"
        have = {k for k in n.kwargs if k is not None}
        if None in n.kwargs:
            continue
        later = {s[2] for m in f.g.calls() if m.name in ("setdefault", "update") and m.recv is not None and mentions(
            ex(f, m.recv, m), lambda s: tail(s) == "edges") for a in m.args[:1] for s in [f.term(a, m)] if s[0] == "const" and any(
                h.id in {x.id for x in Q.loops_of(f, m)} for h in Q.loops_of(f, n)[:1])}
        later |= {f.term(m.key, m)[2] for m in f.g.live if m.kind == "substore" and mentions(ex(f, m.base, m), lambda s: tail(s) == "edges")
                  and f.term(m.key, m)[0] == "const" and any(h.id in {x.id for x in Q.loops_of(f, m)} for h in Q.loops_of(f, n)[:1])}
        for k in ("is_read", "pipeline_edges"):
            c.ob("S29-attributes", f"edge:{side}:{k}", None if k in have | later else True, f"the edges to {side} have no {k}", n)
    # a dataset read through several connections has the edges of all of them
    for n in calls(f, "add_edge"):
        if tail(ex(f, n.args[1], n, 10)) != "quantum_id":
            continue
        once = n.kwargs.get("pipeline_edges")
        bad = once is not None and ex(f, once, n)[0] == "list"
        for m in calls(f, "setdefault"):
            if m.args and f.term(m.args[0], m) == const("pipeline_edges") and any(h in Q.loops_of(f, m) for h in Q.loops_of(f, n)[:1]):
                rest = [x for x in f.g.calls() if x.name in ("append", "extend") and x.recv is not None and f.derives(x.recv, x, lambda t, k, m=m: t == ("tmp", m.id))]
                bad = bad or not rest and len(m.args) > 1 and ex(f, m.args[1], m) != ("list", ())
                if rest:
                    for h in Q.loops_of(f, m)[:1]:
                        each(c, "S29-attributes", "edge:inputs:every connection", f, h, rest, "an edge lacks connections through which a dataset is read")
        c.ob("S29-attributes", "edge:inputs:all connections", True if bad else None, "an edge lacks connections through which a dataset is read", n)
    f = Q.flow_of(c, G, "__len__")
    for r in retvals(f):
        t = ex(f, r.value, r, 8)
        if t[0] == "call" and t[2] == "len":
            c.ob("S33-number", "len", None if any(mentions(t, lambda s, k=k: is_self_attr(s, k)) for k in ("_quantum_only_xgraph", "quantum_only_xgraph")) else True, "the number of quanta is that of something else", r)
    # execution quanta
    fl = Q.flow_of(c, G, "build_execution_quanta")
    rec = [n for n in calls(fl, "deserialize_datastore_records") if n.recv is not None and mentions(ex(fl, n.recv, n, 10), lambda s: is_self_attr(s, "_init_quanta"))]
    for st in [n for n in fl.g.live if n.kind == "substore" and {t for t, _ in fl.sources(n.value, n)} & {("tmp", r.id) for r in rec}]:
        root = fl.term(st.base, st)
        same = lambda n: n.kind in ("substore", "subload") and fl.term(n.base, n) == root  # noqa: E731
        use = [n for n in fl.g.live if n.kind == "subload" and same(n) and fl.path([(n, "exc")], [st]) is None]
        use += [n for n in fl.g.calls() if any(mentions(fl.term(a, n), lambda s: s[0] == "sub" and s[1] == root) for a in list(n.args) + list(n.kwargs.values()))]
        here = lit_edges(fl, lambda lit, m: lit[0] == "in" and lit[3] is True and fl.term(lit[2], m) == root)
        for h in Q.loops_of(fl, st)[:1]:
            for n in use:
                caught = {m.id for m in fl.g.live if m.kind == "subload" and same(m) and m is not n and m not in use}
                w = fl.path([(h, "elem")], [n], stop_node=lambda m: m is st or m.id in caught, stop_edge=lambda m, lab: (m.id, lab) in here)
                c.ob("S30-execution-quantum", "init records:own", w, "the init records of a task are taken to be there when those of another one are", n)
    for n in [x for x in fl.g.calls() if (x.callee or "").rsplit(".", 1)[-1] == "Quantum"]:
        k = kws(n)
        c.ob("S30-execution-quantum", "dataId", None if "dataId" in k or len(n.args) > 2 else True, "a quantum is built without its data ID", n)
        c.ob("S30-execution-quantum", "task", None if {"taskName", "taskClass"} & set(k) or n.args else True, "a quantum is built without its task", n)
        if "dataId" in k:
            t = ex(fl, k["dataId"], n, 10)
            ok = mentions(t, lambda s: is_self_attr(s, "_expanded_data_ids")) or t[0] in ("unknown", "var", "tmp", "phi")
            c.ob("S30-execution-quantum", "expanded", None if ok else True, "a quantum's data ID has no dimension records", n)
    rec = [n for n in fl.g.calls() if n.name == "deserialize_datastore_records" and n.recv is not None]
    for n in rec:
        t = ex(fl, n.recv, n, 10)
        if t[0] == "sub" and is_self_attr(t[1], "_init_quanta"):
            c.ob("S30-execution-quantum", "init records", None if t[2] != const("") and t[2][0] != "const" else True, "the init records of another task are used", n)
    # a quantum is only taken from the cache when it is there; what is requested is what is built
    lab = Q.lit_edges(fl, lambda lit, n: lit[0] == "isnone" and lit[2] is False and lit[1] == ("param", "task_label"))
    bt = [n for n in fl.g.live if n.kind == "def" and any(mentions(fl.expand(fl.term(v, n), 8), lambda s: is_self_attr(s, "_quanta_by_task_label"))
                                                          for _, v in n.defs)]
    if bt:
        nq = Q.lit_edges(fl, lambda lit, n: lit[0] == "isnone" and lit[1] == ("param", "quantum_ids") and lit[2] is True)
        loops = [h for h in iters(fl, comp=False) if any(x.name == "Quantum" for x in fl.g.calls() if x.id in fl.loop_body(h))]
        both = [(fl.g.nodes[i], x) for i, x in lab if fl.path(Q.as_edges(fl, nq), [(fl.g.nodes[i])]) is not None]
        wit = fl.path(both, loops, stop_node=lambda m: m in bt) if both and loops else None
        c.ob("S30-execution-quantum", "task's quanta", wit, "asking for the quanta of one task returns others")
    f = Q.flow_of(c, G, "_expand_execution_quantum_data_ids")
    attach = [n for n in f.g.calls() if n.name == "attach"]
    c.ob("S31-data-ids", "expanded", None if attach else True, "data IDs are not expanded", func=f.g.root)
    for h in over(f, lambda t: mentions(t, lambda s: s == ("param", "quantum_ids")), comp=False):
        ds = [x for x in iters(f, comp=False) if x.id in f.loop_body(h) and x is not h]
        own = [n for n in f.g.live if n.id in f.loop_body(h) and not any(n.id in f.loop_body(x) for x in ds) and (
            n.kind == "substore" or n.kind == "call" and n.name in ("add", "append", "update", "setdefault"))]
        if ds:
            each(c, "S31-data-ids", "quanta", f, h, own, "the data ID of a quantum is not expanded")
            for x in ds:
                wit = f.path([(h, "elem")], lambda m: m is h, stop_node=lambda m: m is x)
                c.ob("S31-data-ids", "datasets", wit, "the data IDs of the datasets of a quantum are not expanded", h)
    same = [n for n in f.g.live if n.kind == "substore" and is_self_attr(f.term(n.base, n), "_expanded_data_ids") and f.term(n.key, n) == f.term(n.value, n)]
    if same:
        guard(c, "S31-data-ids", "records", f, same, lambda lit, n: lit[0] == "truth" and lit[2] is True and bycall(f, lit[1], n, "hasRecords")
              or lit[0] == "truth" and lit[2] is True and mentions(f.expand(lit[1]), lambda s: s[0] == "call" and s[2] == "hasRecords"),
              "a data ID without dimension records is taken for an expanded one", starts=[(h, "elem") for n in same for h in Q.loops_of(f, n)] or None)
    fa = Q.flow_of(c, G, "_add_quantum_datasets")
    ad = calls(fa, "_add_dataset")
    for n in calls(fa, "add_edge"):
        h = Q.innermost(fa, n)
        if h is not None and ad:
            each(c, "S14-nodes-added", "with edge", fa, h, ad, "a dataset has an edge but no data ID, type or run")
    ft = Q.flow_of(c, C, "set_thin_graph")
    ap = [n for n in calls(ft, "append") if mentions(ex(ft, n.recv, n), lambda s: tail(s) == "quanta")]
    rs = [n for n in ft.g.live if n.kind == "attrstore" and n.name in ("quanta", "thin_graph")] + [n for n in calls(ft, "clear") if mentions(
        ex(ft, n.recv, n), lambda s: tail(s) == "quanta")]
    if ap:
        c.ob("S2d-thin-reset", "set_thin_graph", ft.path([ft.g.entry], ap, stop_node=lambda m: m in rs),
             "quanta from before remain in the thin graph when it is updated")
    for n in calls(ft, "projected_graph"):
        ids = arg(n, 1, "nodes")
        if ids is None:
            continue
        ok = ft.derives(ids, n, lambda t, m: is_self_attr(t, "quantum_datasets")) or any(
            tail(ex(ft, a, m)) == "quantum_id" for m in calls(ft, "append", "add") for a in m.args) or mentions(
                ex(ft, ids, n, 8), lambda s: is_self_attr(s, "quantum_datasets") or tail(s) == "quantum_id")
        c.ob("S3-thin-edges", "projected on", None if ok else True, "the graph is not projected onto its quanta", n)
    for h in over(f, lambda t: t[0] == "call" and t[2] in ("items", "keys", "values"), comp=False):
        if any(n.id in f.loop_body(h) for n in attach):
            each(c, "S31-data-ids", "dimensions", f, h, attach, "the data IDs of some dimensions are not expanded")


def _node(c, f, at, what, keys):
    an = [n for n in calls(f, "add_node") if is_self_attr(f.term(n.recv, n), at)]
    for n in an:
        if None in n.kwargs:
            return
    have = {k for n in an for k in n.kwargs}
    for m in f.g.live:
        if m.kind == "call" and m.recv is not None and m.name in ("setdefault", "update") and mentions(
                ex(f, m.recv, m), lambda s: s[0] == "attr" and s[2] == "nodes" and is_self_attr(s[1], at)):
            have |= {f.term(a, m)[2] for a in m.args[:1] if f.term(a, m)[0] == "const"} | {k for k in m.kwargs if k}
        elif m.kind == "substore" and mentions(ex(f, m.base, m), lambda s: s[0] == "attr" and s[2] == "nodes" and is_self_attr(s[1], at)):
            k = f.term(m.key, m)
            have |= {k[2]} if k[0] == "const" else set()
    for k in keys:
        c.ob("S29-attributes", f"{at}:{what}:{k}", None if k in have or not an else True, f"the node of a {what} has no {k}", func=f.g.root)
