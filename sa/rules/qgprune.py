"""Quantum graph generation: pruning of quanta, adjustment of their inputs and outputs, and consistency of the skeleton."""

from __future__ import annotations

import ast

from ..ir import unknown
from ..lib import Check
from ..q import (any_lit, arg, as_edges, bycall, calls, const, ctor, each, ex, flow_of, follows, frm, guard, innermost, iters, kws, lit_edges,
                 loops_of, mentions, none_lit, over, partial, present, retvals, subterms, tail, true_lit)

SK = "quantum_graph_skeleton.QuantumGraphSkeleton"
QB = "quantum_graph_builder.QuantumGraphBuilder"
CN = "connections."


def run(c: Check):
    S = c.prog.cls(SK)
    edges_(c, S)
    nodes_(c, S)
    views(c, S)
    state(c, S)
    orphans(c, S)
    unanchored(c, S)
    overall_inputs(c, S)
    B = c.prog.cls(QB)
    adjust_task(c, B)
    find_removed(c, B)
    helper(c, c.prog.cls(CN + "AdjustQuantumHelper"))
    base_adjust(c, c.prog.cls(CN + "PipelineTaskConnections"))
    adjuster(c, c.prog.cls(CN + "QuantaAdjuster"))


def P(name):
    return lambda t, m: t == ("param", name)


def _xg(fl, n):
    return n.recv is not None and mentions(ex(fl, n.recv, n), lambda s: tail(s) == "_xgraph")


def _pairs(fl, n):
    """(first, second, node) of the edges handed to an edge operation of the graph."""
    if n.name in ("add_edge", "remove_edge"):
        a = list(n.args) + [n.kwargs[k] for k in ("u_of_edge", "v_of_edge", "u", "v") if k in n.kwargs]
        return [(a[0], a[1], n)] if len(a) >= 2 else []
    out = []
    t = fl.term(n.args[0], n) if n.args else ()
    if t and t[0] == "comp":
        els = [(m.value, m) for m in fl.compelts(t)]
    elif t and t[0] == "list":
        els = [(x, n) for x in t[1]]
    else:
        els = [(a, m) for m in fl.inserts(n.args[0]) for a in fl.inserted(m)] if n.args else []
    for v, m in els:
        v = fl.term(v, m)
        if v[0] == "tuple" and len(v[1]) == 2:
            out.append((v[1][0], v[1][1], m))
    return out


def _direction(c, fl, rule, what, ops, first, second, msg):
    got = [n for n in calls(fl, *ops) if _xg(fl, n)]
    present(c, rule, what, got, msg, fl)
    for n in got:
        ps = _pairs(fl, n)
        for a, b, m in ps:
            ok = first(fl, a, m) and second(fl, b, m) and not (second(fl, a, m) and not first(fl, a, m))
            c.ob(rule, what, None if ok else True, msg, n)
    return got


def _is(name):
    return lambda fl, e, n: fl.derives(e, n, P(name))


def edges_(c, S):
    for name, ops, a, b, msg in (
            ("add_input_edges", ("add_edge", "add_edges_from"), "dataset_keys", "task_key", "an input edge does not lead from the dataset to the quantum"),
            ("add_input_edge", ("add_edge", "add_edges_from"), "dataset_key", "task_key", "an input edge does not lead from the dataset to the quantum"),
            ("remove_input_edges", ("remove_edge", "remove_edges_from"), "dataset_keys", "task_key", "removing inputs removes other edges"),
            ("add_output_edge", ("add_edge", "add_edges_from"), "task_key", "dataset_key", "an output edge does not lead from the quantum to the dataset")):
        fl = flow_of(c, S, name)
        got = _direction(c, fl, "S1-edge-direction", name, ops, _is(a), _is(b), msg)
        if name == "add_input_edge":
            skip = {(n, lab) for n, lab in lit_edges(fl, lambda lit, n: lit[0] == "in" and lit[3] is False and fl.expand(lit[1]) == ("param", "task_key"))}
            w = fl.path([fl.g.entry], [fl.g.exit], stop_node=lambda m: m in got, stop_edge=lambda n, lab: (n.id, lab) in skip)
            c.ob("S1b-edge-added", name, w, "an input edge is dropped although its quantum is in the graph")
            no = {(n, lab) for n, lab in lit_edges(fl, lambda lit, n: lit[0] == "truth" and lit[2] is True and fl.expand(lit[1]) == (
                "param", "ignore_unrecognized_quanta"))}
            w = fl.path([fl.g.entry], [fl.g.exit], stop_node=lambda m: m in got, stop_edge=lambda n, lab: (n.id, lab) in no)
            c.ob("S1c-unrecognized", name, w, "an input edge of an unknown quantum is dropped without being asked to")
            guard(c, "S1c-unrecognized", "ignored", fl, got, lambda lit, n: lit[0] == "in" and lit[3] is True and fl.expand(lit[1]) == ("param", "task_key") or lit[
                0] == "truth" and lit[2] is False and fl.expand(lit[1]) == ("param", "ignore_unrecognized_quanta"),
                "an input edge creates a quantum that was ruled out before")
            for r in retvals(fl):
                v = ex(fl, r.value, r) if r.value is not None else None
                if v == const(True):
                    c.ob("S1f-told", "added", fl.path([fl.g.entry], [r], stop_node=lambda m: m in got), "an edge is reported as added although it was not", r)
                elif v == const(False):
                    c.ob("S1f-told", "dropped", fl.path(fl.out_edges(got), [r]), "an edge is reported as dropped although it was added", r)
        else:
            w = fl.path([fl.g.entry], [fl.g.exit], stop_node=lambda m: m in got)
            c.ob("S1b-edge-added", name, w, "the edges are not changed")
        for n in got:
            t = fl.term(n.args[0], n) if n.args else ()
            if t and t[0] == "comp":
                h = fl.g.nodes[t[3][-1]]
                body = fl.loop_body(h)
                ce = {m.id for m in fl.g.live if m.kind == "compelt" and m.id in body}
                w = fl.path([(h, "elem")], lambda m: m is h, stop_node=lambda m: m.id in ce)
                c.ob("S1d-all-edges", name, True if partial(fl, h) else w, "an edge is left out", h)
    fl = flow_of(c, S, "remove_output_edge")
    pr = [n for n in calls(fl, "predecessors", "in_edges") if _xg(fl, n)]
    sx = [n for n in calls(fl, "successors", "out_edges") if _xg(fl, n)]
    c.ob("S1e-producer-edge", "predecessors", None if pr and not sx else True, "moving an output detaches it from its consumers instead of its producer", func=fl.g.root)
    rm = [n for n in calls(fl, "remove_edge", "remove_edges_from") if _xg(fl, n)]
    c.ob("S1e-producer-edge", "removed", fl.path([fl.g.entry], [fl.g.exit], stop_node=lambda m: m in rm), "a moved output keeps its producer")
    for n in rm:
        for a, b, m in _pairs(fl, n):
            ok = frm(fl, a, m, pr) and b != a and fl.term(b, m) == ("param", "dataset_key")
            c.ob("S1e-producer-edge", "edge", None if ok else True, "moving an output removes another edge than the one from its producer", n)


def _graph_tasks(fl):
    """Nodes that change the per-task sets of quanta."""
    return [n for n in fl.g.live if n.kind == "call" and n.recv is not None and fl.derives(n.recv, n, lambda t, m: tail(t) == "_tasks")
            and n.name in ("add", "remove", "discard", "update", "pop", "difference_update", "clear")]


def nodes_(c, S):
    # a quantum is in the graph and in its task's set under one key
    fl = flow_of(c, S, "add_quantum_node")
    mk, an = ctor(fl, "QuantumKey"), [n for n in calls(fl, "add_node") if _xg(fl, n)]
    ts = [n for n in _graph_tasks(fl) if n.name == "add"]
    for nm, ns in (("key", mk), ("graph", an), ("tasks", ts)):
        w = fl.path([fl.g.entry], [fl.g.exit], stop_node=lambda m, ns=ns: m in ns)
        c.ob("S2-quantum-both-views", nm, w, "a quantum added is missing from the graph or from its task")
    for n in an + ts:
        c.ob("S2-quantum-both-views", n.name, None if n.args and frm(fl, n.args[0], n, mk) else True, "a quantum is added under different keys", n)
    for r in retvals(fl):
        c.ob("S2-quantum-both-views", "returned", None if frm(fl, r.value, r, mk) else True, "the key returned is not the one added", r)
    for n in an:
        d = n.kwargs.get("data_id")
        c.ob("S2b-data-id", "quantum", None if d is not None and fl.derives(d, n, P("data_id")) else True, "a quantum is added without its data ID", n)
    for n in mk:
        ok = len(n.args) + len(n.kwargs) == 2 and fl.derives(arg(n, 0, "task_label"), n, P("task_label")) and mentions(
            ex(fl, arg(n, 1, "data_id_values"), n), lambda s: tail(s) == "required_values")
        c.ob("S3-keys", "quantum", None if ok else True, "the key of a quantum does not identify it", n)
    fl = flow_of(c, S, "add_dataset_node")
    mk, an = ctor(fl, "DatasetKey"), [n for n in calls(fl, "add_node") if _xg(fl, n)]
    w = fl.path([fl.g.entry], [fl.g.exit], stop_node=lambda m: m in an)
    c.ob("S4-dataset-added", "dataset", w, "a dataset is not added to the graph")
    for n in mk:
        ok = fl.derives(arg(n, 0, "parent_dataset_type_name"), n, P("parent_dataset_type_name")) and mentions(
            ex(fl, arg(n, 1, "data_id_values"), n), lambda s: tail(s) == "required_values")
        c.ob("S3-keys", "dataset", None if ok else True, "the key of a dataset does not identify it", n)
    for n in an:
        c.ob("S4-dataset-added", "key", None if n.args and frm(fl, n.args[0], n, mk) else True, "a dataset is added under another key", n)
        d = n.kwargs.get("data_id")
        c.ob("S2b-data-id", "dataset", None if d is not None and fl.derives(d, n, P("data_id")) else True, "a dataset is added without its data ID", n)
    gi = [n for n in calls(fl, "add") if n.recv is not None and mentions(ex(fl, n.recv, n), lambda s: tail(s) == "_global_init_outputs")]
    present(c, "S4b-global-init", "recorded", gi, "global init-outputs are not recorded", fl)
    off = lit_edges(fl, lambda lit, n: lit[0] == "truth" and lit[2] is False and fl.expand(lit[1]) == ("param", "is_global_init_output"))
    w = fl.path([fl.g.entry], [fl.g.exit], stop_node=lambda m: m in gi, stop_edge=lambda n, lab: (n.id, lab) in off)
    c.ob("S4b-global-init", "always", w, "a global init-output is not recorded")
    guard(c, "S4b-global-init", "only", fl, gi, lambda lit, n: lit[0] == "truth" and lit[2] is True and fl.expand(lit[1]) == ("param", "is_global_init_output"),
          "an ordinary dataset is recorded as a global init-output")
    fl = flow_of(c, S, "add_prerequisite_node")
    mk, an = ctor(fl, "PrerequisiteDatasetKey"), [n for n in calls(fl, "add_node") if _xg(fl, n)]
    w = fl.path([fl.g.entry], [fl.g.exit], stop_node=lambda m: m in an)
    c.ob("S4-dataset-added", "prerequisite", w, "a prerequisite is not added to the graph")
    for n in mk:
        k = ex(fl, arg(n, 1, "dataset_id_bytes"), n)
        ok = mentions(k, lambda s: tail(s) == "bytes") and mentions(k, lambda s: tail(s) == "id") and fl.derives(arg(n, 0, "parent_dataset_type_name"), n, P("ref"))
        ok = ok and not mentions(k, lambda s: s[0] in ("slice", "sub"))
        c.ob("S3-keys", "prerequisite", None if ok else True, "the key of a prerequisite does not identify it", n)
    for n in an:
        ok = n.args and frm(fl, n.args[0], n, mk) and ex(fl, n.kwargs.get("ref", const(None)), n) == ("param", "ref")
        c.ob("S4-dataset-added", "prerequisite ref", None if ok else True, "a prerequisite is added without its reference", n)
    # attributes given for a node are kept
    for name in ("add_quantum_node", "add_dataset_node", "add_prerequisite_node"):
        fl = flow_of(c, S, name)
        for n in [n for n in calls(fl, "add_node") if _xg(fl, n)]:
            vals = list(n.args) + list(n.kwargs.values()) + [n.d[k] for k in ("star", "starkw", "dstar") if n.d.get(k)]
            ok = any(fl.derives(v, n, P("attrs")) for v in vals if isinstance(v, tuple))
            c.ob("S4c-attributes", name, None if ok else True, "attributes given for a node are lost", n)
    for name, m in sorted(S.methods.items()):
        if unknown(m):
            continue
        fl = flow_of(c, S, name)
        for n in ctor(fl, "DatasetKey", "QuantumKey"):
            a, b = arg(n, 0, "parent_dataset_type_name", "task_label"), arg(n, 1, "data_id_values")
            if a is None or b is None:
                continue
            ok = mentions(ex(fl, b, n), lambda s: tail(s) in ("required_values", "data_id_values")) and not mentions(ex(fl, a, n), lambda s: tail(s) in (
                "required_values", "data_id_values"))
            c.ob("S3-keys", name, None if ok else True, "the key of a node does not identify it", n)
    for k in ("QuantumKey", "TaskInitKey", "DatasetKey", "PrerequisiteDatasetKey"):
        C = c.prog.cls(S.module.name + "." + k) if hasattr(S.module, "name") else c.prog.cls(S.qual.rsplit(".", 1)[0] + "." + k)
        bad = None
        for d in C.node.decorator_list:
            if isinstance(d, ast.Call) and ast.unparse(d.func).endswith("dataclass"):
                kw = {x.arg: x.value for x in d.keywords if isinstance(x.value, ast.Constant)}
                on = lambda a, dflt: kw[a].value if a in kw else dflt  # noqa: E731
                if not on("eq", True) or not (on("frozen", False) or on("unsafe_hash", False)) and "__hash__" not in C.methods:
                    bad = "by identity"
        for st in C.node.body:
            if isinstance(st, ast.AnnAssign) and isinstance(st.value, ast.Call):
                for x in st.value.keywords:
                    if x.arg in ("compare", "hash") and isinstance(x.value, ast.Constant) and x.value.value is False:
                        bad = "without " + ast.unparse(st.target)
        c.ob("S3b-key-equality", k, bad, "keys of the same node compare unequal, or those of different nodes equal", func=S.methods["__init__"])
    # a skeleton starts with a node for each task
    fl = flow_of(c, S, "__init__")
    for h in [h for h in iters(fl, comp=False) if fl.derives(h.iterable, h, P("task_labels"))]:
        each(c, "S2c-tasks", "tasks", fl, h, [n for n in fl.g.live if n.kind == "substore" and mentions(ex(fl, n.base, n), lambda s: tail(s) == "_tasks")],
             "a task is missing from a new graph")
        each(c, "S2c-tasks", "graph", fl, h, [n for n in calls(fl, "add_node") if _xg(fl, n)], "a task has no node in a new graph")
    # removal
    fl = flow_of(c, S, "remove_quantum_node")
    rm = [n for n in calls(fl, "remove_node", "remove_nodes_from") if _xg(fl, n)]
    ts = [n for n in _graph_tasks(fl) if n.name in ("remove", "discard")]
    for nm, ns in (("graph", rm), ("tasks", ts)):
        w = fl.path([fl.g.entry], [fl.g.exit], stop_node=lambda m, ns=ns: m in ns)
        c.ob("S5-removed-from-both", nm, w, "a removed quantum stays in the graph or in its task")
    for n in rm + ts:
        c.ob("S5-removed-from-both", n.name, None if n.args and fl.derives(n.args[0], n, P("key"), stop=lambda t, m: t[0] == "tmp" and fl.g.nodes[
            t[1]].kind == "call" and fl.g.nodes[t[1]].name in ("successors", "out_edges", "predecessors", "neighbors")) else True,
             "another quantum is removed, or only its outputs are", n)
    sc = [n for n in calls(fl, "successors", "out_edges") if _xg(fl, n)]
    pd = [n for n in calls(fl, "predecessors", "in_edges", "neighbors", "descendants", "ancestors") if n.name in ("predecessors", "in_edges", "ancestors")]
    full = [n for n in rm if n.args and frm(fl, n.args[0], n, sc)]
    off = lit_edges(fl, lambda lit, n: lit[0] == "truth" and lit[2] is False and fl.expand(lit[1]) == ("param", "remove_outputs"))
    w = fl.path([fl.g.entry], [fl.g.exit], stop_node=lambda m: m in full, stop_edge=lambda n, lab: (n.id, lab) in off)
    c.ob("S6-outputs-removed", "with", w, "the outputs of a removed quantum stay in the graph")
    guard(c, "S6-outputs-removed", "only", fl, full, lambda lit, n: lit[0] == "truth" and lit[2] is True and fl.expand(lit[1]) == ("param", "remove_outputs"),
          "outputs are removed although they should be kept")
    for n in sc:
        w = fl.path(fl.out_edges([m for m in rm if m not in full]), [n])
        c.ob("S6-outputs-removed", "order", w, "the outputs of a quantum are looked up after it was removed", n)
        c.ob("S6-outputs-removed", "own", None if n.args and fl.term(n.args[0], n) == ("param", "key") else True, "another quantum's outputs are removed", n)
    for n in pd:
        c.ob("S6-outputs-removed", "inputs", None if not any(m.args and frm(fl, m.args[0], m, [n]) for m in rm) else True,
             "the inputs of a removed quantum are removed", n)
    fl = flow_of(c, S, "remove_task")
    rm = [n for n in calls(fl, "remove_node", "remove_nodes_from") if _xg(fl, n)]
    pop = [n for n in fl.g.live if n.kind == "call" and n.name == "pop" and n.recv is not None and tail(ex(fl, n.recv, n)) == "_tasks"
           or n.kind == "delsub" and tail(ex(fl, n.base, n)) == "_tasks"]
    for nm, ns in (("graph", rm), ("tasks", pop)):
        w = fl.path([fl.g.entry], [fl.g.exit], stop_node=lambda m, ns=ns: m in ns)
        c.ob("S7-task-removed", nm, w, "a removed task stays in the graph")
    fl = flow_of(c, S, "remove_dataset_nodes")
    rm = [n for n in calls(fl, "remove_node", "remove_nodes_from") if _xg(fl, n)]
    c.ob("S7b-datasets-removed", "graph", None if rm and all(fl.derives(n.args[0], n, P("keys")) for n in rm if n.args) else True,
         "datasets to be removed stay in the graph", func=fl.g.root)


def views(c, S):
    for name, want, other in (("iter_outputs_of", "successors", "predecessors"), ("iter_inputs_of", "predecessors", "successors"),
                              ("get_producer_of", "predecessors", "successors")):
        fl = flow_of(c, S, name)
        for r in retvals(fl) + [n for n in fl.g.live if n.kind == "yield"]:
            v = r.value
            if v is None or ex(fl, v, r) == const(None):
                continue
            ok = bycall(fl, v, r, want, "in_edges" if want == "predecessors" else "out_edges", "pred" if want == "predecessors" else "succ") and not bycall(
                fl, v, r, other) or mentions(ex(fl, v, r), lambda s: tail(s) in (("pred", "_pred") if want == "predecessors" else ("succ", "_succ", "adj")))
            c.ob("S8-views", name, None if ok else True, "the inputs, outputs or producer of a node are taken from the wrong side", r)
    fl = flow_of(c, S, "iter_all_quanta")
    ys = [n for n in fl.g.live if n.kind in ("yield", "yieldfrom")]
    hs = over(fl, lambda t: mentions(t, lambda s: tail(s) == "_tasks"))
    for h in hs:
        each(c, "S8b-all-quanta", "tasks", fl, h, ys + [x for x in iters(fl) if x.id in fl.loop_body(h) and x is not h],
             "quanta of a task are left out")
    # merging two skeletons keeps everything
    fl = flow_of(c, S, "update")
    tu = [n for n in _graph_tasks(fl) if n.name in ("update", "add")] + [
        n for n in fl.g.live if n.kind == "substore" and mentions(ex(fl, n.base, n), lambda s: tail(s) == "_tasks")] + [
        n for n in fl.g.live if n.kind in ("def",) and False]
    for h in over(fl, lambda t: mentions(t, lambda s: tail(s) == "_tasks"), comp=False):
        each(c, "S9-merge", "tasks", fl, h, tu, "quanta of a merged graph are lost from their task")
    present(c, "S9-merge", "tasks", tu, "quanta of a merged graph are lost from their task", fl)
    xu = [n for n in calls(fl, "update", "add_nodes_from", "compose") if _xg(fl, n) and n.args and fl.derives(n.args[0], n, P("other"))]
    w = fl.path([fl.g.entry], [fl.g.exit], stop_node=lambda m: m in xu) if xu else (
        None if any(m.kind == "attrstore" and m.name == "_xgraph" for m in fl.g.live) else True)
    c.ob("S9-merge", "graph", w, "the nodes and edges of a merged graph are lost")
    if xu and all(n.name == "add_nodes_from" for n in xu):
        xe = [n for n in calls(fl, "add_edges_from", "add_edge") if _xg(fl, n) and n.args and fl.derives(n.args[0], n, P("other"))]
        present(c, "S9-merge", "edges", xe, "the edges of a merged graph are lost", fl)
    du = record_updates(fl)
    hs = over(fl, lambda t: mentions(t, lambda s: tail(s) == "_dimension_data"), comp=False)
    for h in hs:
        each(c, "S9-merge", "dimension data", fl, h, du, "dimension records of a merged graph are lost")
    present(c, "S9-merge", "dimension data", du, "dimension records of a merged graph are lost", fl)


def record_updates(fl):
    """Nodes that add records to those already known for an element (never replacing them)."""
    new = lambda lit, n: lit[0] in ("in", "isnone") and lit[-1] is (lit[0] == "isnone") and fl.derives(  # noqa: E731
        lit[1] if lit[0] == "isnone" else lit[2], n, lambda t, m: tail(t) == "_dimension_data", through_args=True)
    absent = lit_edges(fl, new)
    du = [n for n in calls(fl, "update", "update_records", "insert", "add") if n.recv is not None and tail(ex(fl, n.recv, n)) != "_dimension_data"
          and fl.derives(n.recv, n, lambda t, m: tail(t) == "_dimension_data", through_args=True)]
    for n in fl.g.live:
        if n.kind == "substore" and tail(ex(fl, n.base, n)) == "_dimension_data":
            hs = loops_of(fl, n)
            if fl.path([(h, "elem") for h in hs[:1]] or [fl.g.entry], [n], stop_edge=lambda k, lab: (k.id, lab) in absent) is None:
                du.append(n)
    return du


STATE = {"dataset_ref": "ref", "output_for_skip": "output_for_skip", "output_in_the_way": "output_in_the_way"}


def _skeys(fl):
    """Node-state keys: (stores, reads, removals)."""
    st, rd, dl = [], [], []
    for n in fl.g.live:
        if n.kind == "substore":
            st.append((fl.expand(fl.term(n.key, n)), n))
        elif n.kind == "subload":
            rd.append((fl.expand(fl.term(n.key, n)), n))
        elif n.kind == "call" and n.name == "get" and n.args:
            rd.append((fl.expand(fl.term(n.args[0], n)), n))
        elif n.kind == "call" and n.name == "pop" and n.args:
            dl.append((fl.expand(fl.term(n.args[0], n)), n))
        elif n.kind == "delsub":
            dl.append((fl.expand(fl.term(n.key, n)), n))
        elif n.kind in ("return", "def"):
            for v in [n.value] if n.kind == "return" else [v for _, v in n.defs]:
                rd += [(x[2], n) for x in subterms(fl.expand(fl.term(v, n))) if x[0] == "sub"]
        elif n.kind == "call" and n.name in ("update", "setdefault"):
            for k in kws(n):
                st.append((const(k), n))
    strs = lambda xs: {k[2] for k, _ in xs if k[0] == "const" and k[1] == "str"}  # noqa: E731
    return strs(st), strs(rd), strs(dl)


def state(c, S):
    used = {}
    for name in STATE:
        w = _skeys(flow_of(c, S, "set_" + name))[0]
        r = _skeys(flow_of(c, S, "get_" + name))[1]
        used[name] = w
        c.ob("S10-state-keys", name, None if w == r and len(w) == 1 else f"written {sorted(w)}, read {sorted(r)}",
             "what is noted on a dataset node is looked up under another name", func=S.methods["get_" + name])
        fl = flow_of(c, S, "set_" + name)
        stores = [n for n in fl.g.live if n.kind == "substore" or n.kind == "call" and n.name in ("update", "setdefault")]
        c.ob("S10c-state-set", name, fl.path([fl.g.entry], [fl.g.exit], stop_node=lambda m: m in stores), "a note on a dataset node is not made")
        for n in stores:
            if n.kind == "substore":
                c.ob("S10c-state-set", name + " value", None if ex(fl, n.value, n) == ("param", "ref") else True, "something else is noted on a dataset node", n)
    fl = flow_of(c, S, "set_dataset_ref")
    mk = ctor(fl, "DatasetKey")
    isn = lambda pol: lambda lit, n: lit[0] == "isnone" and lit[2] is pol and fl.derives(lit[1], n, P("key"), False)  # noqa: E731
    guard(c, "S10d-given-key", "kept", fl, mk, isn(True), "a note is made on another node than the one given")
    given = lit_edges(fl, isn(False))
    stores = [n for n in fl.g.live if n.kind == "substore"]
    w = fl.path([fl.g.entry], stores, stop_node=lambda m: m in mk, stop_edge=lambda n, lab: (n.id, lab) in given)
    c.ob("S10d-given-key", "derived", w, "a note is made on no node")
    allk = [k for v in used.values() for k in v]
    c.ob("S10b-distinct", "keys", None if len(allk) == len(set(allk)) else f"{sorted(allk)}", "different notes on a dataset node overwrite each other",
         func=S.methods["set_dataset_ref"])
    d = _skeys(flow_of(c, S, "discard_output_in_the_way"))[2]
    c.ob("S10-state-keys", "discard", None if d == used["output_in_the_way"] else f"{sorted(d)}", "discarding an output in the way discards something else",
         func=S.methods["discard_output_in_the_way"])
    # prerequisite and dataset nodes are created with the key the getter reads
    fl = flow_of(c, S, "add_prerequisite_node")
    for n in [n for n in calls(fl, "add_node") if _xg(fl, n)]:
        c.ob("S10-state-keys", "prerequisite", None if used["dataset_ref"] <= set(kws(n)) else True, "the reference of a prerequisite is not found again", n)
    fl = flow_of(c, S, "set_data_id")
    w, r, _ = _skeys(fl)
    # every noted reference gets the expanded data ID
    gen = [h for h in iters(fl)]
    if not gen:
        for name, k in used.items():
            for x in k:
                c.ob("S11-expanded", x, None if x in w else True, "a reference noted on a node keeps an unexpanded data ID", func=S.methods["set_data_id"])
        for n in fl.g.live:
            if n.kind == "substore":
                k = fl.expand(fl.term(n.key, n))
                if k[0] == "const" and k[2] in allk:
                    v = [m for m in calls(fl, "expanded") if fl.term(n.value, n) == ("tmp", m.id)]
                    ok = v and all(mentions(ex(fl, m.recv, m, 8), lambda s: s == k) and m.args and fl.derives(m.args[0], m, P("data_id")) for m in v)
                    c.ob("S11b-own-ref", k[2], None if ok else True, "a reference noted on a node is replaced by another one", n)
                    es = lit_edges(fl, lambda lit, m: lit[0] in ("isnone", "truth") and lit[2] is (lit[0] == "isnone") and mentions(
                        ex(fl, lit[1], m, 8), lambda s: s == k))
                    wt = fl.path([fl.g.entry], [fl.g.exit], stop_node=lambda m, n=n: m is n, stop_edge=lambda m, lab: (m.id, lab) in es)
                    c.ob("S11-expanded", k[2] + " always", wt, "a reference noted on a node keeps an unexpanded data ID", n)
    ds = [n for n in fl.g.live if n.kind == "substore" and fl.expand(fl.term(n.key, n)) == const("data_id")]
    g = _skeys(flow_of(c, S, "get_data_id"))[1]
    c.ob("S10-state-keys", "data_id", None if ds and g == {"data_id"} else True, "the data ID of a node is looked up under another name", func=S.methods["get_data_id"])


def orphans(c, S):
    fl = flow_of(c, S, "remove_orphan_datasets")
    rm = [n for n in calls(fl, "remove_node", "remove_nodes_from") if _xg(fl, n)]
    iso = calls(fl, "isolates")
    pts = []
    for n in rm:
        pts += fl.insert_points(n) if n.name == "remove_nodes_from" else [n]
    for what, p in (("task", lambda lit, n: lit[0] == "truth" and lit[2] is False and tail(fl.expand(lit[1])) == "is_task" or lit[0] == "isinstance"),
                    ("global init-output", lambda lit, n: lit[0] == "in" and lit[3] is False and mentions(fl.expand(lit[2]), lambda s: tail(s) == "_global_init_outputs"))):
        guard(c, "S12-orphans", what, fl, pts, p, f"a {what} is removed as an orphan")
    for h in [h for h in iters(fl, comp=False) if fl.derives(h.iterable, h, lambda t, m: t[0] == "tmp" and t[1] in {x.id for x in iso}, False) or fl.derives(
            h.iterable, h, lambda t, m: t[0] == "tmp" and t[1] in {x.id for x in iso})]:
        if not any(n.id in fl.loop_body(h) for n in rm):
            continue
        each(c, "S12b-orphans-removed", "every", fl, h, rm, "an unused dataset stays in the graph", unless=lambda lit, n: lit[0] == "truth" and lit[
            2] is True and tail(fl.expand(lit[1])) == "is_task" or lit[0] == "isinstance" or lit[0] == "in" and lit[3] is True and mentions(
            fl.expand(lit[2]), lambda s: tail(s) == "_global_init_outputs"))
    present(c, "S12b-orphans-removed", "call", rm, "unused datasets stay in the graph", fl)
    for n in rm:
        c.ob("S12-orphans", "isolated", None if n.args and frm(fl, n.args[0], n, iso) else True, "a dataset still in use is removed as an orphan", n)


def unanchored(c, S):
    fl = flow_of(c, S, "remove_unanchored_quanta")
    anc, desc = calls(fl, "ancestors"), calls(fl, "descendants")
    present(c, "S13-unanchored", "ancestors", anc, "reachability of the anchors is not determined", fl)
    present(c, "S13-unanchored", "descendants", desc, "what depends on a removed quantum stays in the graph", fl)
    for n in anc:
        ok = any(fl.derives(h.iterable, h, P("anchor_label")) for h in loops_of(fl, n, None)) or fl.derives(n.args[-1], n, P("anchor_label"))
        c.ob("S13-unanchored", "anchors", None if ok else True, "quanta are kept for something else than the anchors", n)
    for n in desc:
        ok = any(fl.derives(h.iterable, h, P("source_label")) for h in loops_of(fl, n, None)) or fl.derives(n.args[-1], n, P("source_label"))
        c.ob("S13-unanchored", "sources", None if ok else True, "something else than unanchored source quanta is removed", n)
    for h in {x.id: x for n in anc for x in loops_of(fl, n)}.values():
        each(c, "S13-unanchored", "all anchors", fl, h, anc, "an anchor is not considered")
    for h in {x.id: x for n in desc for x in loops_of(fl, n)}.values():
        each(c, "S13-unanchored", "all sources", fl, h, desc, "a removed quantum's descendants are left in the graph")
    rm = [n for n in calls(fl, "remove_nodes_from", "remove_node") if _xg(fl, n) and n.args and frm(fl, n.args[0], n, desc)]
    qr = [n for n in _graph_tasks(fl) if n.name in ("remove", "discard", "difference_update")]
    present(c, "S13-unanchored", "graph", rm, "removed quanta stay in the graph", fl)
    present(c, "S13-unanchored", "tasks", qr, "removed quanta stay in their task", fl)
    for n in qr:
        h = innermost(fl, n)
        if h is not None:
            isq = lambda lit, m: lit[0] == "isinstance" and lit[3] is False and any(q.endswith("QuantumKey") for q in lit[2])  # noqa: E731
            each(c, "S13-unanchored", "every quantum", fl, h, [n], "a removed quantum stays in its task", unless=isq)
            c.ob("S13-unanchored", "same set", None if fl.derives(h.iterable, h, lambda t, m: t[0] == "tmp" and t[1] in {d.id for d in desc}) else True,
                 "other quanta are taken out of their tasks than out of the graph", n)
    nothing = lit_edges(fl, lambda lit, n: lit[0] == "truth" and lit[2] is False and fl.derives(lit[1], n, P("source_label"), through_args=True))
    for r in retvals(fl):
        w = fl.path([fl.g.entry], [r], stop_node=lambda m: m in rm, stop_edge=lambda n, lab: (n.id, lab) in nothing)
        c.ob("S13-unanchored", "done", w, "unanchored quanta are kept", r)
    rt = calls(fl, "remove_task")
    for n in rt:
        h = innermost(fl, n)
        if h is not None:
            each(c, "S13b-empty-tasks", "removed", fl, h, rt, "a task without quanta stays in the graph",
                 unless=lambda lit, m: lit[0] == "truth" and lit[2] is True and fl.derives(lit[1], m, lambda t, k: tail(t) == "_tasks"))
            guard(c, "S13b-empty-tasks", "only", fl, [n], lambda lit, m: lit[0] == "truth" and lit[2] is False and fl.derives(
                lit[1], m, lambda t, k: tail(t) == "_tasks"), "a task that still has quanta is removed", starts=[(h, "elem")])
    io = [n for n in calls(fl, "remove_nodes_from", "remove_dataset_nodes", "remove_node") if n.args and bycall(fl, n.args[0], n, "successors", "iter_outputs_of")]
    for n in rt:
        h = innermost(fl, n)
        if h is not None:
            w = fl.path([(h, "elem")], [n], stop_node=lambda m: m in io)
            c.ob("S13c-init-outputs", "removed", w, "the init-outputs of a removed task stay in the graph", n)
    present(c, "S13b-empty-tasks", "call", rt, "a task without quanta stays in the graph", fl)


def overall_inputs(c, S):
    fl = flow_of(c, S, "extract_overall_inputs")
    gr = calls(fl, "get_dataset_ref")
    st = [n for n in fl.g.live if n.kind == "substore" and (n.frame.id == 0 or frm(fl, n.value, n, gr))]
    for n in st:
        c.ob("S14-resolved-inputs", "ref", None if frm(fl, n.value, n, gr) else True, "an overall input is recorded with another dataset", n)
    guard(c, "S14-resolved-inputs", "none", fl, st, none_lit(fl, gr, False), "an unresolved dataset is taken as an overall input")
    for n in gr:
        h = innermost(fl, n)
        if h is not None and st:
            each(c, "S14-resolved-inputs", "every", fl, h, st, "an overall input is left out", unless=lambda lit, m: lit[0] == "truth" and lit[
                2] is True and tail(fl.expand(lit[1])) == "is_task", breaks=False)


    for h in over(fl, lambda t: mentions(t, lambda s: s[0] == "call" and s[2] == "topological_generations"), comp=False):
        if mentions(ex(fl, h.iterable, h, 8), lambda s: s[0] == "call" and s[2] == "next" or s[0] == "elemof"):
            continue
        w = fl.path([(h, "elem")], lambda m: m is h)
        c.ob("S14b-first-generation", "only", w, "datasets produced by a task are taken as overall inputs", h)
        for x in [x for x in iters(fl, comp=False) if x is not h and fl.derives(x.iterable, x, lambda t, m: t == ("elem", h.id))]:
            each(c, "S14-resolved-inputs", "generation", fl, x, st, "an overall input is left out", unless=lambda lit, m: lit[0] == "truth" and lit[
                2] is True and tail(fl.expand(lit[1])) == "is_task", breaks=False)
            w = fl.path([(x, "elem")], [fl.g.exit], stop_node=lambda m: m is x)
            c.ob("S14-resolved-inputs", "cut off", w, "an overall input is left out", x)


def adjust_task(c, B):
    fl = flow_of(c, B, "_adjust_task_quanta")
    g = fl.g
    aip, aaq = calls(fl, "adjust_in_place"), calls(fl, "adjust_all_quanta")
    present(c, "A1-adjusted", "adjustQuantum", aip, "adjustQuantum is not called", fl)
    present(c, "A1-adjusted", "adjust_all_quanta", aaq, "adjust_all_quanta is not called", fl)
    w = fl.must_precede(aaq, aip)
    c.ob("A1-adjusted", "order", w, "quanta are adjusted one by one before all of them were adjusted together")
    loops = {h.id: h for n in aip for h in loops_of(fl, n)}
    hs = [h for h in loops.values() if mentions(ex(fl, h.iterable, h, 8), lambda s: s[0] == "call" and s[2] == "get_quanta")]
    c.ob("A1-adjusted", "quanta", None if hs else True, "not all quanta of the task are adjusted", func=fl.g.root)
    rq = calls(fl, "remove_quantum_node")
    present(c, "A2-no-work-removed", "call", rq, "quanta with no work to do stay in the graph", fl)
    for h in hs:
        each(c, "A1-adjusted", "every", fl, h, aip, "a quantum is not adjusted", exc=False)
        w = fl.path([(h, "elem")], [g.exit], stop_node=lambda m: m is h)
        c.ob("A1-adjusted", "rest", w, "the remaining quanta are not adjusted", h)
        for n in ctor(fl, "AdjustQuantumHelper"):
            for i, k in enumerate(("inputs", "outputs")):
                v = arg(n, i, k)
                ok = v is not None and frm(fl, v, n, calls(fl, "_adapt_quantum_" + k), False) and not frm(
                    fl, v, n, calls(fl, "_adapt_quantum_" + ("outputs" if k == "inputs" else "inputs")), False)
                c.ob("A1c-own-datasets", k, None if ok else True, f"a quantum is adjusted with other {k} than its own", n)
        # arguments
        for n in aip:
            cv = arg(n, 0, "connections")
            c.ob("A1b-own-connections", "connections", None if cv is not None and fl.derives(cv, n, P("task_node")) else True,
                 "a quantum is adjusted with another task's connections", n)
            dv = arg(n, 2, "data_id")
            c.ob("A1b-own-connections", "data ID", None if dv is not None and fl.derives(dv, n, lambda t, m: t == ("elem", h.id)) else True,
                 "a quantum is adjusted with another data ID", n)
        # only NoWorkFound means no work
        exs = [(n, "exc") for n in aip if any(lab == "exc" for _, lab in n.succ)]
        other = fl.path(exs, lambda m: m is h, stop_edge=lambda n, lab: (n.id, lab) in _nowork(fl))
        c.ob("A3-only-no-work", "caught", other, "an error in adjustQuantum is taken for no work", aip[0] if aip else None)
        # what is dropped: every quantum that raised NoWorkFound ends up in what remove_quantum_node walks
        nw = [n for n in g.live if n.kind == "call" and n.name in ("append", "add") and n.args and fl.term(n.args[0], n) == ("elem", h.id)
              or n.kind == "call" and n.name in ("append", "add") and n.args and fl.derives(n.args[0], n, lambda t, m: t == ("elem", h.id), False)
              and any(fl.derives(x.iterable, x, lambda t, m, n=n: t == n.recv) for x in iters(fl, comp=False) if any(r.id in fl.loop_body(x) for r in rq))]
        nw = [n for n in nw if any(fl.derives(r.args[0], r, lambda t, m: t == ("elem", h.id)) for r in rq if r.args)]
        gone = nw + [r for r in rq if r.id in fl.loop_body(h)]
        exs_ok = [e for e in exs]
        w = fl.path(exs_ok, lambda m: m is h, stop_node=lambda m: m in gone)
        c.ob("A2-no-work-removed", "noted", w, "a quantum with no work to do stays in the graph", aip[0] if aip else None)
        # and only those: with work, or with adjusted outputs that are all empty
        empty_out = lambda lit, n: lit[0] == "truth" and lit[2] is False and _helper(fl, lit[1], n, "outputs")  # noqa: E731
        ok_edges = lit_edges(fl, empty_out)
        ok_edges |= {(x.id, "done") for x in iters(fl) if _helper(fl, x.iterable, x, "outputs")}
        w = fl.path([(n, lab) for n in aip for _, lab in n.succ if lab != "exc"], gone, stop_edge=lambda n, lab: (n.id, lab) in ok_edges, stop_node=lambda m: m is h)
        c.ob("A2b-only-no-work-removed", "kept", w, "a quantum that has work to do is removed")
        some = lit_edges(fl, lambda lit, n: lit[0] == "truth" and lit[2] is True and _helper(fl, lit[1], n, "outputs"))
        noadj = lit_edges(fl, lambda lit, n: lit[0] == "truth" and lit[2] is False and tail(fl.expand(lit[1])) == "outputs_adjusted")
        w = fl.path([(n, lab) for n in aip for _, lab in n.succ if lab != "exc"], lambda m: m is h, stop_node=lambda m: m in gone,
                    stop_edge=lambda n, lab: (n.id, lab) in some or (n.id, lab) in noadj)
        c.ob("A2c-no-outputs", "dropped", w, "a quantum all of whose outputs were given up is kept")
        for x in iters(fl):
            if x.d.get("quant") and (_helper(fl, x.iterable, x, "outputs") or _helper(fl, x.iterable, x, "inputs")):
                c.ob("A6b-all-looked-at", "any", True if partial(fl, x) else None, "not all connections are looked at", x)
        # the adjusted datasets are stored
        for k in ("inputs", "outputs"):
            st = [n for n in g.live if n.kind == "substore" and fl.expand(fl.term(n.key, n)) == const(k)]
            for n in st:
                c.ob("A4-adjusted-stored", k, None if _helper(fl, n.value, n, k) else True, f"the {k} stored for a quantum are not the adjusted ones", n)
            w = fl.path([(n, lab) for n in aip for _, lab in n.succ if lab != "exc"], lambda m: m is h, stop_node=lambda m: m in st or m in gone)
            c.ob("A4-adjusted-stored", k + " always", w, f"the adjusted {k} of a quantum are not stored")
        # datasets given up disappear from the graph
        rd, ri, fr = calls(fl, "remove_dataset_nodes"), calls(fl, "remove_input_edges"), calls(fl, "_find_removed")
        for n in fr:
            o, a = arg(n, 0, "original"), arg(n, 1, "adjusted")
            side = "outputs" if o is not None and bycall(fl, o, n, "iter_outputs_of") else "inputs" if o is not None and bycall(fl, o, n, "iter_inputs_of") else None
            c.ob("A5-given-up", f"{side}", None if side and _helper(fl, a, n, side) else True, "datasets kept by adjustQuantum are taken for given up", n)
        for k, sink, flag in (("outputs", rd, "outputs_adjusted"), ("inputs", ri, "inputs_adjusted")):
            mine = [n for n in sink if n.args and any(frm(fl, a, n, [f for f in fr if _helper(fl, arg(f, 1, "adjusted"), f, k)]) for a in n.args)]
            present(c, "A5-given-up", k, mine, f"{k} given up by adjustQuantum stay in the graph", fl)
            no = lit_edges(fl, lambda lit, n, flag=flag: lit[0] == "truth" and lit[2] is False and tail(fl.expand(lit[1])) == flag)
            w = fl.path([(n, lab) for n in aip for _, lab in n.succ if lab != "exc"], lambda m: m is h, stop_node=lambda m: m in mine or m in gone,
                        stop_edge=lambda n, lab: (n.id, lab) in no)
            c.ob("A5-given-up", k + " always", w, f"{k} given up by adjustQuantum stay in the graph")
            for n in sink:
                if n.name == "remove_input_edges":
                    c.ob("A5b-own-edges", "quantum", None if n.args and fl.derives(n.args[0], n, lambda t, m: t == ("elem", h.id), False) else True,
                         "input edges of another quantum are removed", n)
        # no inputs although there are outputs
        st = [n for n in g.live if n.kind == "substore" and fl.expand(fl.term(n.key, n)) == const("inputs")]
        ie = lit_edges(fl, lambda lit, n: lit[0] == "truth" and lit[2] is True and _helper(fl, lit[1], n, "inputs"))
        no = lit_edges(fl, lambda lit, n: lit[0] == "truth" and lit[2] is False and tail(fl.expand(lit[1])) == "inputs_adjusted")
        if st:
            w = fl.path([(n, lab) for n in aip for _, lab in n.succ if lab != "exc"], st, stop_edge=lambda n, lab: (n.id, lab) in ie or (n.id, lab) in no)
            c.ob("A6-inputs-left", "checked", w, "a quantum all of whose inputs were given up is kept")
    for r in rq:
        ro = arg(r, 1, "remove_outputs")
        c.ob("A7-outputs-removed", "no work", None if ro is not None and ex(fl, ro, r) == const(True) else True,
             "the outputs of a quantum with no work to do stay in the graph for others to use", r)
        x = innermost(fl, r)
        if x is not None:
            each(c, "A2-no-work-removed", "every", fl, x, rq, "a quantum with no work to do stays in the graph")
    ti, rt = calls(fl, "_resolve_task_init"), calls(fl, "remove_task")
    w = fl.path([g.entry], [g.exit], stop_node=lambda m: m in ti)
    c.ob("A8-task-init", "resolved", w, "the init-inputs and init-outputs of a task are not resolved")
    w = fl.path(fl.out_edges(ti), rq) if ti else None
    c.ob("A8-task-init", "order", w, "a task's init-outputs are resolved before quanta without work are removed")
    present(c, "A9-empty-task", "removed", rt, "a task without quanta stays in the graph", fl)
    gq = [n for n in calls(fl, "get_quanta") if fl.path(fl.out_edges(rq), [n]) is None or True]
    left = lambda pol: (lambda lit, n: lit[0] == "truth" and lit[2] is pol and fl.derives(lit[1], n, lambda t, m: t[0] == "tmp" and t[1] in {  # noqa: E731
        x.id for x in gq}, False) or lit[0] == "eq" and lit[3] is (not pol) and mentions(fl.expand(lit), lambda s: s[0] == "call" and s[2] == "get_quanta"))
    guard(c, "A9-empty-task", "only", fl, rt, left(False), "a task that still has quanta is removed")
    some = lit_edges(fl, left(True))
    w = fl.path([g.entry], [g.exit], stop_node=lambda m: m in rt, stop_edge=lambda n, lab: (n.id, lab) in some)
    c.ob("A9-empty-task", "always", w, "a task without quanta stays in the graph")


def _nowork(fl):
    out = set()
    for n in fl.g.live:
        if n.kind == "branch":
            for lab in (True, False):
                for lit in fl.lits(n, lab):
                    if lit[0] == "excis" and any(x is True for x in lit) and mentions_str(lit, "NoWorkFound"):
                        out.add((n.id, lab))
    return out


def mentions_str(t, s):
    if isinstance(t, str):
        return t.rsplit(".", 1)[-1] == s
    return isinstance(t, tuple) and any(mentions_str(x, s) for x in t)


def _helper(fl, e, n, k):
    """e at n derives from the adjusted inputs/outputs of an AdjustQuantumHelper."""
    if e is None:
        return False
    o = "outputs" if k == "inputs" else "inputs"
    f = lambda nm: fl.derives(e, n, lambda t, m: t[0] == "attr" and t[2] == nm and _is_aqh(fl, t[1], m), stop=lambda t, m: t[  # noqa: E731
        0] == "attr" and t[2] in ("inputs", "outputs") and _is_aqh(fl, t[1], m))
    return f(k) and not f(o)


def _is_aqh(fl, e, m):
    return fl.derives(e, m, lambda t, k: t[0] == "tmp" and fl.g.nodes[t[1]].kind == "call" and (
        fl.g.nodes[t[1]].callee or "").endswith("AdjustQuantumHelper"), False)


def find_removed(c, B):
    fl = flow_of(c, B, "_find_removed")
    g = fl.g
    for r in retvals(fl):
        c.ob("A10-find-removed", "from original", None if fl.derives(r.value, r, P("original")) else True, "datasets that were not there are removed", r)
    keep = [n for n in calls(fl, "discard", "remove", "difference_update")]
    hs = [h for h in iters(fl) if fl.derives(h.iterable, h, P("adjusted"))]
    for key in ("DatasetKey", "PrerequisiteDatasetKey"):
        mk = ctor(fl, key)
        use = [n for n in keep if n.args and any(frm(fl, a, n, mk) for a in n.args)]
        c.ob("A10-find-removed", key, None if use or not keep and mk else True, "a dataset that adjustQuantum kept is removed", func=fl.g.root)
        for h in [x for x in hs if not any(x.id in fl.loop_body(y) for y in hs)]:
            inloop = [n for n in use if n.id in fl.loop_body(h)] or [n for n in mk if n.id in fl.loop_body(h)]
            if inloop and not h.d.get("comp"):
                each(c, "A10-find-removed", key + " every", fl, h, inloop, "a dataset that adjustQuantum kept is removed")
        for n in mk:
            nm = arg(n, 0, "parent_dataset_type_name")
            ok = nm is not None and bycall(fl, nm, n, "splitDatasetTypeName", "nameAndComponent", "partition", "split")
            c.ob("A10b-parent-type", key, None if ok else True, "components kept by adjustQuantum are not recognised", n)
            v = ex(fl, arg(n, 1, "data_id_values", "dataset_id_bytes"), n, 8)
            ok = mentions(v, lambda s: tail(s) == "required_values") if key == "DatasetKey" else mentions(v, lambda s: tail(s) == "bytes")
            c.ob("A10b-parent-type", key + " id", None if ok else True, "datasets kept by adjustQuantum are not recognised", n)


def helper(c, H):
    fl = flow_of(c, H, "adjust_in_place")
    g = fl.g
    aq = calls(fl, "adjustQuantum")
    present(c, "A11-adjust", "call", aq, "adjustQuantum is not called", fl)
    w = fl.path([g.entry], [g.exit], stop_node=lambda m: m in aq)
    c.ob("A11-adjust", "always", w, "adjustQuantum is not called")
    for n in aq:
        for i, k, cols in ((0, "inputs", ("inputs", "prerequisiteInputs")), (1, "outputs", ("outputs",))):
            a = arg(n, i, k)
            if a is None:
                c.fail("A11-adjust", k, f"adjustQuantum is not given the {k}", n)
                continue
            loops = [h for h in iters(fl) if any(m.id in fl.loop_body(h) for m in fl.inserts(a)) or (fl.term(a, n)[0] == "comp" and h.id in fl.term(a, n)[3])]
            covered = set()
            for h in loops:
                covered |= {s[2] for s in subterms(ex(fl, h.iterable, h, 8)) if s[0] == "attr" and s[1] == ("param", "connections")}
            c.ob("A11b-all-connections", k, None if set(cols) <= covered else f"{sorted(covered)}", f"adjustQuantum is not given all {k}", n)
            for h in loops:
                ins = [m for m in g.live if (m.kind == "substore" or m.kind == "compelt") and m.id in fl.loop_body(h)]
                each(c, "A11b-all-connections", k + " every", fl, h, ins, f"adjustQuantum is not given all {k}")
                for m in ins:
                    ok = fl.derives(m.value, m, _selfattr(fl, k)) and not fl.derives(
                        m.value, m, _selfattr(fl, "outputs" if k == "inputs" else "inputs"))
                    c.ob("A11c-given", k, None if ok else True, f"adjustQuantum is given other datasets than the {k} of the quantum", m)
        ok = arg(n, 3, "data_id") is not None and ex(fl, arg(n, 3, "data_id"), n) == ("param", "data_id") and ex(fl, arg(n, 2, "label"), n) == ("param", "label")
        c.ob("A11c-given", "data_id", None if ok else True, "adjustQuantum is given another label or data ID", n)
    for i, k in ((0, "inputs"), (1, "outputs")):
        res = lambda e, m, i=i: fl.derives(e, m, lambda t, x: _item(fl, t, aq, i), stop=_stop(aq))  # noqa: E731
        oth = lambda e, m, i=i: fl.derives(e, m, lambda t, x: _item(fl, t, aq, 1 - i), stop=_stop(aq))  # noqa: E731
        st = [n for n in g.live if n.kind == "attrstore" and n.name == k]
        present(c, "A12-applied", k, st, f"adjusted {k} are ignored", fl)
        for n in st:
            c.ob("A12-applied", k + " value", None if res(n.value, n) and not oth(n.value, n) else True, f"adjusted {k} are not the ones adjustQuantum returned", n)
            c.ob("A12-applied", k + " rest", None if fl.derives(n.value, n, _selfattr(fl, k), stop=_stop(aq)) else True,
                 f"{k} of connections that were not adjusted are lost", n)
        on = [n for n in g.live if n.kind == "attrstore" and n.name == k + "_adjusted" and ex(fl, n.value, n) == const(True)]
        fx = [n for n in g.live if n.kind == "attrstore" and n.name == k + "_adjusted"]
        # with adjustments, both are set
        none = lit_edges(fl, lambda lit, m, res=res: lit[0] == "truth" and lit[2] is False and res(lit[1], m))
        okf = lambda n, res=res: ex(fl, n.value, n) == const(True) or res(n.value, n) and not fl.derives(  # noqa: E731
            n.value, n, lambda t, m: t[0] == "attr" and t[2].endswith("_adjusted"), stop=_stop(aq))  # noqa: E731
        for ns, what in ((st, "value set"), ([n for n in fx if okf(n)], "flag set")):
            w = fl.path(fl.out_edges(aq), [g.exit], stop_node=lambda m, ns=ns: m in ns, stop_edge=lambda n, lab: (n.id, lab) in none)
            c.ob("A12-applied", f"{k} {what}", w, f"adjusted {k} are ignored")
        guard(c, "A12b-flag", k, fl, on, lambda lit, m, res=res: lit[0] == "truth" and lit[2] is True and res(lit[1], m),
              f"the {k} are marked as adjusted although they were not", starts=fl.out_edges(aq))
        # only subsets are accepted
        hs = [h for h in iters(fl, comp=False) if res(h.iterable, h)]
        for h in hs:
            sub = lambda lit, m, k=k: (lit[0] == "truth" and (lit[2] is True and _subset(fl, lit[1], m, k) or lit[2] is False and _excess(fl, lit[1], m, k)) or lit[0] == "lt" and lit[3] is False and  # noqa: E731
                                       _subset(fl, lit[1], m, k) or lit[0] == "in" and lit[3] is True and _subset(fl, lit[2], m, k))
            ins = [m for m in g.live if m.kind == "substore" and m.id in fl.loop_body(h)]
            if not ins:
                continue
            subs = {(n.id, lab) for n in g.live if n.kind == "branch" and n.id in fl.loop_body(h) for lab in (True, False) if any(sub(x, n) for x in fl.lits(n, lab))}
            quant = {(x.id, "done") for x in iters(fl) if x.id in fl.loop_body(h) and x is not h}
            w = fl.path([(h, "elem")], ins, stop_edge=lambda n, lab: (n.id, lab) in subs or (n.id, lab) in quant)
            c.ob("A13-subset", k, w, f"adjustQuantum may add {k} that the quantum never had")
            each(c, "A12-applied", k + " every", fl, h, ins, f"an adjusted connection's {k} are ignored")
            for m in ins:
                ok = fl.derives(m.value, m, lambda t, x: t == ("elem", h.id), True)
                c.ob("A12c-per-connection", k, None if ok else True, f"the {k} of a connection are replaced by something else", m)
        present(c, "A13-subset", k + " loop", hs or st, f"adjusted {k} are not checked", fl)


def _selfattr(fl, k):
    return lambda t, m: t[0] == "attr" and t[2] == k and fl.term(t[1], m) == ("param", "self")


def _item(fl, t, aq, i):
    ids = {n.id for n in aq}
    if t[0] in ("item", "sub", "unpack") and len(t) >= 3:
        base, k = t[1], t[2]
        if isinstance(base, tuple) and base[:1] == ("tmp",) and base[1] in ids:
            return k == i or k == const(i)
    return False


def _stop(nodes):
    ids = {n.id for n in nodes}
    nms = {n.name for n in nodes}
    return lambda t, m: t[0] == "tmp" and t[1] in ids or t[0] == "call" and t[2] in nms


def _subset(fl, e, m, k):
    """Whether the truth of e at m says that something is a subset of the quantum's own datasets."""
    own = lambda x: x is not None and fl.derives(x, m, _selfattr(fl, k), stop=_stop(calls(fl, "adjustQuantum")))  # noqa: E731
    t = ex(fl, e, m, 3)
    if t[0] == "call" and t[2] == "issubset":
        return bool(t[4]) and own(t[4][0]) and not own(t[3])
    if t[0] == "call" and t[2] == "issuperset":
        return own(t[3]) and not (t[4] and own(t[4][0]))
    return own(e)


def _excess(fl, e, m, k):
    """Whether the truth of e at m says that something has more than the quantum's own datasets."""
    own = lambda x: x is not None and fl.derives(x, m, _selfattr(fl, k), stop=_stop(calls(fl, "adjustQuantum")))  # noqa: E731
    t = ex(fl, e, m, 3)
    if t[0] == "call" and t[2] in ("set", "bool", "len", "list", "sorted") and t[3] is None and t[4]:
        t = t[4][0]
    if t[0] == "op" and t[1] == "Sub":
        return own(t[2][1]) and not own(t[2][0])
    return t[0] == "call" and t[2] == "difference" and bool(t[4]) and own(t[4][0]) and not own(t[3])


def base_adjust(c, K):
    fl = flow_of(c, K, "adjustQuantum")
    g = fl.g
    for k in ("inputs", "outputs"):
        hs = [h for h in iters(fl, comp=False) if fl.derives(h.iterable, h, P(k))]
        c.ob("A14-multiplicity", k, None if hs else True, f"the number of {k} of a connection is not checked", func=fl.g.root)
        for h in hs:
            body = fl.loop_body(h)
            rs = [n for n in g.live if n.kind == "raise" and n.id in body or n.kind == "raise" and fl.path([(h, "elem")], [n], stop_node=lambda m: m is h)]
            sc = [n for n in rs if (n.exc or "").endswith("ScalarError")]
            one = lambda lit, n: lit[0] == "truth" and lit[2] is True and tail(fl.expand(lit[1])) == "multiple" or (  # noqa: E731
                lit[0] == "lt" and lit[3] is False and fl.expand(lit[1]) == const(1) or lit[0] == "lt" and lit[3] is True and fl.expand(lit[2]) == const(2)) and mentions(
                fl.expand(lit), lambda s: s[0] == "call" and s[2] == "len")
            es = lit_edges(fl, one)
            w = fl.path([(h, "elem")], lambda m: m is h, stop_edge=lambda n, lab: (n.id, lab) in es)
            if w is None:
                w = True if partial(fl, h) else fl.path([(h, "elem")], [g.exit], stop_node=lambda m: m is h)
            c.ob("A14-multiplicity", k + " scalar", w, f"several datasets are accepted for a connection that takes one ({k})", h)
            guard(c, "A14b-scalar-only", k, fl, sc, lambda lit, n: lit[0] == "truth" and lit[2] is False and tail(fl.expand(lit[1])) == "multiple",
                  "several datasets are refused for a connection that takes many", starts=[(h, "elem")])
            guard(c, "A14b-scalar-only", k + " several", fl, sc, lambda lit, n: lit[0] == "lt" and (lit[3] is True and fl.expand(lit[1]) == const(1) or lit[
                3] is False and fl.expand(lit[2]) == const(2)), "a single dataset is refused for a connection that takes one", starts=[(h, "elem")])
            if k == "inputs":
                enough = lambda lit, n: lit[0] == "lt" and lit[3] is False and tail(fl.expand(lit[2])) == "minimum"  # noqa: E731
                es = lit_edges(fl, enough)
                w = fl.path([(h, "elem")], lambda m: m is h, stop_edge=lambda n, lab: (n.id, lab) in es)
                c.ob("A15-minimum", "checked", w, "a quantum with fewer inputs than its connection's minimum is kept", h)
                pre = lambda pol: lambda lit, n: lit[0] == "isinstance" and lit[3] is pol and any(q.endswith("PrerequisiteInput") for q in lit[2])  # noqa: E731
                nwf = [n for n in rs if (n.exc or "").endswith("NoWorkFound")]
                fnf = [n for n in rs if (n.exc or "").endswith("FileNotFoundError")]
                guard(c, "A15b-prerequisite", "NoWorkFound", fl, nwf, pre(False), "a missing prerequisite is taken for no work", starts=[(h, "elem")])
                guard(c, "A15b-prerequisite", "FileNotFoundError", fl, fnf, pre(True), "a missing regular input is an error", starts=[(h, "elem")])
                few = lambda lit, n: lit[0] == "lt" and lit[3] is True and tail(fl.expand(lit[2])) == "minimum"  # noqa: E731
                guard(c, "A15c-only-few", "raise", fl, nwf + fnf, few, "a quantum with enough inputs is dropped", starts=[(h, "elem")])
                present(c, "A15-minimum", "NoWorkFound", nwf, "too few inputs do not drop a quantum", fl)
                present(c, "A15-minimum", "FileNotFoundError", fnf, "a missing prerequisite is ignored", fl)


def adjuster(c, Q):
    fl = flow_of(c, Q, "remove_quantum")
    rq = calls(fl, "remove_quantum_node")
    w = fl.path([fl.g.entry], [fl.g.exit], stop_node=lambda m: m in rq)
    c.ob("A16-remove", "always", w, "a quantum removed by adjust_all_quanta stays in the graph")
    for n in rq:
        ro = arg(n, 1, "remove_outputs")
        c.ob("A16-remove", "outputs", None if ro is not None and ex(fl, ro, n) == const(True) else True, "the outputs of a removed quantum stay in the graph", n)
        c.ob("A16-remove", "key", None if n.args and fl.derives(n.args[0], n, P("data_id")) else True, "another quantum is removed", n)
    fl = flow_of(c, Q, "iter_data_ids")
    ys = [n for n in fl.g.live if n.kind in ("yield", "compelt")]
    for h in over(fl, lambda t: mentions(t, lambda s: s[0] == "call" and s[2] == "get_quanta")):
        each(c, "A16b-all-quanta", "listed", fl, h, ys, "a quantum is not shown to the hook")
    for name, own, edge, key in (("add_input", "inputs", "add_input_edge", "DatasetKey"), ("add_prerequisite_input", "prerequisite_inputs", "add_input_edge", "PrerequisiteDatasetKey"),
                                 ("move_output", "outputs", "add_output_edge", "DatasetKey")):
        fl = flow_of(c, Q, name)
        es = calls(fl, edge, edge + "s")
        qk, dk = ctor(fl, "QuantumKey"), ctor(fl, key)
        w = fl.path([fl.g.entry], [fl.g.exit], stop_node=lambda m: m in es)
        c.ob("A17-edge", name, w, "a dataset added to a quantum is not connected to it")
        for n in es:
            ok = len(n.args) + len(n.kwargs) >= 2 and frm(fl, arg(n, 0, "task_key"), n, qk) and frm(fl, arg(n, 1, "dataset_key", "dataset_keys"), n, dk)
            c.ob("A17-edge", name + " ends", None if ok else True, "the wrong nodes are connected", n)
        inn = lambda lit, n: lit[0] == "in" and lit[3] is True and frm(fl, lit[1], n, dk, False)  # noqa: E731
        guard(c, "A17b-known", name, fl, es, inn, "a dataset that is not in the graph can be added to a quantum")
        for n in dk:
            ok = mentions(ex(fl, arg(n, 0, "parent_dataset_type_name"), n, 8), lambda s: tail(s) == own)
            c.ob("A17c-connection", name, None if ok else True, "a dataset is looked up under another connection", n)
        if name == "move_output":
            ro = calls(fl, "remove_output_edge")
            w = fl.must_precede(ro, es)
            c.ob("A18-single-producer", "moved", w, "a moved output keeps its old producer", es[0] if es else None)
            for n in ro:
                c.ob("A18-single-producer", "dataset", None if n.args and frm(fl, n.args[0], n, dk) else True, "another output is detached", n)
    for name, it, ks in (("get_inputs", "iter_inputs_of", ("DatasetKey",)), ("get_prerequisite_inputs", "iter_inputs_of", ("PrerequisiteDatasetKey",)),
                         ("get_outputs", "iter_outputs_of", ())):
        fl = flow_of(c, Q, name)
        hs = over(fl, lambda t: mentions(t, lambda s: s[0] == "call" and s[2] in ("iter_inputs_of", "iter_outputs_of")))
        for h in hs:
            ok = mentions(ex(fl, h.iterable, h, 8), lambda s: s[0] == "call" and s[2] == it)
            c.ob("A19-lists", name, None if ok else True, "the datasets of a quantum are taken from the wrong side", h)
            ins = [m for m in fl.g.live if m.id in fl.loop_body(h) and (m.kind == "substore" or m.kind == "call" and m.name in ("append", "add", "setdefault"))]
            skip = (lambda lit, n: lit[0] == "isinstance" and lit[3] is False and {q.rsplit(".", 1)[-1] for q in lit[2]} == set(ks)) if ks else None
            if not h.d.get("comp"):
                each(c, "A19-lists", name + " every", fl, h, ins, "a dataset of a quantum is not listed", unless=skip)
            if ks:
                guard(c, "A19-lists", name + " kind", fl, ins, lambda lit, n: lit[0] == "isinstance" and lit[3] is True and {
                    q.rsplit(".", 1)[-1] for q in lit[2]} == set(ks), "datasets of another kind are listed", starts=[(h, "elem")])
        c.ob("A19-lists", name, None if hs else True, "the datasets of a quantum are not listed", func=fl.g.root)
