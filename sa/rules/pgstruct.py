"""The structure of a pipeline graph: it is exactly what its tasks declare, through every modification, selection and view."""

from __future__ import annotations

from ..lib import Check, const, exc_edges, is_self_attr
from ..q import (arg, as_edges, bycall, calls, comp_filtered, ctor, each, ex, flow_of, frm, full, guard, iters, lit_edges, loops_of, loops_over, mentions, present, retvals, tail)
from .boolval import passes
from .fields import carry, got
from .pgio import PG

NK = {"TASK", "TASK_INIT", "DATASET_TYPE"}


def run(c: Check):
    P = c.prog.cls(PG + "_pipeline_graph.PipelineGraph")
    add(c, P)
    remove(c, P)
    replace(c, P)
    order(c, P)
    declared(c)
    edges(c)
    diffs(c)
    access(c, P)
    views(c, P)
    select(c, P)
    subsets(c)


def _enum(t, *nm):
    return t[0] == "attr" and t[2] in nm or t[0] == "glob" and isinstance(t[1], str) and bool(set(nm) & set(t[1].split(".")[-2:]))


def _kind(fl, e, n):
    """Which node types are mentioned by a key expression."""
    return {k for k in NK if fl.derives(e, n, lambda t, m, k=k: _enum(t, k))}


def P_(nm):
    return lambda t, m: t == ("param", nm)


def _never(c, rule, inst, fl, starts, goal, msg, stop=(), stop_edges=()):
    st = set(stop)
    c.ob(rule, inst, fl.path(starts, goal, stop_node=lambda m: m in st, stop_edge=lambda m, lab: (m.id, lab) in stop_edges), msg)


def add(c, P):
    fl = flow_of(c, P, "add_task_nodes")
    g = fl.g
    hs = loops_over(fl, "param", "nodes")
    msg = "an added task is incomplete"
    present(c, "G1-add", "tasks", hs, msg, fl)
    nd = calls(fl, "append", "extend")
    for h in hs:
        full(c, "G1-add", "tasks", fl, h, msg)
        ap = [n for n in nd if h in loops_of(fl, n) and n.args]
        for what, init in (("task", False), ("init", True)):
            ns = [n for n in ap if ex(fl, n.args[0], n)[0] == "tuple" and len(ex(fl, n.args[0], n)[1]) == 2 and (mentions(ex(fl, n.args[0], n)[1][0], lambda s: tail(s) == "init") is init)]
            each(c, "G1-add", "node " + what, fl, h, ns, msg + " (a node is lost)")
            for n in ns:
                d = ex(fl, n.args[0], n)[1][1]
                if d[0] == "dict":
                    v = {k[2]: x for k, x in d[1] if k[0] == "const"}
                    ok = "instance" in v and (tail(v["instance"]) == "init") is init and "bipartite" in v
                    c.ob("G1-add", "node " + what + ":instance", None if ok else True, msg + " (nodes are confused)", n)
        apd = [n for n in calls(fl, "_append_graph_data_from_edge")]
        for what, nm, init in (("init inputs", "iter_all_inputs", True), ("init outputs", "iter_all_outputs", True), ("inputs", "iter_all_inputs", False), ("outputs", "iter_all_outputs", False)):
            xs = [x for x in iters(fl, comp=None) if h in loops_of(fl, x) and any((tail(ex(fl, r.recv, r)) == "init") is init for r in calls(fl, nm) if frm(fl, x.iterable, x, [r]))]
            present(c, "G1-add", what, xs, msg + " (edges are lost)", fl)
            each(c, "G1-add", what + ":each task", fl, h, xs, msg + " (edges are lost)") if xs else None
            for x in xs:
                es = [n for n in apd if n.id in fl.loop_body(x)]
                each(c, "G1-add", what + ":each", fl, x, es, msg + " (edges are lost)") if not x.d.get("comp") else None
                for n in es:
                    a = arg(n, 2, "edge")
                    c.ob("G1-add", what + ":own", None if a is not None and fl.derives(a, n, lambda t, m, x=x: t == ("elem", x.id)) else True, msg + " (edges are lost)", n)
                    b = arg(n, 3, "parent")
                    c.ob("G1-add", what + ":parent", None if b is not None and fl.derives(b, n, P_("parent")) else True, "dataset types of the parent graph become unresolved", n)
        ie = [n for n in ap if ex(fl, n.args[0], n)[0] == "tuple" and len(ex(fl, n.args[0], n)[1]) == 4]
        each(c, "G1-add", "init to task", fl, h, ie, "a task does not depend on its construction")
        for n in ie:
            t = ex(fl, n.args[0], n)[1]
            ok = mentions(t[0], lambda s: tail(s) == "init") and not mentions(t[1], lambda s: tail(s) == "init")
            c.ob("G1-add", "init to task:direction", None if ok else True, "a task does not depend on its construction", n)
    rs = calls(fl, "_reset")
    an, ae = calls(fl, "add_nodes_from", "add_node"), calls(fl, "add_edges_from", "add_edge")
    present(c, "G2-applied", "nodes", an, "added tasks are lost", fl)
    present(c, "G2-applied", "edges", ae, "edges of added tasks are lost", fl)
    for n in an:
        v = n.args[0] if n.args else None
        c.ob("G2-applied", "nodes:all", None if v is not None and fl.term(v, n)[0] == "var" or v is not None else True, "added tasks are lost", n)
    _never(c, "G2-applied", "reset first", fl, [g.entry], an + ae, "the order of nodes is out of date after tasks were added", stop=rs)
    empty = lit_edges(fl, lambda lit, m: lit[0] == "truth" and lit[2] is False)
    _never(c, "G2-applied", "nodes:always", fl, [g.entry], [g.exit], "added tasks are lost", stop=an, stop_edges=empty)
    _never(c, "G2-applied", "edges:always", fl, [g.entry], [g.exit], "added tasks are lost", stop=ae, stop_edges=empty)
    dag = calls(fl, "is_directed_acyclic_graph", "find_cycle", "lexicographical_topological_sort", "topological_sort", "sort")
    _never(c, "G3-acyclic", "checked", fl, fl.out_edges(ae), [g.exit], "a cyclic pipeline is accepted", stop=dag)
    bad = as_edges(fl, lit_edges(fl, lambda lit, m: lit[0] == "truth" and lit[2] is False and bycall(fl, lit[1], m, "is_directed_acyclic_graph")))
    if bad:
        _never(c, "G3-acyclic", "raised", fl, bad, [g.exit], "a cyclic pipeline is accepted")
        un = calls(fl, "remove_nodes_from", "remove_edges_from", "remove_node", "clear")
        for nm in ("remove_edges_from", "remove_nodes_from"):
            rm = calls(fl, nm)
            present(c, "G3-acyclic", nm, rm, "a task that makes the pipeline cyclic stays in it", fl)
            _never(c, "G3-acyclic", nm + ":always", fl, bad, [g.exc_exit], "a task that makes the pipeline cyclic stays in it", stop=set(rm) | set(un) - set(calls(fl, "remove_edges_from", "remove_nodes_from")), stop_edges={(m.id, lab) for m in un for m, lab in exc_edges([m])})
    for h in hs:
        r = [n for n in calls(fl, "_resolved") if h in loops_of(fl, n)]
        present(c, "G1-add", "dimensions", r, "an added task is not resolved", fl)
        for n in r:
            a = arg(n, 0, "universe")
            c.ob("G1-add", "universe", None if a is not None and is_self_attr(ex(fl, a, n), "_universe") else True, "an added task is not resolved", n)
    fl = flow_of(c, P, "_append_graph_data_from_edge")
    g = fl.g
    st = [n for n in g.live if n.kind == "substore" and ex(fl, n.key, n) == const("instance")]
    nd = [n for n in calls(fl, "append") if n.recv is not None and fl.term(n.recv, n) == ("param", "node_data")]
    ed = [n for n in calls(fl, "append") if n.recv is not None and fl.term(n.recv, n) == ("param", "edge_data")]
    _never(c, "G4-dataset types", "unresolved", fl, [g.entry], [g.exit], "a dataset type stays resolved although other tasks use it now", stop=set(st) | set(nd))
    have = lambda pol: lambda lit, m: (lit[0] == "isnone" and lit[2] is not pol or lit[0] == "truth" and lit[2] is pol) and bycall(fl, lit[1], m, "get") or lit[0] == "in" and lit[3] is pol  # noqa: E731
    guard(c, "G4-dataset types", "new only", fl, nd, have(False), "a dataset type stays resolved although other tasks use it now")
    _never(c, "G4-dataset types", "edge", fl, [g.entry], [g.exit], "edges of added tasks are lost", stop=ed)
    for n in st:
        ok = ex(fl, n.value, n) == const(None) or fl.derives(n.value, n, P_("parent")) and not bycall(fl, n.value, n, "DatasetTypeNode")
        c.ob("G4-dataset types", "value", None if ok else True, "a dataset type stays resolved although other tasks use it now", n)
    for n in nd:
        t = ex(fl, n.args[0], n)
        c.ob("G4-dataset types", "key", None if mentions(t, lambda s: tail(s) == "dataset_type_key") else True, "dataset types are confused", n)
        if t[0] == "tuple" and t[1][1][0] == "dict":
            v = {k[2]: x for k, x in t[1][1][1] if k[0] == "const"}
            c.ob("G4-dataset types", "kind", None if mentions(v.get("bipartite", ()), lambda s: _enum(s, "DATASET_TYPE", "DATASET_OR_TYPE")) else True, "dataset types are taken for tasks", n)
    for n in ed:
        v = n.args[0]
        ok = all(fl.derives(v, n, lambda t, m, at=at: tail(t) == at) for at in ("nodes", "connection_name")) and fl.derives(v, n, P_("edge"))
        c.ob("G4-dataset types", "edge:key", None if ok or fl.derives(v, n, lambda t, m: tail(t) == "key") else True, "parallel edges are lost", n)


def remove(c, P):
    fl = flow_of(c, P, "remove_tasks")
    g = fl.g
    hs = loops_over(fl, "param", "labels")
    msg = "a removed task leaves something behind"
    present(c, "G5-remove", "tasks", hs, msg, fl)
    upd = calls(fl, "update", "add", "extend", "append")
    for h in hs:
        full(c, "G5-remove", "tasks", fl, h, msg)
        inb = [n for n in upd if h in loops_of(fl, n)]
        for way in ("predecessors", "successors"):
            for init in (False, True):
                ns = [n for n in inb if n.args and any((mentions(ex(fl, r.args[0], r), lambda s: tail(s) == "init") is init) for r in calls(fl, way) if frm(fl, n.args[0], n, [r]))]
                present(c, "G5-remove", f"{way}:{'init' if init else 'task'}", ns, "dataset types only a removed task used stay behind", fl)
                each(c, "G5-remove", f"{way}:{'init' if init else 'task'}:each", fl, h, ns, "dataset types only a removed task used stay behind") if ns else None
        rm = calls(fl, "remove_nodes_from", "remove_node")
        for init in (False, True):
            ns = [n for n in inb if n.name in ("add", "append", "update") and n.args and tail(ex(fl, n.args[0], n)) == "key" and (tail(ex(fl, n.args[0], n)[1]) == "init") is init]
            ns += [n for n in rm if h in loops_of(fl, n)]
            each(c, "G5-remove", "node " + ("init" if init else "task"), fl, h, ns, msg)
    rm = calls(fl, "remove_nodes_from", "remove_node")
    present(c, "G5-remove", "removed", rm, msg, fl)
    _never(c, "G5-remove", "removed:always", fl, [g.entry], [g.exit], msg, stop=rm)
    rs = calls(fl, "_reset")
    _never(c, "G5-remove", "reset", fl, [g.entry], rm, "the order of nodes is out of date after tasks were removed", stop=rs)
    # dataset types: gone if unused, unresolved otherwise
    dt = [h for h in iters(fl, comp=None) if any(r.id in fl.loop_body(h) for r in calls(fl, "difference_update", "difference")) and h not in hs]
    for h in dt:
        full(c, "G6-dataset types", "each", fl, h, "dataset types of a removed task are not looked at")
        for way in ("predecessors", "successors"):
            ns = [r for r in calls(fl, way) if r.id in fl.loop_body(h)]
            present(c, "G6-dataset types", way, ns, "dataset types that are still in use are removed", fl)
        unused = lambda pol: lambda lit, m: lit[0] == "truth" and lit[2] is not pol  # noqa: E731
        kill = [n for n in calls(fl, "add") if n.id in fl.loop_body(h) and n.args and fl.term(n.args[0], n) == ("elem", h.id)]
        keep = [n for n in calls(fl, "append") if n.id in fl.loop_body(h) and n.args and fl.term(n.args[0], n) == ("elem", h.id)]
        keep += [n for n in g.live if n.kind == "substore" and n.id in fl.loop_body(h) and ex(fl, n.key, n) == const("instance")]
        present(c, "G6-dataset types", "unused", kill, "dataset types only a removed task used stay behind", fl)
        present(c, "G6-dataset types", "used", keep, "a dataset type stays resolved although a task that used it is gone", fl)
        guard(c, "G6-dataset types", "unused only", fl, kill, unused(True), "dataset types that are still in use are removed", starts=[(h, "elem")])
        guard(c, "G6-dataset types", "used only", fl, keep, unused(False), "dataset types only a removed task used stay behind", starts=[(h, "elem")])
        each(c, "G6-dataset types", "decided", fl, h, kill + keep, "dataset types of a removed task are not looked at")
        df = [r for r in calls(fl, "difference_update", "difference") if r.id in fl.loop_body(h)]
        for n in df:
            c.ob("G6-dataset types", "removed tasks", None if n.args and not (fl.term(n.args[0], n)[0] == "elem") else True, "dataset types only removed tasks used stay behind", n)
    st = [n for n in g.live if n.kind == "substore" and ex(fl, n.key, n) == const("instance")]
    present(c, "G6-dataset types", "unresolved", st, "a dataset type stays resolved although a task that used it is gone", fl)
    for n in st:
        c.ob("G6-dataset types", "unresolved:none", None if ex(fl, n.value, n) == const(None) else True, "a dataset type stays resolved although a task that used it is gone", n)
        for h in loops_of(fl, n)[:1]:
            full(c, "G6-dataset types", "unresolved:each", fl, h, "a dataset type stays resolved although a task that used it is gone")
    # subsets
    raises = [n for n in g.live if n.kind == "raise" and "PipelineGraphError" in str(n.d.get("exc")) and "Safety" not in str(n.d.get("exc"))]
    present(c, "G7-subsets", "refused", raises, "a task that subsets still need is removed", fl)
    guard(c, "G7-subsets", "refused:only if asked", fl, raises, lambda lit, m: lit[0] == "truth" and lit[2] is False and lit[1] == ("param", "drop_from_subsets"), "tasks cannot be removed from subsets")
    sr = [n for n in calls(fl, "remove", "discard") if mentions(ex(fl, n.recv, n), lambda s: tail(s) in ("_task_subsets", "task_subsets"))]
    present(c, "G7-subsets", "dropped", sr, "a removed task stays in its subsets", fl)
    for n in sr:
        for h in loops_of(fl, n):
            full(c, "G7-subsets", "dropped:all", fl, h, "a removed task stays in its subsets")
    sub = [h for h in iters(fl, comp=None) if fl.derives(h.iterable, h, lambda t, m: tail(t) in ("task_subsets", "_task_subsets")) and not any(n.id in fl.loop_body(h) for n in sr) and h.d.get("comp")]
    for h in sub:
        full(c, "G7-subsets", "found", fl, h, "a removed task stays in its subsets")
    for r in retvals(fl):
        c.ob("G7-subsets", "told", None if fl.derives(r.value, r, lambda t, m: _enum(t, "TASK")) or fl.term(r.value, r)[0] in ("var", "comp") else True, "removed tasks are not returned", r)


def replace(c, P):
    fl = flow_of(c, P, "_replace_task_nodes")
    g = fl.g
    msg = "a task keeps its old edges although its configuration changed them"
    df = calls(fl, "diff_edges")
    present(c, "G8-replace", "compared", df, msg, fl)
    for n in df:
        a, b = n.recv, arg(n, 0, "other")
        old = mentions(ex(fl, a, n), lambda s: tail(s) in ("tasks", "_tasks"))
        new = fl.derives(b, n, P_("updates"))
        c.ob("G8-replace", "compared:old and new", None if old and new or b is not None and fl.derives(a, n, P_("updates")) and not fl.derives(b, n, P_("updates")) else True, msg, n)
    hs = loops_over(fl, "param", "updates")
    for h in hs:
        full(c, "G8-replace", "each", fl, h, "some tasks are not replaced")
    chg = lambda pol: lambda lit, m: lit[0] == "truth" and lit[2] is pol and frm(fl, lit[1], m, df)  # noqa: E731
    raises = [n for n in g.live if n.kind == "raise" and "EdgesChangedError" in str(n.d.get("exc"))]
    present(c, "G8-replace", "refused", raises, "edges change although they must not", fl)
    guard(c, "G8-replace", "refused:changed", fl, raises, chg(True), "edges that did not change are refused")
    yes = as_edges(fl, lit_edges(fl, chg(True)))
    ck = lit_edges(fl, lambda lit, m: lit[0] == "truth" and lit[2] is False and lit[1] == ("param", "check_edges_unchanged"))
    if yes and raises:
        _never(c, "G8-replace", "refused:always", fl, yes, lambda m: m in hs or m is g.exit, "edges change although they must not", stop=raises, stop_edges=ck)
    rm, ad = calls(fl, "remove_tasks"), calls(fl, "add_task_nodes")
    present(c, "G8-replace", "deep", [n for n in rm if True] and ad, msg, fl)
    _never(c, "G8-replace", "removed first", fl, [g.entry], ad, "a task keeps its old edges next to the new ones", stop=rm)
    _never(c, "G8-replace", "added again", fl, fl.out_edges(rm), [g.exit], "a reconfigured task vanishes", stop=ad)
    sa = [n for n in calls(fl, "add") if mentions(ex(fl, n.recv, n), lambda s: tail(s) in ("_task_subsets", "task_subsets"))]
    present(c, "G8-replace", "subsets", sa, "a reconfigured task leaves its subsets", fl)
    for n in sa:
        c.ob("G8-replace", "subsets:own", None if any(fl.derives(h.iterable, h, lambda t, m: t[0] == "tmp" and fl.g.nodes[t[1]] in rm) or frm(fl, h.iterable, h, rm) for h in loops_of(fl, n)) or not loops_of(
            fl, n) else True, "a reconfigured task leaves its subsets", n)
        for h in loops_of(fl, n):
            full(c, "G8-replace", "subsets:all", fl, h, "a reconfigured task leaves its subsets")
        c.ob("G8-replace", "subsets:after", fl.path([g.entry], [n], stop_node=lambda m: m in ad), "a reconfigured task leaves its subsets", n)
        _never(c, "G8-replace", "subsets:always", fl, fl.out_edges(ad), [g.exit], "a reconfigured task leaves its subsets", stop=[h for h in loops_of(fl, n)])
    st = [n for n in g.live if n.kind == "substore" and ex(fl, n.key, n) == const("instance")]
    for init in (False, True):
        ns = [n for n in st if (tail(ex(fl, n.value, n)) == "init") is init]
        present(c, "G8-replace", "shallow " + ("init" if init else "task"), ns, "a task keeps its old configuration", fl)
        for n in ns:
            c.ob("G8-replace", "shallow key", None if mentions(ex(fl, n.base, n), lambda s: tail(s) == "init") is init else True, "nodes are confused", n)
            for h in loops_of(fl, n):
                each(c, "G8-replace", "shallow each", fl, h, ns, "a task keeps its old configuration")
    both = [n for n in g.live if n.kind == "raise" and "ValueError" in str(n.d.get("exc"))]
    present(c, "G8-replace", "contradiction", both, "contradicting options are accepted", fl)
    fl = flow_of(c, P, "reconfigure_tasks")
    g = fl.g
    ck = calls(fl, "_replace_task_nodes")
    present(c, "G9-reconfigure", "replaced", ck, "new configurations are ignored", fl)
    for n in ck:
        carry(c, "G9-reconfigure", "options", fl, n, {"check_edges_unchanged": "$check_edges_unchanged", "assume_edges_unchanged": "$assume_edges_unchanged"}, "edges change although they must not")
        v = arg(n, 0, "updates")
        c.ob("G9-reconfigure", "updates", None if v is not None and bycall(fl, v, n, "_reconfigured") else True, "new configurations are ignored", n)
    for n in calls(fl, "_reconfigured"):
        v = arg(n, 1, "rebuild")
        t = ex(fl, v, n) if v is not None else None
        c.ob("G9-reconfigure", "rebuild", None if t is not None and fl.derives(v, n, P_("assume_edges_unchanged")) and t[0] != "param" else True, "edges are not rebuilt for a new configuration", n)
    for h in iters(fl, comp=None):
        w = comp_filtered(fl, h) if h.d.get("comp") else None
        c.ob("G9-reconfigure", "all", w, "new configurations are ignored", h) if w is not None else full(c, "G9-reconfigure", "all", fl, h, "new configurations are ignored")
    dup = [n for n in g.live if n.kind == "raise" and "ValueError" in str(n.d.get("exc"))]
    present(c, "G9-reconfigure", "twice", dup, "one of two configurations for a task is ignored", fl)
    ch = [h for h in iters(fl, comp=None) if fl.derives(h.iterable, h, P_("args")) and fl.derives(h.iterable, h, P_("kwargs"))]
    if not ch:
        for nm in ("args", "kwargs"):
            present(c, "G9-reconfigure", nm, [h for h in iters(fl, comp=None) if fl.derives(h.iterable, h, P_(nm))] or [n for n in calls(fl, "update", "dict") if any(fl.derives(a, n, P_(nm)) for a in list(
                n.args) + list(n.kwargs.values()))], "new configurations are ignored", fl)


def order(c, P):
    for nm, vals in (("_reset", None), ("_reorder", "sorted_keys")):
        fl = flow_of(c, P, nm)
        g = fl.g
        st = [n for n in g.live if n.kind == "attrstore" and n.name == "_sorted_keys"]
        _never(c, "G10-order", nm, fl, [g.entry], [g.exit], "the order of nodes is out of date", stop=st)
        for n in st:
            ok = ex(fl, n.value, n) == const(None) if vals is None else fl.derives(n.value, n, P_(vals))
            c.ob("G10-order", nm + ":value", None if ok else True, "the order of nodes is out of date", n)
        for at in ("_tasks", "_dataset_types"):
            ns = [n for n in calls(fl, nm) if tail(ex(fl, n.recv, n)) in (at, at[1:])]
            _never(c, "G10-order", nm + ":" + at, fl, [g.entry], [g.exit], "the order of nodes is out of date", stop=ns)
    fl = flow_of(c, P, "sort")
    g = fl.g
    ts = calls(fl, "lexicographical_topological_sort", "topological_sort")
    ro = calls(fl, "_reorder")
    present(c, "G10-order", "sorted", ts, "nodes are not in topological order", fl)
    already = lit_edges(fl, lambda lit, m: lit[0] in ("isnone", "truth") and lit[2] is (lit[0] != "isnone") and mentions(fl.expand(lit[1]), lambda s: tail(s) == "_sorted_keys"))
    _never(c, "G10-order", "sorted:always", fl, [g.entry], [g.exit], "nodes are not in topological order", stop=ro, stop_edges=already)
    for n in ro:
        c.ob("G10-order", "sorted:keys", None if n.args and frm(fl, n.args[0], n, ts) else True, "nodes are not in topological order", n)
    for n in ts:
        c.ob("G10-order", "sorted:graph", None if n.args and is_self_attr(ex(fl, n.args[0], n), "_xgraph") else True, "nodes are not in topological order", n)
    V = c.prog.cls(PG + "_mapping_views.MappingView")
    fl = flow_of(c, V, "_make_keys")
    hs = loops_over(fl, "param", "parent_keys", comp=None)
    present(c, "G11-views", "keys", hs, "tasks or dataset types are missing from a view", fl)
    own = lambda pol: lambda lit, m: lit[0] in ("is", "eq") and lit[3] is pol and any(tail(fl.expand(x)) == "_NODE_TYPE" for x in lit[1:3])  # noqa: E731
    for h in hs:
        ce = [n for n in fl.g.live if (n.kind == "compelt" or n.kind == "call" and n.name == "append") and n.id in fl.loop_body(h)]
        guard(c, "G11-views", "own", fl, ce, own(True), "tasks and dataset types are mixed up", starts=[(h, "elem")])
        each(c, "G11-views", "all", fl, h, ce, "tasks or dataset types are missing from a view", unless=own(False))
    for nm in ("__iter__", "__len__"):
        fl = flow_of(c, V, nm)
        mk = calls(fl, "_make_keys")
        st = [n for n in fl.g.live if n.kind == "attrstore" and n.name == "_keys"]
        no = lit_edges(fl, lambda lit, m: lit[0] == "isnone" and lit[2] is False or lit[0] == "truth" and lit[2] is True)
        _never(c, "G11-views", nm, fl, [fl.g.entry], [fl.g.exit], "a view is out of date", stop=mk, stop_edges=no)
        for n in st:
            c.ob("G11-views", nm + ":keys", None if frm(fl, n.value, n, mk) else True, "a view is out of date", n)
    fl = flow_of(c, V, "_reset")
    st = [n for n in fl.g.live if n.kind == "attrstore" and n.name == "_keys" and ex(fl, n.value, n) == const(None)]
    _never(c, "G11-views", "reset", fl, [fl.g.entry], [fl.g.exit], "a view is out of date", stop=st)
    fl = flow_of(c, V, "_reorder")
    st = [n for n in fl.g.live if n.kind == "attrstore" and n.name == "_keys" and bycall(fl, n.value, n, "_make_keys")]
    _never(c, "G11-views", "reorder", fl, [fl.g.entry], [fl.g.exit], "a view is out of date", stop=st)
    for cl, k in (("TaskMappingView", "TASK"), ("TaskInitMappingView", "TASK_INIT"), ("DatasetTypeMappingView", "DATASET_TYPE")):
        K = c.prog.cls(PG + "_mapping_views." + cl)
        v = K.class_assigns.get("_NODE_TYPE")
        if v is not None:
            at = getattr(v, "attr", None) or getattr(getattr(v, "value", None), "attr", None)
            c.ob("G11-views", cl, None if at in (None, k) else True, "a view shows other nodes", func=c.prog.cls(PG + "_mapping_views.MappingView").methods["_make_keys"])


def declared(c):
    T = c.prog.cls(PG + "_tasks.TaskNode")
    fl = flow_of(c, T, "_from_imported_data")
    g = fl.g
    msg = "a task's node does not have the connections the task declares"
    src = {"init_inputs": ("initInputs", "init_key", False, "ReadEdge"), "prerequisite_inputs": ("prerequisiteInputs", "key", True, "ReadEdge"), "inputs": ("inputs", "key", False, "ReadEdge"),
           "init_outputs": ("initOutputs", "init_key", False, "WriteEdge"), "outputs": ("outputs", "key", False, "WriteEdge")}
    for nm, (at, key, pre, kind) in src.items():
        hs = [h for h in loops_over(fl, "attr", at, comp=None)]
        present(c, "G12-declared", nm, hs, msg, fl)
        for h in hs:
            mk = [n for n in calls(fl, "_from_connection_map") if n.id in fl.loop_body(h)]
            unless = lambda lit, m: lit[0] == "truth" and lit[2] is True and tail(fl.expand(lit[1])) == "deferBinding" if nm == "inputs" else False  # noqa: E731, B023
            each(c, "G12-declared", nm + ":all", fl, h, mk, msg, unless=unless)
            for n in mk:
                a = [arg(n, 0, "task_key"), arg(n, 1, "connection_name"), arg(n, 3, "is_prerequisite")]
                ok = a[0] is not None and fl.term(a[0], n) == ("param", key) and a[1] is not None and fl.derives(a[1], n, lambda t, m, h=h: t == ("elem", h.id))
                c.ob("G12-declared", nm + ":own", None if ok else True, msg + " (they belong to another node)", n)
                c.ob("G12-declared", nm + ":prerequisite", None if (a[2] is not None and ex(fl, a[2], n) == const(True)) is pre else True, "prerequisites and inputs are confused", n)
                c.ob("G12-declared", nm + ":direction", None if (n.callee or "").endswith(kind + "._from_connection_map") or kind not in str(n.callee) and "Edge" not in str(n.callee) else True,
                     "inputs and outputs are confused", n)
    for cl, tab in (("TaskInitNode", {"inputs": "initInputs", "outputs": "initOutputs"}), ("TaskNode", {"prerequisite_inputs": "prerequisiteInputs", "inputs": "inputs", "outputs": "outputs"})):
        for n in ctor(fl, cl):
            carry(c, "G12-declared", cl, fl, n, tab, msg, also=("initInputs", "initOutputs", "prerequisiteInputs", "inputs", "outputs"))
    for n in ctor(fl, "TaskInitNode"):
        carry(c, "G12-declared", "init", fl, n, {"key": "$init_key", "imported_data": "$data"}, msg, order=("key",), also=("$key",))
        v = n.kwargs.get("config_output")
        c.ob("G12-declared", "config", None if v is not None and fl.derives(v, n, lambda t, m: _enum(t, "CONFIG_INIT_OUTPUT_CONNECTION_NAME")) else True, msg, n)
    for n in ctor(fl, "TaskNode"):
        for k, nm in (("log_output", "LOG_OUTPUT_CONNECTION_NAME"), ("metadata_output", "METADATA_OUTPUT_CONNECTION_NAME")):
            v = n.kwargs.get(k)
            c.ob("G12-declared", k, None if v is not None and fl.derives(v, n, lambda t, m, nm=nm: _enum(t, nm)) else True, msg, n)
        v = n.kwargs.get("dimensions")
        c.ob("G12-declared", "dimensions", None if v is not None and fl.derives(v, n, lambda t, m: tail(t) == "dimensions") else True, msg, n)
    lg = [n for n in calls(fl, "_from_connection_map") if any(fl.derives(a, n, lambda t, m: _enum(t, "LOG_OUTPUT_CONNECTION_NAME")) for a in n.args)]
    guard(c, "G12-declared", "log", fl, lg, lambda lit, m: lit[0] == "truth" and lit[2] is True and tail(fl.expand(lit[1])) == "saveLogOutput", "logs are expected although they are not saved")
    D = c.prog.cls(PG + "_tasks._TaskNodeImportedData")
    fl = flow_of(c, D, "configure")
    g = fl.g
    for what, nm, kind, tmpl, sc in (("config", "CONFIG_INIT_OUTPUT_CONNECTION_NAME", "InitOutput", "CONFIG_INIT_OUTPUT_TEMPLATE", "CONFIG_INIT_OUTPUT_STORAGE_CLASS"),
                                     ("metadata", "METADATA_OUTPUT_CONNECTION_NAME", "Output", "METADATA_OUTPUT_TEMPLATE", "METADATA_OUTPUT_STORAGE_CLASS"),
                                     ("log", "LOG_OUTPUT_CONNECTION_NAME", "Output", "LOG_OUTPUT_TEMPLATE", "LOG_OUTPUT_STORAGE_CLASS")):
        st = [n for n in g.live if n.kind == "substore" and fl.derives(n.key, n, lambda t, m, nm=nm: _enum(t, nm))]
        present(c, "G13-automatic", what, st, f"the {what} of a task is not written", fl)
        no = lit_edges(fl, lambda lit, m: lit[0] == "truth" and lit[2] is False and tail(fl.expand(lit[1])) == "saveLogOutput") if what == "log" else ()
        _never(c, "G13-automatic", what + ":always", fl, [g.entry], [g.exit], f"the {what} of a task is not written", stop=st, stop_edges=no)
        for n in st:
            cs = [m for m in ctor(fl, kind) if frm(fl, n.value, n, [m], False)]
            c.ob("G13-automatic", what + ":kind", None if cs else True, f"the {what} of a task is written elsewhere", n)
            for m in cs:
                a, b = arg(m, 0, "name"), arg(m, 1, "storageClass")
                ok = a is not None and fl.derives(a, m, lambda t, k, tmpl=tmpl: _enum(t, tmpl)) and fl.derives(a, m, P_("label")) and b is not None and fl.derives(b, m, lambda t, k, sc=sc: _enum(t, sc))
                c.ob("G13-automatic", what + ":name", None if ok else True, f"the {what} of a task is written elsewhere", m)
                if what != "config":
                    d = m.kwargs.get("dimensions")
                    c.ob("G13-automatic", what + ":dimensions", None if d is not None and fl.derives(d, m, lambda t, k: tail(t) == "dimensions") else True, f"the {what} of quanta overwrite each other", m)
    val, fz = calls(fl, "validate"), calls(fl, "freeze")
    new = [n for n in calls(fl, "ConnectionsClass")] + [n for n in g.calls() if n.callee is None and "ConnectionsClass" in str(n.d.get("fn", ""))]
    have = lit_edges(fl, lambda lit, m: lit[0] == "isnone" and lit[2] is False and lit[1] == ("param", "connections"))
    _never(c, "G13-configuration", "validated", fl, [g.entry], [g.exit], "a task with an invalid configuration is accepted", stop=val, stop_edges=have)
    _never(c, "G13-configuration", "frozen", fl, [g.entry], [g.exit], "a task's configuration can change behind the graph's back", stop=fz, stop_edges=have)
    if new:
        _never(c, "G13-configuration", "validated first", fl, [g.entry], new, "a task with an invalid configuration is accepted", stop=val)
    for n in val:
        c.ob("G13-configuration", "invalid", fl.path([(n, "exc")], [g.exit]), "a task with an invalid configuration is accepted", n)


def edges(c):
    R, W = c.prog.cls(PG + "_edges.ReadEdge"), c.prog.cls(PG + "_edges.WriteEdge")
    for K, want in ((R, ["dataset_type_key", "task_key"]), (W, ["task_key", "dataset_type_key"])):
        fl = flow_of(c, K, "nodes")
        for r in retvals(fl):
            t = ex(fl, r.value, r)
            if t[0] == "tuple":
                c.ob("G14-edge", K.name + ":direction", None if [tail(x) for x in t[1]] == want else True, "edges point the other way", r)
    fl = flow_of(c, c.prog.cls(PG + "_edges.Edge"), "key")
    for r in retvals(fl):
        ok = all(fl.derives(r.value, r, lambda t, m, at=at: tail(t) == at) for at in ("nodes", "connection_name"))
        c.ob("G14-edge", "key", None if ok else True, "parallel edges are lost", r)
    for K, extra in ((R, {"component": "splitDatasetTypeName", "is_prerequisite": "$is_prerequisite"}), (W, {})):
        fl = flow_of(c, K, "_from_connection_map")
        for n in ctor(fl, K.name):
            carry(c, "G14-edge", K.name, fl, n, {"storage_class_name": "storageClass", "is_calibration": "isCalibration", "raw_dimensions": "dimensions"}, "an edge differs from its connection")
            carry(c, "G14-edge", K.name, fl, n, {"task_key": "$task_key", "dataset_type_key": ("DATASET_TYPE",) if False else "splitDatasetTypeName"}, "an edge differs from its connection",
                  order=("dataset_type_key", "task_key") if K is R else ())
            carry(c, "G14-edge", K.name, fl, n, {"connection_name": "$connection_name"}, "an edge differs from its connection", also=("$task_key",))
            carry(c, "G14-edge", K.name, fl, n, extra, "an edge differs from its connection") if extra else None
            if K is R:
                v = n.kwargs.get("defer_query_constraint")
                ok = v is not None and got(fl, v, n, {"deferGraphConstraint", "minimum"}) == {"deferGraphConstraint", "minimum"}
                c.ob("G14-edge", "deferred", None if ok else True, "optional or deferred inputs constrain the query", n)
                cmp_ = [i for i, nm in ((1, "component"), (0, "dataset_type_key")) for v in [n.kwargs.get(nm)] if v is not None and fl.derives(
                    v, n, lambda t, m, i=i: t[0] in ("item", "sub") and t[2] in (1 - i, const(1 - i)) and bycall(fl, t[1], m, "splitDatasetTypeName"))]
                c.ob("G14-edge", "component", None if not cmp_ else True, "components and dataset types are confused", n)
        if K is W:
            rs = [n for n in fl.g.live if n.kind == "raise" and "ValueError" in str(n.d.get("exc"))]
            mk = ctor(fl, "WriteEdge")
            guard(c, "G14-edge", "output components", fl, mk, lambda lit, m: lit[0] in ("isnone", "truth") and lit[2] is (lit[0] == "isnone") and bycall(fl, lit[1], m, "splitDatasetTypeName"),
                  "a component is accepted as an output")
            present(c, "G14-edge", "output components:refused", rs, "a component is accepted as an output", fl)
    # what a task sees of a dataset
    for K in (R, W):
        for nm, mkc in (("adapt_dataset_type", "makeComponentDatasetType"), ("adapt_dataset_ref", "makeComponentRef")):
            fl = flow_of(c, K, nm)
            g = fl.g
            ov = calls(fl, "overrideStorageClass")
            same = lit_edges(fl, lambda lit, m: lit[0] == "eq" and lit[3] is True and any(tail(fl.expand(x)) == "storage_class_name" for x in lit[1:3]))
            _never(c, "G15-adapt", f"{K.name}.{nm}:storage class", fl, [g.entry], [g.exit], "a task gets another storage class than it asked for", stop=ov, stop_edges=same)
            for n in ov:
                c.ob("G15-adapt", f"{K.name}.{nm}:own", None if n.args and tail(ex(fl, n.args[0], n)) == "storage_class_name" else True, "a task gets another storage class than it asked for", n)
                if K is R:
                    co = calls(fl, mkc)
                    no = lit_edges(fl, lambda lit, m: lit[0] in ("isnone", "truth") and lit[2] is (lit[0] == "isnone") and tail(fl.expand(lit[1])) == "component")
                    _never(c, "G15-adapt", f"{nm}:component first", fl, [g.entry], [n], "a task gets the whole dataset instead of a component", stop=co, stop_edges=no)
            if K is R:
                co = calls(fl, mkc)
                no = lit_edges(fl, lambda lit, m: lit[0] in ("isnone", "truth") and lit[2] is (lit[0] == "isnone") and tail(fl.expand(lit[1])) == "component")
                _never(c, "G15-adapt", f"{nm}:component", fl, [g.entry], [g.exit], "a task gets the whole dataset instead of a component", stop=co, stop_edges=no)
                for r in retvals(fl):
                    on = lit_edges(fl, lambda lit, m: lit[0] in ("isnone", "truth") and lit[2] is (lit[0] == "isnone") and tail(fl.expand(lit[1])) == "component")
                    src = fl.sources(r.value, r)
                    ok = any(frm(fl, v, d, co) for v, d in src) or not co or not on
                    c.ob("G15-adapt", f"{nm}:returned", None if ok else True, "a task gets the whole dataset instead of a component", r)
    N = c.prog.cls(PG + "_dataset_types.DatasetTypeNode")
    fl = flow_of(c, N, "generalize_ref")
    g = fl.g
    co, ov = calls(fl, "makeCompositeRef"), calls(fl, "overrideStorageClass")
    no = lit_edges(fl, lambda lit, m: lit[0] == "truth" and lit[2] is False and bycall(fl, lit[1], m, "isComponent"))
    _never(c, "G15-adapt", "generalize:composite", fl, [g.entry], [g.exit], "components are taken for datasets", stop=co, stop_edges=no)
    same = lit_edges(fl, lambda lit, m: lit[0] == "eq" and lit[3] is True)
    _never(c, "G15-adapt", "generalize:storage class", fl, [g.entry], [g.exit], "datasets of the graph have a task's own storage class", stop=ov, stop_edges=same)
    fl = flow_of(c, R, "dataset_type_name")
    withc = [r for r in retvals(fl) if fl.derives(r.value, r, lambda t, m: tail(t) == "component")]
    present(c, "G14-edge", "component name", withc, "components and dataset types are confused", fl)
    for r in withc:
        t = ex(fl, r.value, r)
        if t[0] == "fstr":
            sep = [x for x in t[1] if x[0] == "const"]
            ok = [x[2] for x in sep] == ["."] and [tail(x) for x in t[1] if x[0] != "const"] == ["parent_dataset_type_name", "component"]
            c.ob("G14-edge", "component name:form", None if ok else True, "components and dataset types are confused", r)
    bare = [r for r in retvals(fl) if r not in withc]
    guard(c, "G14-edge", "component name:without", fl, bare, lambda lit, m: lit[0] in ("isnone", "truth") and lit[2] is (lit[0] == "isnone") and tail(fl.expand(lit[1])) == "component", "components and dataset types are confused")
    fl = flow_of(c, c.prog.cls(PG + "_edges.Edge"), "is_init")
    for r in retvals(fl):
        t = ex(fl, r.value, r)
        c.ob("G14-edge", "is_init", None if mentions(t, lambda s: _enum(s, "TASK_INIT")) else True, "edges of construction and execution are confused", r)
    # iteration over a node's edges
    for cl, nm, ats in (("TaskInitNode", "iter_all_inputs", ("inputs",)), ("TaskInitNode", "iter_all_outputs", ("outputs", "config_output")), ("TaskNode", "iter_all_inputs", ("prerequisite_inputs", "inputs")),
                        ("TaskNode", "iter_all_outputs", ("outputs", "metadata_output", "log_output"))):
        fl = flow_of(c, c.prog.cls(PG + "_tasks." + cl), nm)
        g = fl.g
        for at in ats:
            ys = [n for n in g.live if n.kind in ("yield", "return") and n.d.get("value") is not None and fl.derives(n.value, n, lambda t, m, at=at: is_self_attr(t, at))] + [
                h for h in iters(fl, comp=None) if fl.derives(h.iterable, h, lambda t, m, at=at: is_self_attr(t, at))]
            present(c, "G16-all edges", f"{cl}.{nm}:{at}", ys, "edges of a task are left out", fl)
            no = lit_edges(fl, lambda lit, m, at=at: lit[0] in ("isnone", "truth") and lit[2] is (lit[0] == "isnone") and is_self_attr(fl.expand(lit[1]), at)) if at == "log_output" else ()
            _never(c, "G16-all edges", f"{cl}.{nm}:{at}:always", fl, [g.entry], [g.exit], "edges of a task are left out", stop=ys, stop_edges=no)
        for h in iters(fl, comp=None):
            full(c, "G16-all edges", f"{cl}.{nm}:each", fl, h, "edges of a task are left out")
        bad = [x for x in ("inputs", "outputs", "prerequisite_inputs") if x not in ats and any(n.kind in ("yield", "return") and n.d.get("value") is not None and fl.derives(
            n.value, n, lambda t, m, x=x: is_self_attr(t, x)) for n in g.live)]
        c.ob("G16-all edges", f"{cl}.{nm}:only", None if not bad else True, "inputs and outputs are confused", func=g.root)
    for cl, nm, auto in (("TaskInitNode", "get_output_edge", {"CONFIG_INIT_OUTPUT_CONNECTION_NAME": "config_output"}),
                         ("TaskNode", "get_output_edge", {"METADATA_OUTPUT_CONNECTION_NAME": "metadata_output", "LOG_OUTPUT_CONNECTION_NAME": "log_output"})):
        fl = flow_of(c, c.prog.cls(PG + "_tasks." + cl), nm)
        for k, at in auto.items():
            rs = [r for r in retvals(fl) if is_self_attr(ex(fl, r.value, r), at)]
            present(c, "G16-all edges", f"{cl}.{nm}:{at}", rs, "the edge of an automatic output is not found", fl)
            guard(c, "G16-all edges", f"{cl}.{nm}:{at}:own", fl, rs, lambda lit, m, k=k: lit[0] == "eq" and lit[3] is True and mentions(lit, lambda s: _enum(s, k)), "automatic outputs are confused")
    fl = flow_of(c, c.prog.cls(PG + "_tasks.TaskNode"), "get_input_edge")
    for at in ("inputs", "prerequisite_inputs"):
        present(c, "G16-all edges", "get_input_edge:" + at, [r for r in retvals(fl) if fl.derives(r.value, r, lambda t, m, at=at: is_self_attr(t, at))], "the edge of an input is not found", fl)


def diffs(c):
    msg = "edges that changed are not noticed"
    E = c.prog.cls(PG + "_edges.Edge")
    for K, fs in ((E, ("dataset_type_name", "storage_class_name", "raw_dimensions", "is_calibration")), (c.prog.cls(PG + "_edges.ReadEdge"), ("defer_query_constraint",))):
        fl = flow_of(c, K, "diff")
        g = fl.g
        ap = calls(fl, "append", "extend", "insert") + [n for n in g.live if n.kind == "yield"] + [n for n in g.live if n.kind == "def" and n.d.get("aug")]
        for f in fs:
            both = lambda lit, m, f=f: lit[0] == "eq" and {repr(fl.expand(x)) for x in lit[1:3]} == {repr(("attr", ("param", p), f)) for p in ("self", "other")}  # noqa: E731
            ne = as_edges(fl, lit_edges(fl, lambda lit, m: both(lit, m) and lit[3] is False))
            present(c, "G17-diff", f"{K.name}:{f}", ne, msg, fl)
            _never(c, "G17-diff", f"{K.name}:{f}:told", fl, ne, [g.exit], msg, stop=[n for n in ap]) if ne else None
            eq = lit_edges(fl, lambda lit, m: both(lit, m))
            _never(c, "G17-diff", f"{K.name}:{f}:always", fl, [g.entry], [g.exit], msg, stop=[x for x in g.live if x.kind == "branch" and any((x.id, lab) in eq for lab in (True, False))])
        for r in retvals(fl):
            c.ob("G17-diff", f"{K.name}:returned", None if any(frm(fl, n.recv, n, []) or True for n in ap) and fl.term(r.value, r)[0] not in ("list", "const") or not ap else True, msg, r)
        if K is not E:
            sup = calls(fl, "diff")
            present(c, "G17-diff", "ReadEdge:base", sup, msg, fl)
            for r in retvals(fl):
                c.ob("G17-diff", "ReadEdge:base kept", None if frm(fl, r.value, r, sup) else True, msg, r)
    for cl, maps, singles in (("TaskInitNode", ("inputs", "outputs"), ("config_output",)), ("TaskNode", ("prerequisite_inputs", "inputs", "outputs"), ("log_output", "metadata_output"))):
        fl = flow_of(c, c.prog.cls(PG + "_tasks." + cl), "diff_edges")
        g = fl.g
        dm, dd = calls(fl, "_diff_edge_mapping"), calls(fl, "diff")
        for at in maps:
            ns = [n for n in dm if {repr(ex(fl, n.args[0], n)), repr(ex(fl, n.args[1], n))} == {repr(("attr", ("param", p), at)) for p in ("self", "other")}]
            present(c, "G18-diff edges", f"{cl}:{at}", ns, msg, fl)
            _never(c, "G18-diff edges", f"{cl}:{at}:always", fl, [g.entry], [g.exit], msg, stop=ns) if ns else None
            for n in ns:
                kept(c, fl, n, f"{cl}:{at}:kept", msg)
        for at in singles:
            ns = [n for n in dd if {repr(ex(fl, n.recv, n)), repr(ex(fl, n.args[0], n))} == {repr(("attr", ("param", p), at)) for p in ("self", "other")}]
            present(c, "G18-diff edges", f"{cl}:{at}", ns, msg, fl)
            for n in ns:
                kept(c, fl, n, f"{cl}:{at}:kept", msg)
            if at == "log_output":
                isn = lambda p, pol: lambda lit, m: lit[0] in ("isnone", "truth") and (lit[2] is pol) is (lit[0] == "isnone") and fl.expand(lit[1]) == ("attr", ("param", p), at)  # noqa: E731, B023
                ap = calls(fl, "append")
                for p, q_ in (("self", "other"), ("other", "self")):
                    # exactly one of the two has a log
                    cut = lit_edges(fl, isn(p, False)) | lit_edges(fl, isn(q_, True))
                    if ap and cut:
                        _never(c, "G18-diff edges", f"log only in one ({q_})", fl, [g.entry], [g.exit], msg, stop=ap, stop_edges=cut)
            else:
                _never(c, "G18-diff edges", f"{cl}:{at}:always", fl, [g.entry], [g.exit], msg, stop=ns) if ns else None
        if cl == "TaskNode":
            ns = calls(fl, "diff_edges")
            present(c, "G18-diff edges", "init", ns, msg, fl)
            for n in ns:
                kept(c, fl, n, "init:kept", msg)
                ok = {repr(ex(fl, n.recv, n)), repr(ex(fl, n.args[0], n))} == {repr(("attr", ("param", p), "init")) for p in ("self", "other")}
                c.ob("G18-diff edges", "init:both", None if ok else True, msg, n)
    f = c.prog.func(PG + "_tasks._diff_edge_mapping")
    from ..known import fresh
    fl = c.flow(f.qual, inline=fresh)
    g = fl.g
    ap = calls(fl, "append", "extend")
    ha = [h for h in loops_over(fl, "param", "a_mapping")]
    present(c, "G18-diff edges", "mapping:a", ha, msg, fl)
    for h in ha:
        each(c, "G18-diff edges", "mapping:a each", fl, h, ap, msg)
    for n in calls(fl, "discard", "remove", "clear", "pop", "difference_update"):
        inl = [h for h in ha if n.id in fl.loop_body(h)]
        if inl and n.recv is not None and fl.derives(n.recv, n, P_("b_mapping"), through_args=True):
            ok = n.args and any(fl.derives(n.args[0], n, lambda t, m: t == ("elem", h.id)) for h in inl)
            c.ob("G18-diff edges", "mapping:crossed off", None if ok else True, msg, n)
    hb = [h for h in iters(fl, comp=False) if h not in ha and fl.derives(h.iterable, h, P_("b_mapping"))]
    present(c, "G18-diff edges", "mapping:only in b", hb, msg, fl)
    for h in hb:
        each(c, "G18-diff edges", "mapping:b each", fl, h, ap, msg, unless=lambda lit, m: lit[0] == "in")
    dd = calls(fl, "diff")
    present(c, "G18-diff edges", "mapping:both", dd, msg, fl)
    for n in dd:
        kept(c, fl, n, "mapping:kept", msg)


def kept(c, fl, n, inst, msg):
    """What call n found is part of the result."""
    ok = any(frm(fl, r.value, r, [n]) for r in retvals(fl)) or any(frm(fl, y.value, y, [n]) for y in fl.g.live if y.kind == "yield" and y.d.get("value") is not None)
    c.ob("G18-diff edges", inst, None if ok else True, msg, n)


def access(c, P):
    for nm, way, ret in (("producing_edge_of", "in_edges", None), ("consuming_edges_of", "out_edges", None)):
        fl = flow_of(c, P, nm)
        ce = calls(fl, way)
        present(c, "G19-access", nm, ce, "producers and consumers are confused", fl)
        for n in ce:
            c.ob("G19-access", nm + ":key", None if _kind(fl, n.args[0], n) == {"DATASET_TYPE"} and fl.derives(n.args[0], n, P_("dataset_type_name")) else True, "producers and consumers of another dataset type are returned", n)
        rs = [r for r in retvals(fl) if frm(fl, r.value, r, ce)]
        present(c, "G19-access", nm + ":returned", rs, "producers and consumers are lost", fl)
        for h in iters(fl, comp=None):
            w = comp_filtered(fl, h) if h.d.get("comp") else None
            c.ob("G19-access", nm + ":all", w, "producers and consumers are lost", h) if w is not None else full(c, "G19-access", nm + ":all", fl, h, "producers and consumers are lost")
    fl = flow_of(c, P, "producing_edge_of")
    for h in iters(fl, comp=False):
        rs = [n for n in fl.g.live if n.kind == "raise" and "DuplicateOutputError" in str(n.d.get("exc"))]
        w = fl.path([(h, "elem")], rs) if rs else None
        present(c, "G19-access", "several producers", rs, "one of several producers is returned", fl)
        # a second iteration must be able to see that there was a first
        br = [m for m in fl.g.live if m.kind == "branch" and any(lit[0] in ("isnone", "truth") and lit[1][0] == "var" for lit in fl.lits(m, True))]
        for m in br:
            for lit in fl.lits(m, True):
                if lit[0] in ("isnone", "truth") and lit[1][0] == "var":
                    vals = [v for _, v, d in fl.reaching(lit[1], m)]
                    c.ob("G19-access", "several producers:noticed", None if any(v != const(None) for v in vals) else True, "one of several producers is returned", m)
        del w
        first = lit_edges(fl, lambda lit, m: lit[0] in ("isnone", "truth") and lit[1][0] == "var" and lit[2] is (lit[0] == "isnone"))
        seen = lambda lit, m: lit[0] in ("isnone", "truth") and lit[1][0] == "var" and lit[2] is (lit[0] == "truth") and (  # noqa: E731
            {const(None)} < {v for _, v, d in fl.reaching(lit[1], m)})
        again = as_edges(fl, lit_edges(fl, seen))
        if rs and again:
            c.ob("G19-access", "several producers:refused", fl.path(again, [h, fl.g.exit], stop_node=lambda m: m in rs, stop_edge=lambda n, lab: (n.id, lab) in first),
                 "one of several producers is returned", h)
    for nm, via in (("producer_of", "producing_edge_of"), ("consumers_of", "consuming_edges_of")):
        fl = flow_of(c, P, nm)
        ce = calls(fl, via)
        present(c, "G19-access", nm, ce, "producers and consumers are confused", fl)
        rs = [r for r in retvals(fl) if frm(fl, r.value, r, ce)]
        present(c, "G19-access", nm + ":returned", rs, "producers and consumers are lost", fl)
        ok = any(fl.derives(r.value, r, lambda t, m: tail(t) == "task_key") for r in rs)
        c.ob("G19-access", nm + ":task", None if ok else True, "another task is taken for a producer or consumer", func=fl.g.root)
        for h in iters(fl, comp=None):
            w = comp_filtered(fl, h) if h.d.get("comp") else None
            c.ob("G19-access", nm + ":all", w, "producers and consumers are lost", h) if w is not None else full(c, "G19-access", nm + ":all", fl, h, "producers and consumers are lost")
    for nm, via in (("inputs_of", "iter_all_inputs"), ("outputs_of", "iter_all_outputs")):
        fl = flow_of(c, P, nm)
        ce = calls(fl, via)
        present(c, "G19-access", nm, ce, "inputs and outputs are confused", fl)
        other = calls(fl, "iter_all_outputs" if via == "iter_all_inputs" else "iter_all_inputs")
        c.ob("G19-access", nm + ":only", None if not other else True, "inputs and outputs are confused", func=fl.g.root)
        ini = lambda pol: lambda lit, m: lit[0] == "truth" and lit[2] is pol and lit[1] == ("param", "init")  # noqa: E731
        ds = [n for n in fl.g.live if n.kind == "def" and any(v[0] == "attr" and v[2] == "init" for _, v in n.d.get("defs", ()))]
        guard(c, "G19-access", nm + ":init", fl, ds, ini(True), "construction and execution are confused") if ds else None
        ok = any(n.recv is not None and (fl.derives(n.recv, n, lambda t, m: tail(t) == "init") or mentions(ex(fl, n.recv, n), lambda s: tail(s) == "init")) for n in ce)
        c.ob("G19-access", nm + ":of construction", None if ok else True, "construction and execution are confused", func=fl.g.root)
        if ds:
            w = fl.path(as_edges(fl, lit_edges(fl, ini(True))), ce, stop_node=lambda m: m in ds)
            c.ob("G19-access", nm + ":of construction:always", w, "construction and execution are confused")
        for h in iters(fl, comp=None):
            w = comp_filtered(fl, h) if h.d.get("comp") else None
            c.ob("G19-access", nm + ":all", w, "inputs or outputs are lost", h) if w is not None else full(c, "G19-access", nm + ":all", fl, h, "inputs or outputs are lost")
        if nm == "outputs_of":
            at = [n for n in fl.g.live if n.kind == "call" and n.name == "values"]
            guard(c, "G19-access", "outputs_of:automatic", fl, at, lambda lit, m: lit[0] == "truth" and lit[2] is False and lit[1] == ("param", "include_automatic_connections"), "automatic outputs are left out") if at else None
    fl = flow_of(c, P, "iter_edges")
    own = lambda pol: lambda lit, m: lit[0] in ("eq", "is") and lit[3] is pol and mentions(lit, lambda s: tail(s) == "is_init") or lit[0] == "truth" and tail(fl.expand(lit[1])) == "is_init"  # noqa: E731
    ys = [n for n in fl.g.live if n.kind == "yield"]
    guard(c, "G19-access", "iter_edges:own", fl, ys, own(True), "construction and execution are confused") if ys else None
    for h in iters(fl, comp=False):
        if not lit_edges(fl, lambda lit, m: lit[0] in ("eq", "is") and mentions(lit, lambda s: tail(s) == "is_init")):
            atoms = {"i": lambda lit, m: lit[0] == "truth" and lit[1] == ("param", "init"), "e": lambda lit, m: lit[0] == "truth" and tail(ex(fl, lit[1], m)) == "is_init"}
            passes(c, "G19-access", "iter_edges:which", fl, [(h, "elem")], ys, [], atoms, lambda i, e: None if i is e else "never", "construction and execution are confused", stop=[h])
        each(c, "G19-access", "iter_edges:all", fl, h, ys, "edges are left out", unless=lambda lit, m: own(False)(lit, m) or lit[0] == "isnone" and lit[2] is True)
    fl = flow_of(c, P, "iter_nodes")
    ys = [n for n in fl.g.live if n.kind == "yield"]
    for h in iters(fl, comp=False):
        each(c, "G19-access", "iter_nodes:all", fl, h, ys, "nodes are left out")
    srt = [h for h in iters(fl, comp=False) if fl.derives(h.iterable, h, lambda t, m: is_self_attr(t, "_sorted_keys"))]
    present(c, "G19-access", "iter_nodes:order", srt, "nodes are not in order although the graph was sorted", fl)
    isn = lit_edges(fl, lambda lit, m: lit[0] in ("isnone", "truth") and lit[2] is (lit[0] == "isnone") and is_self_attr(fl.expand(lit[1]), "_sorted_keys"))
    _never(c, "G19-access", "iter_nodes:order:always", fl, [fl.g.entry], [fl.g.exit], "nodes are not in order although the graph was sorted", stop=srt, stop_edges=isn)
    fl = flow_of(c, P, "iter_overall_inputs")
    ys = [n for n in fl.g.live if n.kind == "yield"]
    tg = calls(fl, "topological_generations")
    for h in iters(fl, comp=False):
        if not frm(fl, h.iterable, h, tg):
            each(c, "G19-access", "overall inputs:all", fl, h, ys, "overall inputs are left out", unless=lambda lit, m: lit[0] in ("is", "eq") and lit[3] is False)
        elif fl.term(h.iterable, h)[0] == "elem":
            each(c, "G19-access", "overall inputs:all", fl, h, ys, "overall inputs are left out", unless=lambda lit, m: lit[0] in ("is", "eq") and lit[3] is False)
    dtk = lambda lit, m: lit[0] in ("is", "eq") and lit[3] is True and mentions(lit, lambda s: _enum(s, "DATASET_TYPE"))  # noqa: E731
    if tg:
        guard(c, "G19-access", "overall inputs:dataset types", fl, ys, dtk, "tasks are taken for overall inputs")
        w = fl.path(fl.out_edges(ys), tg and [h for h in iters(fl, comp=False) if fl.term(h.iterable, h)[0] == "tmp" and frm(fl, h.iterable, h, tg, False)])
        c.ob("G19-access", "overall inputs:first generation", w, "intermediates are taken for overall inputs")
    # grouping
    fl = flow_of(c, P, "group_by_dimensions")
    g = fl.g
    for at, i in (("tasks", 0), ("dataset_types", 1)):
        hs = loops_over(fl, "attr", at)
        present(c, "G20-groups", at, hs, f"some {at} belong to no group", fl)
        for h in hs:
            st = [n for n in g.live if n.kind == "substore" and n.id in fl.loop_body(h) and not (ex(fl, n.base, n)[0] == "dict")]
            pre = lambda lit, m: lit[0] == "truth" and (lit[2] is True and tail(fl.expand(lit[1])) == "is_prerequisite" or lit[2] is False and lit[1] == ("param", "prerequisites"))  # noqa: E731
            each(c, "G20-groups", at + ":each", fl, h, st, f"some {at} belong to no group", unless=pre if i else None)
            for n in st:
                t = fl.term(n.base, n)
                idx = t[2] if t[0] in ("sub", "item") else None
                c.ob("G20-groups", at + ":place", None if idx in (None, i, const(i)) else True, "tasks and dataset types are confused", n)
            if i:
                guard(c, "G20-groups", "prerequisites", fl, st, lambda lit, m: lit[0] == "truth" and (lit[2] is False and tail(fl.expand(lit[1])) == "is_prerequisite" or lit[2] is True and lit[1] == (
                    "param", "prerequisites")), "prerequisites belong to groups although they must not", starts=[(h, "elem")])
            sd = [n for n in calls(fl, "setdefault") if n.id in fl.loop_body(h)]
            for n in sd:
                c.ob("G20-groups", at + ":own", None if mentions(ex(fl, n.args[0], n), lambda s: tail(s) == "dimensions") and fl.derives(n.args[0], n, lambda t, m, h=h: t == ("elem", h.id)) else True,
                     "the group is that of other dimensions", n)
                # the default is not shared by two groups
                v = fl.term(n.args[1], n) if len(n.args) > 1 else None
                if v is not None and v[0] == "var":
                    new = lit_edges(fl, lambda lit, m, n=n: lit[0] == "is" and lit[3] is True and any(frm(fl, x, m, [n], False) for x in lit[1:3]))
                    re_ = [m for m in g.live if m.kind == "def" and m.id in fl.loop_body(h) and v[1] in [x[1] for x in m.d.get("defs", ()) if isinstance(x, tuple) and len(x) > 1 and isinstance(x[0], str)]]
                    present(c, "G20-groups", at + ":fresh", re_ or (not new and [1]), "two groups share their members", fl) if False else None
    fl = flow_of(c, P, "get_all_dimensions")
    for n in calls(fl, "group_by_dimensions"):
        v = arg(n, 0, "prerequisites")
        c.ob("G20-groups", "all dimensions", None if v is not None and fl.term(v, n) == ("param", "prerequisites") else True, "dimensions of prerequisites are left out", n)


def views(c, P):
    fl = flow_of(c, P, "_make_bipartite_xgraph_internal")
    es = calls(fl, "iter_edges")
    for n in es:
        v = arg(n, 0, "init")
        c.ob("G21-views", "edges", None if v is not None and fl.term(v, n) == ("param", "init") else True, "construction and execution are confused", n)
    for h in iters(fl, comp=None):
        w = comp_filtered(fl, h) if h.d.get("comp") else None
        c.ob("G21-views", "edges:all", w, "edges are left out of a view", h) if w is not None else full(c, "G21-views", "edges:all", fl, h, "edges are left out of a view")
    for nm, kind in (("_make_task_xgraph_internal", {"TASK", "TASK_INIT", "TASK_OR_QUANTUM"}), ("make_dataset_type_xgraph", {"DATASET_TYPE", "DATASET_OR_TYPE"}), ("split_independent", {"TASK", "TASK_OR_QUANTUM"})):
        fl = flow_of(c, P, nm)
        for h in iters(fl, comp=None):
            if tail(ex(fl, h.iterable, h)) == "nodes" or ex(fl, h.iterable, h)[0] == "call" and ex(fl, h.iterable, h)[2] == "nodes":
                ce = [n for n in fl.g.live if n.id in fl.loop_body(h) and (n.kind == "compelt" or n.kind == "call" and n.name in ("append", "add", "update"))]
                own = lambda pol: lambda lit, m: lit[0] in ("eq", "is") and lit[3] is pol and mentions(lit, lambda s: _enum(s, *kind))  # noqa: E731, B023
                guard(c, "G21-views", nm + ":own", fl, ce, own(True), "tasks and dataset types are confused", starts=[(h, "elem")])
                each(c, "G21-views", nm + ":all", fl, h, ce, "nodes are left out of a view", unless=own(False))
        for n in calls(fl, "_make_bipartite_xgraph_internal"):
            v = arg(n, 0, "init")
            ok = v is not None and (fl.term(v, n) == ("param", "init") if nm != "split_independent" else ex(fl, v, n) == const(False))
            c.ob("G21-views", nm + ":init", None if ok else True, "construction and execution are confused", n)
    for nm in ("make_bipartite_xgraph", "make_task_xgraph"):
        fl = flow_of(c, P, nm)
        for n in calls(fl, "_make_bipartite_xgraph_internal", "_make_task_xgraph_internal"):
            v = arg(n, 0, "init")
            c.ob("G21-views", nm + ":init", None if v is not None and fl.term(v, n) == ("param", "init") else True, "construction and execution are confused", n)
    for nm, cp in (("make_xgraph", True), ("make_bipartite_xgraph", True)):
        fl = flow_of(c, P, nm)
        for n in calls(fl, "_transform_xgraph_state"):
            c.ob("G21-views", nm + ":separate", None if bycall(fl, n.args[0], n, "copy", "deepcopy", "MultiDiGraph") else True, "an exported graph shares its state with the pipeline graph", n)
            v = arg(n, 1, "skip_edges")
            c.ob("G21-views", nm + ":edges", None if v is not None and ex(fl, v, n) == const(False) else True, "edges of an exported graph lose their state", n)
    fl = flow_of(c, c.prog.cls(PG + "_edges.Edge"), "_to_xgraph_state")
    for r in retvals(fl):
        t = ex(fl, r.value, r)
        if t[0] == "dict":
            v = {k[2]: x for k, x in t[1] if k[0] == "const"}
            for k in ("connection_name", "parent_dataset_type_name", "storage_class_name", "is_init"):
                c.ob("G21-views", "edge state:" + k, None if k in v and tail(v[k]) == k else True, "edges of an exported graph lose their state", r)
    # independent parts
    fl = flow_of(c, P, "split_independent")
    g = fl.g
    cc = calls(fl, "weakly_connected_components", "connected_components")
    ys = [n for n in g.live if n.kind == "yield"]
    present(c, "G22-split", "components", cc, "independent parts are lost", fl)
    for h in iters(fl, comp=False):
        if frm(fl, h.iterable, h, cc):
            whole = as_edges(fl, lit_edges(fl, lambda lit, m: lit[0] == "eq" and lit[3] is True))
            own = [n for n in ys if fl.term(n.value, n) != ("param", "self")]
            c.ob("G22-split", "each", fl.path([(h, "elem")], [h], stop_node=lambda m: m in ys), "independent parts are lost", h)
            slf = [n for n in ys if fl.term(n.value, n) == ("param", "self")]
            if slf:
                guard(c, "G22-split", "whole", fl, slf, lambda lit, m: lit[0] == "eq" and lit[3] is True, "the whole graph is taken for one of its parts")
            del whole, own
    for n in calls(fl, "add_task_nodes"):
        v = arg(n, 1, "parent")
        c.ob("G22-split", "resolved", None if v is not None and fl.term(v, n) == ("param", "self") else True, "parts of a resolved graph are unresolved", n)
    for n in ctor(fl, "PipelineGraph"):
        carry(c, "G22-split", "part", fl, n, {"universe": "_universe", "data_id": "_raw_data_id"}, "parts of a graph differ from it")
    so = calls(fl, "sort")
    no = lit_edges(fl, lambda lit, m: lit[0] == "truth" and lit[2] is False and tail(fl.expand(lit[1])) == "has_been_sorted" or lit[0] == "isnone" and lit[2] is True)
    for y in [n for n in ys if fl.term(n.value, n) != ("param", "self")]:
        c.ob("G22-split", "sorted", fl.path(fl.out_edges(calls(fl, "add_task_nodes")), [y], stop_node=lambda m: m in so, stop_edge=lambda m, lab: (m.id, lab) in no), "parts of a sorted graph are unsorted", y)


def select(c, P):
    fl = flow_of(c, P, "select")
    for n in ctor(fl, "PipelineGraph"):
        carry(c, "G23-select", "part", fl, n, {"universe": "_universe", "data_id": "_raw_data_id"}, "a selection of a graph differs from it")
    for n in calls(fl, "add_task_nodes"):
        v = arg(n, 1, "parent")
        c.ob("G23-select", "resolved", None if v is not None and fl.term(v, n) == ("param", "self") else True, "a selection of a resolved graph is unresolved", n)
        c.ob("G23-select", "selected", None if bycall(fl, arg(n, 0, "nodes"), n, "select_tasks") else True, "other tasks are selected", n)
    so = calls(fl, "sort")
    no = lit_edges(fl, lambda lit, m: lit[0] == "truth" and lit[2] is False and tail(fl.expand(lit[1])) == "has_been_sorted" or lit[0] == "isnone" and lit[2] is True)
    _never(c, "G23-select", "sorted", fl, [fl.g.entry], [fl.g.exit], "a selection of a sorted graph is unsorted", stop=so, stop_edges=no)
    for h in iters(fl, comp=None):
        w = comp_filtered(fl, h) if h.d.get("comp") else None
        c.ob("G23-select", "all", w, "selected tasks are left out", h) if w is not None else full(c, "G23-select", "all", fl, h, "selected tasks are left out")
    for nm, way in (("_select_task_ancestors", "ancestors"), ("_select_task_descendants", "descendants"), ("_select_dataset_type_ancestors", "ancestors"), ("_select_dataset_type_descendants", "descendants")):
        fl = flow_of(c, P, nm)
        g = fl.g
        w = calls(fl, way)
        present(c, "G24-expression", nm, w, "an expression selects other tasks", fl)
        c.ob("G24-expression", nm + ":only", None if not calls(fl, "descendants" if way == "ancestors" else "ancestors") else True, "ancestors and descendants are confused", func=g.root)
        for n in w:
            c.ob("G24-expression", nm + ":graph", None if n.args and fl.term(n.args[0], n) == ("param", "task_xgraph") else True, "an expression selects other tasks", n)
        if "task_" in nm and "dataset" not in nm:
            for n in w:
                c.ob("G24-expression", nm + ":start", None if len(n.args) > 1 and fl.term(n.args[1], n) == ("param", "start") else True, "an expression selects other tasks", n)
            ad = [n for n in calls(fl, "add", "union", "update") if n.args and fl.derives(n.args[0], n, P_("start")) and not bycall(fl, n.args[0], n, way)]
            inc = lambda pol: lambda lit, m: lit[0] == "truth" and lit[2] is pol and lit[1] == ("param", "inclusive")  # noqa: E731
            present(c, "G24-expression", nm + ":inclusive", ad, "the start of a search is left out", fl)
            guard(c, "G24-expression", nm + ":inclusive only", fl, ad, inc(True), "the start of a search is included although it must not be")
            _never(c, "G24-expression", nm + ":inclusive always", fl, [g.entry], [g.exit], "the start of a search is left out", stop=ad, stop_edges=lit_edges(fl, inc(False)))
        else:
            inn, out = calls(fl, "in_edges", "predecessors"), calls(fl, "out_edges", "successors")
            if way == "ancestors":
                present(c, "G24-expression", nm + ":producers", inn, "an expression selects other tasks", fl)
                c.ob("G24-expression", nm + ":no consumers", None if not out else True, "an expression selects other tasks", func=g.root)
            else:
                present(c, "G24-expression", nm + ":consumers", out, "an expression selects other tasks", fl)
                for n in w:
                    c.ob("G24-expression", nm + ":start", None if len(n.args) > 1 and frm(fl, n.args[1], n, out) else True, "an expression selects other tasks", n)
                ad = [n for n in calls(fl, "add") if n.args and frm(fl, n.args[0], n, out)]
                present(c, "G24-expression", nm + ":consumers themselves", ad, "consumers of a dataset type are left out", fl)
            inc = lambda pol: lambda lit, m: lit[0] == "truth" and lit[2] is pol and lit[1] == ("param", "inclusive")  # noqa: E731
            ad = [n for n in calls(fl, "add") if n.args and frm(fl, n.args[0], n, inn)]
            present(c, "G24-expression", nm + ":inclusive", ad, "the producer is left out of an inclusive search", fl)
            guard(c, "G24-expression", nm + ":inclusive only", fl, ad, inc(True), "the producer is included although it must not be")
            for h in iters(fl, comp=False):
                full(c, "G24-expression", nm + ":all", fl, h, "an expression selects too few tasks")
            rs = [n for n in g.live if n.kind == "raise" and "InvalidExpressionError" in str(n.d.get("exc"))]
            present(c, "G24-expression", nm + ":init", rs, "searches from init-outputs are accepted", fl)
    fl = flow_of(c, P, "_select_expression")
    g = fl.g
    for nm in ("_select_task_ancestors", "_select_task_descendants", "_select_dataset_type_ancestors", "_select_dataset_type_descendants"):
        ns = calls(fl, nm)
        present(c, "G24-expression", "operator:" + nm, ns, "an expression selects other tasks", fl)
        up = "ancestors" in nm
        guard(c, "G24-expression", "operator:" + nm + ":direction", fl, ns, lambda lit, m, up=up: lit[0] == "truth" and bycall(fl, lit[1], m, "startswith") and any(
            lit[2] is (ch == ("<" if up else ">")) for ch in "<>" if mentions(fl.expand(lit[1]), lambda s: s == const(ch))), "ancestors and descendants are confused")
        for n in ns:
            v = arg(n, 2, "inclusive")
            t = ex(fl, v, n) if v is not None else ()
            c.ob("G24-expression", "operator:" + nm + ":inclusive", None if v is not None and bycall(fl, v, n, "endswith") and t[0] == "call" and mentions(t, lambda s: s == const("=")) else True,
                 "inclusive and exclusive searches are confused", n)
    rec = calls(fl, "_select_expression")
    for k, op in (("UnionNode", ("union", "BitOr")), ("IntersectionNode", ("intersection", "BitAnd"))):
        pass
    un, it = calls(fl, "union"), calls(fl, "intersection")
    ops = {s[1] for r in retvals(fl) for s in [fl.term(r.value, r)] if s[0] == "op"}
    c.ob("G24-expression", "union", None if un or "BitOr" in ops or calls(fl, "update") else True, "unions are computed as something else", func=g.root)
    c.ob("G24-expression", "intersection", None if it or "BitAnd" in ops or calls(fl, "intersection_update") else True, "intersections are computed as something else", func=g.root)
    isk = lambda cl: lambda lit, m: lit[0] == "isinstance" and lit[3] is True and cl in str(lit[2])  # noqa: E731
    guard(c, "G24-expression", "union:node", fl, un, isk("UnionNode"), "unions and intersections are confused") if un else None
    guard(c, "G24-expression", "intersection:node", fl, it, isk("IntersectionNode"), "unions and intersections are confused") if it else None
    for n in un + it:
        a, b = fl.term(n.recv, n), fl.term(n.args[0], n) if n.args else None
        c.ob("G24-expression", "both operands", None if b is not None and a != b and frm(fl, n.recv, n, rec) and frm(fl, n.args[0], n, rec) else True, "an operand of an expression is ignored", n)
    nots = [r for r in retvals(fl) if fl.derives(r.value, r, lambda t, m: t[0] == "op" and t[1] == "Sub" or t[0] == "tmp" and fl.g.nodes[t[1]].kind == "call" and fl.g.nodes[t[1]].name == "difference")]
    present(c, "G24-expression", "not", nots, "complements are computed as something else", fl)
    for r in nots:
        guard(c, "G24-expression", "not:node", fl, [r], isk("NotNode"), "complements are confused with something else")
        bad = fl.derives(r.value, r, lambda t, m: t[0] == "op" and t[1] == "Sub" and frm(fl, t[2][0], m, rec))
        c.ob("G24-expression", "not:order", None if not bad else True, "complements are computed as something else", r)


def subsets(c):
    S, D = c.prog.cls(PG + "_task_subsets.TaskSubset"), c.prog.cls(PG + "_task_subsets.StepDefinitions")
    msg = "steps count as verified although they were changed since"
    for K, nms in ((S, ("add", "discard")), (D, ("append", "remove", "assign", "set_dimensions"))):
        for nm in nms:
            fl = flow_of(c, K, nm)
            g = fl.g
            mut = [n for n in g.live if n.kind in ("substore", "delsub") and tail(ex(fl, n.base, n)) == "_dimensions_by_label" or n.kind == "attrstore" and n.name == "_dimensions_by_label"] + [
                n for n in calls(fl, "add", "discard", "remove") if n.recv is not None and tail(ex(fl, n.recv, n)) == "_members"]
            cm = [n for n in g.live if n.kind in ("wenter", "call") and (n.d.get("name") == "_unverified_on_success")] + [n for n in g.live if n.kind == "attrstore" and n.name == "_verified" and ex(
                fl, n.value, n) == const(False)]
            present(c, "G25-steps", f"{K.name}.{nm}", mut, "a change of subsets or steps is lost", fl)
            _never(c, "G25-steps", f"{K.name}.{nm}:unverified", fl, [g.entry], [g.exit], msg, stop=cm)
            _never(c, "G25-steps", f"{K.name}.{nm}:changed", fl, [g.entry], [g.exit], "a change of subsets or steps is lost", stop=mut)
    fl = flow_of(c, D, "_unverified_on_success")
    st = [n for n in fl.g.live if n.kind == "attrstore" and n.name == "_verified" and ex(fl, n.value, n) == const(False)]
    _never(c, "G25-steps", "unverified", fl, [fl.g.entry], [fl.g.exit], msg, stop=st)
    fl = flow_of(c, S, "add")
    mut = [n for n in calls(fl, "add") if n.recv is not None and tail(ex(fl, n.recv, n)) == "_members"]
    guard(c, "G25-steps", "members exist", fl, mut, lambda lit, m: lit[0] == "in" and lit[3] is True, "tasks that are not in the graph become part of a subset")
    fl = flow_of(c, D, "set_dimensions")
    st = [n for n in fl.g.live if n.kind == "substore"]
    guard(c, "G25-steps", "dimensions of steps", fl, st, lambda lit, m: lit[0] == "in" and lit[3] is True, "subsets become steps")
    for nm in ("append", "set_dimensions"):
        fl = flow_of(c, D, nm)
        for n in [m for m in fl.g.live if m.kind == "substore"]:
            c.ob("G25-steps", nm + ":dimensions", None if fl.derives(n.value, n, P_("dimensions")) and fl.term(n.key, n) == ("param", "label") else True, "dimensions of steps are lost", n)
    fl = flow_of(c, D, "verified")
    for r in retvals(fl):
        c.ob("G25-steps", "verified", None if fl.derives(r.value, r, lambda t, m: is_self_attr(t, "_verified")) else True, msg, r)
    P = c.prog.cls(PG + "_pipeline_graph.PipelineGraph")
    fl = flow_of(c, P, "remove_task_subset")
    rs = [n for n in calls(fl, "remove") if tail(ex(fl, n.recv, n)) in ("_step_definitions", "steps")]
    _never(c, "G25-steps", "removed subset", fl, [fl.g.entry], [fl.g.exit], "a subset that is gone remains a step", stop=rs)
    ds = [n for n in fl.g.live if n.kind == "delsub"] + calls(fl, "pop")
    _never(c, "G25-steps", "removed subset:gone", fl, [fl.g.entry], [fl.g.exit], "a removed subset stays", stop=ds)
    fl = flow_of(c, P, "add_task_subset")
    for n in ctor(fl, "TaskSubset"):
        carry(c, "G25-steps", "added subset", fl, n, {"label": "$subset_label", "members": "$task_labels", "description": "$description"}, "a subset differs from what was asked for",
              order=("parent_xgraph", "label", "members", "description", "step_definitions"))
