"""Pipeline graphs survive being saved, pickled and copied: every field is written from, and restored into, its own place."""

from __future__ import annotations

from ..lib import Check, const
from ..q import (arg, bycall, calls, comp_filtered, ctor, each, ex, flow_of, frm, full, guard, iters, lit_edges, loops_of, loops_over, mentions, present, retvals, tail)
from .fields import carry, dict_pairs, got

PG = "lsst.pipe.base.pipeline_graph."
IO = PG + "io."
MSG = "a pipeline graph that was saved differs from the original"
PMSG = "a pipeline graph that was pickled or copied differs from the original"
EDGES = {"storage_class_name": "storage_class", "is_calibration": "is_calibration", "raw_dimensions": "raw_dimensions"}


def run(c: Check):
    edge(c)
    nodes(c)
    dataset_type(c)
    subset(c)
    graph(c)
    pickles(c)
    copies(c)
    files(c)


def comps(c, rule, inst, fl, msg=MSG, skip=None):
    """No loop of the function leaves elements out."""
    for h in iters(fl, comp=None):
        if h.d.get("quant") is None and not (skip and skip(h)):
            w = comp_filtered(fl, h) if h.d.get("comp") else None
            if w is not None:
                c.ob(rule, inst, w, msg + " (elements are left out)", h)
            else:
                full(c, rule, inst, fl, h, msg + " (elements are left out)")


def edge(c):
    K = c.prog.cls(IO + "SerializedEdge")
    fl = flow_of(c, K, "serialize")
    mk = ctor(fl, "SerializedEdge")
    present(c, "S1-edge", "made", mk, MSG, fl)
    for n in mk:
        carry(c, "S1-edge", "saved", fl, n, {"storage_class": "storage_class_name", "dataset_type_name": "dataset_type_name", "raw_dimensions": "raw_dimensions",
                                            "is_calibration": "is_calibration", "defer_query_constraint": "defer_query_constraint"}, MSG, also=("parent_dataset_type_name",))
    fl = flow_of(c, K, "deserialize_read_edge")
    mk = ctor(fl, "ReadEdge")
    present(c, "S1-edge", "read", mk, MSG, fl)
    for n in mk:
        carry(c, "S1-edge", "read", fl, n, {**EDGES, "dataset_type_key": ("$dataset_type_keys", "dataset_type_name"), "task_key": "$task_key", "connection_name": "$connection_name",
                                           "is_prerequisite": "$is_prerequisite", "defer_query_constraint": "defer_query_constraint", "component": "dataset_type_name"}, MSG,
              order=("dataset_type_key", "task_key"))
        comp, par = n.kwargs.get("component"), n.kwargs.get("dataset_type_key")
        if comp is not None and par is not None:
            for nm, v, i in (("component", comp, 1), ("parent", par, 0)):
                bad = fl.derives(v, n, lambda t, m, i=i: t[0] in ("item", "sub") and t[2] in (1 - i, const(1 - i)) and bycall(fl, t[1], m, "splitDatasetTypeName"))
                c.ob("S1-edge", "read:" + nm + " part", True if bad or not bycall(fl, v, n, "splitDatasetTypeName") else None, MSG + " (component datasets)", n)
    fl = flow_of(c, K, "deserialize_write_edge")
    mk = ctor(fl, "WriteEdge")
    present(c, "S1-edge", "write", mk, MSG, fl)
    for n in mk:
        carry(c, "S1-edge", "write", fl, n, {**EDGES, "dataset_type_key": ("$dataset_type_keys", "dataset_type_name"), "task_key": "$task_key", "connection_name": "$connection_name"}, MSG)


def mapped(c, rule, inst, fl, n, kw, attr, made, key=None, msg=MSG, check=None):
    """Field kw of n is a mapping made from the whole of attribute ``attr`` by calls ``made``, under unchanged names."""
    v = n.kwargs.get(kw)
    if v is None:
        return
    c.ob(rule, f"{inst}:{kw}:elements", None if bycall(fl, v, n, *made) else True, msg, n)


def nodes(c):
    K = c.prog.cls(IO + "SerializedTaskInitNode")
    fl = flow_of(c, K, "serialize")
    for n in ctor(fl, "SerializedTaskInitNode"):
        carry(c, "S2-task", "init saved", fl, n, {"inputs": "inputs", "outputs": "outputs", "config_output": "config_output"}, MSG)
    comps(c, "S2-task", "init saved", fl)
    fl = flow_of(c, K, "deserialize")
    mk = ctor(fl, "TaskInitNode")
    present(c, "S2-task", "init read", mk, MSG, fl)
    for n in mk:
        carry(c, "S2-task", "init read", fl, n, {"inputs": "inputs", "outputs": "outputs", "config_output": "config_output", "task_class_name": "$task_class_name", "config_str": "$config_str"}, MSG)
        for kw, how in (("inputs", "deserialize_read_edge"), ("outputs", "deserialize_write_edge"), ("config_output", "deserialize_write_edge")):
            mapped(c, "S2-task", "init read", fl, n, kw, kw, (how,))
    comps(c, "S2-task", "init read", fl)
    keys(c, fl, "init")
    K = c.prog.cls(IO + "SerializedTaskNode")
    fl = flow_of(c, K, "serialize")
    six = {x: x for x in ("prerequisite_inputs", "inputs", "outputs", "metadata_output", "log_output")}
    for n in ctor(fl, "SerializedTaskNode"):
        carry(c, "S2-task", "saved", fl, n, {**six, "task_class": "task_class_name", "init": "init", "config_str": "get_config_str", "dimensions": "raw_dimensions"}, MSG)
    comps(c, "S2-task", "saved", fl)
    fl = flow_of(c, K, "deserialize")
    for n in ctor(fl, "TaskNode"):
        carry(c, "S2-task", "read", fl, n, {**six, "dimensions": "dimensions"}, MSG, order=("key", "init"))
        carry(c, "S2-task", "read", fl, n, {"key": "$key"}, MSG, order=("key", "init"), also=("$init_key",))
        carry(c, "S2-task", "read", fl, n, {"init": ("init", "task_class", "config_str")}, MSG, order=("key", "init"), also=("inputs", "outputs"))
        for kw in six:
            mapped(c, "S2-task", "read", fl, n, kw, kw, ("deserialize_read_edge" if "inputs" in kw else "deserialize_write_edge",))
        v = n.kwargs.get("log_output")
        if v is not None:
            has = [r for r in calls(fl, "deserialize_write_edge") if frm(fl, v, n, [r])]
            none = lit_edges(fl, lambda lit, m: lit[0] in ("isnone", "truth") and lit[2] is (lit[0] == "isnone") and tail(fl.expand(lit[1])) == "log_output")
            c.ob("S2-task", "log", fl.path([fl.g.entry], [n], stop_node=lambda m: m in has, stop_edge=lambda m, lab: (m.id, lab) in none), MSG + " (log output)", n)
    comps(c, "S2-task", "read", fl)
    raw = [m for m in calls(fl, "frozenset") if m.args and fl.derives(m.args[0], m, lambda t, k: tail(t) == "dimensions")]
    if raw and not any(fl.derives(x, m, lambda t, k, m=m: t == ("tmp", m.id)) for m2 in calls(fl, "conform") for x in m2.args for m in raw):
        guard(c, "S2-task", "dimensions", fl, raw, lambda lit, m: lit[0] in ("isnone", "truth") and lit[2] is (lit[0] == "isnone") and lit[1] == ("param", "universe"), MSG + " (dimensions become unresolved)")
    keys(c, fl, "task")
    for n in calls(fl, "deserialize_read_edge"):
        v = arg(n, 3, "is_prerequisite")
        pre = fl.derives(n.recv, n, lambda t, m: tail(t) == "prerequisite_inputs")
        val = v is not None and ex(fl, v, n) == const(True)
        if v is None or fl.term(v, n)[0] == "const":
            c.ob("S2-task", "prerequisite", None if pre == val else True, MSG + " (prerequisites become inputs, or inputs prerequisites)", n)
    for n in [m for m in calls(fl, "deserialize") if fl.derives(m.recv, m, lambda t, k: tail(t) == "init")]:
        carry(c, "S2-task", "init", fl, n, {"task_class_name": "task_class", "config_str": "config_str"}, MSG, order=("key", "task_class_name", "config_str"))
        a = arg(n, 0, "key")
        c.ob("S2-task", "init key", None if a is not None and fl.term(a, n) == ("param", "init_key") else True, MSG, n)


def keys(c, fl, what):
    """Edges belong to the node under construction, and keep their connection names."""
    for n in calls(fl, "deserialize_read_edge", "deserialize_write_edge"):
        a = arg(n, 0, "task_key")
        c.ob("S2-task", what + ":edge of", None if a is not None and fl.term(a, n) == ("param", "key") else True, MSG + " (edges of another node)", n)
        v = arg(n, 1, "connection_name")
        h = [x for x in loops_of(fl, n, comp=None) if fl.derives(n.recv, n, lambda t, m, x=x: t == ("elem", x.id))]
        if h and v is not None:
            c.ob("S2-task", what + ":connection", None if fl.derives(v, n, lambda t, m: t == ("elem", h[0].id)) else True, MSG + " (connections are confused)", n)
        elif v is not None:
            want = tail(ex(fl, n.recv, n))
            t = ex(fl, v, n)
            nm = t[1].rsplit(".", 1)[-1] if t[0] == "glob" else tail(t)
            exp = {"config_output": "CONFIG_INIT_OUTPUT_CONNECTION_NAME", "log_output": "LOG_OUTPUT_CONNECTION_NAME", "metadata_output": "METADATA_OUTPUT_CONNECTION_NAME"}
            if want in exp and nm in exp.values():
                c.ob("S2-task", what + ":" + want, None if nm == exp[want] else True, MSG + " (connections are confused)", n)


def dataset_type(c):
    K = c.prog.cls(IO + "SerializedDatasetTypeNode")
    fl = flow_of(c, K, "serialize")
    mk = [n for n in ctor(fl, "SerializedDatasetTypeNode") if n.kwargs or n.args]
    present(c, "S3-dataset type", "saved", mk, MSG, fl)
    for n in mk:
        carry(c, "S3-dataset type", "saved", fl, n, {"dimensions": "dimensions", "storage_class": "storageClass_name", "is_calibration": "isCalibration",
                                                     "is_initial_query_constraint": "is_initial_query_constraint", "is_prerequisite": "is_prerequisite"}, MSG)
    for n in ctor(fl, "SerializedDatasetTypeNode"):
        if n not in mk:
            guard(c, "S3-dataset type", "unresolved", fl, [n], lambda lit, m: lit[0] == "isnone" and lit[2] is True and lit[1] == ("param", "target") or (
                lit[0] == "truth" and lit[2] is False and lit[1] == ("param", "target")), MSG + " (resolved dataset types become unresolved)")
    fl = flow_of(c, K, "deserialize")
    for n in ctor(fl, "DatasetTypeNode"):
        carry(c, "S3-dataset type", "read", fl, n, {"is_prerequisite": "is_prerequisite", "is_initial_query_constraint": "is_initial_query_constraint", "producing_edge": "in_edges",
                                                    "consuming_edges": "out_edges"}, MSG)
        v = n.kwargs.get("dataset_type")
        c.ob("S3-dataset type", "read:definition", None if v is None or frm(fl, v, n, ctor(fl, "DatasetType")) else True, MSG, n)
    for n in ctor(fl, "DatasetType"):
        carry(c, "S3-dataset type", "definition", fl, n, {"dimensions": "dimensions", "storageClass": "storage_class", "isCalibration": "is_calibration", "universe": "$universe"}, MSG,
              order=("name", "dimensions", "storageClass"))
        carry(c, "S3-dataset type", "definition", fl, n, {"name": ("$key", "name")}, MSG, order=("name",), also=("dimensions", "storage_class"))
    dup = [h for h in iters(fl, comp=False) if bycall(fl, h.iterable, h, "in_edges")]
    for h in dup:
        rs = [n for n in fl.g.live if n.kind == "raise" and n.id in _reach(fl, h)]
        present(c, "S3-dataset type", "several producers", rs, "a saved graph in which several tasks produce a dataset type is accepted", fl)
    none = [n for n in retvals(fl) if ex(fl, n.value, n) == const(None)]
    guard(c, "S3-dataset type", "unresolved read", fl, none, lambda lit, m: lit[0] in ("isnone", "truth") and lit[2] is (lit[0] == "isnone") and tail(fl.expand(lit[1])) == "dimensions",
          MSG + " (resolved dataset types become unresolved)")
    comps(c, "S3-dataset type", "edges", fl)


def subset(c):
    K = c.prog.cls(IO + "SerializedTaskSubset")
    fl = flow_of(c, K, "serialize")
    for n in ctor(fl, "SerializedTaskSubset"):
        carry(c, "S4-subset", "saved", fl, n, {"description": "_description" if _has(fl, n, "_description") else "description", "tasks": "", "dimensions": "_dimensions_by_label"}, MSG)
        carry(c, "S4-subset", "saved", fl, n, {"tasks": "$target"}, MSG)
    fl = flow_of(c, K, "deserialize_task_subset")
    mk = ctor(fl, "TaskSubset")
    present(c, "S4-subset", "read", mk, MSG, fl)
    for n in mk:
        carry(c, "S4-subset", "read", fl, n, {"parent_xgraph": "$xgraph", "label": "$label", "members": "tasks", "description": "description", "step_definitions": "$steps"}, MSG,
              order=("parent_xgraph", "label", "members", "description", "step_definitions"))
    st = [n for n in fl.g.live if n.kind == "substore" and tail(ex(fl, n.base, n)) == "_dimensions_by_label"] + calls(fl, "set_dimensions")
    present(c, "S4-subset", "step dimensions", st, MSG + " (dimensions of steps)", fl)
    no = lit_edges(fl, lambda lit, m: lit[0] == "in" and lit[3] is False and lit[1] == ("param", "label"))
    c.ob("S4-subset", "step dimensions:always", fl.path([fl.g.entry], [fl.g.exit], stop_node=lambda m: m in st, stop_edge=lambda m, lab: (m.id, lab) in no), MSG + " (dimensions of steps)")
    guard(c, "S4-subset", "step dimensions:steps only", fl, [n for n in st if n.kind == "substore"], lambda lit, m: lit[0] == "in" and lit[3] is True and lit[1] == ("param", "label"),
          MSG + " (subsets become steps)")
    for n in st:
        if n.kind == "substore":
            ok = fl.derives(n.value, n, lambda t, m: tail(t) == "dimensions") and fl.term(n.key, n) == ("param", "label")
            c.ob("S4-subset", "step dimensions:own", None if ok else True, MSG + " (dimensions of steps)", n)


def _has(fl, n, at):
    v = n.kwargs.get("description")
    return v is not None and fl.derives(v, n, lambda t, m: tail(t) == at)


def graph(c):
    K = c.prog.cls(IO + "SerializedPipelineGraph")
    fl = flow_of(c, K, "serialize")
    mk = ctor(fl, "SerializedPipelineGraph")
    for n in mk:
        carry(c, "S5-graph", "saved", fl, n, {"description": "description", "tasks": "tasks", "dataset_types": "dataset_types", "task_subsets": "task_subsets", "step_labels": "steps",
                                              "steps_verified": ("steps", "verified"), "dimensions": "_universe", "data_id": "_raw_data_id"}, MSG)
        for kw, k in (("tasks", "SerializedTaskNode"), ("dataset_types", "SerializedDatasetTypeNode"), ("task_subsets", "SerializedTaskSubset")):
            mapped(c, "S5-graph", "saved", fl, n, kw, kw, ("serialize",))
    comps(c, "S5-graph", "saved", fl)
    st = [n for n in fl.g.live if n.kind == "attrstore" and n.name == "index"]
    kinds = {}
    for n in st:
        t = fl.term(n.base, n)
        b = t[1] if tail(t) == "init" else t
        b = fl.term(b, n)
        b = tail(fl.term(b[1], n)) if b[0] == "sub" else None
        kinds["init" if tail(t) == "init" else {"dataset_types": "dataset_type", "tasks": "task"}.get(b, b)] = n
    kinds = dict.fromkeys(("task", "dataset_type", "init")) if None in kinds else kinds
    for k in ("task", "dataset_type", "init"):
        c.ob("S6-order", "saved:" + k, None if k in kinds else True, MSG + " (order of nodes)", func=fl.g.root)
    hs = loops_over(fl, "attr", "_sorted_keys")
    present(c, "S6-order", "saved", hs, MSG + " (order of nodes)", fl)
    for h in hs:
        each(c, "S6-order", "saved:each", fl, h, st, MSG + " (order of nodes)", unless=lambda lit, m: lit[0] in ("is", "eq", "isinstance") and lit[-1] is False)
        for n in st:
            c.ob("S6-order", "saved:name", None if mentions(ex(fl, n.base, n), lambda s: tail(s) == "name") and fl.derives(n.base, n, lambda t, m: t == ("elem", h.id)) or not mentions(
                ex(fl, n.base, n), lambda s: s[0] == "sub") else True, MSG + " (order of nodes)", n)
    w = fl.path([fl.g.entry], [fl.g.exit], stop_node=lambda m: m in hs, stop_edge=lambda m, lab: (m.id, lab) in lit_edges(
        fl, lambda lit, k: lit[0] in ("isnone", "truth") and lit[2] is (lit[0] == "isnone") and tail(fl.expand(lit[1])) == "_sorted_keys"))
    c.ob("S6-order", "saved:always", w, MSG + " (order of nodes)")
    # reading
    fl = flow_of(c, K, "deserialize")
    g = fl.g
    for at in ("dataset_types", "tasks"):
        hs = loops_over(fl, "attr", at)
        present(c, "S5-graph", "read:" + at, hs, MSG, fl)
    comps(c, "S5-graph", "read", fl)
    an = calls(fl, "add_node")
    tasks, dts = loops_over(fl, "attr", "tasks"), loops_over(fl, "attr", "dataset_types")
    for h in tasks:
        inst = [n for n in an if h in loops_of(fl, n) and "instance" in n.kwargs]
        for what, init in (("task", False), ("init", True)):
            ns = [n for n in inst if (tail(ex(fl, n.kwargs["instance"], n)) == "init") is init]
            each(c, "S5-graph", "read:node " + what, fl, h, ns, MSG + " (nodes are lost)")
            for n in ns:
                t = ex(fl, n.args[0], n) if n.args else ()
                c.ob("S5-graph", "read:key " + what, None if mentions(t, lambda s: s[0] == "attr" and s[2] == "TASK_INIT" or s[0] == "glob" and s[1].endswith(".TASK_INIT")) is init else True,
                     MSG + " (nodes are confused)", n)
        ae = calls(fl, "add_edge")
        for what, nm, init in (("init inputs", "iter_all_inputs", True), ("init outputs", "iter_all_outputs", True), ("inputs", "iter_all_inputs", False), ("outputs", "iter_all_outputs", False)):
            hs = [x for x in iters(fl, comp=None) if h in loops_of(fl, x) and any(tail(ex(fl, r.recv, r)) == "init" if init else tail(ex(fl, r.recv, r)) != "init" for r in calls(fl, nm)
                                                                                  if frm(fl, x.iterable, x, [r]))]
            present(c, "S5-graph", "read:" + what, hs, MSG + " (edges are lost)", fl)
            each(c, "S5-graph", "read:" + what + ":each task", fl, h, hs, MSG + " (edges are lost)") if hs else None
            for x in hs:
                es = [n for n in ae if n.id in fl.loop_body(x)] + [n for n in calls(fl, "add_edges_from")]
                each(c, "S5-graph", "read:" + what + ":each", fl, x, es, MSG + " (edges are lost)") if not x.d.get("comp") else None
                for n in es:
                    if n.name == "add_edge" and len(n.args) >= 2:
                        a, b = (tail(ex(fl, y, n)) for y in n.args[:2])
                        if {a, b} == {"dataset_type_key", "task_key"}:
                            ok = (a == "dataset_type_key") is ("inputs" in what)
                            c.ob("S5-graph", "read:" + what + ":direction", None if ok else True, MSG + " (edges point the other way)", n)
                        k = arg(n, 2, "key")
                        c.ob("S5-graph", "read:" + what + ":connection", None if k is not None and tail(ex(fl, k, n)) == "connection_name" else True, MSG + " (parallel edges are lost)", n)
                        v = n.kwargs.get("instance")
                        c.ob("S5-graph", "read:" + what + ":instance", None if v is not None and fl.term(v, n) == ("elem", x.id) else True, MSG + " (edges are lost)", n)
        ie = [n for n in ae if h in loops_of(fl, n) and len(n.args) >= 3 and (tail(ex(fl, n.args[2], n)) == "INIT_TO_TASK_NAME" or mentions(ex(fl, n.args[2], n), lambda s: s[0] == "glob" and s[1].endswith(
            "INIT_TO_TASK_NAME")) or ex(fl, n.args[2], n) == const("INIT"))]
        each(c, "S5-graph", "read:init to task", fl, h, ie, MSG + " (tasks do not depend on their construction)")
        for what, nm in (("task", "index"),):
            ss = [n for n in g.live if n.kind == "substore" and h in loops_of(fl, n) and tail(ex(fl, n.key, n)) == "index"]
            present(c, "S6-order", "read:tasks", [n for n in ss if tail(ex(fl, n.key, n)[1]) != "init"], MSG + " (order of nodes)", fl)
            present(c, "S6-order", "read:init", [n for n in ss if tail(ex(fl, n.key, n)[1]) == "init"], MSG + " (order of nodes)", fl)
            for n in ss:
                init = tail(ex(fl, n.key, n)[1]) == "init"
                t = ex(fl, n.value, n)
                isinit = mentions(t, lambda s: s[0] == "attr" and s[2] == "TASK_INIT" or s[0] == "glob" and s[1].endswith(".TASK_INIT"))
                c.ob("S6-order", "read:key", None if init is isinit else True, MSG + " (order of nodes)", n)
                e = lit_edges(fl, lambda lit, m, n=n: lit[0] in ("isnone", "truth") and lit[2] is (lit[0] == "isnone") and fl.expand(lit[1]) == fl.expand(fl.term(n.key, n)))
                w = fl.path([(h, "elem")], [h], stop_node=lambda m, n=n: m is n, stop_edge=lambda m, lab, e=e: (m.id, lab) in e)
                c.ob("S6-order", "read:each", w, MSG + " (order of nodes)", n)
    for h in dts:
        ns = [n for n in an if h in loops_of(fl, n)]
        ss = [n for n in g.live if n.kind == "substore" and h in loops_of(fl, n) and tail(ex(fl, n.key, n)) == "index"]
        inst = [n for n in g.live if n.kind == "substore" and h in loops_of(fl, n) and ex(fl, n.key, n) == const("instance")]
        if ns:
            each(c, "S5-graph", "read:dataset type", fl, h, ns, MSG + " (nodes are lost)")
            present(c, "S6-order", "read:dataset types", ss, MSG + " (order of nodes)", fl)
            for n in ss:
                e = lit_edges(fl, lambda lit, m, n=n: lit[0] in ("isnone", "truth") and lit[2] is (lit[0] == "isnone") and fl.expand(lit[1]) == fl.expand(fl.term(n.key, n)))
                c.ob("S6-order", "read:each", fl.path([(h, "elem")], [h], stop_node=lambda m, n=n: m is n, stop_edge=lambda m, lab, e=e: (m.id, lab) in e), MSG + " (order of nodes)", n)
        if inst:
            each(c, "S5-graph", "read:dataset type definition", fl, h, inst, MSG + " (dataset types become unresolved)")
            for n in inst:
                r = [m for m in calls(fl, "deserialize") if frm(fl, n.value, n, [m])]
                c.ob("S5-graph", "read:dataset type value", None if r else True, MSG + " (dataset types become unresolved)", n)
                # the edges a node records exist by the time it is made
                c.ob("S5-graph", "read:edges first", fl.path([g.entry], [n], stop_node=lambda m: m in tasks) or fl.path(fl.out_edges([n]), calls(fl, "add_edge")), MSG + " (dataset types without edges)", n)
    insts = [n for n in g.live if n.kind == "substore" and ex(fl, n.key, n) == const("instance")] + [n for n in an if n.kwargs.get("instance") is not None and frm(
        fl, n.kwargs["instance"], n, [m for m in calls(fl, "deserialize")]) and not any(x in tasks for x in loops_of(fl, n))]
    present(c, "S5-graph", "read:dataset types", insts, MSG + " (dataset types become unresolved)", fl)
    for n in an:
        v = n.kwargs.get("bipartite")
        k = lambda nm: mentions(ex(fl, n.args[0], n), lambda s: s[0] == "attr" and s[2] == nm or s[0] == "glob" and s[1].endswith("." + nm)) if n.args else False  # noqa: E731, B023
        if v is None:
            c.fail("S5-graph", "read:kind", MSG + " (tasks and dataset types are confused)", n)
        else:
            isdt = fl.derives(v, n, lambda t, m: t[0] == "attr" and t[2] in ("DATASET_TYPE", "DATASET_OR_TYPE") or t[0] == "glob" and bool({"DATASET_TYPE", "DATASET_OR_TYPE"} & set(t[1].split("."))) or t == const(0))
            c.ob("S5-graph", "read:kind", None if isdt is bool(k("DATASET_TYPE")) else True, MSG + " (tasks and dataset types are confused)", n)
    for n in [m for m in calls(fl, "add_edge") if m.kwargs.get("instance") is not None and ex(fl, m.kwargs["instance"], m) == const(None)]:
        k = [mentions(ex(fl, x, n), lambda s: s[0] == "attr" and s[2] == "TASK_INIT" or s[0] == "glob" and s[1].endswith(".TASK_INIT")) for x in n.args[:2]]
        c.ob("S5-graph", "read:init to task:direction", None if k != [False, True] else True, MSG + " (tasks do not depend on their construction)", n)
    ia = calls(fl, "_init_from_args")
    present(c, "S5-graph", "read", ia, MSG, fl)
    ORDER = ("xgraph", "sorted_keys", "task_subsets", "description", "universe", "data_id", "step_definitions")
    for n in ia:
        carry(c, "S5-graph", "read", fl, n, {"description": "description", "universe": "dimensions", "data_id": "data_id"}, MSG, order=ORDER)
        carry(c, "S5-graph", "read", fl, n, {"task_subsets": "task_subsets"}, MSG, order=ORDER)
        v = arg(n, 2, "task_subsets")
        c.ob("S5-graph", "read:subsets", None if v is None or bycall(fl, v, n, "deserialize_task_subset") else True, MSG + " (subsets)", n)
        v = arg(n, 6, "step_definitions")
        sd = ctor(fl, "StepDefinitions")
        c.ob("S5-graph", "read:steps", None if v is not None and frm(fl, v, n, sd) else True, MSG + " (steps)", n)
        v = arg(n, 1, "sorted_keys")
        sm = {repr(fl.term(m.base, m)) for m in g.live if m.kind == "substore" and tail(ex(fl, m.key, m)) == "index"}
        c.ob("S6-order", "read:used", None if v is not None and fl.derives(v, n, lambda t, m: repr(t) in sm or t[0] == "var" and any(repr(fl.term(t, m)) == x for x in sm)) else True,
             MSG + " (order of nodes)", n)
        v = arg(n, 0, "xgraph")
        c.ob("S5-graph", "read:nodes", None if v is not None and bycall(fl, v, n, "MultiDiGraph") else True, MSG, n)
    for n in ctor(fl, "StepDefinitions"):
        carry(c, "S5-graph", "read:steps", fl, n, {"dimensions_by_label": "step_labels", "verified": "steps_verified", "universe": "dimensions"}, MSG + " (steps)", order=("universe", "dimensions_by_label", "verified"))
    im = calls(fl, "_import_and_configure")
    present(c, "S5-graph", "read:import", im, "tasks are not imported", fl)
    for n in im:
        a = arg(n, 0, "import_mode")
        c.ob("S5-graph", "read:import mode", None if a is not None and fl.term(a, n) == ("param", "import_mode") else True, "tasks are imported in another mode than was asked for", n)
    c.ob("S5-graph", "read:import always", fl.path([g.entry], [g.exit], stop_node=lambda m: m in im), "tasks are not imported")
    fl = flow_of(c, c.prog.cls(PG + "_pipeline_graph.PipelineGraph"), "_init_from_args")
    g = fl.g
    for at, src in (("_xgraph", "xgraph"), ("_task_subsets", "task_subsets"), ("_description", "description"), ("_raw_data_id", "data_id"), ("_universe", "universe"), ("_step_definitions", "step_definitions")):
        st = [n for n in g.live if n.kind == "attrstore" and n.name == at]
        c.ob("S7-state", at, fl.path([g.entry], [g.exit], stop_node=lambda m, st=st: m in st), PMSG)
        use = [n for n in st if fl.derives(n.value, n, lambda t, m, src=src: t == ("param", src))]
        no = lit_edges(fl, lambda lit, m, src=src: lit[0] == "isnone" and lit[2] is True and lit[1] == ("param", src))
        c.ob("S7-state", at + ":kept", fl.path([g.entry], [g.exit], stop_node=lambda m, use=use: m in use, stop_edge=lambda m, lab, no=no: (m.id, lab) in no), PMSG + f" ({src})")
    ro = calls(fl, "_reorder") + [n for n in g.live if n.kind == "attrstore" and n.name == "_sorted_keys" and fl.derives(n.value, n, lambda t, m: t == ("param", "sorted_keys"))]
    no = lit_edges(fl, lambda lit, m: lit[0] in ("isnone", "truth") and lit[2] is (lit[0] == "isnone") and lit[1] == ("param", "sorted_keys"))
    c.ob("S7-state", "order", fl.path([g.entry], [g.exit], stop_node=lambda m: m in ro, stop_edge=lambda m, lab: (m.id, lab) in no), PMSG + " (order of nodes)")


EDGE = ("task_key", "dataset_type_key", "storage_class_name", "connection_name", "is_calibration", "raw_dimensions")
READ = EDGE + ("is_prerequisite", "component", "defer_query_constraint")
NODE = ("key", "init", "prerequisite_inputs", "inputs", "outputs", "log_output", "metadata_output")
INIT = ("key", "inputs", "outputs", "config_output")


def reduced(c, cls, table, msg=PMSG, optional=()):
    K = c.prog.cls(cls)
    nm = cls.rsplit(".", 1)[-1]
    if "__reduce__" not in K.methods:
        return
    fl = flow_of(c, K, "__reduce__")
    found = False
    for r in retvals(fl):
        for m in fl.g.live:
            e = ("tmp", m.id) if m.kind == "call" and m.name == "dict" else next((v for _, v in m.d.get("defs", ()) if v[0] == "dict"), None) if m.kind == "def" else None
            p = dict_pairs(fl, e, m) if e is not None else None
            if p and set(p[0]) & set(table):
                found = True
                carry(c, "S8-pickle", nm, fl, p[1], table, msg, pairs=p[0])
    if not found:
        for r in retvals(fl):
            g = got(fl, r.value, r, {x for x in table.values()})
            c.ob("S8-pickle", nm + ":all", None if set(table.values()) <= g else True, msg, r)
    return fl


def pickles(c):
    reduced(c, PG + "_edges.Edge", {x: x for x in EDGE})
    reduced(c, PG + "_edges.ReadEdge", {x: x for x in READ})
    reduced(c, PG + "_tasks.TaskNode", {**{x: x for x in NODE}, "dimensions": "_dimensions"})
    fl = reduced(c, PG + "_tasks.TaskInitNode", {**{x: x for x in INIT}, "task_class_name": "_task_class_name", "config_str": "_config_str"})
    st = [n for n in fl.g.live if n.kind == "substore" and ex(fl, n.key, n) == const("imported_data_args")]
    r = retvals(fl)
    if st:
        no = lit_edges(fl, lambda lit, m: lit[0] == "truth" and lit[2] is False)
        c.ob("S8-pickle", "imported", fl.path([fl.g.entry], r, stop_node=lambda m: m in st, stop_edge=lambda m, lab: (m.id, lab) in no), PMSG + " (imported tasks)")
        for n in st:
            t = ex(fl, n.value, n)
            if t[0] == "tuple":
                c.ob("S8-pickle", "imported:what", None if [tail(x) for x in t[1][:3]] == ["label", "task_class", "config"] else True, PMSG + " (imported tasks)", n)
    else:
        ok = any(fl.derives(x.value, x, lambda t, m: tail(t) == "config") for x in r)
        c.ob("S8-pickle", "imported", None if ok else True, PMSG + " (imported tasks)", func=fl.g.root)
    K = c.prog.cls(PG + "_tasks.TaskInitNode")
    fl = flow_of(c, K, "_unreduce")
    for n in ctor(fl, "TaskInitNode"):
        v = n.kwargs.get("imported_data")
        c.ob("S8-pickle", "TaskInitNode:restored", None if v is None or bycall(fl, v, n, "configure") else True, PMSG, n)
        c.ob("S8-pickle", "TaskInitNode:fields", None if "**" in n.kwargs and v is not None or len(n.kwargs) >= 6 else True, PMSG, n)
    for n in calls(fl, "configure"):
        guard(c, "S8-pickle", "TaskInitNode:imported", fl, [n], lambda lit, m: lit[0] in ("isnone", "truth") and lit[2] is (lit[0] != "isnone"), PMSG)
    for cls, k in (("_edges.Edge", "cls"), ("_tasks.TaskNode", "TaskNode")):
        fl = flow_of(c, c.prog.cls(PG + cls), "_unreduce")
        mk = [n for n in fl.g.calls() if "**" in n.kwargs and (fl.term(n.kwargs["**"], n) == ("param", "kwargs"))] or ctor(fl, cls.rsplit(".", 1)[-1])
        present(c, "S8-pickle", cls + ":restored", mk, PMSG, fl)
    # constructors keep what they are given
    for cls, fs in (("_edges.Edge", {x: x for x in EDGE}), ("_edges.ReadEdge", {x: x for x in READ if x not in EDGE}), ("_tasks.TaskNode", {**{x: x for x in NODE}, "dimensions": "_dimensions"}),
                    ("_tasks.TaskInitNode", {x: x for x in INIT}),
                    ("_task_subsets.TaskSubset", {"parent_xgraph": "_parent_xgraph", "label": "_label", "members": "_members", "description": "_description", "step_definitions": "_step_definitions"}),
                    ("_task_subsets.StepDefinitions", {"universe": "_universe", "dimensions_by_label": "_dimensions_by_label", "verified": "_verified"})):
        fl = flow_of(c, c.prog.cls(PG + cls), "__init__")
        for p, at in fs.items():
            st = [n for n in fl.g.live if n.kind == "attrstore" and n.name == at]
            c.ob("S9-constructor", f"{cls}:{at}", fl.path([fl.g.entry], [fl.g.exit], stop_node=lambda m, st=st: m in st), PMSG)
            gs = [(n, got(fl, n.value, n, {"$" + x for x in fs})) for n in st]
            for n, s in gs:
                none = lit_edges(fl, lambda lit, m, p=p: lit[0] in ("isnone", "truth") and (lit[2] is True) is (lit[0] == "isnone") and fl.term(lit[1], m) == ("param", p))
                dflt = not s and none and fl.path([fl.g.entry], [n], stop_edge=lambda m, lab, none=none: (m.id, lab) in none) is None
                c.ob("S9-constructor", f"{cls}:{at}:value", None if s == {"$" + p} or dflt else True, PMSG, n)
    fl = flow_of(c, c.prog.cls(PG + "_edges.ReadEdge"), "__init__")
    for n in calls(fl, "__init__"):
        carry(c, "S9-constructor", "ReadEdge:base", fl, n, {x: "$" + x for x in EDGE}, PMSG)


def copies(c):
    T = c.prog.cls(PG + "_tasks.TaskNode")
    msg = "a task node loses some of its state"
    fl = flow_of(c, T, "_resolved")
    for n in ctor(fl, "TaskNode"):
        carry(c, "S10-copy", "_resolved", fl, n, {**{x: x for x in NODE}, "dimensions": "raw_dimensions"}, msg, order=("key", "init"))
    fl = flow_of(c, T, "_reconfigured")
    for n in ctor(fl, "TaskNode"):
        carry(c, "S10-copy", "_reconfigured", fl, n, {**{x: x for x in NODE if x not in ("key", "init")}, "dimensions": "_dimensions"}, msg, order=("key", "init"))
    for n in ctor(fl, "TaskInitNode"):
        carry(c, "S10-copy", "_reconfigured init", fl, n, {x: ("init", x) for x in INIT}, msg, order=("key",))
        carry(c, "S10-copy", "_reconfigured init", fl, n, {"imported_data": "configure"}, msg)
    for n in calls(fl, "_from_imported_data"):
        v = [arg(n, i, k) for i, k in enumerate(("key", "init_key", "data", "universe"))]
        ok = v[0] is not None and tail(ex(fl, v[0], n)) == "key" and "init" not in str(ex(fl, v[0], n)) and v[1] is not None and mentions(ex(fl, v[1], n), lambda s: tail(s) == "init") and v[2] is not None and bycall(fl, v[2], n, "configure")
        c.ob("S10-copy", "rebuilt", None if ok else True, msg, n)
    for n in calls(fl, "configure"):
        v = arg(n, 2, "config")
        c.ob("S10-copy", "rebuilt:config", None if v is not None and fl.term(v, n) == ("param", "config") else True, "a task keeps its old configuration", n)
    fl = flow_of(c, T, "_imported_and_configured")
    rc = calls(fl, "_reconfigured")
    for n in rc:
        v = [arg(n, i, k) for i, k in enumerate(("config", "rebuild", "task_class"))]
        ok = v[1] is not None and fl.term(v[1], n) == ("param", "rebuild") and v[2] is not None and bycall(fl, v[2], n, "doImportType", "doImport")
        c.ob("S10-copy", "imported", None if ok else True, "a task that was saved is imported differently", n)
        ld = calls(fl, "loadFromString", "loadFromStream")
        c.ob("S10-copy", "imported:config", fl.path([fl.g.entry], [n], stop_node=lambda m: m in ld), "a task that was saved runs with the default configuration", n)
        for x in ld:
            c.ob("S10-copy", "imported:saved config", None if fl.derives(x.args[0], x, lambda t, m: t[0] == "tmp" and fl.g.nodes[t[1]].kind == "call" and fl.g.nodes[t[1]].name == "get_config_str" or tail(
                t) == "_config_str") and v[0] is not None and fl.expand(fl.term(v[0], n)) == fl.expand(fl.term(x.recv, x)) else True, "a task that was saved runs with the default configuration", x)
    P = c.prog.cls(PG + "_pipeline_graph.PipelineGraph")
    fl = flow_of(c, P, "copy")
    ORDER = ("xgraph", "sorted_keys", "task_subsets", "description", "universe", "data_id", "step_definitions")
    for n in calls(fl, "_init_from_args"):
        tb = {"xgraph": "_xgraph", "sorted_keys": "_sorted_keys", "description": "_description", "universe": "_universe", "data_id": "_raw_data_id", "step_definitions": "_step_definitions"}
        carry(c, "S10-copy", "graph", fl, n, tb, PMSG, order=ORDER)
        v = arg(n, 2, "task_subsets")
        c.ob("S10-copy", "graph:task_subsets", None if v is not None and fl.derives(v, n, lambda t, m: tail(t) == "_task_subsets") else True, PMSG + " (subsets)", n)
        for i, k in ((0, "xgraph"), (6, "step_definitions")):
            v = arg(n, i, k)
            c.ob("S10-copy", "graph:" + k + ":separate", None if v is not None and bycall(fl, v, n, "copy", "deepcopy", "StepDefinitions", "MultiDiGraph") else True, "a copy of a pipeline graph shares its state", n)
    for n in ctor(fl, "TaskSubset"):
        carry(c, "S10-copy", "subset", fl, n, {"label": "label", "members": "_members", "description": "description"}, PMSG, order=("parent_xgraph", "label", "members", "description", "step_definitions"))
        v = [arg(n, i, k) for i, k in ((0, "parent_xgraph"), (2, "members"), (4, "step_definitions"))]
        ok = [v[0] is not None and bycall(fl, v[0], n, "copy"), v[1] is not None and bycall(fl, v[1], n, "set", "copy") or fl.term(v[1], n)[0] == "comp", v[2] is not None and bycall(fl, v[2], n, "copy")]
        c.ob("S10-copy", "subset:separate", None if all(ok) else True, "a copy of a pipeline graph shares its state", n)
    comps(c, "S10-copy", "graph", fl, PMSG)
    fl = flow_of(c, c.prog.cls(PG + "_task_subsets.StepDefinitions"), "copy")
    for n in ctor(fl, "StepDefinitions"):
        carry(c, "S10-copy", "steps", fl, n, {"universe": "_universe", "dimensions_by_label": "_dimensions_by_label", "verified": "_verified"}, PMSG, order=("universe", "dimensions_by_label", "verified"))
        v = arg(n, 1, "dimensions_by_label")
        c.ob("S10-copy", "steps:separate", None if v is not None and bycall(fl, v, n, "copy", "dict") or v is not None and fl.term(v, n)[0] in ("comp", "dict") else True, "a copy of a pipeline graph shares its state", n)
    for nm in ("__copy__", "__deepcopy__"):
        fl = flow_of(c, P, nm)
        present(c, "S10-copy", nm, calls(fl, "copy"), PMSG, fl)


def files(c):
    P = c.prog.cls(PG + "_pipeline_graph.PipelineGraph")
    fl = flow_of(c, P, "_import_and_configure")
    g = fl.g
    rp = calls(fl, "_replace_task_nodes")
    present(c, "S11-import", "replaced", rp, "imported tasks are not used", fl)
    for n in rp:
        v = arg(n, 0, "updates")
        c.ob("S11-import", "updates", None if v is not None and bycall(fl, v, n, "_imported_and_configured") else True, "imported tasks are not used", n)
        for k, want, other in (("check_edges_unchanged", "REQUIRE_CONSISTENT_EDGES", "ASSUME_CONSISTENT_EDGES"), ("assume_edges_unchanged", "ASSUME_CONSISTENT_EDGES", "REQUIRE_CONSISTENT_EDGES")):
            v = n.kwargs.get(k)
            if v is not None:
                has = lambda nm: fl.derives(v, n, lambda t, m: tail(t) == nm or t[0] == "glob" and t[1].endswith("." + nm))  # noqa: E731, B023
                c.ob("S11-import", k, None if has(want) and not has(other) or fl.term(v, n)[0] not in ("is", "eq", "op", "cmp") and not has(other) else True,
                     "edges that changed since a pipeline was saved are not noticed", n)
        no = lit_edges(fl, lambda lit, m: lit[-1] is True and mentions(lit, lambda s: tail(s) == "DO_NOT_IMPORT" or s[0] == "glob" and isinstance(s[1], str) and s[1].endswith(".DO_NOT_IMPORT")))
        c.ob("S11-import", "always", fl.path([g.entry], [g.exit], stop_node=lambda m: m in rp, stop_edge=lambda m, lab: (m.id, lab) in no), "imported tasks are not used")
    for n in calls(fl, "_imported_and_configured"):
        v = arg(n, 0, "rebuild")
        if v is not None:
            for nm in ("REQUIRE_CONSISTENT_EDGES", "OVERRIDE_EDGES"):
                c.ob("S11-import", "rebuild:" + nm, None if fl.derives(v, n, lambda t, m, nm=nm: tail(t) == nm or t[0] == "glob" and t[1].endswith("." + nm)) or _branches(fl, nm) else True,
                     "edges that changed since a pipeline was saved are not noticed", n)
    hs = [h for h in iters(fl, comp=None) if fl.derives(h.iterable, h, lambda t, m: tail(t) in ("nodes", "_tasks", "tasks"))]
    present(c, "S11-import", "tasks", hs, "some tasks are not imported", fl)
    comps(c, "S11-import", "tasks", fl, "some tasks are not imported", skip=lambda h: bool(h.d.get("comp")))
    for h in hs:
        if not h.d.get("comp"):
            st = [n for n in g.live if n.kind == "substore" and n.id in fl.loop_body(h)]
            same = lambda lit, m: lit[0] in ("is", "eq") and (lit[3] is False and mentions(lit, lambda s: tail(s) == "TASK" or s[0] == "glob" and isinstance(s[1], str) and s[1].endswith(".TASK"))  # noqa: E731
                                                             or lit[3] is True and any(bycall(fl, x, m, "_imported_and_configured") for x in lit[1:3]))
            each(c, "S11-import", "each task", fl, h, st, "some tasks are not imported", unless=same)
            for n in st:
                t = fl.expand(fl.term(n.value, n))
                c.ob("S11-import", "new", None if bycall(fl, n.value, n, "_imported_and_configured") else True, "imported tasks are not used", n)
                del t
    fl = flow_of(c, P, "_read_stream")
    for n in calls(fl, "deserialize"):
        a = arg(n, 0, "import_mode")
        c.ob("S12-file", "mode", None if a is not None and fl.term(a, n) == ("param", "import_mode") else True, "tasks are imported in another mode than was asked for", n)
    fl = flow_of(c, P, "_write_stream")
    w = calls(fl, "write")
    present(c, "S12-file", "written", w, MSG, fl)
    c.ob("S12-file", "always", fl.path([fl.g.entry], [fl.g.exit], stop_node=lambda m: m in w), MSG)
    for n in w:
        c.ob("S12-file", "whole", None if bycall(fl, n.args[0], n, "model_dump_json") and bycall(fl, n.args[0], n, "serialize") else True, MSG, n)
    for n in calls(fl, "model_dump_json"):
        bad = {"exclude", "include", "exclude_none", "exclude_unset"} & set(n.kwargs)
        c.ob("S12-file", "nothing left out", True if bad & {"exclude", "include"} or "exclude_unset" in bad else None, MSG, n)


def _branches(fl, nm):
    return any(m.kind == "branch" and any(mentions(lit, lambda s: tail(s) == nm or s[0] == "glob" and isinstance(s[1], str) and s[1].endswith("." + nm)) for lit in fl.lits(m, True)) for m in fl.g.live)


def _reach(fl, h):
    """Nodes reached from an iteration of h without starting another."""
    seen, st = set(), [m for m, lab in h.succ if lab == "elem"]
    while st:
        m = st.pop()
        if m.id not in seen and m is not h:
            seen.add(m.id)
            st.extend(x for x, _ in m.succ)
    return seen
