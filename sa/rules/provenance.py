"""The provenance graph: what a scan records, what is written, and what readers, reports and formatters give back."""

from __future__ import annotations

import ast

from ..lib import Check, const
from ..q import arg, calls, ctor, each, ex, flow_of, frm, full, guard, iters, lit_edges, loops_of, mentions, present, retvals, subterms
from .aggregator import _glob, edges_of, frm_elem, is_
from .boolval import cut_edges, passes, values
from .pgresolve import _root
from .pipedef import _attrstores, _raises, after, at, each_break, elems, must, self_

P = "lsst.pipe.base.quantum_graph._provenance."


def run(c: Check):
    layout(c)
    reading(c)
    fetching(c)
    dataset_nodes(c)
    quantum_nodes(c)
    init_nodes(c)
    predicted(c)
    writing(c)
    scan_data(c)
    scanning(c)
    attempts(c)
    existence(c)
    to_data(c)
    formatter(c)
    tables(c)


def cls(c, nm):
    return c.prog.cls(P + nm)


def xg(fl, op, graph):
    """Calls of a method of one of the two networkx graphs."""
    return [n for n in calls(fl, op) if n.recv is not None and at(ex(fl, n.recv, n), graph)]


def ok_edges(nodes):
    return [(n, lab) for n in nodes for _, lab in n.succ if lab != "exc"]


def under(fl, e, n, cut):
    """What e at n may be copied from on paths without the edges in cut."""
    stop = lambda m, lab: (m.id, lab) in cut  # noqa: E731
    ok = lambda a, b: a is b or fl.path([a], [b], stop_edge=stop) is not None  # noqa: E731
    return [(x, m) for x, m in (fl.sources(e, n) or [(e, n)]) if ok(fl.g.entry, m) and ok(m, n)]


def plain(t):
    """The iterable behind list(), tuple(), iter() and the like."""
    while t[0] == "call" and t[2] in ("list", "tuple", "iter", "sorted") and t[3] is None and len(t[4]) == 1:
        t = t[4][0]
    return t


def elts(fl, h):
    return [m for m in fl.g.live if m.kind == "compelt" and m.id in fl.loop_body(h)]


def over_attr(fl, *attr, comp=False):
    """Loops over an attribute of something (its items or values, flattened or not)."""
    out = []
    for h in iters(fl, comp):
        t = ex(fl, h.iterable, h, 8)
        for _ in range(8):
            if t[0] == "call" and t[2] in ("items", "values", "keys") and t[3] is not None:
                t = t[3]
            elif t[0] == "call" and t[4]:
                t = t[4][0]
            else:
                break
        if at(t, *attr):
            out.append(h)
    return out


def value_of(c, t):
    """The value of a term that is a constant or a module-level constant."""
    if t[0] == "const":
        return t[2]
    if t[0] == "glob":
        mod, nm = t[1].rsplit(".", 1)
        m = c.prog.modules.get(mod)
        if m is not None and nm in m.assigns:
            try:
                return ast.literal_eval(m.assigns[nm])
            except ValueError:
                return None
    return None


# ---------------------------------------------------------------- layout of the file

def layout(c):
    """Writers and readers agree on where addresses and models are."""
    W, R = cls(c, "ProvenanceQuantumGraphWriter"), cls(c, "ProvenanceQuantumGraphReader")
    fl = flow_of(c, W, "__init__")
    g = fl.g
    name = {}  # writer attribute -> multi-block name
    for n in _attrstores(fl):
        pass
    for n in [m for m in g.live if m.kind == "attrstore" and str(m.name).endswith("_writer") and m.name != "_base_writer"]:
        for s in subterms(ex(fl, n.value, n, 10)):
            if s[0] == "call" and s[2] == "open_in_zip" and len(s[4]) > 1:
                name[n.name] = value_of(c, s[4][1])
    index = {}
    for n in [m for m in g.live if m.kind == "substore" and at(ex(fl, m.base, m), "addresses")]:
        t = ex(fl, n.value, n)
        if at(t, "addresses") and at(t[1]):
            pass
        if t[0] == "attr" and t[2] == "addresses" and t[1][0] == "attr":
            i = value_of(c, ex(fl, n.key, n))
            c.ob("R1-layout", f"{t[1][2]}:own index", True if i in index.values() else None, "two kinds of addresses share an index", n)
            index[t[1][2]] = i
    c.require(len(name) == 4 and len(index) == 4 and None not in name.values() and None not in index.values(), "writers of the provenance graph not recognised")
    c.ob("R1-layout", "names", None if len(set(name.values())) == 4 else True, "two kinds of blocks share a file", node=fl.g.entry)
    c.ob("R1-layout", "indices", None if set(index.values()) == set(range(4)) else True, "addresses are stored out of range", node=fl.g.entry)
    by_index = {index[w]: (w, name[w]) for w in index}
    lens = [len(ex(fl, n.value, n)[1]) for n in _attrstores(fl, "addresses") if ex(fl, n.value, n)[0] == "list"]
    fo = flow_of(c, R, "open")
    for n in calls(fo, "_open"):
        k = arg(n, None, "n_addresses")
        v = value_of(c, ex(fo, k, n)) if k is not None else None
        c.ob("R1-layout", "number", None if v == 4 and all(x == 4 for x in lens) else True, "addresses are read with another row size than they are written with", n)
        k = arg(n, None, "address_filename")
        w = {value_of(c, ex(fl, arg(m, None, "address_filename"), m)) for m in calls(fl, "open") if arg(m, None, "address_filename") is not None}
        c.ob("R1-layout", "address file", None if k is not None and {value_of(c, ex(fo, k, n))} == w else True, "addresses are read from another file than they are written to", n)
    models = {"_dataset_writer": "ProvenanceDatasetModel", "_quantum_writer": "ProvenanceQuantumModel"}
    for meth, prm in (("read_datasets", "datasets"), ("read_quanta", "quanta")):
        f = flow_of(c, R, meth)
        ns = calls(f, "_read_nodes")
        present(c, "R1-layout", meth, ns, f"{prm} are not read", f)
        must(c, "R1-layout", meth, f, [f.g.entry], ns, [f.g.exit], f"{prm} are not read")
        for n in ns:
            i, nm, model = (ex(f, arg(n, k, kw), n) if arg(n, k, kw) is not None else ("none",) for k, kw in ((1, "address_index"), (2, "mb_name"), (3, "model_type")))
            w = by_index.get(value_of(c, i), (None, None))
            c.ob("R1-layout", meth + ":block", None if w[1] == value_of(c, nm) and w[1] is not None else True, f"{prm} are read at addresses of something else", n)
            c.ob("R1-layout", meth + ":model", None if _glob(model, models.get(w[0], "")) else True, f"{prm} are read as something else", n)
            c.ob("R1-layout", meth + ":kind", None if w[0] == {"datasets": "_dataset_writer", "quanta": "_quantum_writer"}[prm] else True, f"something else than {prm} is read", n)
            c.ob("R1-layout", meth + ":which", None if ex(f, n.args[0], n) == ("param", prm) else True, f"other {prm} are read than asked for", n)
    for meth, w in (("fetch_logs", "_log_writer"), ("fetch_metadata", "_metadata_writer")):
        f = flow_of(c, R, meth)
        for n in calls(f, "open_in_zip"):
            t = ex(f, arg(n, 1, "name"), n) if arg(n, 1, "name") is not None else ("none",)
            c.ob("R1-layout", meth + ":block", None if value_of(c, t) == name[w] else True, "something else is read", n)
        for n in calls(f, "read_model"):
            t = ex(f, n.args[0], n, 8)
            idx = [value_of(c, s[2]) for s in subterms(t) if s[0] == "sub" and at(s[1], "addresses")]
            c.ob("R1-layout", meth + ":address", None if idx == [index[w]] else True, "something else is read", n)


# ---------------------------------------------------------------- reading

def reading(c):
    R, G = cls(c, "ProvenanceQuantumGraphReader"), cls(c, "ProvenanceQuantumGraph")
    fl = flow_of(c, R, "read_full_graph")
    for nm in ("read_init_quanta", "read_datasets", "read_quanta"):
        ns = calls(fl, nm)
        present(c, "R2-reading", nm, ns, "part of the graph is not read", fl)
        must(c, "R2-reading", nm, fl, [fl.g.entry], ns, [fl.g.exit], "part of the graph is not read")
        for n in ns:
            c.ob("R2-reading", nm + ":all", None if not n.args and not n.kwargs else True, "part of the graph is not read", n)
    fl = flow_of(c, R, "read_init_quanta")
    ns = calls(fl, "_add_to_graph")
    present(c, "R2-reading", "init quanta", ns, "init quanta are not read", fl)
    must(c, "R2-reading", "init quanta", fl, [fl.g.entry], ns, [fl.g.exit], "init quanta are not read")

    fl = flow_of(c, R, "_read_nodes")
    g = fl.g
    add = calls(fl, "_add_to_graph")
    whole = [h for h in iters(fl, False) if mentions(ex(fl, h.iterable, h, 8), lambda s: s[0] == "call" and s[2] == "read_all_models_in_zip")]
    some = [h for h in iters(fl, False) if h not in whole and fl.derives(h.iterable, h, lambda t, m: t == ("param", "nodes"))]
    present(c, "R2-reading", "all", whole, "not the whole graph is read", fl)
    present(c, "R2-reading", "some", some, "the nodes asked for are not read", fl)
    none = lambda l, m: l[0] == "isnone" and l[1] == ("param", "nodes")  # noqa: E731
    passes(c, "R2-reading", "all", fl, [g.entry], whole, [g.exit], {"none": none}, lambda none: "must" if none else "never", "not everything, or more than what was asked for, is read", exc=False)
    passes(c, "R2-reading", "some", fl, [g.entry], some, [g.exit], {"none": none}, lambda none: "never" if none else "must", "the nodes asked for are not read", exc=False)
    have = lambda l, m: l[0] == "in" and l[1] == const("pipeline_node")  # noqa: E731
    gone = lambda l, m: l[0] == "isnone" and frm(fl, l[1], m, calls(fl, "read_model"), False)  # noqa: E731
    for h in whole + some:
        mine = [n for n in add if h in loops_of(fl, n)]
        full(c, "R2-reading", "complete", fl, h, "a node is not read")
        passes(c, "R2-reading", "each", fl, elems(h), mine, [h, g.exit], {"have": have, "gone": gone}, lambda have, gone: "must" if not have and not gone else None, "a node is not read", stop=[h], exc=False)
        passes(c, "R2-reading", "once", fl, elems(h), mine, [h, g.exit], {"have": have}, lambda have: "never" if have else None, "a node is added twice", stop=[h], exc=False)
        for n in mine:
            c.ob("R2-reading", "into", None if n.args and at(ex(fl, n.args[0], n), "graph") else True, "a node is added elsewhere", n)
            c.ob("R2-reading", "node", None if frm_elem(fl, n.recv, n, h) or h in some and frm(fl, n.recv, n, calls(fl, "read_model")) else True, "another node is added", n)
    for n in calls(fl, "get"):
        if mentions(ex(fl, n.recv, n), lambda s: at(s, "nodes")):
            t = ex(fl, n.args[0], n, 8)
            c.ob("R2-reading", "already:which", None if at(t, "node_id", "key", "quantum_id", "dataset_id") or any(frm_elem(fl, n.args[0], n, h) for h in some) else True, "another node is taken for present", n)
    for n in calls(fl, "read_model"):
        t = ex(fl, n.args[0], n, 8)
        c.ob("R2-reading", "address", None if any(s[0] == "sub" and at(s[1], "addresses") and s[2] == ("param", "address_index") for s in subterms(t)) else True, "another node is read", n)
        m = arg(n, 1, "model_type")
        c.ob("R2-reading", "model", None if m is not None and ex(fl, m, n) == ("param", "model_type") else True, "a node is read as something else", n)
    for n in calls(fl, "read_all_models_in_zip", "open_in_zip"):
        m = arg(n, 1, "name")
        c.ob("R2-reading", n.name + ":block", None if m is not None and ex(fl, m, n) == ("param", "mb_name") else True, "something else is read", n)
    for n in calls(fl, "find"):
        c.ob("R2-reading", "found", None if any(frm_elem(fl, n.args[0], n, h) for h in some) else True, "another node is read", n)

    fl = flow_of(c, G, "from_args")
    g = fl.g
    ys = [n for n in g.live if n.kind == "yield"]
    col = lambda l, m: l[0] == "isnone" and l[1] == ("param", "collection")  # noqa: E731
    for meth, prm in (("read_quanta", "quanta"), ("read_datasets", "datasets")):
        ns = calls(fl, meth)
        present(c, "R2-reading", "from_args:" + prm, ns, f"{prm} are not read", fl)
        atoms = {"file": col, "none": lambda l, m, p=prm: l[0] == "isnone" and l[1] == ("param", p), "some": lambda l, m, p=prm: l[0] == "truth" and l[1] == ("param", p)}
        al = [n for n in ns if not n.args and not n.kwargs or ex(fl, (list(n.args) + list(n.kwargs.values()))[0], n) == const(None)]
        given = [n for n in ns if n not in al]
        both = [n for n in given if True]
        for n in given:
            c.ob("R2-reading", f"from_args:{prm}:which", None if fl.derives((list(n.args) + list(n.kwargs.values()))[0], n, lambda t, m, p=prm: t == ("param", p)) else True, f"other {prm} are read than asked for", n)
        passes(c, "R2-reading", f"from_args:{prm}:all", fl, [g.entry], al + both, ys, atoms, lambda file, none, some: "must" if file and none and not some else None, f"not all {prm} are read", exc=False)
        passes(c, "R2-reading", f"from_args:{prm}:more", fl, [g.entry], al, ys, atoms, lambda file, none, some: "never" if file and not none else None, f"more {prm} are read than asked for", exc=False)
        passes(c, "R2-reading", f"from_args:{prm}:given", fl, [g.entry], given, ys, atoms, lambda file, none, some: "must" if file and not none and some else None, f"the {prm} asked for are not read", exc=False)
    present(c, "R2-reading", "from_args:graph", ys, "no graph is given", fl)
    c.ob("R2-reading", "from_args:graph", fl.path([g.entry], [g.exit], stop_node=lambda m: m in ys, stop_edge=lambda m, lab: lab == "exc"), "no graph is given")
    gets = [n for n in calls(fl, "get") if any(_glob(ex(fl, a, n), "PROVENANCE_DATASET_TYPE_NAME") for a in n.args)]
    present(c, "R2-reading", "from_args:butler", gets, "the graph of a collection is not read", fl)
    for n in gets:
        t = ex(fl, arg(n, None, "parameters") or const(None), n)
        for prm in ("quanta", "datasets"):
            good = t[0] == "tmp" or fl.derives(arg(n, None, "parameters") or const(None), n, lambda t, m, p=prm: t == ("param", p)) if t[0] in ("tmp", "var") else t[0] == "dict" and any(k == const(prm) and v == ("param", prm) for k, v in t[1]) if t[0] == "dict" and all(isinstance(x, tuple) and len(x) == 2 for x in t[1]) else mentions(t, lambda s, p=prm: s == ("param", p))
            c.ob("R2-reading", "from_args:butler:" + prm, None if good else True, f"other {prm} are read than asked for", n)


def fetching(c):
    R = cls(c, "ProvenanceQuantumGraphReader")
    for meth in ("fetch_logs", "fetch_metadata"):
        fl = flow_of(c, R, meth)
        g = fl.g
        hs = [h for h in iters(fl, False) if fl.derives(h.iterable, h, lambda t, m: t == ("param", "nodes"))]
        st = [n for n in g.live if n.kind == "substore" and n.base is not None]
        rm = calls(fl, "read_model")
        present(c, "R3-attempts", meth, hs, "what was asked for is not read", fl)
        present(c, "R3-attempts", meth + ":kept", st, "what was read is dropped", fl)
        gone = lambda l, m: l[0] == "isnone" and frm(fl, l[1], m, rm, False)  # noqa: E731
        for h in hs:
            full(c, "R3-attempts", meth + ":all", fl, h, "what was asked for is not read")
            passes(c, "R3-attempts", meth + ":each", fl, elems(h), st, [h, g.exit], {"gone": gone}, lambda gone: None if gone else "must", "what was read is dropped", stop=[h], exc=False)
            for n in st:
                c.ob("R3-attempts", meth + ":key", None if frm_elem(fl, n.key, n, h) or at(ex(fl, n.key, n), "key") else True, "what was read is given for another node", n)
        for n in st:
            c.ob("R3-attempts", meth + ":value", None if fl.derives(n.value, n, lambda t, m: at(t, "attempts") or t[0] == "comp" and any(mentions(ex(fl, g.nodes[i].iterable, g.nodes[i], 8), lambda s: at(s, "attempts")) for i in t[3]))
                 else True, "something else is given", n)
        for h in over_attr(fl, "attempts", comp=None):
            full(c, "R3-attempts", meth + ":attempts", fl, h, "an attempt is dropped")
            if h.d.get("comp"):
                each(c, "R3-attempts", meth + ":each attempt", fl, h, elts(fl, h), "an attempt is dropped")
        for n in calls(fl, "from_records"):
            a = n.args[0]
            none = [(m, lab) for m, lab in edges_of(fl, lit_edges(fl, lambda l, m: l[0] == "isnone" and l[2] is True and l[1][0] in ("elem", "var", "item")))]
            c.ob("R3-attempts", meth + ":none", fl.path(none, [n], stop_node=lambda m: m.kind == "iter") if none else True, "an attempt without logs cannot be read", n)
            some = lit_edges(fl, lambda l, m: l[0] == "isnone" and l[2] is False and l[1][0] in ("elem", "var", "item"))
            c.ob("R3-attempts", meth + ":some", fl.path(edges_of(fl, some), [m for m in g.live if m.kind == "compelt"], stop_node=lambda m: m is n) if some else None, "the logs of an attempt are dropped", n)
        for r in retvals(fl):
            c.ob("R3-attempts", meth + ":returned", None if _root(fl, r.value, r) in {_root(fl, n.base, n) for n in st} else True, "what was read is dropped", r)


# ---------------------------------------------------------------- nodes of the graph in memory

def edge_ob(c, rule, inst, fl, n, src, dst, msg):
    """Edge call n goes from src to dst (predicates on expression, node)."""
    c.ob(rule, inst, None if len(n.args) > 1 and src(n.args[0], n) and dst(n.args[1], n) else True, msg, n)


def dataset_nodes(c):
    C = cls(c, "ProvenanceDatasetModel")
    fl = flow_of(c, C, "_add_to_graph")
    g = fl.g
    me = lambda a: lambda e, n: ex(fl, e, n) == self_(a)  # noqa: E731
    nodes = xg(fl, "add_node", "_bipartite_xgraph")
    present(c, "R4-datasets", "node", nodes, "datasets are not in the graph", fl)
    must(c, "R4-datasets", "node", fl, [g.entry], nodes, [g.exit], "a dataset is not in the graph")
    for n in nodes:
        c.ob("R4-datasets", "node:id", None if ex(fl, n.args[0], n) == self_("dataset_id") else True, "a dataset is in the graph under another ID", n)
        for k in ("produced", "run", "dataset_type_name"):
            v = arg(n, None, k)
            if "**" in n.kwargs:
                continue
            c.ob("R4-datasets", "node:" + k, None if v is not None and ex(fl, v, n) == self_(k) else True, f"the {k} of a dataset is lost", n)
    prod = lambda l, m: l[0] == "isnone" and l[1] == self_("producer") or l[0] == "truth" and l[1] == self_("producer") and False  # noqa: E731
    pe = [n for n in xg(fl, "add_edge", "_bipartite_xgraph") if len(n.args) > 1 and me("producer")(n.args[0], n)]
    present(c, "R4-datasets", "producer", pe, "the producer of a dataset is lost", fl)
    passes(c, "R4-datasets", "producer", fl, [g.entry], pe, [g.exit], {"none": prod}, lambda none: "never" if none else "must", "the producer of a dataset is lost", exc=False)
    for n in pe:
        edge_ob(c, "R4-datasets", "producer:edge", fl, n, me("producer"), me("dataset_id"), "the producer of a dataset is lost")
    hs = over_attr(fl, "consumers")
    present(c, "R4-datasets", "consumers", hs, "consumers of a dataset are lost", fl)
    for h in hs:
        ce = [n for n in xg(fl, "add_edge", "_bipartite_xgraph") if h in loops_of(fl, n)]
        qe = [n for n in xg(fl, "add_edge", "_quantum_only_xgraph") if h in loops_of(fl, n)]
        present(c, "R4-datasets", "consumers:edges", ce, "consumers of a dataset are lost", fl)
        present(c, "R4-datasets", "consumers:quanta", qe, "a quantum does not depend on the producer of its inputs", fl)
        each(c, "R4-datasets", "consumers:each", fl, h, ce, "a consumer of a dataset is lost")
        must(c, "R4-datasets", "consumers:always", fl, [g.entry], [h], [g.exit], "consumers of a dataset are lost")
        is_el = lambda e, n, h=h: fl.term(e, n) == ("elem", h.id) or frm_elem(fl, e, n, h)  # noqa: E731
        for n in ce:
            edge_ob(c, "R4-datasets", "consumers:edge", fl, n, me("dataset_id"), is_el, "a consumer of a dataset is lost")
        passes(c, "R4-datasets", "consumers:quantum edge", fl, elems(h), qe, [h], {"none": prod}, lambda none: "never" if none else "must", "a quantum does not depend on the producer of its inputs", stop=[h], exc=False)
        for n in qe:
            edge_ob(c, "R4-datasets", "consumers:quantum edge:ends", fl, n, me("producer"), is_el, "a quantum does not depend on the producer of its inputs")
    st = [n for n in g.live if n.kind == "substore" and mentions(ex(fl, n.base, n), lambda s: at(s, "_datasets_by_type"))]
    present(c, "R4-datasets", "by type", st, "a dataset cannot be looked up", fl)
    must(c, "R4-datasets", "by type", fl, [g.entry], st, [g.exit], "a dataset cannot be looked up")
    for n in st:
        t = ex(fl, n.base, n)
        c.ob("R4-datasets", "by type:type", None if t[0] == "sub" and t[2] == self_("dataset_type_name") else True, "a dataset is filed under another type", n)
        c.ob("R4-datasets", "by type:id", None if ex(fl, n.value, n) == self_("dataset_id") else True, "another dataset is found", n)

    details(c, "R4-datasets", fl)

    fl = flow_of(c, C, "from_predicted")
    for n in [m for m in fl.g.calls() if "dataset_id" in m.kwargs]:
        for k in ("dataset_id", "dataset_type_name", "data_coordinate", "run"):
            v = n.kwargs.get(k)
            c.ob("R4-datasets", "predicted:" + k, None if v is not None and at(ex(fl, v, n), k) else True, f"the {k} of a dataset is lost", n)
        v = n.kwargs.get("producer")
        c.ob("R4-datasets", "predicted:producer", None if v is not None and ex(fl, v, n) == ("param", "producer") else True, "the producer of a dataset is lost", n)
        v = n.kwargs.get("consumers")
        c.ob("R4-datasets", "predicted:consumers", None if v is not None and fl.derives(v, n, lambda t, m: mentions(t, lambda s: s == ("param", "consumers"))) or v is not None and mentions(ex(fl, v, n), lambda s: s == ("param", "consumers"))
             else True, "the consumers of a dataset are lost", n)
        v = n.kwargs.get("produced")
        for none in (True, False):
            vals = values(fl, v, n, lambda l, m, none=none: none if l[0] == "isnone" and l[1] == ("param", "producer") else None) if v is not None else {None}
            c.ob("R4-datasets", f"predicted:produced({none})", None if vals == {none} else True, "whether a dataset exists is lost", n)


def quantum_nodes(c):
    C = cls(c, "ProvenanceQuantumModel")
    fl = flow_of(c, C, "_add_to_graph")
    g = fl.g
    qid = lambda e, n: ex(fl, e, n) == self_("quantum_id")  # noqa: E731
    for gr in ("_bipartite_xgraph", "_quantum_only_xgraph"):
        ns = [n for n in xg(fl, "add_node", gr) if qid(n.args[0], n)]
        present(c, "R5-quanta", "node" + gr, ns, "quanta are not in the graph", fl)
        must(c, "R5-quanta", "node" + gr, fl, [g.entry], ns, [g.exit], "a quantum is not in the graph")
        for n in ns:
            if "**" in n.kwargs:
                continue
            for k, a in (("status", "status"), ("caveats", "caveats"), ("exception", "exception"), ("resource_usage", "resource_usage")):
                v = n.kwargs.get(k)
                c.ob("R5-quanta", f"node{gr}:{k}", None if v is not None and at(ex(fl, v, n), a) else True, f"the {k} of a quantum is lost", n)
            v = n.kwargs.get("attempts")
            c.ob("R5-quanta", f"node{gr}:attempts", None if v is not None and ex(fl, v, n) == self_("attempts") else True, "attempts of a quantum are lost", n)
            v = n.kwargs.get("status")
            if v is None:
                continue
            # the last attempt, or blocked
            t = fl.term(v, n)
            base = t[1] if t[0] == "attr" else None
            if base is not None and base[0] == "var":
                atoms = {"any": lambda l, m: l[0] == "truth" and l[1] == self_("attempts")}
                for anyv in (True, False):
                    cut = cut_edges(fl, atoms, {"any": anyv})
                    live = {m.id for m in g.live if fl.path([g.entry], [m], stop_edge=lambda k, lab: (k.id, lab) in cut) is not None}
                    for _, val, d in fl.reaching(base, n):
                        if d.id not in live:
                            continue
                        src = [ex(fl, x, m, 8) for x, m in fl.sources(val, d) if m.id in live] or [ex(fl, val, d, 8)]
                        for s in src:
                            good = s[0] == "sub" and s[1] == self_("attempts") and s[2] in (const(-1), ("op", "USub", (const(1),)), ("neg", const(1))) if anyv else mentions(s, lambda z: _glob(z, "BLOCKED"))
                            c.ob("R5-quanta", f"last attempt({'some' if anyv else 'none'})", None if good else True, "a quantum has the status of another attempt" if anyv else "a quantum without attempts is not reported as blocked", d)
    st = [n for n in g.live if n.kind == "substore" and mentions(ex(fl, n.base, n), lambda s: at(s, "_quanta_by_task_label"))]
    present(c, "R5-quanta", "by task", st, "a quantum cannot be looked up", fl)
    must(c, "R5-quanta", "by task", fl, [g.entry], st, [g.exit], "a quantum cannot be looked up")
    for n in st:
        t = ex(fl, n.base, n)
        c.ob("R5-quanta", "by task:task", None if t[0] == "sub" and t[2] == self_("task_label") else True, "a quantum is filed under another task", n)
        c.ob("R5-quanta", "by task:id", None if ex(fl, n.value, n) == self_("quantum_id") else True, "another quantum is found", n)
    es = xg(fl, "add_edge", "_bipartite_xgraph")
    for attr, what in (("inputs", "an input"), ("outputs", "an output")):
        hs = over_attr(fl, attr)
        present(c, "R5-quanta", attr, hs, f"{attr} of a quantum are lost", fl)
        for h in hs:
            inner = [x for x in iters(fl, False) if x is not h and h in loops_of(fl, x) and frm_elem(fl, x.iterable, x, h)]
            mine = [n for n in es if any(x in loops_of(fl, n) for x in inner)]
            present(c, "R5-quanta", attr + ":edges", mine, f"{attr} of a quantum are lost", fl)
            full(c, "R5-quanta", attr + ":all", fl, h, f"{what} of a quantum is lost")
            c.ob("R5-quanta", attr + ":each", fl.path(elems(h), [h, g.exit], stop_node=lambda m: m in inner, raising=False) if inner else True, f"{what} of a quantum is lost", h)
            must(c, "R5-quanta", attr + ":always", fl, [g.entry], [h], [g.exit], f"{attr} of a quantum are lost")
            for x in inner:
                each(c, "R5-quanta", attr + ":each edge", fl, x, mine, f"{what} of a quantum is lost")
                is_el = lambda e, n, x=x: fl.term(e, n) == ("elem", x.id) or frm_elem(fl, e, n, x)  # noqa: E731
                for n in mine:
                    if x in loops_of(fl, n):
                        edge_ob(c, "R5-quanta", attr + ":ends", fl, n, *((is_el, qid) if attr == "inputs" else (qid, is_el)), f"{what} of a quantum is lost")
                        v = n.kwargs.get("is_read")
                        c.ob("R5-quanta", attr + ":is_read", None if v is not None and ex(fl, v, n) == const(attr == "inputs") else True, f"{what} of a quantum is taken for something else", n)
            # edges know the connections
            ge = calls(fl, "get_input_edge" if attr == "inputs" else "get_output_edge")
            for n in ge:
                c.ob("R5-quanta", attr + ":connection", None if frm_elem(fl, n.args[0], n, h) else True, "an edge of another connection is given", n)
            if attr == "inputs":
                ap = [n for n in calls(fl, "append") if frm(fl, n.args[0], n, ge)]
                for x in inner:
                    each(c, "R5-quanta", "inputs:pipeline edge", fl, x, ap, "the connection of an input is lost")
    # dependencies between quanta, in whatever order quanta and datasets are read
    for op, dst in (("predecessors", 1), ("successors", 0)):
        hs = [h for h in iters(fl, False) if mentions(ex(fl, h.iterable, h, 6), lambda s: s[0] == "call" and s[2] == op and s[4] and s[4][0] == self_("quantum_id"))
              and not (plain(ex(fl, h.iterable, h, 6))[0] == "call" and plain(ex(fl, h.iterable, h, 6))[4] and plain(ex(fl, h.iterable, h, 6))[4][0] != self_("quantum_id"))]
        qe = [n for n in xg(fl, "add_edge", "_quantum_only_xgraph") if qid(n.args[dst], n)]
        present(c, "R5-quanta", op, hs, "dependencies between quanta are lost", fl)
        present(c, "R5-quanta", op + ":edges", qe, "dependencies between quanta are lost", fl)
        for h in hs:
            inner = [x for x in iters(fl, False) if x is not h and h in loops_of(fl, x) and frm_elem(fl, x.iterable, x, h)]
            full(c, "R5-quanta", op + ":all", fl, h, "a dependency between quanta is lost")
            c.ob("R5-quanta", op + ":each", fl.path(elems(h), [h, g.exit], stop_node=lambda m: m in inner, raising=False) if inner else True, "a dependency between quanta is lost", h)
            must(c, "R5-quanta", op + ":always", fl, [g.entry], [h], [g.exit], "dependencies between quanta are lost")
            for x in inner:
                each(c, "R5-quanta", op + ":each edge", fl, x, qe, "a dependency between quanta is lost")
                c.ob("R5-quanta", op + ":same way", None if plain(ex(fl, x.iterable, x, 6))[0] != "call" or plain(ex(fl, x.iterable, x, 6))[2] not in ("predecessors", "successors") or plain(ex(fl, x.iterable, x, 6))[2] == op else True, "a dependency between quanta is lost", x)
                for n in qe:
                    if x in loops_of(fl, n):
                        c.ob("R5-quanta", op + ":ends", None if frm_elem(fl, n.args[1 - dst], n, x) else True, "a dependency between quanta is lost", n)
            c.ob("R5-quanta", op + ":after", fl.path([h], [n for n in es]), "dependencies between quanta are lost", h)
    # metadata and logs
    for what, const_name, key, flag in (("metadata", "METADATA_OUTPUT_CONNECTION_NAME", "metadata_id", "has_metadata"), ("log", "LOG_OUTPUT_CONNECTION_NAME", "log_id", "has_log")):
        br = lit_edges(fl, lambda l, m: l[0] == "eq" and any(_glob(t, const_name) for t in l[1:3]) and l[3] is True)
        present(c, "R6-special", what, br, f"the {what} dataset of a quantum is lost", fl)
        hs = over_attr(fl, "outputs")
        ad = [n for n in xg(fl, "add_node", "_bipartite_xgraph") if mentions(ex(fl, n.kwargs.get("produced", const(None)), n), lambda s: at(s, flag))]
        present(c, "R6-special", what + ":node", ad, f"whether the {what} of a quantum exist is lost", fl)
        c.ob("R6-special", what + ":node", fl.path(edges_of(fl, br), hs + [g.exit], stop_node=lambda m: m in ad, raising=False) if br else True, f"whether the {what} of a quantum exist is lost")
        for n in ad:
            t = ex(fl, n.kwargs["produced"], n)
            c.ob("R6-special", what + ":exists", None if at(t, flag) and at(t[1], "status") else True, f"whether the {what} of a quantum exist is lost", n)
            guard(c, "R6-special", what + ":only", fl, [n], lambda l, m: l[0] == "eq" and any(_glob(t, const_name) for t in l[1:3]) and l[3] is True, f"another dataset is taken for the {what}", starts=[e for h in hs for e in elems(h)])
        ix = indexed(fl)
        c.ob("R6-special", what + ":index", fl.path(edges_of(fl, br), hs + [g.exit], stop_node=lambda m: m in ix, raising=False) if br else True, f"the {what} dataset of a quantum cannot be looked up")
        for gr in ("_bipartite_xgraph", "_quantum_only_xgraph"):
            st = [n for n in g.live if n.kind == "substore" and ex(fl, n.key, n) == const(key) and mentions(ex(fl, n.base, n), lambda s, gr=gr: at(s, gr))]
            present(c, "R6-special", what + gr, st, f"the {what} dataset of a quantum is lost", fl)
            c.ob("R6-special", what + gr, fl.path(edges_of(fl, br), hs + [g.exit], stop_node=lambda m: m in st, raising=False) if br else True, f"the {what} dataset of a quantum is lost")
            for n in st:
                c.ob("R6-special", what + gr + ":id", None if any(frm_elem(fl, n.value, n, h) for h in hs) else True, f"the {what} dataset of a quantum is another", n)
    details(c, "R5-quanta", fl)


def indexed(fl):
    return [n for n in fl.g.live if n.kind == "substore" and mentions(ex(fl, n.base, n), lambda s: at(s, "_datasets_by_type"))]


def details(c, rule, fl):
    """Nodes and edges have the attributes every user of the graph looks up; index entries agree with them."""
    for n in xg(fl, "add_node", "_bipartite_xgraph"):
        if "**" in n.kwargs:
            continue
        ds = "dataset_type_name" in n.kwargs or not (n.args and ex(fl, n.args[0], n) == self_("quantum_id"))
        for k in ("data_id", "pipeline_node") + (("dataset_type_name", "run", "produced") if ds else ("task_label",)):
            c.ob(rule, "attribute:" + k, None if k in n.kwargs else True, f"the {k} of a node is not known", n)
        if "task_label" in n.kwargs:
            c.ob(rule, "attribute:task_label:value", None if ex(fl, n.kwargs["task_label"], n) == self_("task_label") else True, "a quantum is given another task", n)
        if "run" in n.kwargs:
            c.ob(rule, "attribute:run:value", None if at(ex(fl, n.kwargs["run"], n), "run", "output_run") else True, "a dataset is given another run", n)
        if "pipeline_node" in n.kwargs and "dataset_type_name" in n.kwargs:
            nm, t = ex(fl, n.kwargs["dataset_type_name"], n), ex(fl, n.kwargs["pipeline_node"], n)
            c.ob(rule, "attribute:dataset type", None if at(nm, "dataset_type_name") and mentions(t, lambda s: s[0] == "sub" and at(s[1], "dataset_types") and s[2] == nm) or not mentions(t, lambda s: at(s, "dataset_types")) else True, "a dataset is given another dataset type", n)
    for n in indexed(fl):
        t = ex(fl, n.base, n)
        if t[0] == "sub" and at(t[1], "_datasets_by_type"):
            c.ob(rule, "index:type", None if at(t[2], "dataset_type_name") else True, "a dataset is filed under another dataset type", n)
        near = [m for m in xg(fl, "add_node", "_bipartite_xgraph") if "data_id" in m.kwargs and m.args and ex(fl, m.args[0], m) == ex(fl, n.value, n)]
        c.ob(rule, "index:data ID", None if not near or any(ex(fl, m.kwargs["data_id"], m) == ex(fl, n.key, n) for m in near) else True, "a dataset is filed under another data ID", n)


def init_nodes(c):
    C = cls(c, "ProvenanceInitQuantumModel")
    fl = flow_of(c, C, "_add_to_graph")
    g = fl.g
    qid = lambda e, n: ex(fl, e, n) == self_("quantum_id")  # noqa: E731
    ns = [n for n in xg(fl, "add_node", "_bipartite_xgraph") if qid(n.args[0], n)]
    present(c, "R7-init", "node", ns, "init quanta are not in the graph", fl)
    must(c, "R7-init", "node", fl, [g.entry], ns, [g.exit], "an init quantum is not in the graph")
    es = xg(fl, "add_edge", "_bipartite_xgraph")
    for attr in ("inputs", "outputs"):
        hs = over_attr(fl, attr)
        present(c, "R7-init", attr, hs, f"init-{attr} are lost", fl)
        for h in hs:
            mine = [n for n in es if h in loops_of(fl, n)]
            each(c, "R7-init", attr + ":each", fl, h, mine, f"init-{attr} are lost")
            must(c, "R7-init", attr + ":always", fl, [g.entry], [h], [g.exit], f"init-{attr} are lost")
            for n in mine:
                is_el = lambda e, n, h=h: frm_elem(fl, e, n, h)  # noqa: E731
                edge_ob(c, "R7-init", attr + ":ends", fl, n, *((is_el, qid) if attr == "inputs" else (qid, is_el)), f"init-{attr} are lost")
                v = n.kwargs.get("is_read")
                c.ob("R7-init", attr + ":is_read", None if v is not None and ex(fl, v, n) == const(attr == "inputs") else True, f"init-{attr} are taken for something else", n)
            ge = calls(fl, "get_input_edge" if attr == "inputs" else "get_output_edge")
            for n in ge:
                c.ob("R7-init", attr + ":connection", None if frm_elem(fl, n.args[0], n, h) else True, "an edge of another connection is given", n)
            if attr == "inputs":
                each(c, "R7-init", "inputs:pipeline edge", fl, h, [n for n in calls(fl, "append") if frm(fl, n.args[0], n, ge)], "the connection of an init-input is lost")
            else:
                each(c, "R7-init", "outputs:node", fl, h, [n for n in xg(fl, "add_node", "_bipartite_xgraph") if n not in ns], "an init-output is not in the graph")
                each(c, "R7-init", "outputs:index", fl, h, indexed(fl), "an init-output cannot be looked up")
                cfg = lambda l, m: l[0] == "eq" and any(_glob(t, "CONFIG_INIT_OUTPUT_CONNECTION_NAME") for t in l[1:3])  # noqa: E731
                put = [n for n in g.live if n.kind == "substore" and ex(fl, n.key, n) == const("config_id")]
                present(c, "R7-init", "config", put, "the config of a task is lost", fl)
                passes(c, "R7-init", "config", fl, elems(h), put, [h, g.exit], {"cfg": cfg}, lambda cfg: "must" if cfg else "never", "the config of a task is another dataset", stop=[h], exc=False)
                for n in put:
                    c.ob("R7-init", "config:id", None if frm_elem(fl, n.value, n, h) else True, "the config of a task is another dataset", n)
    st = [n for n in g.live if n.kind == "substore" and at(ex(fl, n.base, n), "_init_quanta")]
    must(c, "R7-init", "by task", fl, [g.entry], st, [g.exit], "an init quantum cannot be looked up")
    for n in st:
        c.ob("R7-init", "by task:entry", None if ex(fl, n.key, n) == self_("task_label") and ex(fl, n.value, n) == self_("quantum_id") else True, "another init quantum is found", n)
    details(c, "R7-init", fl)
    fl = flow_of(c, cls(c, "ProvenanceInitQuantaModel"), "_add_to_graph")
    hs = over_attr(fl, "root")
    present(c, "R7-init", "all", hs, "init quanta are not in the graph", fl)
    for h in hs:
        each(c, "R7-init", "each", fl, h, calls(fl, "_add_to_graph"), "an init quantum is not in the graph")


def predicted(c):
    """Models made from predicted quanta have all their inputs and outputs."""
    for nm in ("ProvenanceQuantumModel", "ProvenanceInitQuantumModel"):
        fl = flow_of(c, cls(c, nm), "from_predicted")
        g = fl.g
        for n in [m for m in g.calls() if "quantum_id" in m.kwargs and "task_label" in m.kwargs]:
            for k in ("quantum_id", "task_label") + (("data_coordinate",) if nm == "ProvenanceQuantumModel" else ()):
                v = n.kwargs.get(k)
                c.ob("R8-predicted", f"{nm}:{k}", None if v is not None and ex(fl, v, n) == ("attr", ("param", "predicted"), k) else True, f"the {k} of a quantum is lost", n)
            for k in ("inputs", "outputs"):
                v = n.kwargs.get(k)
                hs = over_attr(fl, k, comp=None)
                ok = v is not None and (any(frm_elem(fl, v, n, h) for h in hs) or fl.derives(v, n, lambda t, m: t[0] == "comp" and any(i == h.id for h in hs for i in t[3])))
                c.ob("R8-predicted", f"{nm}:{k}", None if ok else True, f"the {k} of a quantum are lost", n)
                for h in hs:
                    full(c, "R8-predicted", f"{nm}:{k}:all", fl, h, f"{k} of a quantum are lost")
                    inner = [x for x in iters(fl, None) if x is not h and x.id in fl.loop_body(h)]
                    for x in inner:
                        full(c, "R8-predicted", f"{nm}:{k}:each", fl, x, f"{k} of a quantum are lost")
                    if h.d.get("comp"):
                        each(c, "R8-predicted", f"{nm}:{k}:kept", fl, h, elts(fl, h), f"{k} of a quantum are lost")
                    for x in inner:
                        if x.d.get("comp"):
                            each(c, "R8-predicted", f"{nm}:{k}:each kept", fl, x, elts(fl, x), f"{k} of a quantum are lost")


# ---------------------------------------------------------------- writing

def nolabel(l, m):
    return l[0] == "truth" and l[2] is False and at(l[1], "task_label") or l[0] == "eq" and l[3] is True and any(at(t, "task_label") for t in l[1:3]) and const("") in l[1:3]


def writing(c):
    W = cls(c, "ProvenanceQuantumGraphWriter")
    fl = flow_of(c, W, "__init__")
    g = fl.g
    a, b = calls(fl, "_init_predicted_quanta"), calls(fl, "_populate_xgraph_and_inputs")
    for nm, ns in (("quanta", a), ("graph", b)):
        present(c, "R9-writer", nm, ns, "the writer does not know the predicted quanta", fl)
        must(c, "R9-writer", nm, fl, [g.entry], ns, [g.exit], "the writer does not know the predicted quanta")
    after(c, "R9-writer", "order", fl, a, b, "the writer does not know the predicted quanta")

    fl = flow_of(c, W, "_init_predicted_quanta")
    g = fl.g
    full_graph = lambda l, m: l[0] == "isinstance" and l[1] == ("param", "predicted")  # noqa: E731
    for attr, srcs in (("_predicted_init_quanta", ("_init_quanta", "init_quanta")), ("_predicted_quanta", ("_quantum_datasets", "quantum_datasets"))):
        for val, src in ((True, srcs[0]), (False, srcs[1])):
            ups = [n for n in calls(fl, "extend", "update") if at(ex(fl, n.recv, n), attr) and mentions(ex(fl, n.args[0], n), lambda s, q=src: at(s, q))]
            ups += [n for n in _attrstores(fl, attr) if mentions(ex(fl, n.value, n, 8), lambda s, q=src: at(s, q))]
            cut = cut_edges(fl, {"full": full_graph}, {"full": val})
            c.ob("R9-writer", f"{attr}:{src}", fl.path([g.entry], [g.exit], stop_node=lambda m: m in ups, stop_edge=lambda m, lab: (m.id, lab) in cut or lab == "exc") if ups else True, "the writer does not know all predicted quanta")
    ini = [n for n in calls(fl, "update") if at(ex(fl, n.recv, n), "_predicted_quanta") and ex(fl, n.args[0], n)[0] == "comp"]
    hs = [h for h in over_attr(fl, "_predicted_init_quanta", comp=None)]
    present(c, "R9-writer", "init", ini or hs, "the writer does not know init quanta", fl)
    for h in hs:
        full(c, "R9-writer", "init:all", fl, h, "the writer does not know an init quantum")
        if h.d.get("comp"):
            each(c, "R9-writer", "init:each", fl, h, elts(fl, h), "the writer does not know an init quantum")
    for n in ini:
        must(c, "R9-writer", "init", fl, [g.entry], ini, [g.exit], "the writer does not know init quanta")
        ext = [m for m in calls(fl, "extend") if at(ex(fl, m.recv, m), "_predicted_init_quanta")]
        c.ob("R9-writer", "init:after", fl.path([n], ext), "the writer does not know init quanta", n)

    fl = flow_of(c, W, "_populate_xgraph_and_inputs")
    g = fl.g
    hs = over_attr(fl, "_predicted_quanta")
    present(c, "R10-graph", "quanta", hs, "consumers of datasets are not known", fl)
    oi = calls(fl, "iter_output_dataset_ids")
    first = [h for h in hs if any(h in loops_of(fl, n) for n in oi)]
    eo = calls(fl, "add_edge")
    second = [h for h in hs if any(h in loops_of(fl, n) for n in eo)]
    present(c, "R10-graph", "outputs", first, "outputs are taken for overall inputs", fl)
    present(c, "R10-graph", "edges", second, "consumers of datasets are not known", fl)
    upd = [n for n in calls(fl, "update", "add") if frm(fl, n.args[0], n, oi)]
    for h in first:
        each(c, "R10-graph", "outputs:each", fl, h, upd, "an output is taken for an overall input", unless=nolabel)
        for x in second:
            c.ob("R10-graph", "order", None if x is h else fl.path([x], [h]), "an output is taken for an overall input", x)
            c.ob("R10-graph", "two passes", True if x is h else None, "an output is taken for an overall input", x)
    known = lambda l, m: l[0] == "in" and at(l[1], "dataset_id") and _root(fl, l[2], m) in {_root(fl, u.recv, u) for u in upd}  # noqa: E731
    for h in second:
        for attr in ("inputs", "outputs"):
            inner = [x for x in over_attr(fl, attr) if h in loops_of(fl, x)]
            present(c, "R10-graph", attr, inner, f"{attr} of quanta are not known", fl)
            full(c, "R10-graph", attr + ":all", fl, h, f"{attr} of a quantum are not known")
            nol = lit_edges(fl, nolabel)
            c.ob("R10-graph", attr + ":each", fl.path(elems(h), [h, g.exit], stop_node=lambda m: m in inner, stop_edge=lambda m, lab: (m.id, lab) in nol or lab == "exc") if inner else True, f"{attr} of a quantum are not known", h)
            for x in inner:
                mine = [n for n in eo if x in loops_of(fl, n)]
                each(c, "R10-graph", attr + ":edges", fl, x, mine, f"{attr} of a quantum are not known")
                for n in mine:
                    d = lambda e, n, x=x: at(ex(fl, e, n), "dataset_id") and frm_elem(fl, e, n, x)  # noqa: E731
                    q = lambda e, n, h=h: at(ex(fl, e, n), "quantum_id") and frm_elem(fl, e, n, h)  # noqa: E731
                    edge_ob(c, "R10-graph", attr + ":ends", fl, n, *((d, q) if attr == "inputs" else (q, d)), f"{attr} of a quantum are not known")
                if attr == "inputs":
                    st = [n for n in calls(fl, "setdefault") if at(ex(fl, n.recv, n), "_overall_inputs")] + [n for n in g.live if n.kind == "substore" and at(ex(fl, n.base, n), "_overall_inputs")]
                    present(c, "R10-graph", "overall inputs", st, "overall inputs have no provenance", fl)
                    passes(c, "R10-graph", "overall inputs", fl, elems(x), st, [x], {"known": known}, lambda known: "never" if known else None, "an output is taken for an overall input", stop=[x], exc=False)
                    already = lambda l, m: l[0] == "in" and at(l[2], "_overall_inputs")  # noqa: E731
                    passes(c, "R10-graph", "overall inputs", fl, elems(x), st, [x, g.exit], {"known": known, "already": already}, lambda known, already: "must" if not known and not already else None, "an overall input has no provenance", stop=[x], exc=False)

    fl = flow_of(c, W, "write_overall_inputs")
    g = fl.g
    hs = over_attr(fl, "_overall_inputs")
    wm = [n for n in calls(fl, "write_model", "write_bytes") if at(ex(fl, n.recv, n), "_dataset_writer")]
    present(c, "R11-inputs", "written", wm, "overall inputs have no provenance", fl)
    present(c, "R11-inputs", "all", hs, "overall inputs have no provenance", fl)
    there = lambda l, m: l[0] == "in" and l[3] is True and at(l[2], "addresses")  # noqa: E731
    for h in hs:
        each(c, "R11-inputs", "each", fl, h, wm, "an overall input has no provenance", unless=there)
    for n in wm:
        c.ob("R11-inputs", "key", None if at(ex(fl, n.args[0], n), "dataset_id") else True, "an overall input is written under another ID", n)
    for n in calls(fl, "from_predicted"):
        v = arg(n, 1, "producer")
        c.ob("R11-inputs", "producer", None if v is None or ex(fl, v, n) == const(None) else True, "an overall input has a producer", n)
        consumers(c, "R11-inputs", fl, n)

    fl = flow_of(c, W, "write_init_outputs")
    g = fl.g
    hs = over_attr(fl, "_predicted_init_quanta")
    wm = [n for n in calls(fl, "write_model", "write_bytes") if at(ex(fl, n.recv, n), "_dataset_writer")]
    app = calls(fl, "append")
    one = calls(fl, "write_single_model")
    present(c, "R12-init", "quanta", hs, "init quanta have no provenance", fl)
    present(c, "R12-init", "written", wm, "init-outputs have no provenance", fl)
    present(c, "R12-init", "block", one, "init quanta have no provenance", fl)
    must(c, "R12-init", "block", fl, [g.entry], one, [g.exit], "init quanta have no provenance")
    for h in hs:
        each(c, "R12-init", "each", fl, h, app, "an init quantum has no provenance", unless=nolabel)
        for n in one:
            c.ob("R12-init", "block:after", fl.path([g.entry], [n], stop_node=lambda m: m is h), "init quanta have no provenance", n)
        inner = [x for x in over_attr(fl, "outputs") if h in loops_of(fl, x)]
        nol = lit_edges(fl, nolabel)
        c.ob("R12-init", "outputs", fl.path(elems(h), [h, g.exit], stop_node=lambda m: m in inner, stop_edge=lambda m, lab: (m.id, lab) in nol or lab == "exc") if inner else True, "init-outputs have no provenance", h)
        for x in inner:
            each(c, "R12-init", "outputs:each", fl, x, wm, "an init-output has no provenance")
    prod = _attrstores(fl, "produced")
    for n in wm:
        c.ob("R12-init", "key", None if at(ex(fl, n.args[0], n), "dataset_id") else True, "an init-output is written under another ID", n)
        c.ob("R12-init", "produced:before", fl.path(calls(fl, "from_predicted")[:1], [n], stop_node=lambda m: m in prod), "whether an init-output exists is lost", n)
    for n in prod:
        for assume, there2 in ((True, True), (True, False), (False, True), (False, False)):
            def dec(l, m, assume=assume, there2=there2):
                if l[0] == "truth" and l[1] == ("param", "assume_existence"):
                    return assume
                if l[0] == "in" and at(l[2], "_existing_init_outputs"):
                    return there2
                return None
            vals = values(fl, n.value, n, dec)
            c.ob("R12-init", f"produced({assume}, {there2})", None if vals <= {assume or there2} else True, "whether an init-output exists is lost", n)
    for n in calls(fl, "from_predicted"):
        if mentions(ex(fl, n.recv, n), lambda s: _glob(s, "ProvenanceDatasetModel")):
            v = arg(n, 1, "producer")
            c.ob("R12-init", "producer", None if v is not None and at(ex(fl, v, n), "quantum_id") else True, "the producer of an init-output is lost", n)
            consumers(c, "R12-init", fl, n)


def consumers(c, rule, fl, n):
    v = arg(n, 2, "consumers")
    t = ex(fl, v, n) if v is not None else ("none",)
    c.ob(rule, "consumers", None if mentions(t, lambda s: s[0] == "call" and s[2] in ("successors", "adj")) and mentions(t, lambda s: at(s, "dataset_id")) else True, "the consumers of a dataset are lost", n)


def scan_data(c):
    W = cls(c, "ProvenanceQuantumGraphWriter")
    fl = flow_of(c, W, "write_scan_data")
    g = fl.g
    init = is_("INIT")
    sd = lambda a: ("attr", ("param", "scan_data"), a)  # noqa: E731
    up = [n for n in calls(fl, "update", "add") if at(ex(fl, n.recv, n), "_existing_init_outputs")]
    wb = {k: [n for n in calls(fl, "write_bytes", "write_model") if at(ex(fl, n.recv, n), k)] for k in ("_quantum_writer", "_dataset_writer", "_metadata_writer", "_log_writer")}
    passes(c, "R13-scan", "init", fl, [g.entry], up, [g.exit], {"init": init}, lambda init: "must" if init else "never", "the existence of init-outputs is lost", exc=False)
    for n in up:
        c.ob("R13-scan", "init:which", None if ex(fl, n.args[0], n) == sd("existing_outputs") else True, "the existence of init-outputs is lost", n)
    for k, ns in wb.items():
        present(c, "R13-scan", k, ns, "provenance is not written", fl)
        passes(c, "R13-scan", k + ":init", fl, [g.entry], ns, [g.exit], {"init": init}, lambda init: "never" if init else None, "an init quantum is written as a quantum", exc=False)
    passes(c, "R13-scan", "quantum", fl, [g.entry], wb["_quantum_writer"], [g.exit], {"init": init}, lambda init: None if init else "must", "a quantum has no provenance", exc=False)
    for k, a in (("_quantum_writer", "quantum"), ("_metadata_writer", "metadata"), ("_log_writer", "logs")):
        for n in wb[k]:
            c.ob("R13-scan", a + ":key", None if at(ex(fl, n.args[0], n), "quantum_id") else True, f"the {a} are written under another ID", n)
            c.ob("R13-scan", a + ":what", None if fl.derives(n.args[1], n, lambda t, m, a=a: mentions(t, lambda s: at(s, a))) or mentions(ex(fl, n.args[1], n), lambda s, a=a: at(s, a)) else True, f"something else is written as {a}", n)
    have = {"metadata": lambda l, m: l[0] == "truth" and l[1] == sd("metadata"), "logs": lambda l, m: l[0] == "truth" and l[1] == sd("logs")}
    for k, a, cn in (("_metadata_writer", "metadata", "METADATA_OUTPUT_CONNECTION_NAME"), ("_log_writer", "logs", "LOG_OUTPUT_CONNECTION_NAME")):
        passes(c, "R13-scan", a, fl, [g.entry], wb[k], [g.exit], {"init": init, "have": have[a]}, lambda init, have: None if init else "must" if have else "never", f"the {a} of a quantum are lost", exc=False)
        st = [n for n in g.live if n.kind == "substore" and at(ex(fl, n.base, n), "addresses") and mentions(ex(fl, n.base, n), lambda s, k=k: at(s, k))]
        present(c, "R13-scan", a + ":address", st, f"the {a} of a quantum cannot be found by dataset", fl)
        c.ob("R13-scan", a + ":address", fl.path(ok_edges(wb[k]), [g.exit], stop_node=lambda m: m in st, raising=False), f"the {a} of a quantum cannot be found by dataset")
        for n in st:
            c.ob("R13-scan", a + ":address:value", None if frm(fl, n.value, n, wb[k]) else True, f"the {a} of a quantum cannot be found by dataset", n)
            t = ex(fl, n.key, n, 8)
            c.ob("R13-scan", a + ":address:key", None if at(t, "dataset_id") and mentions(t, lambda s, cn=cn: _glob(s, cn)) else True, f"the {a} of a quantum are found under another dataset", n)
    # every predicted output
    hs = over_attr(fl, "outputs")
    present(c, "R14-outputs", "all", hs, "outputs of a quantum have no provenance", fl)
    prod = _attrstores(fl, "produced")
    present(c, "R14-outputs", "produced", prod, "whether outputs exist is lost", fl)
    fp = [n for n in calls(fl, "from_predicted") if mentions(ex(fl, n.recv, n), lambda s: _glob(s, "ProvenanceDatasetModel"))]
    st = [n for n in g.live if n.kind == "substore" and not at(ex(fl, n.base, n), "addresses")]
    for h in hs:
        sink = [n for n in st + wb["_dataset_writer"] if h in loops_of(fl, n)]
        each(c, "R14-outputs", "each", fl, h, sink, "an output of a quantum has no provenance")
        each(c, "R14-outputs", "produced:each", fl, h, prod, "whether an output exists is lost")
        must(c, "R14-outputs", "always", fl, [g.entry], [h], wb["_quantum_writer"], "outputs of a quantum have no provenance")
        for n in sink:
            key = n.key if n.kind == "substore" else n.args[0]
            c.ob("R14-outputs", "key", None if at(ex(fl, key, n), "dataset_id") else True, "an output is written under another ID", n)
            dump = calls(fl, "model_dump_json")
            c.ob("R14-outputs", "after", fl.path([d for d in dump if h in loops_of(fl, d)], prod, stop_node=lambda m: m is h), "whether an output exists is lost", n)
    outs = [h for h in iters(fl, False) if h not in hs and any(h in loops_of(fl, n) for n in wb["_dataset_writer"])]
    for h in outs:
        each(c, "R14-outputs", "written", fl, h, wb["_dataset_writer"], "an output of a quantum has no provenance")
        c.ob("R14-outputs", "written:all", None if _base_iter(fl, h) in {_root(fl, n.base, n) for n in st} or not st else True, "outputs of a quantum have no provenance", h)
        must(c, "R14-outputs", "written:always", fl, ok_edges(wb["_quantum_writer"]), [h], [g.exit], "outputs of a quantum have no provenance")
    for n in prod:
        for there in (True, False):
            vals = values(fl, n.value, n, lambda l, m, there=there: there if l[0] == "in" and l[2] == sd("existing_outputs") else None)
            c.ob("R14-outputs", f"produced({there})", None if vals == {there} else True, "whether an output exists is lost", n)
    for n in fp:
        v = arg(n, 1, "producer")
        c.ob("R14-outputs", "producer", None if v is not None and at(ex(fl, v, n), "quantum_id") else True, "the producer of an output is lost", n)
        consumers(c, "R14-outputs", fl, n)
    # everything is compressed exactly once
    atoms = {"compressed": lambda l, m: l[0] == "truth" and l[1] == sd("is_compressed"), "quantum": lambda l, m: l[0] == "truth" and l[1] == sd("quantum"), "init": init, **have}
    made = [n for n in g.live if n.kind == "attrstore" and n.name == "quantum" and mentions(ex(fl, n.value, n, 8), lambda s: _glob(s, "ProvenanceQuantumModel"))]
    present(c, "R15-compression", "blocked", made, "a blocked quantum has no provenance", fl)
    for cp in (True, False):
        for qu in (True, False):
            cut = cut_edges(fl, atoms, {"init": False, "compressed": cp, "quantum": qu, "metadata": True, "logs": True})
            for a, w in (("quantum", "_quantum_writer"), ("metadata", "_metadata_writer"), ("logs", "_log_writer")):
                if a != "quantum" and not qu:
                    continue
                comp = [n for n in g.live if n.kind == "attrstore" and n.name == a and mentions(ex(fl, n.value, n, 3), lambda s: s[0] == "call" and s[2] == "compress")]
                stop = lambda m, lab, cut=cut: (m.id, lab) in cut or lab == "exc"  # noqa: E731
                want = not cp or a == "quantum" and not qu
                inst = f"{a}({'compressed' if cp else 'not compressed'}{'' if qu else ', blocked'})"
                if want:
                    c.ob("R15-compression", inst, fl.path([g.entry], wb[w], stop_node=lambda m: m in comp, stop_edge=stop), f"{a} are written uncompressed")
                    w2 = next((fl.path(ok_edges([n]), comp, stop_edge=stop) for n in comp if fl.path([g.entry], [n], stop_edge=stop) is not None and fl.path(ok_edges([n]), comp, stop_edge=stop) is not None), None)
                    c.ob("R15-compression", inst + ":once", w2, f"{a} are compressed twice")
                else:
                    c.ob("R15-compression", inst, fl.path([g.entry], comp, stop_edge=stop), f"{a} are compressed twice")
            if not qu:
                c.ob("R15-compression", f"blocked({'compressed' if cp else 'not compressed'})", fl.path([g.entry], wb["_quantum_writer"], stop_node=lambda m: m in made, stop_edge=lambda m, lab, cut=cut: (m.id, lab) in cut or lab == "exc"),
                     "a blocked quantum has no provenance")
            else:
                c.ob("R15-compression", f"kept({'compressed' if cp else 'not compressed'})", fl.path([g.entry], made, stop_edge=lambda m, lab, cut=cut: (m.id, lab) in cut or lab == "exc"), "the attempts of a quantum are lost")
    D = cls(c, "ProvenanceQuantumScanData")
    fl = flow_of(c, D, "compress")
    g = fl.g
    comp_lit = lambda l, m: l[0] == "truth" and l[1] == self_("is_compressed")  # noqa: E731
    flag = [n for n in _attrstores(fl, "is_compressed") if ex(fl, n.value, n) == const(True)]
    passes(c, "R15-compression", "flag", fl, [g.entry], flag, [g.exit], {"done": comp_lit}, lambda done: None if done else "must", "scan data is compressed twice", exc=False)
    for a in ("quantum", "metadata", "logs"):
        st = _attrstores(fl, a)
        present(c, "R15-compression", "compress:" + a, st, f"{a} are written uncompressed", fl)
        passes(c, "R15-compression", "compress:" + a, fl, [g.entry], st, [g.exit], {"done": comp_lit, "some": lambda l, m, a=a: l[0] == "truth" and l[1] == self_(a)}, lambda done, some: "never" if done else "must" if some else None,
               f"{a} are compressed twice or not at all", exc=False)
        comp = [m for m in calls(fl, "compress") if m.args and ex(fl, m.args[0], m) == self_(a)]
        cut = cut_edges(fl, {"some": lambda l, m, a=a: l[0] == "truth" and l[1] == self_(a)}, {"some": True})
        for n in st:
            c.ob("R15-compression", "compress:" + a + ":what", None if all(frm(fl, x, m, comp) for x, m in under(fl, n.value, n, cut)) else True, f"{a} are lost", n)
    fl = flow_of(c, D, "make_blocked")
    for n in ctor(fl, "ProvenanceQuantumScanData"):
        v = arg(n, 1, "status")
        c.ob("R15-compression", "blocked:status", None if v is not None and _glob(ex(fl, v, n), "BLOCKED") else True, "a blocked quantum is reported as something else", n)
        c.ob("R15-compression", "blocked:quantum", None if n.args and ex(fl, n.args[0], n) == ("param", "quantum_id") or "quantum_id" in n.kwargs and ex(fl, n.kwargs["quantum_id"], n) == ("param", "quantum_id") else True, "another quantum is reported as blocked", n)
    fl = flow_of(c, W, "write_quantum_provenance")
    g = fl.g
    ws, fm, ts = calls(fl, "write_scan_data"), calls(fl, "from_metadata_and_logs"), calls(fl, "to_scan_data")
    present(c, "R13-scan", "provenance", ws, "a quantum has no provenance", fl)
    must(c, "R13-scan", "provenance", fl, [g.entry], ws, [g.exit], "a quantum has no provenance")
    for n in ws:
        c.ob("R13-scan", "provenance:what", None if frm(fl, n.args[0], n, ts) else True, "something else is written for a quantum", n)
    for n in ts:
        v = arg(n, 1, "compressor")
        c.ob("R13-scan", "provenance:models", None if frm(fl, n.recv, n, fm) else True, "something else is written for a quantum", n)
    for n in fm:
        for i, k in ((1, "metadata"), (2, "logs")):
            v = arg(n, i, k)
            c.ob("R13-scan", "provenance:" + k, None if v is not None and ex(fl, v, n) == ("param", k) else True, f"the {k} of a quantum are lost", n)
        v = arg(n, None, "incomplete")
        c.ob("R13-scan", "provenance:complete", None if v is None or ex(fl, v, n) == const(False) else True, "a failed quantum has no provenance", n)
    fl = flow_of(c, W, "write_blocked_quantum_provenance")
    ws, mb = calls(fl, "write_scan_data"), calls(fl, "make_blocked")
    must(c, "R13-scan", "blocked", fl, [fl.g.entry], ws, [fl.g.exit], "a blocked quantum has no provenance")
    for n in ws:
        c.ob("R13-scan", "blocked:what", None if frm(fl, n.args[0], n, mb) else True, "a blocked quantum is reported as something else", n)


def _base_iter(fl, h):
    """The container a loop is over, copies of its items, values or keys included."""
    e, n = h.iterable, h
    for _ in range(6):
        t = fl.term(e, n)
        if t[0] == "tmp" and fl.g.nodes[t[1]].kind == "call":
            m = fl.g.nodes[t[1]]
            if m.recv is None and m.name in ("list", "tuple", "iter", "sorted") and len(m.args) == 1:
                e, n = m.args[0], m
                continue
        break
    return _root(fl, e, n)


# ---------------------------------------------------------------- scans

def scanning(c):
    S = cls(c, "ProvenanceQuantumScanModels")
    fl = flow_of(c, S, "from_metadata_and_logs")
    g = fl.g
    pl, pm, rc, eo = (calls(fl, k) for k in ("_process_logs", "_process_metadata", "_reconcile_attempts", "_extract_output_existence"))
    ab = is_("ABANDONED")
    for nm, ns in (("logs", pl), ("metadata", pm)):
        present(c, "R16-status", nm, ns, f"{nm} are ignored", fl)
        must(c, "R16-status", nm, fl, [g.entry], ns, [g.exit], f"{nm} are ignored")
    after(c, "R16-status", "order", fl, pl, pm, "a success is overwritten by what the logs say")
    for nm, ns in (("reconciled", rc), ("existence", eo)):
        present(c, "R16-status", nm, ns, "attempts or outputs of a quantum are lost", fl)
        passes(c, "R16-status", nm, fl, [g.entry], ns, [g.exit], {"abandoned": ab}, lambda abandoned: "never" if abandoned else "must", "attempts or outputs of a quantum are lost", exc=False)
    for n in rc + eo:
        c.ob("R16-status", n.name + ":after", fl.path([n], pl + pm), "attempts or outputs of a quantum are lost", n)
    la = {_root(fl, arg(n, 2, "last_attempt"), n) for n in pl + pm if arg(n, 2, "last_attempt") is not None} | {_root(fl, arg(n, 0, "last_attempt"), n) for n in rc if arg(n, 0, "last_attempt") is not None}
    c.ob("R16-status", "one attempt", None if len(la) == 1 else True, "logs and metadata are given to different attempts", node=fl.g.entry)
    for n in pl + pm:
        k = "logs" if n in pl else "metadata"
        v = arg(n, 1, k)
        c.ob("R16-status", k + ":which", None if v is not None and ex(fl, v, n) == ("param", k) else True, f"{k} are ignored", n)
        v = arg(n, None, "incomplete")
        c.ob("R16-status", k + ":incomplete", None if v is not None and ex(fl, v, n) == ("param", "incomplete") else True, "an incomplete quantum is reported as failed, or a failed one as incomplete", n)

    for meth, prm, cn in (("_process_logs", "logs", "LOG_OUTPUT_CONNECTION_NAME"), ("_process_metadata", "metadata", "METADATA_OUTPUT_CONNECTION_NAME")):
        fl = flow_of(c, S, meth)
        g = fl.g
        none = lambda l, m, prm=prm: l[0] == "isnone" and l[1] == ("param", prm)  # noqa: E731
        inc = lambda l, m: l[0] == "truth" and l[1] == ("param", "incomplete")  # noqa: E731
        mine = [n for n in _attrstores(fl, "status") if ex(fl, n.base, n) == ("param", "self")]
        last = [n for n in _attrstores(fl, "status") if ex(fl, n.base, n) != ("param", "self")]
        for no in (True, False):
            for i in (True, False):
                cut = cut_edges(fl, {"none": none, "inc": inc}, {"none": no, "inc": i})
                stop = lambda m, lab, cut=cut: (m.id, lab) in cut or lab == "exc"  # noqa: E731
                inst = f"{prm}({'missing' if no else 'present'}{', incomplete' if i else ''})"
                want = ({True: "ABANDONED", False: "FAILED"}[i] if no else "SUCCESSFUL" if prm == "metadata" else None)
                good = [n for n in mine if want is not None and _glob(ex(fl, n.value, n), want)]
                live = [n for n in mine if fl.path([g.entry], [n], stop_edge=stop) is not None]
                bad = []
                for n in live:
                    # values that can reach the store under this assignment
                    for x, m in fl.sources(n.value, n) or [(n.value, n)]:
                        if fl.path([g.entry], [m], stop_edge=stop) is not None and not (want is not None and _glob(ex(fl, x, m), want)):
                            bad.append(n)
                c.ob("R16-status", inst, True if bad else None, "the status of a quantum is wrong", bad[0] if bad else fl.g.entry)
                if want is not None:
                    c.ob("R16-status", inst + ":set", fl.path([g.entry], [g.exit], stop_node=lambda m: m in live, stop_edge=stop), "the status of a quantum is not set")
                wl = None if no else "SUCCESSFUL" if prm == "metadata" else "FAILED"
                ll = [n for n in last if fl.path([g.entry], [n], stop_edge=stop) is not None]
                c.ob("R16-status", inst + ":attempt", True if any(wl is None or not _glob(ex(fl, n.value, n), wl) for n in ll) else None, "the status of an attempt is wrong", ll[0] if ll else fl.g.entry)
                if wl is not None:
                    c.ob("R16-status", inst + ":attempt set", fl.path([g.entry], [g.exit], stop_node=lambda m: m in ll, stop_edge=stop), "the status of an attempt is not set")
                ex_st = [n for n in g.live if n.kind == "substore" and at(ex(fl, n.base, n), "output_existence")]
                el = [n for n in ex_st if fl.path([g.entry], [n], stop_edge=stop) is not None]
                badv = [n for n in el if values(fl, n.value, n, lambda l, m, no=no: no if none(l, m) else None) != {not no}]
                c.ob("R16-status", inst + ":existence", True if badv else None, f"whether the {prm} exist is lost", badv[0] if badv else fl.g.entry)
                c.ob("R16-status", inst + ":existence set", fl.path([g.entry], [g.exit], stop_node=lambda m: m in el, stop_edge=stop), f"whether the {prm} exist is lost")
        for n in [m for m in g.live if m.kind == "substore" and at(ex(fl, m.base, m), "output_existence")]:
            t = ex(fl, n.key, n, 8)
            c.ob("R16-status", prm + ":dataset", None if at(t, "dataset_id") and mentions(t, lambda s, cn=cn: _glob(s, cn)) else True, "the existence of another dataset is recorded", n)
        app = [n for n in calls(fl, "append") if mentions(ex(fl, n.recv, n), lambda s, prm=prm: at(s, "attempts") and s[1] == self_(prm))]
        present(c, "R17-attempts", prm, app, f"the {prm} of the last attempt are lost", fl)
        passes(c, "R17-attempts", prm, fl, [g.entry], app, [g.exit], {"none": none}, lambda none: "never" if none else "must", f"the {prm} of the last attempt are lost", exc=False)
        for n in app:
            c.ob("R17-attempts", prm + ":what", None if mentions(ex(fl, n.args[0], n), lambda s, prm=prm: s == ("param", prm)) else True, f"the {prm} of the last attempt are lost", n)
        if prm == "logs":
            le = calls(fl, "_extract_from_log_extra")
            extra = lambda l, m: l[0] == "truth" and at(l[1], "extra")  # noqa: E731
            passes(c, "R17-attempts", "previous", fl, [g.entry], le, [g.exit], {"none": none, "extra": extra}, lambda none, extra: "never" if none else "must" if extra else None, "previous attempts are lost", exc=False)
            for n in le:
                c.ob("R17-attempts", "previous:first", fl.path(app, [n]), "attempts are recorded in another order than they were made", n)
                v = arg(n, 1, "last_attempt")
                c.ob("R17-attempts", "previous:last", None if v is not None and ex(fl, v, n) == ("param", "last_attempt") else True, "the exception of the last attempt is lost", n)
        else:
            ru = _attrstores(fl, "resource_usage")
            passes(c, "R17-attempts", "usage", fl, [g.entry], ru, [g.exit], {"none": none}, lambda none: "never" if none else "must", "the resource usage of the last attempt is lost", exc=False)
            for nm in ("caveats", "exception"):
                st = _attrstores(fl, nm)
                present(c, "R17-attempts", nm, st, f"the {nm} of the last attempt are lost", fl)
                pre = [m for m in g.live if any(lab == "exc" for _, lab in m.succ) and fl.path([m], st) is not None and fl.path([g.entry], [m]) is not None]
                look = lit_edges(fl, lambda l, m: l[0] == "excis" and l[-1] is True and any(str(x).rsplit(".", 1)[-1] in ("LookupError", "KeyError") for x in l[1]))
                cut = cut_edges(fl, {"none": none}, {"none": False})
                c.ob("R17-attempts", nm + ":always", fl.path([g.entry], [g.exit], stop_node=lambda m: m in st, stop_edge=lambda m, lab: (m.id, lab) in cut or (m.id, lab) in look or lab == "exc"), f"the {nm} of the last attempt are lost")


def attempts(c):
    S = cls(c, "ProvenanceQuantumScanModels")
    fl = flow_of(c, S, "_extract_from_log_extra")
    g = fl.g
    rec = calls(fl, "_extract_from_log_extra")
    hs = over_attr(fl, "previous_attempts")
    present(c, "R17-attempts", "recursion", rec, "previous attempts are lost", fl)
    present(c, "R17-attempts", "loop", hs, "previous attempts are lost", fl)
    la = lambda l, m: l[0] == "isnone" and l[1] == ("param", "last_attempt")  # noqa: E731
    lst = lambda k: [n for n in calls(fl, "append") if at(ex(fl, n.recv, n), "attempts") and ex(fl, n.recv, n)[1] == (self_(k) if k else ("param", "self"))]  # noqa: E731
    logs, metas, att = lst("logs"), lst("metadata"), lst(None)
    for h in hs:
        each(c, "R17-attempts", "each previous", fl, h, rec, "a previous attempt is lost")
        must(c, "R17-attempts", "always", fl, [g.entry], [h], [g.exit], "previous attempts are lost")
        for n in logs + metas + att:
            c.ob("R17-attempts", "chronological", fl.path([n], [h]), "attempts are recorded in another order than they were made", n)
        for n in rec:
            v = arg(n, 1, "last_attempt")
            c.ob("R17-attempts", "previous are not last", None if v is not None and ex(fl, v, n) == const(None) else True, "a previous attempt is taken for the last one", n)
            c.ob("R17-attempts", "previous:which", None if frm_elem(fl, n.args[0], n, h) else True, "a previous attempt is lost", n)
    for nm, ns in (("logs", logs), ("attempt", att), ("metadata", metas)):
        present(c, "R17-attempts", f"{nm}:kept", ns, f"the {nm} of a previous attempt are lost", fl)
        passes(c, "R17-attempts", f"{nm}:kept", fl, [g.entry], ns, [g.exit], {"previous": la}, lambda previous, nm=nm: "must" if previous else None if nm == "metadata" else "never",
               f"attempts, logs and metadata of a quantum are not matched ({nm})", exc=False)
        for n in ns:
            c.ob("R17-attempts", f"{nm}:once", fl.path(fl.out_edges([n]), ns), f"attempts, logs and metadata of a quantum are not matched ({nm})", n)
    for n in logs:
        c.ob("R17-attempts", "logs:what", None if at(ex(fl, n.args[0], n), "logs") else True, "the logs of a previous attempt are lost", n)
    has = {"meta": lambda l, m: l[0] == "isnone" and at(l[1], "metadata"), "exc": lambda l, m: l[0] == "isnone" and at(l[1], "exception"), "previous": la}
    given = [n for n in metas if at(ex(fl, n.args[0], n), "metadata")]
    pad = [n for n in metas if ex(fl, n.args[0], n) == const(None)]
    if set(given) | set(pad) == set(metas) and not set(given) & set(pad):
        passes(c, "R17-attempts", "metadata:given", fl, [g.entry], given, [g.exit], has, lambda meta, exc, previous: "never" if meta else "must", "the metadata of a failed attempt are lost", exc=False)
        passes(c, "R17-attempts", "metadata:padded", fl, [g.entry], pad, [g.exit], has, lambda meta, exc, previous: "never" if not meta else "must" if previous else None, "attempts, logs and metadata of a quantum are not matched", exc=False)
    exs = _attrstores(fl, "exception")
    present(c, "R17-attempts", "exception", exs, "the exception of an attempt is lost", fl)
    passes(c, "R17-attempts", "exception", fl, [g.entry], exs, [g.exit], has, lambda meta, exc, previous: "must" if not exc else None, "the exception of an attempt is lost", exc=False)
    for n in exs:
        c.ob("R17-attempts", "exception:what", None if at(ex(fl, n.value, n), "exception") else True, "the exception of an attempt is lost", n)
    ru = _attrstores(fl, "resource_usage")
    passes(c, "R17-attempts", "usage:failed", fl, [g.entry], ru, [g.exit], has, lambda meta, exc, previous: "must" if not meta else None, "the resource usage of a failed attempt is lost", exc=False)
    pq = [n for n in calls(fl, "extend") if at(ex(fl, n.recv, n), "previous_process_quanta")] + _attrstores(fl, "previous_process_quanta")
    must(c, "R17-attempts", "previous quanta", fl, [g.entry], pq, [g.exit], "the quanta run before in the same process are lost")
    for n in ctor(fl, "ProvenanceQuantumAttemptModel"):
        v = arg(n, None, "attempt")
        t = ex(fl, v, n) if v is not None else ("none",)
        c.ob("R17-attempts", "number", None if t[0] == "call" and t[2] == "len" and t[4] == (self_("attempts"),) else True, "an attempt has another number", n)
        v = arg(n, None, "status")
        c.ob("R17-attempts", "failed", None if v is not None and _glob(ex(fl, v, n), "FAILED") else True, "a previous attempt is not reported as failed", n)
        for a in att:
            c.ob("R17-attempts", "number:before", fl.path([a], [n]), "an attempt has another number", n)

    fl = flow_of(c, S, "_reconcile_attempts")
    g = fl.g
    att, logs, metas = ([n for n in calls(fl, "append") if at(ex(fl, n.recv, n), "attempts") and ex(fl, n.recv, n)[1] == b] for b in (("param", "self"), self_("logs"), self_("metadata")))
    must(c, "R18-reconciled", "last", fl, [g.entry], att, [g.exit], "the last attempt is lost")
    for n in att:
        c.ob("R18-reconciled", "last:which", None if ex(fl, n.args[0], n) == ("param", "last_attempt") else True, "the last attempt is lost", n)
        c.ob("R18-reconciled", "last:once", fl.path(fl.out_edges([n]), att), "the last attempt is there twice", n)
    num = _attrstores(fl, "attempt")
    must(c, "R18-reconciled", "number", fl, [g.entry], num, [g.exit], "the last attempt has another number")
    for n in num:
        t = ex(fl, n.value, n)
        at_end = fl.path([g.entry], [n], stop_node=lambda m: m in att) is None
        want = ("call", "builtins.len", "len", None, (self_("attempts"),), ())
        good = t == want if not at_end else t[0] == "op" and t[1] == "Sub" and mentions(t, lambda s: s == want)
        c.ob("R18-reconciled", "number:value", None if good else True, "the last attempt has another number", n)
    short = lambda k: lambda l, m: l[0] == "lt" and _len(ex(fl, l[1], m), self_(k)) and _len(ex(fl, l[2], m), ("param", "self"))  # noqa: E731
    suc = is_("SUCCESSFUL")
    for k, ns in (("logs", logs), ("metadata", metas)):
        present(c, "R18-reconciled", k, ns, f"attempts, logs and metadata of a quantum are not matched ({k})", fl)
        sh = short(k)
        cmps = lit_edges(fl, sh)
        if cmps:
            passes(c, "R18-reconciled", k, fl, [g.entry], ns, [g.exit], {"short": sh}, lambda short: "must" if short else "never", f"attempts, logs and metadata of a quantum are not matched ({k})", exc=False)
        else:
            c.fail("R18-reconciled", k, f"attempts, logs and metadata of a quantum are not matched ({k})", fl.g.entry)
        for n in ns:
            c.ob("R18-reconciled", k + ":padding", None if ex(fl, n.args[0], n) == const(None) else True, f"an attempt has {k} it did not write", n)
            c.ob("R18-reconciled", k + ":after", fl.path([g.entry], [n], stop_node=lambda m: m in att), f"attempts, logs and metadata of a quantum are not matched ({k})", n)
    st = _attrstores(fl, "status")
    sh = short("logs")
    present(c, "R18-reconciled", "no logs", st, "a success without logs is not reported as aborted", fl)
    passes(c, "R18-reconciled", "no logs", fl, [g.entry], st, [g.exit], {"short": sh, "success": suc}, lambda short, success: "must" if short and success else "never", "a success without logs is not reported as aborted, or something else is", exc=False)
    for n in st:
        c.ob("R18-reconciled", "no logs:status", None if _glob(ex(fl, n.value, n), "ABORTED_SUCCESS") else True, "a success without logs is not reported as aborted", n)


def _len(t, owner):
    return t[0] == "call" and t[2] == "len" and t[4] and t[4][0] == ("attr", owner, "attempts")


def existence(c):
    S = cls(c, "ProvenanceQuantumScanModels")
    fl = flow_of(c, S, "_extract_output_existence")
    g = fl.g
    st = [n for n in g.live if n.kind == "substore" and at(ex(fl, n.base, n), "output_existence")]
    sd = [n for n in calls(fl, "setdefault") if at(ex(fl, n.recv, n), "output_existence")]
    src = [n for n in calls(fl, "getArray", "getScalar", "get")]
    present(c, "R19-existence", "outputs", src, "what a quantum has written is ignored", fl)
    for n in src:
        t = ex(fl, n.recv, n)
        c.ob("R19-existence", "last attempt", None if t[0] == "sub" and t[2] == const("quantum") and t[1][0] == "sub" and t[1][1] == ("attr", self_("metadata"), "attempts") and t[1][2] in (const(-1), ("op", "USub", (const(1),))) else True,
             "what another attempt has written is reported", n)
        c.ob("R19-existence", "outputs:key", None if n.args and ex(fl, n.args[0], n) == const("outputs") else True, "what a quantum has written is ignored", n)
    hs = [h for h in iters(fl, False) if frm(fl, h.iterable, h, src)]
    ph = over_attr(fl, "outputs")
    ph = [h for h in ph if h not in hs]
    present(c, "R19-existence", "written", hs, "what a quantum has written is ignored", fl)
    present(c, "R19-existence", "predicted", ph, "outputs that were not written are not reported as missing", fl)
    for h in hs:
        each(c, "R19-existence", "written:each", fl, h, st, "an output that was written is not reported")
        c.ob("R19-existence", "written:always", fl.path(ok_edges(src), [g.exit], stop_node=lambda m: m is h, raising=False), "an output that was written is not reported", h)
    for n in st:
        c.ob("R19-existence", "written:value", None if ex(fl, n.value, n) == const(True) else True, "an output that was written is reported as missing", n)
        c.ob("R19-existence", "written:key", None if any(frm_elem(fl, n.key, n, h) for h in hs) else True, "another output is reported as written", n)
    for h in ph:
        each(c, "R19-existence", "predicted:each", fl, h, sd + [n for n in st if h in loops_of(fl, n)], "an output that was not written is not reported as missing",
             unless=lambda l, m: l[0] == "in" and l[3] is True and at(l[2], "output_existence"))
        c.ob("R19-existence", "predicted:always", fl.path(ok_edges(src), [g.exit], stop_node=lambda m: m is h, raising=False), "outputs that were not written are not reported as missing", h)
        for n in sd:
            c.ob("R19-existence", "predicted:value", None if len(n.args) > 1 and ex(fl, n.args[1], n) == const(False) else True, "an output that was not written is reported as written", n)
            c.ob("R19-existence", "predicted:key", None if at(ex(fl, n.args[0], n), "dataset_id") and frm_elem(fl, n.args[0], n, h) else True, "another output is reported as missing", n)
            for x in hs:
                c.ob("R19-existence", "predicted:order", None if n.name == "setdefault" and fl.path([n], st) is None or True else True, "", n)


def to_data(c):
    S = cls(c, "ProvenanceQuantumScanModels")
    fl = flow_of(c, S, "to_scan_data")
    g = fl.g
    init = is_("INIT")
    fi, fq = ([n for n in calls(fl, "from_predicted") if mentions(ex(fl, n.recv, n), lambda s, k=k: _glob(s, k))] for k in ("ProvenanceInitQuantumModel", "ProvenanceQuantumModel"))
    mk = ctor(fl, "ProvenanceQuantumScanData")
    present(c, "R20-data", "made", mk, "scan data is lost", fl)
    passes(c, "R20-data", "init", fl, [g.entry], fi, mk, {"init": init}, lambda init: "must" if init else "never", "a quantum is written as an init quantum, or the other way around", exc=False)
    passes(c, "R20-data", "quantum", fl, [g.entry], fq, mk, {"init": init}, lambda init: "never" if init else "must", "a quantum is written as an init quantum, or the other way around", exc=False)
    for n in fi + fq:
        c.ob("R20-data", "predicted", None if n.args and ex(fl, n.args[0], n) == ("param", "predicted_quantum") else True, "another quantum is written", n)
    st = [n for n in _attrstores(fl, "attempts")]
    present(c, "R20-data", "attempts", st, "attempts of a quantum are lost", fl)
    passes(c, "R20-data", "attempts", fl, [g.entry], st, mk, {"init": init}, lambda init: None if init else "must", "attempts of a quantum are lost", exc=False)
    for n in st:
        c.ob("R20-data", "attempts:value", None if ex(fl, n.value, n) in (self_("attempts"), ("call", "builtins.list", "list", None, (self_("attempts"),), ())) else True, "attempts of a quantum are lost", n)
        c.ob("R20-data", "attempts:before", fl.path(calls(fl, "model_dump_json"), [n]), "attempts of a quantum are lost", n)
    hs = over_attr(fl, "outputs")
    rs = [n for n in _raises(fl)]
    present(c, "R20-data", "checked", hs, "outputs whose existence is unknown are written as missing", fl)
    there = lambda l, m: l[0] == "in" and at(l[2], "output_existence")  # noqa: E731
    for h in hs:
        each_break(c, "R20-data", "checked:all", fl, h, "an output whose existence is unknown is written as missing")
        must(c, "R20-data", "checked:always", fl, [g.entry], [h], mk, "outputs whose existence is unknown are written as missing")
        cut = cut_edges(fl, {"there": there}, {"there": False})
        c.ob("R20-data", "checked:each", fl.path(elems(h), [h] + mk, stop_edge=lambda m, lab: (m.id, lab) in cut), "an output whose existence is unknown is written as missing", h)
        cut2 = cut_edges(fl, {"there": there}, {"there": True})
        c.ob("R20-data", "checked:only", fl.path(elems(h), rs, stop_node=lambda m: m is h, stop_edge=lambda m, lab: (m.id, lab) in cut2), "an output whose existence is known stops the scan", h)
    ch = [h for h in iters(fl, None) if mentions(ex(fl, h.iterable, h), lambda s: at(s, "output_existence"))]
    present(c, "R20-data", "existing", ch, "existing outputs are lost", fl)
    for h in ch:
        full(c, "R20-data", "existing:all", fl, h, "an existing output is lost")
        ce = elts(fl, h) if h.d.get("comp") else [n for n in calls(fl, "add") if h in loops_of(fl, n)]
        made = lambda l, m: l[0] == "truth" and (l[1] == ("item", ("elem", h.id), 1) or l[1][0] == "sub" and at(l[1][1], "output_existence"))  # noqa: E731
        if lit_edges(fl, made):
            passes(c, "R20-data", "existing:each", fl, elems(h), ce, [h, g.exit], {"made": made}, lambda made: "must" if made else "never", "an output is reported as existing that does not, or the other way around", stop=[h], exc=False)
        else:
            c.fail("R20-data", "existing:each", "an output is reported as existing that does not, or the other way around", h)
    for n in mk:
        v = arg(n, 0, "quantum_id")
        c.ob("R20-data", "id", None if v is not None and ex(fl, v, n) == self_("quantum_id") else True, "scan data is written for another quantum", n)
        v = arg(n, 1, "status")
        c.ob("R20-data", "status", None if v is not None and ex(fl, v, n) == self_("status") else True, "the status of a scan is lost", n)
        v = arg(n, None, "existing_outputs")
        c.ob("R20-data", "existing:kept", None if v is not None and (any(frm_elem(fl, v, n, h) for h in ch) or fl.derives(v, n, lambda t, m: t[0] == "comp" and any(h.id in t[3] for h in ch)) or _root(fl, v, n) in {
            _root(fl, a.recv, a) for a in calls(fl, "add")}) else True, "existing outputs are lost", n)
        for k in ("logs", "metadata"):
            v = arg(n, None, k)
            dump = [m for m in calls(fl, "model_dump_json") if ex(fl, m.recv, m) == self_(k)]
            c.ob("R20-data", k, None if v is not None and frm(fl, v, n, dump) else True, f"the {k} are lost", n)
            some = lambda l, m, k=k: l[0] == "truth" and at(l[1], "attempts") and l[1][1] == self_(k)  # noqa: E731
            passes(c, "R20-data", k + ":each", fl, [g.entry], dump, mk, {"some": some}, lambda some: "must" if some else None, f"the {k} are lost", exc=False)
        v = arg(n, None, "quantum")
        dump = [m for m in calls(fl, "model_dump_json") if frm(fl, m.recv, m, fi + fq)]
        c.ob("R20-data", "model", None if v is not None and frm(fl, v, n, dump) else True, "the quantum is lost", n)
    cp = calls(fl, "compress")
    none = lambda l, m: l[0] == "isnone" and l[1] == ("param", "compressor")  # noqa: E731
    passes(c, "R20-data", "compressed", fl, [g.entry], cp, [g.exit], {"none": none}, lambda none: "never" if none else None, "scan data is compressed without a compressor", exc=False)
    for r in retvals(fl):
        c.ob("R20-data", "returned", None if frm(fl, r.value, r, mk) else True, "scan data is lost", r)


# ---------------------------------------------------------------- formatter

def formatter(c):
    F = c.prog.cls("lsst.pipe.base.quantum_graph.formatter.ProvenanceFormatter")
    for meth, fetch in (("_read_metadata", "fetch_metadata"), ("_read_log", "fetch_logs")):
        fl = flow_of(c, F, meth)
        g = fl.g
        ns = calls(fl, fetch)
        present(c, "R21-formatter", meth, ns, "a dataset is read from something else", fl)
        for n in ns:
            t = ex(fl, n.args[0], n)
            c.ob("R21-formatter", meth + ":which", None if mentions(t, lambda s: at(s, "id") and at(s[1], "_dataset_ref")) else True, "another dataset is read", n)
        for r in retvals(fl):
            t = ex(fl, r.value, r, 8)
            last = t[0] == "sub" and t[2] in (const(-1), ("op", "USub", (const(1),)))
            c.ob("R21-formatter", meth + ":last", None if last and mentions(t, lambda s, f=fetch: s[0] == "call" and s[2] == f) else True, "what another attempt has written is read", r)
            empty = lit_edges(fl, lambda l, m: l[0] == "truth" and l[2] is True and mentions(ex(fl, l[1], m, 8), lambda s, f=fetch: s[0] == "call" and s[2] == f) or l[0] == "lt" and l[3] is True)
            guard(c, "R21-formatter", meth + ":some", fl, [r], lambda l, m, f=fetch: l[0] == "truth" and l[2] is True and mentions(ex(fl, l[1], m, 8), lambda s: s[0] == "call" and s[2] == f) or l[0] in ("lt", "eq"),
                  "a dataset that was never written is read")
            guard(c, "R21-formatter", meth + ":written", fl, [r], lambda l, m: l[0] == "isnone" and l[2] is False, "a dataset the last attempt did not write is read as None")
        for n in _raises(fl):
            c.ob("R21-formatter", meth + ":missing", None if (n.d.get("exc") or "").endswith("FileNotFoundError") else True, "a missing dataset is not reported as missing", n)
        look = lit_edges(fl, lambda l, m: l[0] == "excis" and l[-1] is True and any(str(x).rsplit(".", 1)[-1] in ("LookupError", "KeyError") for x in l[1]))
        present(c, "R21-formatter", meth + ":unknown", look, "a dataset that is not in the graph is not reported as missing", fl)
    fl = flow_of(c, F, "read_from_uri")
    g = fl.g
    name = lambda *vs: lambda l, m: l[0] == "eq" and any(at(t, "storageClass_name") for t in l[1:3]) and any(const(v) in l[1:3] for v in vs)  # noqa: E731
    kinds = {"TaskMetadata": "_read_metadata", "PropertySet": "_read_metadata", "ButlerLogRecords": "_read_log", "Config": "_read_config"}
    allow = set(kinds.values())
    atoms = {k: name(k) for k in list(kinds) + ["ProvenanceQuantumGraph"]}
    for k, meth in kinds.items():
        ns = calls(fl, meth)
        cut = cut_edges(fl, atoms, {j: j == k for j in atoms})
        stop = lambda m, lab, cut=cut: (m.id, lab) in cut or lab == "exc"  # noqa: E731
        c.ob("R21-formatter", "dispatch:" + k, fl.path([g.entry], [g.exit], stop_node=lambda m: m in ns, stop_edge=stop) if ns else True, f"{k} datasets are read as something else")
    cut = cut_edges(fl, atoms, {j: False for j in atoms})
    c.ob("R21-formatter", "dispatch:other", fl.path([g.entry], [g.exit], stop_edge=lambda m, lab: (m.id, lab) in cut or lab == "exc"), "datasets of other storage classes are read as something else")
    cut = cut_edges(fl, atoms, {j: j == "ProvenanceQuantumGraph" for j in atoms})
    comp = {"whole": lambda l, m: l[0] == "isnone" and l[1] == ("param", "component"), **{k: (lambda l, m, k=k: l[0] == "eq" and const(k) in l[1:3] and ("param", "component") in l[1:3]) for k in ("metadata", "logs", "packages")}}
    for k, meths in (("whole", ("read_quanta", "read_datasets")), ("metadata", ("fetch_metadata",)), ("logs", ("fetch_logs",)), ("packages", ("fetch_packages",))):
        cut2 = cut | cut_edges(fl, comp, {j: j == k for j in comp})
        for meth in meths:
            ns = calls(fl, meth)
            c.ob("R21-formatter", f"component:{k}:{meth}", fl.path([g.entry], [g.exit], stop_node=lambda m: m in ns, stop_edge=lambda m, lab: (m.id, lab) in cut2 or lab == "exc") if ns else True, f"component {k} is read as something else")
            for n in ns:
                a = {"read_quanta": "quanta", "read_datasets": "datasets", "fetch_metadata": "nodes", "fetch_logs": "nodes"}.get(meth)
                if a:
                    c.ob("R21-formatter", f"component:{k}:{meth}:which", None if n.args and at(ex(fl, n.args[0], n), a) else True, "other nodes are read than asked for", n)
    ri = calls(fl, "read_init_quanta")
    want = lambda l, m: l[0] == "truth" and at(l[1], "read_init_quanta")  # noqa: E731
    cut2 = cut | cut_edges(fl, comp, {j: j == "whole" for j in comp}) | cut_edges(fl, {"w": want}, {"w": True})
    c.ob("R21-formatter", "component:whole:init", fl.path([g.entry], [g.exit], stop_node=lambda m: m in ri, stop_edge=lambda m, lab: (m.id, lab) in cut2 or lab == "exc") if ri else True, "init quanta are not read")
    N = c.prog.cls("lsst.pipe.base.quantum_graph.formatter._ProvenanceFormatterParameters")
    fl = flow_of(c, N, "nodes")
    g = fl.g
    atoms = {"q": lambda l, m: l[0] == "isnone" and l[1] == self_("quanta"), "d": lambda l, m: l[0] == "isnone" and l[1] == self_("datasets")}
    for q in (True, False):
        for d in (True, False):
            cut = cut_edges(fl, atoms, {"q": not q, "d": not d})
            stop = lambda m, lab, cut=cut: (m.id, lab) in cut or lab == "exc"  # noqa: E731
            live = [r for r in retvals(fl) if fl.path([g.entry], [r], stop_edge=stop) is not None]
            inst = f"nodes({q}, {d})"
            if not q and not d:
                c.ob("R21-formatter", inst, fl.path([g.entry], [g.exit], stop_edge=stop), "nodes to read are not required")
                continue
            rs = retvals(fl)
            c.ob("R21-formatter", inst + ":some", fl.path([g.entry], [g.exit], stop_node=lambda m: m in rs, stop_edge=stop) or (None if live else True), "nodes asked for are not read")
            for r in live:
                t = ex(fl, r.value, r)
                srcs = [ex(fl, x, m) for x, m in fl.sources(r.value, r)] or [t]
                bad = any((q and not mentions(s, lambda z: z == self_("quanta"))) or (d and not mentions(s, lambda z: z == self_("datasets"))) for s in srcs[:1]) if len(srcs) == 1 else False
                c.ob("R21-formatter", inst, True if bad else None, "nodes asked for are not read", r)


# ---------------------------------------------------------------- tables and reports

def tables(c):
    G = cls(c, "ProvenanceQuantumGraph")
    fl = flow_of(c, G, "make_status_report")
    g = fl.g
    th = over_attr(fl, "quanta_by_task")
    present(c, "R22-tables", "report:tasks", th, "tasks are not reported", fl)
    inst = {"states": lambda l, m: l[0] == "in" and not at(l[2], "x") and (l[1][0] == "sub" and l[1][2] == const("status") or mentions(ex(fl, l[1], m), lambda s: s[0] == "sub" and s[2] == const("status"))),
            "success": is_("SUCCESSFUL"), "anycav": lambda l, m: l[0] == "isnone" and l[1] == ("param", "with_caveats"),
            "nocav": lambda l, m: l[0] == "isnone" and mentions(ex(fl, l[1], m), lambda s: s[0] == "sub" and s[2] == const("caveats")),
            "match": lambda l, m: l[0] == "truth" and mentions(l[1], lambda s: s[0] in ("op", "bin") and s[1] == "BitAnd")}
    rep = [n for n in calls(fl, "append") if mentions(ex(fl, n.args[0], n, 3), lambda s: s[0] == "call" and s[2] in ("from_info", "ProvenanceQuantumReport"))]
    present(c, "R22-tables", "report:quanta", rep, "quanta are not reported", fl)
    for h in th:
        full(c, "R22-tables", "report:each task", fl, h, "a task is not reported")
        inner = [x for x in iters(fl, False) if x is not h and h in loops_of(fl, x) and frm_elem(fl, x.iterable, x, h) and any(x in loops_of(fl, n) for n in rep)]
        present(c, "R22-tables", "report:loop", inner, "quanta are not reported", fl)
        for x in inner:
            full(c, "R22-tables", "report:all quanta", fl, x, "a quantum is not reported")

            def spec(states, success, anycav, nocav, match):
                if nocav and match:
                    return None
                if not states:
                    return "never"
                if success and not anycav:
                    return "must" if match and not nocav else "never"
                return "must"
            passes(c, "R22-tables", "report:each quantum", fl, elems(x), rep, [x, g.exit], inst, spec, "a quantum is not reported, or one that was not asked for", stop=[x], exc=False)
            c.ob("R22-tables", "report:always", fl.path(elems(h), [h, g.exit], stop_node=lambda m: m is x, raising=False), "quanta are not reported", x)
        put = [n for n in g.live if n.kind == "substore" and mentions(ex(fl, n.base, n), lambda s: at(s, "root"))]
        present(c, "R22-tables", "report:kept", put, "reports are lost", fl)
        reps = {_root(fl, n.value, n) for n in put}
        empty = lit_edges(fl, lambda l, m: l[0] == "truth" and l[2] is False and _root(fl, l[1], m) in reps)
        c.ob("R22-tables", "report:kept", fl.path(elems(h), [h, g.exit], stop_node=lambda m: m in put, stop_edge=lambda m, lab: (m.id, lab) in empty or lab == "exc"), "the reports of a task are lost", h)
    ups = [n for n in calls(fl, "update", "add", "union") if mentions(ex(fl, n.args[0], n), lambda s: s == ("param", "also"))]
    present(c, "R22-tables", "report:also", ups, "further states are not reported", fl)

    fl = flow_of(c, G, "make_exception_table")
    g = fl.g
    th = over_attr(fl, "quanta_by_task")
    cnt = [n for n in g.live if n.kind == "substore" and n.d.get("aug")]
    suc, noexc = is_("SUCCESSFUL"), lambda l, m: l[0] == "isnone" and mentions(ex(fl, l[1], m), lambda s: s[0] == "sub" and s[2] == const("exception"))
    roots = {}
    for n in cnt:
        roots.setdefault(_root(fl, n.base, n), []).append(n)
    for h in th:
        full(c, "R22-tables", "exceptions:tasks", fl, h, "a task is not reported")
        inner = [x for x in iters(fl, False) if x is not h and h in loops_of(fl, x) and any(x in loops_of(fl, n) for n in cnt)]
        for x in inner:
            full(c, "R22-tables", "exceptions:quanta", fl, x, "an exception is not counted")
            passes(c, "R22-tables", "exceptions:each", fl, elems(x), cnt, [x, g.exit], {"none": noexc}, lambda none: "never" if none else "must", "an exception is not counted", stop=[x], exc=False)
            for r, ns in roots.items():
                live = {s: fl.path(elems(x), ns, stop_node=lambda m: m is x, stop_edge=lambda m, lab, s=s: (m.id, lab) in cut_edges(fl, {"s": suc}, {"s": s})) is not None for s in (True, False)}
                c.ob("R22-tables", "exceptions:kind", None if live[True] != live[False] else True, "exceptions of successful and failed quanta are mixed up", ns[0])
        rows = [n for n in calls(fl, "append")]
        for x in [y for y in iters(fl, False) if any(y in loops_of(fl, n) for n in rows) and y is not h]:
            each(c, "R22-tables", "exceptions:rows", fl, x, rows, "an exception is not reported")
    present(c, "R22-tables", "exceptions:tasks", th, "exceptions are not reported", fl)
    present(c, "R22-tables", "exceptions:count", cnt, "exceptions are not counted", fl)
    for n in cnt:
        c.ob("R22-tables", "exceptions:by", None if ex(fl, n.value, n)[-1] == const(1) or ex(fl, n.value, n) == const(1) or mentions(ex(fl, n.value, n), lambda s: s == const(1)) else True, "exceptions are miscounted", n)
    rows = [n for n in calls(fl, "append") if loops_of(fl, n)]
    present(c, "R22-tables", "exceptions:rows", rows, "exceptions are not reported", fl)
    for n in rows:
        hs = loops_of(fl, n)
        for h in hs:
            if h not in th:
                got = {_root(fl, m.recv, m) for m in calls(fl, "keys") if frm(fl, h.iterable, h, [m])}
                if got:
                    c.ob("R22-tables", "exceptions:both", None if set(roots) <= got else True, "an exception is not reported", h)
                c.ob("R22-tables", "exceptions:after", fl.path([h], cnt, stop_node=lambda m: m in th), "an exception is not counted", h)
                for t in th:
                    c.ob("R22-tables", "exceptions:rows:always", fl.path(elems(t), [t, g.exit], stop_node=lambda m: m is h, raising=False), "exceptions are not reported", h)
    for n in calls(fl, "get"):
        r = _root(fl, n.recv, n)
        if r in roots:
            c.ob("R22-tables", "exceptions:default", None if len(n.args) < 2 or ex(fl, n.args[1], n) in (const(0), const(None)) else True, "exceptions are miscounted", n)
            c.ob("R22-tables", "exceptions:key", None if any(frm_elem(fl, n.args[0], n, h) for h in loops_of(fl, n)) else True, "exceptions are miscounted", n)
    column(c, fl, rows, "Successes", lambda r: r in roots and any(fl.path([g.entry], [m], stop_edge=lambda a, lab: (a.id, lab) in cut_edges(fl, {"s": suc}, {"s": True})) is not None for m in roots[r]), "exceptions of failed quanta are counted as those of successful ones")
    column(c, fl, rows, "Failures", lambda r: r in roots and any(fl.path([g.entry], [m], stop_edge=lambda a, lab: (a.id, lab) in cut_edges(fl, {"s": suc}, {"s": False})) is not None for m in roots[r]), "exceptions of successful quanta are counted as those of failed ones")
    table(c, "exceptions", fl)

    fl = flow_of(c, G, "make_quantum_table")
    g = fl.g
    th = over_attr(fl, "quanta_by_task")
    rows = [n for n in calls(fl, "append")]
    none = lambda l, m: l[0] == "truth" and l[2] is False and mentions(ex(fl, l[1], m), lambda s: at(s, "n_task_quanta")) or l[0] == "eq" and l[3] is True and const(0) in l[1:3]  # noqa: E731
    for h in th:
        each(c, "R22-tables", "quanta:tasks", fl, h, rows, "a task is not reported", unless=none)
        for x in [y for y in iters(fl, None) if y is not h and y.id in fl.loop_body(h)]:
            full(c, "R22-tables", "quanta:all", fl, x, "quanta are miscounted")
            if x.d.get("comp") and mentions(ex(fl, x.iterable, x, 8), lambda s: s[0] == "call" and s[2] == "values"):
                each(c, "R22-tables", "quanta:each", fl, x, elts(fl, x), "quanta are miscounted")
    present(c, "R22-tables", "quanta:tasks", th, "tasks are not reported", fl)
    present(c, "R22-tables", "quanta:rows", rows, "tasks are not reported", fl)
    comps = {k: [x for x in g.live if x.kind == "compelt" and mentions(ex(fl, x.value, x, 3), lambda s, k=k: s[0] == "sub" and s[2] == const(k))] for k in ("status", "caveats")}
    cnts = {k: [n for n in calls(fl, "Counter") if any(mentions(ex(fl, a, n, 3), lambda s, k=k: s[0] == "comp" and mentions(s, lambda u: u[0] == "sub" and u[2] == const(k))) for a in n.args)] for k in comps}
    if cnts["status"]:
        st = [n for n in g.live if n.kind == "substore" and at(ex(fl, n.key, n), "title")]
        present(c, "R22-tables", "quanta:statuses", st, "statuses are not counted", fl)
        hs = [x for x in iters(fl, False) if _glob(plain(ex(fl, x.iterable, x)), "QuantumAttemptStatus") and any(x in loops_of(fl, n) for n in st)]
        for x in hs:
            each(c, "R22-tables", "quanta:each status", fl, x, st, "a status is not counted")
            for h in th:
                c.ob("R22-tables", "quanta:statuses:always", fl.path(elems(h), rows, stop_node=lambda m: m is x), "statuses are not counted", x)
        for n in st:
            got = [m for m in calls(fl, "get") if frm(fl, n.value, n, [m])]
            for m in got:
                c.ob("R22-tables", "quanta:status", None if frm(fl, m.recv, m, cnts["status"]) and any(frm_elem(fl, m.args[0], m, x) for x in hs) else True, "statuses are miscounted", m)
                c.ob("R22-tables", "quanta:none", None if len(m.args) < 2 or ex(fl, m.args[1], m) == const(0) else True, "statuses are miscounted", m)
            c.ob("R22-tables", "quanta:status:from", None if frm(fl, n.value, n, cnts["status"]) else True, "statuses are miscounted", n)
    dels = [n for n in g.live if n.kind == "delsub"]
    passes(c, "R22-tables", "quanta:columns", fl, [g.entry], dels, [g.exit], {
        "rare": lambda l, m: l[0] == "truth" and at(l[1], "is_rare"),
        "used": lambda l, m: l[0] == "truth" and frm(fl, l[1], m, calls(fl, "any"), False),
        "drop": lambda l, m: l[0] == "truth" and l[1] == ("param", "drop_unused_columns")}, lambda rare, used, drop: "never" if used or not rare or not drop else None, "a column that is in use is dropped", exc=False)
    cav = [n for n in calls(fl, "pop") if frm(fl, n.recv, n, cnts["caveats"])]
    for n in cav:
        c.ob("R22-tables", "quanta:caveats", None if ex(fl, n.args[0], n) == const(None) or _glob(ex(fl, n.args[0], n), "NO_CAVEATS") else True, "caveats are lost", n)
    table(c, "quanta", fl)
    for meth in ("make_task_resource_usage_table",):
        fl = flow_of(c, G, meth)
        g = fl.g
        hs = over_attr2(fl, "quanta_by_task")
        present(c, "R22-tables", "usage:quanta", hs, "resource usage is not reported", fl)
        app = [n for n in calls(fl, "append") if any(h in loops_of(fl, n) for h in hs)]
        use = lambda l, m: l[0] == "isnone" and mentions(ex(fl, l[1], m), lambda s: s[0] == "sub" and s[2] == const("resource_usage"))  # noqa: E731
        for h in hs:
            passes(c, "R22-tables", "usage:which", fl, elems(h), app, [h, g.exit], {"none": use}, lambda none: "never" if none else "must", "the resource usage of a quantum is not reported", stop=[h], exc=False)
        rows = [n for n in calls(fl, "append") if loops_of(fl, n)]
        for h in [x for x in iters(fl, False) if mentions(ex(fl, x.iterable, x, 8), lambda s: at(s, "quanta_by_task"))]:
            each(c, "R22-tables", "usage:each", fl, h, [n for n in rows if h in loops_of(fl, n)], "the resource usage of a quantum is not reported", unless=lambda l, m: l[0] == "isnone" and l[2] is True)


def over_attr2(fl, attr):
    """Loops over an entry of a mapping attribute."""
    out = []
    for h in iters(fl, False):
        t = ex(fl, h.iterable, h, 8)
        while t[0] == "call" and (t[2] in ("items", "values", "keys") and t[3] is not None or t[3] is None and t[4]):
            t = t[3] if t[3] is not None else t[4][0]
        if t[0] == "sub" and at(t[1], attr):
            out.append(h)
    return out


def column(c, fl, rows, name, pred, msg):
    """The named entry of the dicts appended to rows is looked up in a container accepted by pred."""
    for n in rows:
        for x, m in fl.sources(n.args[0], n) or [(n.args[0], n)]:
            t = fl.term(x, m)
            if t[0] == "dict":
                for e in t[1]:
                    if isinstance(e, tuple) and len(e) == 2 and e[0] == const(name):
                        v = fl.term(e[1], m)
                        k = fl.g.nodes[v[1]] if v[0] == "tmp" else None
                        r = _root(fl, k.recv, k) if k is not None and k.kind == "call" and k.recv is not None else _root(fl, v[1], m) if v[0] == "sub" else None
                        if r is not None:
                            c.ob("R22-tables", name, None if pred(r) else True, msg, n)


def table(c, what, fl):
    """Rows or a table of them, as asked for."""
    g = fl.g
    tabs = [n for n in calls(fl, "Table")]
    rets = [n for n in g.live if n.kind == "return" and n.frame.id == 0]
    wants = lambda l, m: l[0] == "truth" and l[1] == ("param", "as_table")  # noqa: E731
    for v in (True, False):
        cut = cut_edges(fl, {"w": wants}, {"w": v})
        for n in rets:
            src = under(fl, n.value, n, cut)
            for x, m in src:
                c.ob("R22-tables", f"{what}:{'table' if v else 'rows'}", None if frm(fl, x, m, tabs, False) is v else True, "a table is returned where rows were asked for, or the other way round", n)
