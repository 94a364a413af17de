"""Ingesting a provenance graph: content is never lost, and what was interrupted can be resumed."""

from __future__ import annotations

from ..known import KNOWN
from ..lib import Check, const
from ..q import arg, calls, ctor, each, ex, flow_of, frm, full, guard, iters, lit_edges, loops_of, mentions, present, retvals
from .aggregator import _glob, frm_elem
from .boolval import cut_edges, passes, values
from .pgresolve import _root
from .pipedef import _raises, at, elems, must, self_
from .provenance import under

M = "lsst.pipe.base.quantum_graph.ingest_graph."


def run(c: Check):
    order(c)
    opening(c)
    datasets(c)
    forgetting(c)
    graph_dataset(c)
    cleaning(c)


def cls(c):
    return c.prog.cls(M + "_GraphIngester")


def _ok(lab):
    return lab == "exc"


def order(c):
    f = c.prog.func(M + "ingest_graph")
    known = KNOWN["quantum_graph.ingest_graph"]
    fl = c.flow(M + "ingest_graph", inline=lambda x: x.module is f.module and x.name not in known and not x.name.startswith("__"))
    g = fl.g
    fetch, forget, ingest, clean = (calls(fl, k) for k in ("fetch_already_ingested_datasets", "forget_ingested_datasets", "ingest_graph_dataset", "clean_and_reingest_datasets"))
    for k, ns in (("fetch", fetch), ("forget", forget), ("ingest", ingest), ("clean", clean)):
        present(c, "R1-order", k, ns, f"a step is missing ({k})", fl)
    there = lambda l, m: l[0] == "truth" and at(l[1], "graph_already_ingested")  # noqa: E731
    for k, ns in (("forget", forget), ("graph", ingest)):
        passes(c, "R1-order", k, fl, [g.entry], ns, [g.exit] if k == "forget" else clean, {"there": there}, lambda there: "never" if there else "must",
               "datasets backed by the graph are forgotten" if k == "forget" else "the graph is ingested twice or not at all", exc=False)
    for n in ingest:
        c.ob("R1-order", "forget before graph", fl.path([g.entry], [n], stop_node=lambda m: m in forget), "datasets backed by original files cannot be told from those backed by the graph", n)
    for n in forget:
        c.ob("R1-order", "forget after graph", fl.path(ingest + clean, [n]), "datasets backed by the graph are forgotten", n)
    for n in clean:
        cut = cut_edges(fl, {"t": there}, {"t": False})
        c.ob("R1-order", "graph before files", fl.path([g.entry], [n], stop_node=lambda m: m in ingest, stop_edge=lambda m, lab: (m.id, lab) in cut), "files are deleted before the graph that replaces them is ingested", n)
        c.ob("R1-order", "graph after files", fl.path([n], ingest), "files are deleted before the graph that replaces them is ingested", n)
    must(c, "R1-order", "clean:always", fl, [g.entry], clean, [g.exit], "original files are not replaced")
    for n in forget + clean:
        c.ob("R1-order", n.name + ":known", fl.path([g.entry], [n], stop_node=lambda m: m in fetch), "what has been done before is not known", n)
        c.ob("R1-order", n.name + ":handled", fl.path(fl.exc_edges([n]) if hasattr(fl, "exc_edges") else [(n, "exc")], [g.exit] + ingest), "a failed step is followed by the next one", n)
    # only empty directories are deleted
    rm = [n for n in g.calls() if n.name in ("rmdir", "removedirs", "remove", "unlink", "rmtree") and n.recv is not None and ex(fl, n.recv, n) in (("glob", "os"), ("glob", "shutil"))]
    for n in rm:
        c.ob("R2-directories", "empty", None if n.name == "rmdir" else True, "a directory is deleted with what is in it", n)
        c.ob("R2-directories", "after", fl.path([g.entry], [n], stop_node=lambda m: m in clean), "directories are deleted before their files are replaced", n)
    walk = calls(fl, "walk")
    for n in walk:
        v = arg(n, 1, "topdown")
        c.ob("R2-directories", "bottom up", None if v is not None and ex(fl, v, n) == const(False) else True, "directories are not deleted from the bottom up", n)
    non = [n for n in calls(fl, "add") if loops_of(fl, n)]
    for n in rm:
        if n.args and frm(fl, n.args[0], n, calls(fl, "join")):
            guard(c, "R2-directories", "nonempty", fl, [n], lambda l, m: l[0] == "in" and l[3] is False or l[0] == "truth" and l[2] is False, "deletion of a directory that has files fails", starts=[e for h in loops_of(fl, n)[:1] for e in elems(h)] or None)
    have = [(m, lab) for m, lab in ((g.nodes[i], la) for i, la in lit_edges(fl, lambda l, m: l[0] == "truth" and l[2] is True and l[1][0] == "item" and l[1][2] == 2))]
    if non and have:
        c.ob("R2-directories", "files", fl.path(have, rm, stop_node=lambda m: m in non), "deletion of a directory that has files fails")


def opening(c):
    C = cls(c)
    fl = flow_of(c, C, "open")
    g = fl.g
    ys = [n for n in g.live if n.kind == "yield"]
    given = lambda l, m: l[0] == "isnone" and l[1] == ("param", "output_run")  # noqa: E731
    same = lambda l, m: l[0] == "eq" and ("param", "output_run") in l[1:3] and any(at(ex(fl, t, m), "output_run") for t in l[1:3])  # noqa: E731
    passes(c, "R3-open", "run", fl, [g.entry], ys, [g.exit], {"none": given, "same": same}, lambda none, same: "never" if not none and not same else "must", "a graph of another run is ingested, or one of the run asked for is not", exc=False)
    for n in calls(fl, "read_graph"):
        v = arg(n, 1, "uri")
        c.ob("R3-open", "uri", None if v is not None and ex(fl, v, n) == ("param", "uri") else True, "another graph is read", n)
    for n in calls(fl, "from_config"):
        v = arg(n, None, "collections")
        c.ob("R3-open", "collections", None if v is not None and mentions(ex(fl, v, n), lambda s: s == ("param", "output_run")) else True, "a graph of another run is read", n)
        v = arg(n, 0, "config")
        c.ob("R3-open", "config", None if v is not None and ex(fl, v, n) == ("param", "butler_config") else True, "another repository is changed", n)
    for n in ctor(fl, "_GraphIngester") + [m for m in g.calls() if m.kwargs.get("graph_already_ingested") is not None and m.name == "cls"]:
        rg = calls(fl, "read_graph")
        for i, k in ((0, "graph"), (1, "graph_already_ingested")):
            t = fl.term(n.kwargs[k], n) if k in n.kwargs else None
            t = ex(fl, n.kwargs[k], n) if k in n.kwargs else None
            c.ob("R3-open", k, None if t is not None and t[0] == "item" and t[2] == i and t[1][0] == "call" and t[1][2] == "read_graph" else True, f"{k} is another", n)
        for k in ("butler", "butler_config"):
            if len(n.args) < 2:
                c.ob("R3-open", k + ":given", None if k in n.kwargs else True, "ingestion fails", n)
            if k in n.kwargs:
                t = ex(fl, n.kwargs[k], n)
                c.ob("R3-open", k, None if (t == ("param", "butler_config") if k == "butler_config" else t[0] == "entered" or mentions(t, lambda s: s[0] == "call" and s[2] == "from_config")) else True, "another repository is changed", n)
    fl = flow_of(c, C, "read_graph")
    g = fl.g
    uri = lambda l, m: l[0] == "isnone" and l[1] == ("param", "uri")  # noqa: E731
    rq, ri, fd, get = (calls(fl, k) for k in ("read_quanta", "read_init_quanta", "find_dataset", "get"))
    full_ = calls(fl, "read_full_graph")
    for k, ns in (("quanta", rq), ("init quanta", ri)):
        passes(c, "R3-open", "read:" + k, fl, [g.entry], ns + full_, [g.exit], {"none": uri}, lambda none: None if none else "must", f"{k} are not read, so their datasets stay as they are", exc=False)
    for n in rq:
        c.ob("R3-open", "read:all", None if not n.args and not n.kwargs or (list(n.args) + list(n.kwargs.values()))[0] == const(None) else True, "quanta are not read, so their datasets stay as they are", n)
    for n in [m for m in get if any(_glob(ex(fl, a, m), "PROVENANCE_DATASET_TYPE_NAME") for a in m.args)]:
        t = ex(fl, arg(n, None, "parameters") or const(None), n)
        if t[0] == "dict" and all(isinstance(x, tuple) and len(x) == 2 for x in t[1]):
            d = dict(t[1])
            c.ob("R3-open", "get:quanta", None if d.get(const("quanta"), const(None)) == const(None) else True, "quanta are not read, so their datasets stay as they are", n)
            c.ob("R3-open", "get:init quanta", None if d.get(const("read_init_quanta"), const(True)) == const(True) else True, "init quanta are not read, so their datasets stay as they are", n)
    for n in fd:
        t = arg(n, None, "collections")
        c.ob("R3-open", "ingested:where", None if n.args and _glob(ex(fl, n.args[0], n), "PROVENANCE_DATASET_TYPE_NAME") and t is not None and fl.derives(t, n, lambda t, m: at(t, "output_run"), through_args=True) else True,
             "another graph is taken for the one that was ingested", n)
    for none in (True, False):
        cut = cut_edges(fl, {"n": uri}, {"n": none})
        for r in retvals(fl):
            if fl.path([g.entry], [r], stop_edge=lambda m, lab: (m.id, lab) in cut) is None:
                continue
            t = fl.term(r.value, r)
            if t[0] != "tuple" or len(t[1]) != 2:
                continue
            for found in (True, False):
                vals = values(fl, t[1][1], r, lambda l, m, none=none, found=found: none if uri(l, m) else (not found) if l[0] == "isnone" and frm(fl, l[1], m, fd, False) else None)
                c.ob("R3-open", f"ingested({'none' if none else 'uri'}, {found})", None if vals == {True if none else found} else True, "whether the graph has been ingested is not known", r)
    fl = flow_of(c, C, "fetch_already_ingested_datasets")
    g = fl.g
    up = [n for n in calls(fl, "update", "add") if at(ex(fl, n.recv, n), "datasets_already_ingested")] + [n for n in g.live if n.kind == "attrstore" and n.name == "datasets_already_ingested"]
    present(c, "R3-open", "fetch", up, "what has been done before is not known", fl)
    must(c, "R3-open", "fetch", fl, [g.entry], up, [g.exit], "what has been done before is not known")
    for n in up:
        v = n.value if n.kind == "attrstore" else n.args[0]
        c.ob("R3-open", "fetch:run", None if mentions(ex(fl, v, n, 6), lambda s: at(s, "output_run")) else True, "what has been done in another run is looked up", n)


def datasets(c):
    """Metadata and logs of every quantum and the config of every task are gone over, each with its own description."""
    fl = flow_of(c, cls(c), "iter_datasets")
    g = fl.g
    ys = [n for n in g.live if n.kind == "yield"]
    by = {k: [n for n in ys if mentions(ex(fl, n.value, n, 8), lambda s, k=k: s[0] == "sub" and s[2] == const(k))] for k in ("metadata_id", "log_id", "config_id")}
    for k, ns in by.items():
        present(c, "R4-datasets", k, ns, f"datasets are left out ({k})", fl)
        for n in ns:
            t = ex(fl, n.value, n, 8)
            if t[0] == "tuple" and len(t[1]) == 2:
                a, b = t[1]
                good = a[0] == "sub" and a[2] == const(k) and b[0] == "sub" and at(b[1], "nodes") and b[2] == a
                c.ob("R4-datasets", k + ":description", None if good else True, "a dataset is given the description of another one", n)
    hs = [h for h in iters(fl, False)]
    outer = {"quanta_by_task": ("metadata_id", "log_id"), "init_quanta": ("config_id",)}
    for attr, ks in outer.items():
        mine = [h for h in hs if mentions(ex(fl, h.iterable, h, 8), lambda s, attr=attr: at(s, attr))]
        present(c, "R4-datasets", attr, mine, f"datasets are left out ({attr})", fl)
        top = [h for h in mine if not any(h is not x and x in loops_of(fl, h) for x in mine)]
        low = [h for h in mine if h not in top] or top
        for h in top:
            full(c, "R4-datasets", attr + ":all", fl, h, f"datasets are left out ({attr})")
            must(c, "R4-datasets", attr + ":always", fl, [g.entry], [h], [g.exit], f"datasets are left out ({attr})")
            for x in low:
                if x is not h:
                    c.ob("R4-datasets", attr + ":each", fl.path(elems(h), [h, g.exit], stop_node=lambda m: m is x, raising=False), f"datasets are left out ({attr})", x)
        for x in low:
            for k in ks:
                each(c, "R4-datasets", k + ":each", fl, x, by[k], f"datasets are left out ({k})")
    fl = flow_of(c, cls(c), "_make_ref_from_info")
    for n in ctor(fl, "DatasetRef"):
        info = lambda e, k: e is not None and mentions(ex(fl, e, n), lambda s: s[0] == "sub" and s[1] == ("param", "dataset_info") and s[2] == const(k))  # noqa: E731
        c.ob("R4-datasets", "ref:id", None if n.kwargs.get("id") is not None and ex(fl, n.kwargs["id"], n) == ("param", "dataset_id") else True, "a dataset is given another ID", n)
        c.ob("R4-datasets", "ref:run", None if info(n.kwargs.get("run"), "run") else True, "a dataset is given another run", n)
        c.ob("R4-datasets", "ref:data ID", None if info(arg(n, 1, "dataId"), "data_id") else True, "a dataset is given another data ID", n)
        c.ob("R4-datasets", "ref:type", None if info(arg(n, 0, "datasetType"), "pipeline_node") else True, "a dataset is given another type", n)


def batches(c, rule, fl, run, ours, spec, atoms, what):
    """Everything selected from iter_datasets is collected, and whatever is collected is passed to ``run``, the last batch included."""
    g = fl.g
    hs = [h for h in iters(fl, False) if frm(fl, h.iterable, h, calls(fl, "iter_datasets"))]
    present(c, rule, "loop", hs, f"nothing is {what}", fl)
    rs = calls(fl, run)
    present(c, rule, "run", rs, f"nothing is {what}", fl)
    app = [n for n in calls(fl, "append") if any(h in loops_of(fl, n) for h in hs)]
    present(c, rule, "append", app, f"nothing is {what}", fl)
    for h in hs:
        full(c, rule, "all", fl, h, f"not every dataset is {what}")
        passes(c, rule, "each", fl, elems(h), app, [h, g.exit], atoms(fl), spec, f"a dataset is {what}, or is not, against what is known of it", stop=[h], exc=False)
        must(c, rule, "loop:always", fl, [g.entry], [h], [g.exit], f"nothing is {what}")
        c.ob(rule, "last batch", fl.path([(h, "done")], [g.exit], stop_node=lambda m: m in rs and h not in loops_of(fl, m), raising=False), f"the last batch is not {what}", h)
    roots = {_root(fl, n.recv, n) for n in app}
    for n in rs:
        vs = list(n.args) + list(n.kwargs.values())
        c.ob(rule, "batch", None if any(_root(fl, v, n) in roots for v in vs) else True, f"another batch is {what}", n)
    for n in app:
        mk = calls(fl, "_make_ref_from_info")
        c.ob(rule, "ref", None if frm(fl, n.args[0], n, mk) else True, f"another dataset is {what}", n)
        for m in mk:
            for h in hs:
                if h in loops_of(fl, m):
                    for i, k in ((0, "dataset_id"), (1, "dataset_info")):
                        v = arg(m, i, k)
                        t = fl.term(v, m) if v is not None else None
                        c.ob(rule, "ref:" + k, None if t is not None and (t == ("item", ("elem", h.id), i) or frm_elem(fl, v, m, h) and ex(fl, v, m)[0] == "item" and ex(fl, v, m)[2] == i) else True, f"another dataset is {what}", m)
    # a batch is dropped only by what handles it
    for n in calls(fl, "clear"):
        c.ob(rule, "kept", True if _root(fl, n.recv, n) in roots else None, f"a batch is dropped before it is {what}", n)


def forgetting(c):
    C = cls(c)
    fl = flow_of(c, C, "forget_ingested_datasets")
    atoms = lambda fl: {  # noqa: E731
        "produced": lambda l, m: l[0] == "truth" and l[1][0] == "sub" and l[1][2] == const("produced"),
        "there": lambda l, m: l[0] == "in" and at(l[2], "datasets_already_ingested")}
    batches(c, "R5-forget", fl, "_run_forget", None, lambda produced, there: "must" if produced and there else "never" if not there else None, atoms, "forgotten")
    app = [n for n in calls(fl, "append") if loops_of(fl, n)]
    rem = [n for n in calls(fl, "remove", "discard") if at(ex(fl, n.recv, n), "datasets_already_ingested")]
    present(c, "R5-forget", "marked", rem, "a forgotten dataset is taken for one that is backed by the graph", fl)
    for n in app:
        for h in loops_of(fl, n)[:1]:
            c.ob("R5-forget", "marked", None if fl.path(elems(h), [n], stop_node=lambda m: m in rem) is None else fl.path([n], [h, fl.g.exit], stop_node=lambda m: m in rem, raising=False), "a forgotten dataset is taken for one that is backed by the graph", n)
            for r in rem:
                c.ob("R5-forget", "marked:only", fl.path(elems(h), [h, fl.g.exit], stop_node=lambda m: m in app, raising=False) and (None if fl.path([r], [h, fl.g.exit], stop_node=lambda m: m in app, raising=False) is None or fl.path(elems(h), [r], stop_node=lambda m: m in app) is None else True),
                     "a dataset that is not forgotten is taken for a forgotten one", r)
    for r in rem:
        t = fl.term(r.args[0], r)
        c.ob("R5-forget", "marked:which", None if t[0] == "item" and t[2] == 0 else True, "another dataset is taken for a forgotten one", r)
    fl = flow_of(c, C, "_run_forget")
    g = fl.g
    fo = [n for n in calls(fl, "forget") if at(ex(fl, n.recv, n), "_datastore")]
    rd = calls(fl, "removeDatasets")
    cl = [n for n in calls(fl, "clear")]
    some = lambda l, m: l[0] == "truth" and l[1] == ("param", "to_forget")  # noqa: E731
    for k, ns in (("datastore", fo), ("registry", rd)):
        present(c, "R6-forgotten", k, ns, f"datasets are not forgotten ({k})", fl)
        passes(c, "R6-forgotten", k, fl, [g.entry], ns, [g.exit], {"some": some}, lambda some: "must" if some else None, f"datasets are not forgotten ({k})", exc=False)
        for n in ns:
            c.ob("R6-forgotten", k + ":which", None if n.args and ex(fl, n.args[0], n) == ("param", "to_forget") else True, "other datasets are forgotten", n)
            ent = [m for m in g.live if m.kind == "wenter" and mentions(ex(fl, m.d.get("ctx") or m.d.get("value") or ("none",), m), lambda s: s[0] == "call" and s[2] == "transaction")]
            tr = calls(fl, "transaction")
            c.ob("R6-forgotten", k + ":transaction", fl.path([g.entry], [n], stop_node=lambda m: m in tr), "an interruption leaves datasets half forgotten", n)
            ex_ = [m for m in g.live if m.kind == "wexit"]
            c.ob("R6-forgotten", k + ":in transaction", fl.path(ex_, [n]) if tr else True, "an interruption leaves datasets half forgotten", n)
            for m in cl:
                c.ob("R6-forgotten", k + ":before clear", fl.path([m], [n]), "datasets are dropped before they are forgotten", m)
    for n in cl:
        c.ob("R6-forgotten", "clear", fl.path([(m, "exc") for m in fo + rd], [n]), "datasets that are not forgotten are dropped", n)
    must(c, "R6-forgotten", "cleared", fl, [g.entry], cl, [g.exit], "datasets are forgotten twice") if cl else None
    for n in [m for m in g.calls() if m.name in ("pruneDatasets", "mremove", "trash", "emptyTrash", "remove", "unlink", "removeRuns")]:
        c.fail("R6-forgotten", "files", "original files are deleted before the graph that replaces them is ingested", n)
    present(c, "R6-forgotten", "clear", cl, "datasets are forgotten twice", fl)


def graph_dataset(c):
    fl = flow_of(c, cls(c), "ingest_graph_dataset")
    g = fl.g
    ing = calls(fl, "ingest")
    present(c, "R7-graph", "ingest", ing, "the graph is not ingested", fl)
    must(c, "R7-graph", "ingest", fl, [g.entry], ing, [g.exit], "the graph is not ingested")
    for n in ctor(fl, "DatasetRef"):
        c.ob("R7-graph", "run", None if n.kwargs.get("run") is not None and at(ex(fl, n.kwargs["run"], n), "output_run") else True, "the graph is ingested into another run", n)
        t = arg(n, 0, "datasetType")
        c.ob("R7-graph", "type", None if t is not None and mentions(ex(fl, t, n), lambda s: _glob(s, "PROVENANCE_DATASET_TYPE_NAME")) else True, "the graph is ingested as something else", n)
    for n in ctor(fl, "FileDataset"):
        v = arg(n, 0, "path")
        c.ob("R7-graph", "path", None if v is not None and fl.derives(v, n, lambda t, m: t == ("param", "uri")) else True, "something else is ingested", n)
        v = arg(n, 1, "refs")
        c.ob("R7-graph", "refs", None if v is not None and frm(fl, v, n, ctor(fl, "DatasetRef")) else True, "something else is ingested", n)
        v = arg(n, None, "formatter")
        c.ob("R7-graph", "formatter", None if v is not None and _glob(ex(fl, v, n), "ProvenanceFormatter") else True, "the graph cannot be read", n)
    for n in ing:
        v = arg(n, None, "transfer")
        c.ob("R7-graph", "transfer", None if v is not None and ex(fl, v, n) == ("param", "transfer") else True, "the graph is transferred in another way than asked for", n)


def cleaning(c):
    C = cls(c)
    fl = flow_of(c, C, "clean_and_reingest_datasets")
    atoms = lambda fl: {  # noqa: E731
        "produced": lambda l, m: l[0] == "truth" and l[1][0] == "sub" and l[1][2] == const("produced"),
        "there": lambda l, m: l[0] == "in" and at(l[2], "datasets_already_ingested")}
    batches(c, "R8-clean", fl, "_run_clean_and_ingest", None, lambda produced, there: "must" if produced and not there else "never", atoms, "replaced")
    gu = calls(fl, "getURI")
    for n in gu:
        t = arg(n, None, "collections")
        c.ob("R8-clean", "graph", None if n.args and _glob(ex(fl, n.args[0], n), "PROVENANCE_DATASET_TYPE_NAME") and t is not None and fl.derives(t, n, lambda t, m: at(t, "output_run"), through_args=True) and at(ex(fl, n.recv, n), "butler") else True, "datasets are replaced by another graph", n)
    mq = calls(fl, "make_qbb")
    for n in calls(fl, "_run_clean_and_ingest"):
        v, w = arg(n, 0, "qbb"), arg(n, 1, "direct_uri")
        c.ob("R8-clean", "butler", None if v is not None and frm(fl, v, n, mq) else True, "files of another butler are deleted", n)
        c.ob("R8-clean", "uri", None if w is not None and frm(fl, w, n, gu) else True, "datasets are replaced by another file", n)
    fl = flow_of(c, C, "_run_clean_and_ingest")
    g = fl.g
    ing, rm, cl = calls(fl, "ingest"), calls(fl, "mremove"), [n for n in calls(fl, "clear") if _root(fl, n.recv, n) == ("param", "to_process") or ex(fl, n.recv, n) == ("param", "to_process")]
    some = lambda l, m: l[0] == "truth" and l[1] == ("param", "to_process")  # noqa: E731
    for k, ns, msg in (("ingest", ing, "datasets are lost: their files are deleted and nothing replaces them"), ("delete", rm, "original files stay"), ("clear", cl, "datasets are replaced twice")):
        present(c, "R9-replace", k, ns, msg, fl)
        passes(c, "R9-replace", k, fl, [g.entry], ns, [g.exit], {"some": some}, lambda some: "must" if some else None, msg, exc=False)
    for n in ing:
        c.ob("R9-replace", "delete before ingest", fl.path([g.entry], [n], stop_node=lambda m: m in rm), "an interruption leaves original files of datasets that are backed by the graph", n)
        v = arg(n, None, "transfer")
        c.ob("R9-replace", "transfer", None if v is not None and ex(fl, v, n) == const(None) else True, "the graph file is transferred again", n)
        c.ob("R9-replace", "repository", None if at(ex(fl, n.recv, n), "butler") else True, "datasets are ingested elsewhere", n)
        fd = ctor(fl, "FileDataset")
        c.ob("R9-replace", "what", None if n.args and frm(fl, n.args[0], n, fd) else True, "something else is ingested", n)
    for n in ctor(fl, "FileDataset"):
        v = arg(n, 0, "path")
        c.ob("R9-replace", "path", None if v is not None and ex(fl, v, n) == ("param", "direct_uri") else True, "datasets are replaced by another file", n)
        v = arg(n, 1, "refs")
        er = calls(fl, "expand_refs")
        c.ob("R9-replace", "refs", None if v is not None and fl.derives(v, n, lambda t, m: t == ("param", "to_process")) else True, "other datasets are ingested than were deleted", n)
        v = arg(n, None, "formatter")
        c.ob("R9-replace", "formatter", None if v is not None and _glob(ex(fl, v, n), "ProvenanceFormatter") else True, "replaced datasets cannot be read", n)
    for n in rm:
        us = calls(fl, "get_many_uris")
        c.ob("R9-replace", "delete:which", None if n.args and (frm(fl, n.args[0], n, us) or not us) else True, "other files are deleted", n)
        for h in iters(fl, True):
            if frm(fl, h.iterable, h, us):
                full(c, "R9-replace", "delete:all", fl, h, "original files stay")
        for u in us:
            c.ob("R9-replace", "delete:butler", None if ex(fl, u.recv, u) == ("param", "qbb") else True, "files that are not the original ones are deleted", u)
            c.ob("R9-replace", "delete:refs", None if u.args and fl.derives(u.args[0], u, lambda t, m: t == ("param", "to_process")) else True, "files of other datasets are deleted", u)
        # a failed deletion ends it
        v = arg(n, None, "do_raise")
        if v is not None and ex(fl, v, n) == const(False):
            hs = [h for h in iters(fl, False) if frm(fl, h.iterable, h, [n])]
            present(c, "R9-replace", "delete:checked", hs, "a failed deletion goes unnoticed", fl)
            for h in hs:
                full(c, "R9-replace", "delete:all checked", fl, h, "a failed deletion goes unnoticed")
                rs = [m for m in _raises(fl) if h in loops_of(fl, m) or fl.path([m], [h]) is None]
                passes(c, "R9-replace", "delete:failed", fl, elems(h), _raises(fl), [h, g.exit] + ing, {
                    "ok": lambda l, m: l[0] == "truth" and at(l[1], "success"),
                    "gone": lambda l, m: l[0] == "isinstance" and any(str(x).rsplit(".", 1)[-1] == "FileNotFoundError" for x in (l[2] if isinstance(l[2], tuple) else (l[2],)) for x in ([x] if isinstance(x, str) else [y for y in x if isinstance(y, str)])),
                    "noexc": lambda l, m: l[0] == "isnone" and at(l[1], "exception")},
                    lambda ok, gone, noexc: None if noexc else "never" if ok or gone else "must", "a failed deletion goes unnoticed, or a file that is gone already is taken for a failure", stop=[h], exc=False)
                must(c, "R9-replace", "delete:checked before", fl, [(n, lab) for _, lab in n.succ if lab != "exc"], [h], ing, "a failed deletion goes unnoticed")
    for n in cl:
        c.ob("R9-replace", "clear:after", fl.path([g.entry], [n], stop_node=lambda m: m in ing), "datasets are dropped before they are replaced", n)
        c.ob("R9-replace", "clear:done", fl.path([(m, "exc") for m in ing + rm], [n]), "datasets that are not replaced are dropped", n)
    fl = flow_of(c, C, "make_qbb")
    for n in calls(fl, "from_predicted"):
        v = n.kwargs.get("config")
        c.ob("R8-clean", "qbb:repository", None if v is not None and at(ex(fl, v, n), "butler_config") else True, "files in another repository are deleted", n)
