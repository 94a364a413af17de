"""Initialising an output run: what exists is checked, never overwritten; everything missing is written."""

from __future__ import annotations

from .. import q as Q
from ..known import fresh
from ..lib import Check, is_self_attr, self_flag
from ..q import (arg, bycall, calls, comp_filtered, const, ctor, each, evalpoint, ex, follows, guard, iters, kws, lit_edges, mentions, over,
                 retvals, subterms, tail)

CLASSES = [("quantum_graph._predicted.PredictedQuantumGraph", True), ("graph.graph.QuantumGraph", True),
           ("pipeline_graph._pipeline_graph.PipelineGraph", False)]
MISSING = {"LookupError", "FileNotFoundError", "KeyError", "DatasetNotFoundError", "MissingDatasetTypeError"}


def run(c: Check):
    for q, qg in CLASSES:
        C = c.prog.cls(q)
        configs(c, C, qg)
        packages(c, C, qg)
        outputs(c, C, qg)
        overall(c, C, qg)
    compare(c)
    instantiate(c)
    registration(c)


def _fl(c, C, name, extra=()):
    stop = {"get_init_outputs", "get_init_inputs", "get_init_output_refs", "get_init_input_refs", "instantiate_tasks", "globalInitOutputRefs",
            "compare_packages", *extra}
    return c.flow(C.methods[name].qual, inline=lambda f: f.module is C.module and f.name not in stop and not f.name.startswith("__"))


def _butler(fl, *names):
    return [n for n in calls(fl, *names) if n.recv is not None and fl.derives(n.recv, n, lambda t, m: t == ("param", "butler"), through_args=False)]


def _exists_lookup(fl):
    """Calls that find out whether a dataset exists, by returning None / raising."""
    return _butler(fl, "find_dataset", "get")


def _from(fl, e, n, nodes):
    ids = {x.id for x in nodes}
    return fl.derives(e, n, lambda t, m: t[0] == "tmp" and t[1] in ids, through_args=False)


def _absent(fl, nodes, pol=True):
    """Edges on which the looked-up dataset is absent."""
    return lambda lit, n: (lit[0] == "isnone" and lit[2] is pol or lit[0] == "truth" and lit[2] is (not pol)) and _from(fl, lit[1], n, nodes)


def _swallow(c, fl, where, gets):
    """Only 'does not exist' errors may be taken to mean that a dataset does not exist."""
    g = fl.g
    ok = set()
    for n in g.live:
        if n.kind == "branch" and n.atom[0] == "excis" and n.atom[1]:
            if all(t.rsplit(".", 1)[-1] in MISSING for t in n.atom[1]):
                ok.add((n.id, True))
    w = fl.path([(n, "exc") for n in gets], [g.exit], stop_edge=lambda n, lab: (n.id, lab) in ok)
    c.ob("I1-errors-propagate", where, w, "an error while reading an existing dataset is taken to mean that it does not exist")


def _run_only(c, fl, where):
    for n in _butler(fl, "find_dataset"):
        v = arg(n, None, "collections")
        ok = v is not None and mentions(ex(fl, v, n), lambda s: tail(s) == "run")
        c.ob("I2-this-run-only", where, None if ok else True, "datasets of other collections are taken for those of the output run", n)


def configs(c, C, qg):
    fl = _fl(c, C, "write_configs")
    g = fl.g
    where = f"{C.name}.write_configs"
    puts = _butler(fl, "put")
    cmp_ = calls(fl, "compare")
    look = _exists_lookup(fl)
    c.ob("I3-written", where, None if puts else True, "configs are not written", func=g.root)
    c.ob("I3b-compared", where, None if cmp_ else True, "existing configs are not compared", func=g.root)
    w = fl.path(fl.out_edges(puts), cmp_)
    c.ob("I4-check-before-write", where, w, "a config is written before all existing ones have been checked")
    bad = [(g.nodes[i], lab) for i, lab in lit_edges(fl, lambda lit, n: lit[0] == "truth" and lit[2] is False and _from(fl, lit[1], n, cmp_))]
    c.ob("I5-mismatch-raises", where + ":tested", None if bad or not cmp_ else True, "the result of comparing configs is ignored", func=g.root)
    w = fl.path(bad, [g.exit]) if bad else None
    c.ob("I5-mismatch-raises", where, w, "a config that differs from the existing one is accepted")
    # existing ones are never replaced: what is put was selected because it was absent
    sel = [n for n in g.live if n.kind == "call" and n.name in ("append", "add") or n.kind == "compelt" or n.kind == "substore"]
    sel = [n for n in sel if any(_feeds(fl, n, p) for p in puts)] or puts
    guard(c, "I6-existing-kept", where, fl, sel, _absent(fl, look), "an existing config is written again", starts=_iter_starts(fl, look))
    if qg:
        _swallow(c, fl, where, _butler(fl, "get"))
        have = [(g.nodes[i], lab) for i, lab in lit_edges(fl, _absent(fl, look, False))]
        cond = lit_edges(fl, lambda lit, n: lit[0] == "truth" and lit[2] is True and lit[1] == ("param", "compare_existing"))
        hs = set(iters(fl))
        w = fl.path(have, lambda m: m is g.exit or m in hs, stop_edge=lambda n, lab: (n.id, lab) in cond) if have else None
        c.ob("I7-existing-forbidden", where, w, "existing configs are accepted although none may exist")
    else:
        _run_only(c, fl, where)
    loops = [h for h in over(fl, lambda t: mentions(t, lambda s: tail(s) == "tasks"), comp=False) if any(
        n.id in fl.loop_body(h) for n in cmp_ + look)]
    for h in loops:
        skip = (lambda lit, n: lit[0] == "in" and lit[3] is False and is_self_attr(fl.expand(lit[2]), "_init_quanta")) if qg else None
        each(c, "I8-every-task", where, fl, h, cmp_ + [s for s in sel if s.id in fl.loop_body(h)], "the config of a task is neither checked nor written", unless=skip)
    for h in iters(fl, comp=False):
        if any(p.id in fl.loop_body(h) for p in puts) and h not in loops:
            each(c, "I8b-all-written", where, fl, h, puts, "a missing config is not written")
    for p in puts:
        ok = p.args and fl.derives(p.args[0], p, lambda t, m: tail(t) == "config") or p.args and mentions(ex(fl, p.args[0], p, 8), lambda s: True)
        c.ob("I8c-config-written", where, None if ok else True, "something other than the task's config is written", p)


def _feeds(fl, n, p):
    vals = list(n.args) if n.kind == "call" else [n.value]
    if n.kind == "call":
        base = {n.recv, fl.term(n.recv, n)} if n.recv is not None else set()
    elif n.kind == "substore":
        base = {n.base, fl.term(n.base, n)}
    else:
        base = set()
    for h in fl.enclosing_loops(p):
        if h.kind == "iter":
            t = fl.term(h.iterable, h)
            if any(b is not None and mentions(t, lambda s: s == b) for b in base):
                return True
            if t[0] == "comp" and n.kind == "compelt" and n in fl.compelts(t):
                return True
            e = ex(fl, h.iterable, h)
            if any(b is not None and mentions(e, lambda s: s == b) for b in base):
                return True
    return False


def _iter_starts(fl, look):
    """Start at each lookup, so that the answer of this iteration counts."""
    return [x for x in look] and [(n, lab) for n in look for _, lab in n.succ if lab != "exc"] + [fl.g.entry]


def packages(c, C, qg):
    fl = _fl(c, C, "write_packages")
    g = fl.g
    where = f"{C.name}.write_packages"
    puts = _butler(fl, "put")
    cmp_ = calls(fl, "compare_packages")
    look = _exists_lookup(fl)
    prune = _butler(fl, "pruneDatasets", "prune_datasets")
    c.ob("I3-written", where, None if puts else True, "package versions are not written", func=g.root)
    c.ob("I3b-compared", where, None if cmp_ else True, "existing package versions are not compared", func=g.root)
    have = [(g.nodes[i], lab) for i, lab in lit_edges(fl, _absent(fl, [n for n in look], False))]
    ci = {n.id for n in cmp_}
    w = fl.path(have, [g.exit], stop_node=lambda m: m.id in ci) if have else None
    c.ob("I9-compared", where, w, "existing package versions are accepted without being compared")
    changed = lit_edges(fl, lambda lit, n: lit[0] == "truth" and lit[2] is True and _from(fl, lit[1], n, cmp_))
    w = fl.path(have, puts + prune, stop_edge=lambda n, lab: (n.id, lab) in changed) if have else None
    c.ob("I10-rewritten-only-if-extended", where, w, "existing package versions are replaced although nothing was added")
    st = [(g.nodes[i], lab) for i, lab in changed]
    w = fl.path(st, [g.exit], stop_node=lambda m: m in puts) if st else None
    c.ob("I10b-extended-written", where, w, "added packages are not saved")
    w = fl.path(st, puts, stop_node=lambda m: m in prune) if st else None
    c.ob("I10c-replace", where, w, "extended package versions are written without removing the old ones first")
    after = [p for p in puts if st and fl.path(st, [p]) is not None]
    for p in after:
        ok = p.args and (_from(fl, p.args[0], p, _butler(fl, "get")))
        c.ob("I10d-merged", where, None if ok else True, "package versions recorded earlier are lost when new ones are added", p)
    none = [(g.nodes[i], lab) for i, lab in lit_edges(fl, _absent(fl, look))]
    w = fl.path(none, [g.exit], stop_node=lambda m: m in puts) if none else None
    c.ob("I11-missing-written", where, w, "package versions are not written although none exist")
    if qg:
        _swallow(c, fl, where, _butler(fl, "get"))
        cond = lit_edges(fl, lambda lit, n: lit[0] == "truth" and lit[2] is True and lit[1] == ("param", "compare_existing"))
        w = fl.path(have, [g.exit], stop_edge=lambda n, lab: (n.id, lab) in cond) if have else None
        c.ob("I7-existing-forbidden", where, w, "existing package versions are accepted although none may exist")
    else:
        _run_only(c, fl, where)


def outputs(c, C, qg):
    fl = _fl(c, C, "write_init_outputs")
    g = fl.g
    where = f"{C.name}.write_init_outputs"
    puts = _butler(fl, "put")
    c.ob("I3-written", where, None if puts else True, "init outputs are not written", func=g.root)
    sm = _butler(fl, "stored_many", "stored")
    inst = calls(fl, "instantiate_tasks")
    c.ob("I12-tasks-made", where, None if inst else True, "tasks are not constructed", func=g.root)
    for n in inst if C.name == "PredictedQuantumGraph" else ():
        v = arg(n, 2, "labels")
        t = ex(fl, v, n, 8) if v is not None else None
        every = t is None or t == const(None) or Q.tail(t) in ("tasks",) or t[0] == "call" and t[2] in ("keys", "list", "set", "tuple") and any(Q.tail(x) == "tasks" for x in [t[3] or ("none",), *t[4]])
        c.ob("I12-tasks-made", where + ":with quanta", True if every else None, "tasks that have no init quantum are constructed, although their init inputs are not known", n)
    w = fl.must_precede(sm, puts)
    c.ob("I13-existence-first", where, w, "init outputs are written without finding out which exist")
    stored = lambda pol: [(g.nodes[i], lab) for i, lab in lit_edges(fl, lambda lit, n: lit[0] == "truth" and lit[2] is pol and _from(fl, lit[1], n, sm))]  # noqa: E731
    yes, no = stored(True), stored(False)
    if qg:
        dele = [n for n in g.live if n.kind == "delsub" or (n.kind == "call" and n.name == "pop" and n.recv is not None)]
        hs = {h for h in iters(fl) if any(d.id in fl.loop_body(h) for d in dele)}
        if dele and yes:
            w = fl.path(yes, lambda m: m in hs or m is g.exit, stop_node=lambda m: m in dele)
            c.ob("I14-existing-skipped", where, w, "an init output that exists is written again")
            cond = lit_edges(fl, lambda lit, n: lit[0] == "truth" and lit[2] is True and lit[1] == ("param", "skip_existing"))
            w = fl.path(yes, lambda m: m in hs or m is g.exit, stop_edge=lambda n, lab: (n.id, lab) in cond)
            c.ob("I7-existing-forbidden", where, w, "existing init outputs are accepted although none may exist")
            w = fl.path(no, dele, stop_node=lambda m: m in hs)
            c.ob("I14b-missing-kept", where, w, "an init output that does not exist is not written")
            for d in dele:
                k = d.key if d.kind == "delsub" else (d.args[0] if d.args else None)
                if k is not None:
                    c.ob("I14c-right-one", where, None if fl.derives(k, d, lambda t, m: t[0] == "elem" and g.nodes[t[1]] in hs) else True,
                         "another init output than the existing one is skipped", d)
            for p in puts:
                r = p.args[1] if len(p.args) > 1 else None
                ok = r is not None and fl.derives(r, p, lambda t, m: any(t in (d.d.get("base"), d.d.get("recv")) or t == fl.term(d.d.get("base") or d.recv, d)
                                                                          for d in dele))
                c.ob("I14d-selected", where, None if ok else True, "init outputs are written regardless of whether they exist", p)
        for h in iters(fl, comp=False):
            if any(p.id in fl.loop_body(h) for p in puts):
                look = {n.id for n in calls(fl, "get", "pop") if n.id in fl.loop_body(h)}
                each(c, "I15-all-written", where, fl, h, puts, "an init output that does not exist is not written", unless=lambda lit, n: (
                    lit[0] == "isnone" and lit[2] is True or lit[0] == "truth" and lit[2] is False) and fl.derives(
                        lit[1], n, lambda t, m: t[0] == "tmp" and t[1] in look) or (lit[0] == "in" and lit[3] is False))
        for n in inst:
            v = n.kwargs.get("init_outputs") or (n.args[1] if len(n.args) > 1 else None)
            c.ob("I12b-outputs-collected", where, None if v is not None else True, "the init outputs of the tasks are not collected", n)
        w = fl.path(fl.out_edges(puts), inst)
        c.ob("I12c-order", where, w, "tasks are constructed after outputs are written")
    else:
        _run_only(c, fl, where)
        look = _butler(fl, "find_dataset")
        sel = [n for n in g.live if n.kind == "call" and n.name in ("append", "add") and any(_feeds(fl, n, p) for p in puts)] or puts
        guard(c, "I6-existing-kept", where, fl, sel, _absent(fl, look), "an existing init output is written again",
              starts=[(n, lab) for n in look for _, lab in n.succ if lab != "exc"])
        for h in iters(fl, comp=False):
            body = fl.loop_body(h)
            if any(n.id in body for n in look):
                each(c, "I15-all-written", where, fl, h, [s for s in sel if s.id in body], "an init output that does not exist is not written",
                     unless=_absent(fl, look, False))
            elif any(p.id in body for p in puts):
                each(c, "I15-all-written", where + ":put", fl, h, puts, "an init output that does not exist is not written")
        if no:
            w = fl.path(no, [g.exit])
            c.ob("I16-deleted-detected", where, w, "an init output that is registered but not stored is silently accepted")


def overall(c, C, qg):
    fl = c.flow(C.methods["init_output_run"].qual, inline=fresh)
    for k in ("write_configs", "write_packages", "write_init_outputs"):
        ns = calls(fl, k)
        w = fl.must_precede(ns, [fl.g.exit])
        c.ob("I17-all-parts", f"{C.name}:{k}", w, "an output run is initialised incompletely")
        if not qg:
            continue
        for n in ns:
            ok = any(fl.term(v, n) == ("param", "existing") for v in list(n.args)[1:] + list(n.kwargs.values()))
            c.ob("I17b-existing-forwarded", f"{C.name}:{k}", None if ok else True, "whether existing datasets are allowed is not passed on", n)


def compare(c):
    fl = c.flow("pipeline_graph._pipeline_graph.compare_packages", inline=fresh)
    g = fl.g
    di, exn = calls(fl, "difference"), calls(fl, "extra")
    up = calls(fl, "update")
    guard(c, "I18-versions", "mismatch", fl, [g.exit], lambda lit, n: lit[0] == "truth" and lit[2] is False and _from(fl, lit[1], n, di),
          "different package versions are accepted")
    more = [(g.nodes[i], lab) for i, lab in lit_edges(fl, lambda lit, n: lit[0] == "truth" and lit[2] is True and _from(fl, lit[1], n, exn))]
    w = fl.path(more, [g.exit], stop_node=lambda m: m in up) if more else None
    c.ob("I18b-extended", "update", w, "packages that were not recorded before are not added")
    c.ob("I18b-extended", "tested", None if more else True, "packages that were not recorded before are not noticed", func=g.root)
    for n in up:
        ok = n.recv is not None and fl.term(n.recv, n) == ("param", "packages") and n.args and fl.term(n.args[0], n) == ("param", "new_packages")
        c.ob("I18c-in-place", "update", None if ok else True, "the recorded packages are not the ones updated", n)
        bad = [r for r in retvals(fl) if r.d.get("value") is None or ex(fl, r.value, r) in (const(False), const(None))
               or bycall(fl, r.value, r, "difference")]  # no difference: the result is false
        w = fl.path(fl.out_edges([n]), bad)
        c.ob("I18d-reported", "update", w, "an update is not reported, so it is never saved")
    for n in di:
        ok = n.recv is not None and n.args and {fl.term(n.recv, n), fl.term(n.args[0], n)} == {("param", "packages"), ("param", "new_packages")}
        c.ob("I18e-operands", "difference", None if ok else True, "package versions are not compared with each other", n)
    for n in exn:
        ok = fl.term(n.recv, n) == ("param", "new_packages") and n.args and fl.term(n.args[0], n) == ("param", "packages")
        c.ob("I18e-operands", "extra", None if ok else True, "packages missing now are taken for new ones", n)


def instantiate(c):
    C = c.prog.cls("pipeline_graph._pipeline_graph.PipelineGraph")
    fl = c.flow(C.methods["instantiate_tasks"].qual, inline=fresh)
    g = fl.g
    mk = [n for n in g.calls() if "initInputs" in n.kwargs]
    c.require(mk, "task construction not found")
    guard(c, "I19-resolved", "instantiate_tasks", fl, mk, lambda lit, n: lit[0] == "truth" and lit[2] is True and tail(fl.expand(lit[1])) == "is_fully_resolved",
          "tasks of an unresolved pipeline are constructed")
    main = [h for h in iters(fl, comp=False) if any(m.id in fl.loop_body(h) for m in mk)]
    for h in main:
        each(c, "I20-every-task", "instantiate_tasks", fl, h, mk, "a task is not constructed",
             unless=lambda lit, n: lit[0] == "in" and lit[3] is False)
    for n in mk:
        for k, at in (("config", "config"), ("name", "label")):
            v = n.kwargs.get(k)
            c.ob("I20b-task-arguments", k, None if v is not None and tail(ex(fl, v, n)) == at else True, f"a task is constructed without its {k}", n)
    prov = [n for n in g.live if n.kind == "substore" and tail(ex(fl, n.key, n)) == "connection_name"]
    for h in over(fl, lambda t: mentions(t, lambda s: tail(s) == "inputs"), comp=False):
        each(c, "I21-init-inputs", "instantiate_tasks", fl, h, prov, "an init input is not passed to the task's constructor")
    cb = [n for n in g.calls() if n.callee is None and n.recv is None and n.name == "get_init_input" or (n.name == "get_init_input")]
    guard(c, "I21b-init-input-source", "callback", fl, cb, lambda lit, n: lit[0] == "isnone" and lit[2] is False and lit[1] == ("param", "get_init_input")
          or lit[0] == "truth" and lit[2] is True and lit[1] == ("param", "get_init_input"), "an init input cannot be obtained, without a clear error") if cb else None
    out = [n for n in calls(fl, "append", "extend") if n.recv is not None and fl.term(n.recv, n) == ("param", "init_outputs")]
    c.ob("I22-init-outputs", "collected", None if out else True, "init outputs are not collected", func=g.root)
    for h in over(fl, lambda t: mentions(t, lambda s: tail(s) == "outputs"), comp=False):
        if any(n.id in fl.loop_body(h) for n in out):
            each(c, "I22-init-outputs", "every", fl, h, out, "an init output is not collected", unless=lambda lit, n: lit[0] == "isnone" and lit[2] is True
                 and lit[1] == ("param", "init_outputs") or lit[0] == "truth" and lit[2] is False and lit[1] == ("param", "init_outputs"))


def registration(c):
    C = c.prog.cls("pipeline_graph._pipeline_graph.PipelineGraph")
    fl = c.flow(C.methods["check_dataset_type_registrations"].qual, inline=fresh)
    g = fl.g
    gd = calls(fl, "getDatasetType", "get_dataset_type")
    c.ob("I23-checked", "registrations", None if gd else True, "registrations are not checked", func=g.root)
    loops = [h for h in iters(fl, comp=False) if any(n.id in fl.loop_body(h) for n in gd)]
    for h in loops:
        each(c, "I23-checked", "every", fl, h, gd, "the registration of a dataset type is not checked")
    bad = [(g.nodes[i], lab) for i, lab in lit_edges(fl, lambda lit, n: lit[0] == "eq" and lit[3] is False and any(_from(fl, x, n, gd) for x in lit[1:3]))]
    c.ob("I24-conflict-raises", "tested", None if bad else True, "a conflicting registration is not detected", func=g.root)
    w = fl.path(bad, [g.exit]) if bad else None
    c.ob("I24-conflict-raises", "raised", w, "a conflicting registration is accepted")
    ms = [n for n in calls(fl, "append", "add") if any(tail(ex(fl, a, n)) == "name" for a in n.args)]
    none = [(g.nodes[i], lab) for i, lab in lit_edges(fl, _absent(fl, gd))]
    hs = set(loops)
    opt = lit_edges(fl, lambda lit, n: lit[0] == "truth" and lit[2] is True and mentions(fl.expand(lit[1]), lambda s: s[0] == "call" and s[2] == "all")
                    or lit[0] == "truth" and lit[2] is True and bycall(fl, lit[1], n, "all", "is_optional"))
    opt |= {(h.id, "done") for h in iters(fl) if h not in loops}  # all(...) finished without finding a required input
    w = fl.path(none, lambda m: m in hs, stop_node=lambda m: m in ms, stop_edge=lambda n, lab: (n.id, lab) in opt) if none and ms and opt else None
    c.ob("I25-missing-collected", "registrations", w, "a missing dataset type is not reported")
    if ms:
        v = [fl.term(n.recv, n) for n in ms] + [n.recv for n in ms]
        empty = lit_edges(fl, lambda lit, n: lit[0] == "truth" and lit[2] is False and (lit[1] in v or fl.derives(lit[1], n, lambda t, m: t in v)))
        w = fl.path(fl.out_edges(ms), [g.exit], stop_edge=lambda n, lab: (n.id, lab) in empty)
        # after an append the list is not empty: no feasible way to leave normally
        w2 = fl.path([g.entry], [g.exit], stop_edge=lambda n, lab: (n.id, lab) in empty)
        c.ob("I25b-missing-raises", "registrations", w2, "missing dataset types do not raise")
    fl = c.flow(C.methods["register_dataset_types"].qual, inline=fresh)
    rg = calls(fl, "registerDatasetType")
    for h in iters(fl, comp=False):
        if any(n.id in fl.loop_body(h) for n in rg):
            each(c, "I26-registered", "register_dataset_types", fl, h, rg, "a dataset type is not registered")
    c.ob("I26-registered", "instances", None if rg else True, "dataset types are not registered", func=fl.g.root)


def complete(c: Check):
    for qn, qg in CLASSES:
        C = c.prog.cls(qn)
        for nm in ("write_configs", "write_init_outputs", "write_packages"):
            fl = _fl(c, C, nm)
            Q.allfull(c, "I27-all-tasks", f"{C.name}.{nm}", fl, "only some of the tasks or their init outputs are looked at")
        fl = _fl(c, C, "write_init_outputs")
        where = f"{C.name}.write_init_outputs"
        sm = _butler(fl, "stored_many", "stored")
        if not qg and _butler(fl, "find_dataset"):
            no = lit_edges(fl, lambda lit, n: lit[0] == "truth" and lit[2] is False and Q.frm(fl, lit[1], n, sm))
            c.ob("I16-deleted-detected", where + ":tested", None if no else True, "an init output that is registered but not stored is not noticed", func=fl.g.root)
        if qg:
            for h in over(fl, lambda t: mentions(t, lambda s: tail(s) == "tasks" or s[0] == "call" and s[2] in ("iterTaskGraph", "_iter_task_defs")), comp=False):
                for g in ("get_init_outputs", "get_init_output_refs"):
                    ns = [n for n in calls(fl, g) if n.id in fl.loop_body(h)]
                    if ns:
                        each(c, "I27-all-tasks", where + ":refs", fl, h, ns, "the init outputs of a task are not written", unless=lambda lit, n: (
                            lit[0] == "in" and lit[3] is False))
    C = c.prog.cls("pipeline_graph._pipeline_graph.PipelineGraph")
    fl = Q.flow_of(c, C, "instantiate_tasks")
    g = fl.g
    Q.allfull(c, "I27-all-tasks", "instantiate_tasks", fl, "only some of the tasks or their init datasets are looked at")

    def made_by(e, n, *names):
        e, n = evalpoint(fl, e, n)
        m = g.nodes[e[1]] if e[0] == "tmp" else None
        return m if m is not None and m.kind == "call" and m.name in names else None

    mkh = {n: made_by(n.value, n, "InMemoryDatasetHandle") for n in g.live if n.kind == "substore"}
    mkh = {n: m for n, m in mkh.items() if m is not None}
    obj = lambda m: m.args[0] if m.args else m.kwargs.get("inMemoryDataset")  # noqa: E731
    got = [n for n, m in mkh.items() if obj(m) is not None and made_by(obj(m), m, "get_init_input") is not None]
    made = [n for n in mkh if n not in got]
    if got:
        guard(c, "I28-shared-inputs", "whole", fl, got, lambda lit, n: lit[0] == "isnone" and lit[2] is True and tail(fl.expand(lit[1])) == "component",
              "a component is handed to other tasks as if it were the whole dataset")
        guard(c, "I28-shared-inputs", "same type", fl, got, lambda lit, n: lit[0] == "eq" and lit[3] is True and all(
            tail(fl.expand(x)) == "storage_class_name" for x in lit[1:3]), "an init input converted for one task is handed to others")
        for n in got:
            for m in [mkh[n]]:
                k = m.kwargs.get("copy")
                c.ob("I28b-not-shared", "input", None if k is not None and fl.term(k, m) != const(False) else True,
                     "tasks share one init input, so that one can modify what another gets", m)
    for n in made:
        for m in [mkh[n]]:
            k = m.kwargs.get("copy")
            t = ex(fl, k, m) if k is not None else const(False)
            lim = [s[2] for s in subterms(t) if s[0] == "const" and isinstance(s[2], int) and not isinstance(s[2], bool)]
            ok = t == const(True) or (t[0] != "const" and all(x <= 1 for x in lim))
            c.ob("I28b-not-shared", "output", None if ok else f"{t}", "tasks share one init output, so that one can modify what another gets", m)
            o = obj(m)
            if o is not None:
                c.ob("I28c-converted", "output", None if bycall(fl, o, m, "coerce_type") else True,
                     "an init output is handed to other tasks in the producer's type instead of the dataset type's", m)
    none = lambda lit, n: (lit[0] == "lt" and lit[3] is False and lit[1][0] == "const" and lit[1][2] <= 0  # noqa: E731
                           or lit[0] == "lt" and lit[3] is True and lit[2] == const(1) or lit[0] == "eq" and lit[3] is True and const(0) in lit[1:3]
                           or lit[0] == "truth" and lit[2] is False and bycall(fl, lit[1], n, "len", "consumers_of"))
    if made:
        for h in over(fl, lambda t: mentions(t, lambda s: tail(s) == "outputs"), comp=False):
            each(c, "I28d-kept-for-consumers", "output", fl, h, made, "an init output is not passed on to the tasks that need it", unless=none)
    else:
        c.fail("I28d-kept-for-consumers", "output", "init outputs are not passed on to the tasks that need them", func=g.root)
    # handles are looked up under the name under which they are stored
    for n in mkh:
        c.ob("I28g-stored-under", "dataset type", None if tail(ex(fl, n.key, n)) in ("name", "dataset_type_name", "parent_dataset_type_name") else True,
             "an init dataset is passed on under another name", n)
    for n in calls(fl, "get"):
        if n.recv is not None and made_by(n.recv, n, "get") is not None:
            k = n.kwargs.get("storageClass")
            c.ob("I28e-requested-type", "handle", None if k is not None and tail(ex(fl, k, n)) in ("storage_class_name", "storage_class") else True,
                 "an init input is passed in another storage class than the task asks for", n)
            if "component" not in n.kwargs:
                guard(c, "I28f-component", "handle", fl, [n], lambda lit, b: lit[0] == "isnone" and lit[2] is False and mentions(
                    fl.expand(lit[1]), lambda s: s[0] == "call" and s[2] == "get"), "an init input is taken from a handle that does not exist")
    fl = Q.flow_of(c, C, "register_dataset_types")
    Q.allfull(c, "I29-registration", "register_dataset_types", fl, "only some of the dataset types are registered")
    for n in [n for n in fl.g.live if n.kind == "delsub"] + calls(fl, "pop"):
        k = n.key if n.kind == "delsub" else (n.args[0] if n.args else None)
        t = ex(fl, k, n) if k is not None else ("?",)
        for at, flag in (("config_output", "include_configs"), ("log_output", "include_logs")):
            if mentions(t, lambda s: tail(s) == at):
                guard(c, "I29-registration", flag, fl, [n], lambda lit, b: lit[0] == "truth" and lit[2] is False and lit[1] == ("param", flag),
                      "dataset types are left out although they were to be registered")
    pk = [n for n in fl.g.live if n.kind == "substore" and mentions(ex(fl, n.value, n), lambda s: tail(s) == "packages_dataset_type")]
    if pk:
        inc = lit_edges(fl, lambda lit, n: lit[0] == "truth" and lit[2] is False and lit[1] == ("param", "include_packages"))
        w = fl.path([fl.g.entry], [fl.g.exit], stop_node=lambda m: m in pk, stop_edge=lambda n, lab: (n.id, lab) in inc)
        c.ob("I29-registration", "packages", w, "the packages dataset type is not registered")
    for h in over(fl, lambda t: mentions(t, lambda s: is_self_attr(s, "dataset_types")), comp=True):
        ok = lit_edges(fl, lambda lit, n: lit[0] == "truth" and lit[1] == ("param", "include_inputs") and lit[2] is True
                       or lit[0] == "isnone" and lit[2] is False and bycall(fl, lit[1], n, "producer_of"))
        inp = lit_edges(fl, lambda lit, n: lit[0] == "isnone" and lit[2] is True and bycall(fl, lit[1], n, "producer_of"))
        ce = {m.id for m in fl.g.live if m.kind == "compelt" and m.id in fl.loop_body(h)}
        w = fl.path(Q.as_edges(fl, ok), lambda m: m is h, stop_node=lambda m: m.id in ce, stop_edge=lambda n, lab: (n.id, lab) in inp) if ok else None
        c.ob("I29-registration", "outputs", w, "an output (or requested input) dataset type is not registered")
        w = fl.path([(h, "elem")], lambda m: m is h, stop_node=lambda m: m.id in ce, stop_edge=lambda n, lab: (n.id, lab) in inp)
        c.ob("I29-registration", "only inputs left out", w, "an output dataset type is not registered")
    fl = Q.flow_of(c, C, "check_dataset_type_registrations")
    Q.allfull(c, "I29-registration", "check_dataset_type_registrations", fl, "only some of the dataset types are checked")
