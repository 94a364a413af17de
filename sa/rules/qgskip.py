"""Quantum graph generation: which quanta are skipped, and what happens to outputs that already exist."""

from __future__ import annotations

from ..lib import Check, is_self_attr
from ..q import (any_lit, arg, as_edges, attr_lit, bycall, calls, const, ctor, each, ex, flow_of, follows, frm, guard, innermost, iters, kws, lit_edges,
                 loops_of, mentions, none_lit, over, present, retvals, subterms, tail, true_lit)

QB = "quantum_graph_builder.QuantumGraphBuilder"
AD = "all_dimensions_quantum_graph_builder.AllDimensionsQuantumGraphBuilder"


def run(c: Check):
    B = c.prog.cls(QB)
    setup(c, B)
    decision(c, B)
    apply(c, B)
    resolve(c, B)
    overall(c, B)
    unskip(c, B)
    outputs(c, B)
    init(c, B)
    empty(c, B)
    followup(c, c.prog.cls(AD))


def _param(name):
    return lambda t, m: t == ("param", name)


def _of(fl, e, n, h):
    """e at n derives from the element of loop h."""
    return fl.derives(e, n, lambda t, m: t == ("elem", h.id))


def setup(c, B):
    fl = flow_of(c, B, "__init__")
    g = fl.g
    # an output run that exists is recognised
    st = [n for n in g.live if n.kind == "attrstore" and n.name == "output_run_exists"]
    yes = [n for n in st if ex(fl, n.value, n) == const(True)]
    ct = calls(fl, "getCollectionType", "get_info")
    miss = {n.id for n in g.live if n.kind == "branch" and n.atom[0] == "excis"}
    if yes and ct:
        w = fl.path([(n, lab) for n in ct for _, lab in n.succ if lab != "exc"], [g.exit], stop_node=lambda m: m in yes)
        c.ob("K1-run-exists", "recognised", w, "an existing output run is treated as if it did not exist")
    w = fl.path([g.entry], [g.exit], stop_node=lambda m: m in st)
    c.ob("K1-run-exists", "set", w, "whether the output run exists is not recorded")
    # clobber is given up only if there is nothing to clobber
    cl = [n for n in g.live if n.kind == "attrstore" and n.name == "clobber"]
    for n in cl:
        v = ex(fl, n.value, n)
        ok = v == ("param", "clobber") or v == const(False)
        c.ob("K2-clobber", "value", None if ok else True, "outputs are clobbered although that was not asked for", n)
    keep = [n for n in cl if ex(fl, n.value, n) == ("param", "clobber")]
    w = fl.must_precede(keep, [g.exit])
    c.ob("K2-clobber", "kept", w, "whether to clobber outputs is not recorded")
    drop = [n for n in cl if ex(fl, n.value, n) == const(False)]
    if drop and ct:
        w = fl.path([(n, lab) for n in ct for _, lab in n.succ if lab != "exc"], drop)
        c.ob("K2-clobber", "dropped", w, "clobbering is turned off for an existing run")
    # the separate search of the output run is omitted only if the search for outputs to skip covers it first
    ss = [n for n in g.live if n.kind == "attrstore" and n.name == "skip_existing_starts_with_output_run"]
    w = fl.must_precede(ss, [g.exit])
    c.ob("K3-starts-with-run", "set", w, "whether the output run is searched first is not recorded")
    for n in ss:
        v = ex(fl, n.value, n)
        if v == const(False):
            continue
        if v == const(True):
            guard(c, "K3-starts-with-run", "tested", fl, [n], lambda lit, m: lit[0] == "eq" and lit[3] is True and _run_first(fl, lit[1], lit[2]),
                  "the output run is taken to be searched first although it is not")
            continue
        eqs = [s for s in subterms(v) if s[0] == "cmp" and s[1] == "Eq"]
        isin = [s for s in subterms(v) if s[0] == "cmp" and s[1] in ("In", "NotEq", "IsNot", "NotIn")]
        ok = any(_run_first(fl, s[2], s[3]) for s in eqs) or not (eqs or isin)
        c.ob("K3-starts-with-run", "value", None if ok else True, "the output run is taken to be searched first although it is not", n)
    sk = [n for n in g.live if n.kind == "attrstore" and n.name == "skip_existing_in"]
    keep = [n for n in sk if ex(fl, n.value, n) == ("param", "skip_existing_in")]
    c.ob("K4-skip-collections", "kept", fl.must_precede(keep, [g.exit]) if keep or sk else True, "the collections to look for finished quanta in are lost")


def _run_first(fl, a, b):
    a, b = fl.expand(a), fl.expand(b)
    for x, y in ((a, b), (b, a)):
        if tail(x) == "output_run" or x == ("param", "output_run") or (x[0] == "var" and x[-1] == "output_run"):
            if y[0] in ("sub", "item") and (y[2] == const(0) or y[2] == 0):
                return True
    return False


def decision(c, B):
    fl = flow_of(c, B, "_compute_skip_decision")
    g = fl.g
    gs = calls(fl, "get_output_for_skip")
    present(c, "K5-skip-if-succeeded", "lookup", gs, "whether a quantum succeeded before is not looked up", fl)
    for n in gs:
        k = ex(fl, n.args[0], n, 8) if n.args else ()
        ok = mentions(k, lambda s: tail(s) == "metadata_output")
        c.ob("K5-skip-if-succeeded", "metadata", None if ok else True, "a quantum is skipped because of an output that does not prove success", n)
        ok = fl.derives(n.args[0], n, _param("quantum_key")) if n.args else False
        c.ob("K5-skip-if-succeeded", "own", None if ok else True, "a quantum is skipped because of another quantum's output", n)
    bad = [r for r in retvals(fl) if ex(fl, r.value, r) == const(True)]
    for r in retvals(fl):
        v = ex(fl, r.value, r, 8)
        if v[0] == "const":
            continue
        neg = v[0] == "not" or v[0] == "cmp" and v[1] in ("Is", "Eq")
        ok = frm(fl, r.value, r, gs) and not neg
        c.ob("K5-skip-if-succeeded", "result", None if ok else True, "the decision to skip a quantum is not whether it succeeded", r)
    guard(c, "K5-skip-if-succeeded", "true", fl, bad, none_lit(fl, gs, False), "a quantum that did not succeed is skipped")
    falses = [r for r in retvals(fl) if ex(fl, r.value, r) == const(False)]
    guard(c, "K5-skip-if-succeeded", "false", fl, falses, none_lit(fl, gs, True), "a quantum that succeeded is not skipped")


def apply(c, B):
    fl = flow_of(c, B, "_apply_skip_decision")
    g = fl.g
    hs = over(fl, lambda t: mentions(t, lambda s: s[0] == "call" and s[2] == "iter_outputs_of"), comp=False)
    present(c, "K6-skipped-outputs", "loop", hs, "the outputs of a skipped quantum are not handled", fl)
    gs, sr, rm, dc = calls(fl, "get_output_for_skip"), calls(fl, "set_dataset_ref"), calls(fl, "remove_dataset_nodes"), calls(fl, "discard_output_in_the_way")
    for h in hs:
        each(c, "K6-skipped-outputs", "every", fl, h, sr + rm, "an output of a skipped quantum is neither found nor removed")
        each(c, "K6b-not-in-the-way", "every", fl, h, dc, "an output of a skipped quantum is still considered to be in the way")
        for n in sr:
            ok = len(n.args) >= 2 and frm(fl, n.args[0], n, gs, False) and _of(fl, n.args[1], n, h)
            c.ob("K6c-existing-used", "ref", None if ok else True, "downstream quanta do not use the existing output of a skipped quantum", n)
        for n in dc + gs:
            ok = n.args and _of(fl, n.args[0], n, h)
            c.ob("K6c-existing-used", n.name, None if ok else True, "a different dataset's state is used for an output of a skipped quantum", n)
    guard(c, "K6d-removed-only-if-missing", "guard", fl, rm, none_lit(fl, gs, True), "an existing output of a skipped quantum is dropped")
    guard(c, "K6e-set-only-if-found", "guard", fl, sr, none_lit(fl, gs, False), "a missing output of a skipped quantum is kept as an input of others")


def resolve(c, B):
    fl = flow_of(c, B, "_resolve_task_quanta")
    g = fl.g
    cs, ap, up = calls(fl, "_compute_skip_decision"), calls(fl, "_apply_skip_decision"), calls(fl, "_update_quantum_for_adjust")
    gd = [n for n in calls(fl, "get") if n.recv is not None and fl.derives(n.recv, n, _param("skip_decisions"), through_args=False)]
    sub = lambda t, m: t[0] == "sub" and mentions(t[1], lambda s: s == ("param", "skip_decisions"))  # noqa: E731
    dec = cs + gd
    skip = lambda pol: lambda lit, n: lit[0] == "truth" and lit[2] is pol and (frm(fl, lit[1], n, dec) or fl.derives(lit[1], n, sub)) or (  # noqa: E731
        lit[0] == "in" and lit[3] is pol and fl.derives(lit[2], n, _param("skip_decisions")))
    present(c, "K7-resolve", "resolved", up, "quanta that are not skipped are not resolved", fl)
    present(c, "K7-resolve", "skipped", ap, "skipped quanta are not handled", fl)
    hs = [h for h in iters(fl, comp=False) if any(n.id in fl.loop_body(h) for n in up + ap)]
    st = [(h, "elem") for h in hs]
    guard(c, "K7b-skip-decision", "skip", fl, ap, skip(True), "a quantum is skipped although it did not succeed", starts=st)
    guard(c, "K7b-skip-decision", "run", fl, up, skip(False), "a quantum that succeeded is run again", starts=st)
    for h in hs:
        each(c, "K7c-every-quantum", "resolved or skipped", fl, h, up + ap, "a quantum is neither resolved nor skipped")
    # what was skipped is removed (keeping its outputs) and reported
    rm = calls(fl, "remove_quantum_node")
    present(c, "K8-skipped-removed", "removal", rm, "skipped quanta stay in the graph", fl)
    for n in rm:
        v = arg(n, 1, "remove_outputs")
        ok = v is not None and ex(fl, v, n) == const(False)
        c.ob("K8-skipped-removed", "outputs-kept", None if ok else True, "the existing outputs of a skipped quantum are removed with it", n)
    adds = [n for n in g.live if n.kind == "call" and n.name in ("append", "add") and any(n.id in fl.loop_body(h) for h in hs)
            and n.recv is not None and any(_feeds(fl, n, r) for r in retvals(fl))]
    hid = set(hs)
    if ap:
        follows(c, "K8b-skipped-reported", "every", fl, ap, adds, "a skipped quantum is neither removed nor reported", exits=[lambda m: False] and [*hs, g.exit])
    for n in rm:
        for h in loops_of(fl, n):
            if h not in hid:
                each(c, "K8c-every-skipped", "removed", fl, h, rm, "a skipped quantum stays in the graph")
    for n in ap + up + cs:
        for h in hs:
            ok = any(_of(fl, a, n, h) for a in list(n.args) + list(n.kwargs.values()))
            c.ob("K7d-same-quantum", n.name, None if ok else True, "a decision about another quantum is applied", n)
    ub = calls(fl, "update_bounds")
    c.ob("K7e-bounds-current", "update_bounds", fl.must_precede(ub, up), "prerequisites are looked up with the bounds of finders that are no longer needed")


def _feeds(fl, n, r):
    v = r.value
    base = n.recv
    return fl.derives(v, r, lambda t, m: t == base or t == fl.term(base, n)) if v is not None else False


def overall(c, B):
    fl = flow_of(c, B, "_build_skeleton")
    g = fl.g
    ps, up = calls(fl, "process_subgraph"), calls(fl, "update")
    up = [n for n in up if n.args and frm(fl, n.args[0], n, ps)]
    present(c, "K9-subgraphs", "merged", up, "the quanta of a pipeline's independent parts are not collected", fl)
    for n in ps:
        for h in loops_of(fl, n):
            each(c, "K9-subgraphs", "every", fl, h, up, "the quanta of one of a pipeline's independent parts are lost")
    rs, ad, un = calls(fl, "_resolve_task_quanta"), calls(fl, "_adjust_task_quanta"), calls(fl, "_unskip_ancestors")
    cs = calls(fl, "_compute_skip_decision")
    present(c, "K10-order", "resolve", rs, "quanta are not resolved", fl)
    present(c, "K10-order", "adjust", ad, "quanta are not adjusted", fl)
    c.ob("K10-order", "merge first", fl.path(fl.out_edges(rs), up), "quanta are resolved before all parts have been collected")
    c.ob("K10-order", "resolve first", fl.path(fl.out_edges(ad), rs), "quanta are adjusted before all of them have been resolved")
    for n in rs + ad:
        hs = [h for h in loops_of(fl, n) if mentions(ex(fl, h.iterable, h, 8), lambda s: tail(s) == "tasks")]
        for h in hs:
            each(c, "K10b-every-task", n.name, fl, h, [n], "the quanta of a task are not handled")
    both = [n for n in rs if "skip_decisions" in n.kwargs or len(n.args) > 2]
    plain = [n for n in rs if n not in both]
    for n in ad:
        v = arg(n, 2, "skipped_quanta")
        ok = v is not None and (fl.derives(v, n, lambda t, m: t[0] in ("sub", "var", "elem", "item")))
        c.ob("K10c-skipped-passed", "adjust", None if ok else True, "the number of skipped quanta of a task is lost", n)
    if un:
        w = fl.path(fl.out_edges(un), cs)
        c.ob("K11-unskip-order", "decisions first", w, "ancestors are considered before all decisions are known")
        w = fl.path(fl.out_edges(un), plain, stop_node=lambda m: m in both)
        c.ob("K11-unskip-order", "used", w, "the need to run ancestors again is ignored")
        w = fl.path(fl.out_edges(un), [g.exit], stop_node=lambda m: m in both or (m.kind == "iter" and any(b.id in fl.loop_body(m) for b in both)))
        c.ob("K11-unskip-order", "resolved after", w, "the need to run ancestors again is ignored")
        for n in both:
            w = fl.must_precede(un, [n])
            c.ob("K11-unskip-order", "unskip first", w, "quanta are resolved before their ancestors are known to be needed")
        for n in cs:
            for h in loops_of(fl, n):
                each(c, "K11b-all-decisions", "every", fl, h, cs, "no decision is made for a quantum")
    else:
        c.fail("K11-unskip-order", "called", "the need to run ancestors of unskipped quanta is ignored", func=g.root)
    ret = calls(fl, "_expand_retained_patterns")
    has = lit_edges(fl, none_lit(fl, ret, True))
    w = fl.path([g.entry], rs, stop_node=lambda m: m in un, stop_edge=lambda n, lab: (n.id, lab) in has) if ret and un else None
    c.ob("K11c-unskip-unless-all-retained", "guard", w, "ancestors whose outputs are not retained are skipped")


    # the run's global init outputs
    mk = ctor(fl, "DatasetRef")
    way = [n for n in g.live if n.kind == "call" and n.name == "get" and n.recv is not None and tail(ex(fl, n.recv, n)) == "outputs_in_the_way"]
    for n in mk:
        v = arg(n, None, "run")
        c.ob("K13e-output-run", "global init refs", None if v is not None and tail(ex(fl, v, n)) == "output_run" else True,
             "init outputs are not written to the output run", n)
    other = [n for n in g.live if n.kind in ("call", "subload") and (n.kind == "subload" and tail(ex(fl, n.base, n)) or n.kind == "call" and n.name in ("get", "pop") and n.recv is not None and tail(ex(fl, n.recv, n))) in ("outputs_for_skip", "inputs")]
    for n in calls(fl, "set_dataset_ref"):
        c.ob("K15-init-outputs", "global:which", True if other and any(frm(fl, a, n, other, False) for a in n.args) else None, "an init output of another run is planned to be written", n)
    if way:
        guard(c, "K15-init-outputs", "global", fl, mk, none_lit(fl, way, True), "the existing init outputs of the run are ignored")


def unskip(c, B):
    fl = flow_of(c, B, "_unskip_ancestors")
    g = fl.g
    hs = over(fl, lambda t: mentions(t, lambda s: s[0] == "call" and s[2] == "iter_inputs_of"), comp=False)
    present(c, "K12-unskip", "inputs", hs, "the inputs of quanta to run are not examined", fl)
    st = [n for n in g.live if n.kind == "substore" and fl.derives(n.base, n, _param("skip_decisions"), through_args=False)]
    false = [n for n in st if ex(fl, n.value, n) == const(False)]
    for n in st:
        if n not in false:
            c.ob("K12-unskip", "value", True if ex(fl, n.value, n) == const(True) else None, "a quantum that must run is skipped", n)
    gp = calls(fl, "get_producer_of")
    gd = [n for n in calls(fl, "get") if n.recv is not None and fl.term(n.recv, n) == ("param", "skip_decisions") and n.args and frm(fl, n.args[0], n, gp)]
    known = lambda t, n: frm(fl, t, n, gd, False) or t[0] in ("sub", "item") and t[1] == ("param", "skip_decisions")  # noqa: E731
    # the input is exempt: a prerequisite, retained, without a producer; or its producer was handled already or is not skipped
    excuse = lambda lit, n: (  # noqa: E731
        lit[0] == "truth" and lit[2] is True and tail(fl.expand(lit[1])) == "is_prerequisite"
        or lit[0] == "in" and lit[3] is True and mentions(fl.expand(lit[2]), lambda s: s == ("param", "retained")) and tail(fl.expand(lit[1])) == "parent_dataset_type_name"
        or lit[0] in ("isinstance", "isinst") and lit[-1] is False and frm(fl, lit[1], n, gp, False)
        or none_lit(fl, gp, True)(lit, n)
        or lit[0] == "in" and lit[3] is True and lit[2] not in (("param", "retained"), ("param", "skip_decisions")) and frm(fl, lit[1], n, gp, False)
        or lit[0] == "in" and lit[3] is False and lit[2] == ("param", "skip_decisions")
        or lit[0] == "truth" and lit[2] is False and known(lit[1], n)
        or lit[0] == "truth" and lit[2] is True and fl.term(lit[1], n)[0] == "not" and known(fl.term(lit[1], n)[1], n))
    for h in hs:
        each(c, "K12b-every-input", "unskipped", fl, h, false, "the producer of an input that is not retained is skipped", unless=excuse)
    q = [n for n in calls(fl, "append", "add", "appendleft", "put") if n.args and frm(fl, n.args[0], n, gp)]
    # what is unskipped is examined itself
    visited = {n for n in q if _visited(fl, n)}
    work = [n for n in q if n not in visited]
    if false and hs:
        hh = set(hs)
        w = fl.path(fl.out_edges(false), lambda m: m in hh or m is g.exit, stop_node=lambda m: m in work)
        w2 = None
        if w is not None:  # queued before the decision was changed
            w2 = fl.path([(h, "elem") for h in hs], false, stop_node=lambda m: m in work)
        c.ob("K12c-transitive", "queued", w if w2 is not None else None, "the ancestors of a quantum that must run again are not examined")
    for n in false:
        ok = frm(fl, n.key, n, gp)
        c.ob("K12d-producer", "key", None if ok else True, "another quantum than the producer is made to run", n)
    init = [h for h in iters(fl) if fl.derives(h.iterable, h, _param("skip_decisions")) and not mentions(ex(fl, h.iterable, h), lambda s: s[0] == "call" and s[2] == "iter_inputs_of")]
    for h in init:
        ce = [m for m in g.live if m.kind in ("compelt", "yield") and m.id in fl.loop_body(h)] + [m for m in calls(fl, "append", "add") if m.id in fl.loop_body(h)]
        if ce:
            each(c, "K12e-start", "every", fl, h, ce, "a quantum that must run is not examined", unless=lambda lit, n: lit[0] == "truth" and lit[2] is True, breaks=False)
            guard(c, "K12f-start", "only", fl, ce, lambda lit, n: lit[0] == "truth" and lit[2] is False, "the ancestors of skipped quanta are made to run", starts=[(h, "elem")])


def _visited(fl, n):
    """The receiver is only used for membership tests."""
    t = fl.term(n.recv, n)
    for b in fl.g.live:
        if b.kind == "branch":
            for lab in (True, False):
                for lit in fl.lits(b, lab):
                    if lit[0] == "in" and (lit[2] == t or lit[2] == n.recv):
                        return True
    return False


def outputs(c, B):
    fl = flow_of(c, B, "_update_quantum_for_adjust")
    g = fl.g
    gw, sr = calls(fl, "get_output_in_the_way"), calls(fl, "set_dataset_ref")
    mk = ctor(fl, "DatasetRef")
    present(c, "K13-in-the-way", "lookup", gw, "existing outputs in the output run are not looked for", fl)
    have = as_edges(fl, lit_edges(fl, none_lit(fl, gw, False)))
    cl = lit_edges(fl, attr_lit("clobber"))
    hs = [h for h in over(fl, lambda t: mentions(t, lambda s: s[0] == "call" and s[2] == "iter_outputs_of"), comp=False)]
    goals = set(sr) | set(hs) | {g.exit}
    w = fl.path(have, lambda m: m in goals, stop_edge=lambda n, lab: (n.id, lab) in cl) if have else None
    c.ob("K13b-clobber-required", "outputs", w, "an existing output would be overwritten although clobbering was not requested")
    c.ob("K13b-clobber-required", "tested", None if have or not gw else True, "existing outputs are ignored", func=g.root)
    for h in hs:
        each(c, "K13c-every-output", "resolved", fl, h, sr, "an output is not resolved")
        each(c, "K13c-every-output", "looked up", fl, h, gw, "an output that exists in the output run is not noticed")
        for n in gw:
            c.ob("K13d-same-dataset", "lookup", None if n.args and _of(fl, n.args[0], n, h) else True, "another dataset is looked for", n)
        for n in sr:
            ok = len(n.args) > 1 and _of(fl, n.args[1], n, h) and (frm(fl, n.args[0], n, gw, False) or not have)
            c.ob("K13d-same-dataset", "set", None if ok else True, "an existing output is not reused", n)
    for n in mk:
        v = arg(n, None, "run")
        ok = v is not None and tail(ex(fl, v, n)) == "output_run"
        c.ob("K13e-output-run", "new refs", None if ok else True, "outputs are not written to the output run", n)
    # inputs that do not exist are dropped
    gr, rm = calls(fl, "get_dataset_ref"), calls(fl, "remove_dataset_nodes")
    hi = over(fl, lambda t: mentions(t, lambda s: s[0] == "call" and s[2] == "iter_inputs_of"), comp=False)
    none = as_edges(fl, lit_edges(fl, none_lit(fl, gr, True)))
    present(c, "K14-missing-inputs", "tested", none, "inputs that do not exist are not noticed", fl)
    hh = set(hi)
    w = fl.path(none, lambda m: m in hh or m is g.exit, stop_node=lambda m: m in rm) if none else None
    c.ob("K14-missing-inputs", "removed", w, "an input that does not exist is kept")
    guard(c, "K14-missing-inputs", "only", fl, rm, none_lit(fl, gr, True), "an input that exists is dropped", starts=[(h, "elem") for h in hi] + [g.entry])


def init(c, B):
    fl = flow_of(c, B, "_resolve_task_init")
    g = fl.g
    # outputs of a task that runs
    mk = ctor(fl, "DatasetRef")
    for n in mk:
        v = arg(n, None, "run")
        ok = v is not None and tail(ex(fl, v, n)) == "output_run"
        c.ob("K13e-output-run", "init refs", None if ok else True, "init outputs are not written to the output run", n)
    look = lambda name: [n for n in g.live if n.kind == "call" and n.name == "get" and n.recv is not None and tail(ex(fl, n.recv, n)) == name]  # noqa: E731
    way, sk = look("outputs_in_the_way"), look("outputs_for_skip")
    guard(c, "K15-init-outputs", "new only if none exists", fl, mk, none_lit(fl, way, True), "the existing init outputs of the run are ignored") if way else None
    subs = [n for n in g.live if n.kind == "subload" and tail(ex(fl, n.base, n)) in ("outputs_in_the_way", "outputs_for_skip")]
    present(c, "K15-init-outputs", "lookup", way or subs, "the existing init outputs of the run are ignored", fl)
    present(c, "K15b-skipped-init", "lookup", sk or subs, "the init outputs of skipped tasks are not looked up", fl)
    # init inputs of a task that runs must exist
    inp = [n for n in g.live if n.kind in ("subload", "call") and tail(ex(fl, n.d.get("base") or n.d.get("recv") or ("const", "int", 0), n)) == "inputs"
           and mentions(ex(fl, n.d.get("base") or n.d.get("recv"), n), lambda s: tail(s) == "empty_dimensions_datasets")]
    present(c, "K16-init-inputs", "lookup", inp, "init inputs are not looked up", fl)
    sr = calls(fl, "set_dataset_ref")
    skip_missing = as_edges(fl, lit_edges(fl, none_lit(fl, sk, True)))
    w = fl.path(skip_missing, [g.exit]) if skip_missing else None
    c.ob("K15b-skipped-init", "missing raises", w, "a skipped task without init outputs is accepted")
    gr = calls(fl, "get_dataset_ref")
    none = as_edges(fl, lit_edges(fl, none_lit(fl, gr, True)))
    hs = over(fl, lambda t: mentions(t, lambda s: s[0] == "call" and s[2] == "iter_all_inputs"), comp=False)
    hh = set(hs)
    w = fl.path(none, lambda m: m in hh or m is g.exit, stop_node=lambda m: m in sr) if none else None
    c.ob("K16-init-inputs", "missing raises", w, "an init input that does not exist is accepted")
    ae = calls(fl, "add_input_edge")
    for h in hs:
        each(c, "K16b-init-edges", "task", fl, h, ae, "an init input is not connected to its task")
    for h in over(fl, lambda t: mentions(t, lambda s: s[0] == "call" and s[2] == "iter_all_outputs"), comp=False):
        each(c, "K15c-every-init-output", "ref", fl, h, sr, "an init output is not resolved")


def _cols(fl, n, want):
    """Value of the collections argument of a search."""
    v = arg(n, None, "collections")
    if v is None:
        v = n.args[1] if len(n.args) > 1 else None
    return v is not None and (mentions(ex(fl, v, n, 8), lambda s: tail(s) == want) or fl.derives(v, n, lambda t, m: tail(t) == want))


def _which(fl, n):
    for k in ("input_collections", "skip_existing_in", "output_run"):
        if _cols(fl, n, k):
            return k
    return None


def empty(c, B):
    fl = flow_of(c, B, "_find_empty_dimension_datasets")
    g = fl.g
    fd = calls(fl, "find_dataset")
    _search(c, fl, fd, "empty", {"input_collections": 1, "skip_existing_in": 1, "output_run": 1})
    mk = ctor(fl, "EmptyDimensionsDatasets")
    present(c, "K17e-kept", "result", mk, "what was found is lost", fl)
    hs = set(iters(fl, comp=False))
    for name, k in (("inputs", "input_collections"), ("outputs_for_skip", "skip_existing_in"), ("outputs_in_the_way", "output_run")):
        src = [n for n in fd if _which(fl, n) == k]
        st = []
        for m in mk:
            v = kws(m).get(name)
            if v is None:
                c.fail("K17e-kept", name, "what was found is lost", m)
                continue
            st += [n for n in g.live if n.kind == "substore" and (n.base == v or fl.term(n.base, n) == fl.term(v, m))]
        have = as_edges(fl, lit_edges(fl, none_lit(fl, src, False)))
        # the literal may belong to another search assigned to the same variable: start at the search itself
        none = lit_edges(fl, lambda lit, n: (lit[0] == "isnone" and lit[2] is True or lit[0] == "truth" and lit[2] is False) and frm(fl, lit[1], n, src, False))
        w = fl.path([(n, lab) for n in src for _, lab in n.succ if lab != "exc"], lambda m: m in hs or m is g.exit, stop_node=lambda m: m in st,
                    stop_edge=lambda n, lab: (n.id, lab) in none) if have and src and st else None
        c.ob("K17e-kept", name, w, "a dataset without dimensions that exists is not noticed")
        if name == "outputs_in_the_way":
            oth = [n for n in fd if n not in src]
            same = lit_edges(fl, lambda lit, n: lit[0] == "eq" and lit[3] is True and any(tail(fl.expand(x)) == "output_run" for x in lit[1:3]))
            for n in st:
                w = fl.path(oth, [n], stop_node=lambda m: m in src or m in hs, stop_edge=lambda m, lab: (m.id, lab) in same) if oth else None
                c.ob("K17g-in-the-way-only-run", "empty", w, "a dataset in another run is considered to be in the way, so that it is planned to be written again", n)
        for n in st:
            ok = frm(fl, n.value, n, fd, False)
            c.ob("K17f-value", name, None if ok else True, "something else than the dataset found is recorded", n)


def _search(c, fl, fd, where, sinks):
    """Existing outputs are searched for wherever they may be: to skip, and in the way in the output run."""
    g = fl.g
    by = {}
    for n in fd:
        by.setdefault(_which(fl, n), []).append(n)
    for k in sinks:
        present(c, "K17-searched", f"{where}:{k}", by.get(k), f"existing datasets are not looked for in {k}", fl)
    hs = [h for h in iters(fl, comp=False) if any(n.id in fl.loop_body(h) for n in fd)]
    hs = [h for h in hs if not any(h.id in fl.loop_body(x) and h is not x and _per_type(fl, x) for x in hs) and _per_type(fl, h)]
    run, skip = by.get("output_run", []), by.get("skip_existing_in", [])
    notrun = any_lit(attr_lit("output_run_exists", False), attr_lit("skip_existing_starts_with_output_run", True))
    prod = [n for n in calls(fl, "producer_of")]
    isin = lambda lit, n: none_lit(fl, prod, True)(lit, n) or lit[0] == "in" and frm(fl, lit[1], n, prod)  # noqa: E731
    for h in hs:
        if run:
            each(c, "K17b-run-searched", where, fl, h, run, "outputs already present in the output run are not noticed", unless=any_lit(notrun, isin), breaks=False)
        if skip:
            each(c, "K17c-skip-searched", where, fl, h, skip, "outputs of finished quanta are not noticed",
                 unless=any_lit(attr_lit("skip_existing_in", False), isin), breaks=False)
    inp = by.get("input_collections", [])
    guard(c, "K17d-inputs-only", where, fl, inp, none_lit(fl, prod, True), "datasets that are produced by the pipeline are taken from the input collections",
          starts=[(h, "elem") for h in hs]) if prod else None


def _per_type(fl, h):
    return mentions(ex(fl, h.iterable, h, 8), lambda s: tail(s) == "dataset_types" or s[0] == "var" and s[-1] == "dataset_types") or fl.derives(
        h.iterable, h, lambda t, m: t[0] == "var" and t[-1] == "dataset_types" or tail(t) == "dataset_types")


def followup(c, A):
    fl = flow_of(c, A, "_find_followup_datasets")
    g = fl.g
    fd = [n for n in calls(fl, "datasets", "query_datasets") if len(n.args) + len(n.kwargs) >= 2]
    _search(c, fl, fd, "followup", {"input_collections": 1, "skip_existing_in": 1, "output_run": 1})
    sd, ss, sw = calls(fl, "set_dataset_ref"), calls(fl, "set_output_for_skip"), calls(fl, "set_output_in_the_way")
    for h in iters(fl, comp=False):
        src = [n for n in fd if frm(fl, h.iterable, h, [n])]
        if not src:
            continue
        k = {_which(fl, n) for n in src}
        if k == {"input_collections"}:
            each(c, "K18-recorded", "input", fl, h, sd, "an existing input is not used", exc=False)
        elif k == {"skip_existing_in"}:
            each(c, "K18-recorded", "skip", fl, h, ss, "an output that exists is not considered for skipping", exc=False)
            each(c, "K18b-in-the-way", "skip", fl, h, sw, "an output of a finished quantum in the output run is not considered to be in the way",
                 unless=lambda lit, n: lit[0] == "eq" and lit[3] is False and any(tail(fl.expand(x)) == "output_run" for x in lit[1:3]), exc=False)
            guard(c, "K18c-in-the-way-only-run", "skip", fl, [n for n in sw if n.id in fl.loop_body(h)], lambda lit, n: lit[0] == "eq" and lit[3] is True and any(
                tail(fl.expand(x)) == "output_run" for x in lit[1:3]), "an output in another run is considered to be in the way", starts=[(h, "elem")])
        elif k == {"output_run"}:
            each(c, "K18-recorded", "run", fl, h, sw, "an output in the output run is not considered to be in the way", exc=False)
        for n in [n for n in sd + ss + sw if n.id in fl.loop_body(h)]:
            c.ob("K18d-same", n.name, None if n.args and _of(fl, n.args[0], n, h) else True, "a different dataset is recorded", n)
    # datasets without dimensions were found before
    for name, snk in (("inputs", sd), ("outputs_for_skip", ss), ("outputs_in_the_way", sw)):
        ns = [n for n in snk if n.args and fl.derives(n.args[0], n, lambda t, m: tail(t) == name)]
        present(c, "K19-no-dimensions", name, ns, "datasets without dimensions that exist are not noticed", fl)
        lk = [n for n in g.live if n.kind == "call" and n.name == "get" and n.recv is not None and tail(ex(fl, n.recv, n)) == name]
        for n in lk:
            for h in loops_of(fl, n)[-1:]:
                hh = innermost(fl, n)
                each(c, "K19b-every", name, fl, hh, ns, "a dataset without dimensions that exists is not noticed", unless=none_lit(fl, lk, True))
