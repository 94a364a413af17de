"""Execution of one quantum: success marker, existing outputs, inputs, context, log capture."""

from __future__ import annotations

import ast

from ..flow import subterms
from ..ir import unknown
from ..lib import Check, calls, const, edges, exc_edges, excis, from_call, mentions, self_flag, stores, unbound

MOD = "lsst.pipe.base.single_quantum_executor"
ROOT = "single_quantum_executor.SingleQuantumExecutor.execute"
CAV = "lsst.pipe.base._status.QuantumSuccessCaveats"


def _root(c):
    fl = c.flow(ROOT, inline=lambda f: f.module.name == MOD)
    put = [n for n in calls(fl, "put") if _is_butler(fl, n)]
    run = calls(fl, "runQuantum")
    make = calls(fl, "makeTask")
    c.require(run and make, "SingleQuantumExecutor no longer constructs and runs the task")
    return fl, put, run, make


def _is_butler(fl, n):
    if n.recv is None:
        return False
    t = fl.term(n.recv, n)
    rt = n.recv_type
    return (rt is not None and rt[0].endswith("Butler")) or mentions(t, lambda s: (s[0] in ("param", "var") and "butler" in str(
        s[-1])) or (s[0] == "attr" and "butler" in s[2]))


def success_marker(c: Check):
    fl, put, run, make = _root(c)
    g = fl.g
    c.ob("Q0-metadata-written", "execute", None if put else True, "task metadata is never written", func=g.root)
    if not put:
        return
    pid = {n.id for n in put}
    soft = {(n.id, lab) for nm in ("NoWorkFound", "AnnotatedPartialOutputsError") for n, lab in excis(fl, nm)}
    sedge = lambda n, lab: (n.id, lab) in soft  # noqa: E731
    # Q1: failure => no metadata
    w = fl.path(exc_edges(make), put)
    c.ob("Q1-no-metadata-after-failure", "task construction", w, "metadata is written although the task could not be constructed", put[0])
    w = fl.path(exc_edges(run), put, stop_edge=sedge)
    c.ob("Q1-no-metadata-after-failure", "task execution", w, "metadata is written although the task raised", put[0])
    part = [e for e in excis(fl, "AnnotatedPartialOutputsError")]
    part = [e for e in part if fl.path(exc_edges(run), [e[0]])]
    if part:
        w = fl.path(part, put, init={self_flag("_raise_on_partial_outputs"): "T"})
        c.ob("Q1b-partial-outputs-fail", "raise_on_partial_outputs", w,
             "partial outputs are treated as success although they were configured to be failures", put[0])
        w = fl.path(part, [g.exit], init={self_flag("_raise_on_partial_outputs"): "T"})
        c.ob("Q1b-partial-outputs-fail", "exit", w, "the quantum can succeed although partial outputs are configured as failures")
        w = fl.path(part, lambda n: n is g.exc_exit, stop_node=lambda n: n.id in pid,
                    init={self_flag("_raise_on_partial_outputs"): "F"}, raising=False)
        c.ob("Q1c-partial-outputs-proceed", "default", w, "partial outputs are treated as a failure although configured as success")
    else:
        c.fail("Q1b-partial-outputs-fail", "raise_on_partial_outputs", "partial-output errors are not handled", func=g.root)
    # Q2: success => metadata
    w = fl.path([(n, None) for n in run], [g.exit], stop_edge=lambda n, lab: n.id in pid and lab != "exc")
    c.ob("Q2-success-writes-metadata", "task execution", w, "the quantum can be reported successful without metadata having been written")
    nw = [e for e in excis(fl, "NoWorkFound") if not fl.path(exc_edges(run), [e[0]])]
    if not nw:
        c.fail("Q2-success-writes-metadata", "no work", "a quantum found to have no work is not told apart from a failure", func=g.root)
        return
    w = fl.path(nw, [g.exit], stop_edge=lambda n, lab: n.id in pid and lab != "exc")
    c.ob("Q2-success-writes-metadata", "no work", w, "a quantum with no work is reported successful without metadata having been written")
    w = fl.path(nw, make + run)
    c.ob("Q3-no-work-not-run", "no work", w, "the task is run although adjusting the quantum found no work")
    # metadata is the last thing written: only after the task ran or no work was found
    rid = {n.id for n in run}
    nwid = {(n.id, lab) for n, lab in nw}
    w = fl.path([g.entry], put, stop_node=lambda n: n.id in rid, stop_edge=lambda n, lab: (n.id, lab) in nwid)
    c.ob("Q2b-metadata-after-run", "execute", w, "metadata is written before the task has run", put[0])
    w = fl.path(fl.out_edges(put), run + make)
    c.ob("Q2b-metadata-after-run", "order", w, "the task runs after its metadata was written", put[0])
    # Q3: caveats recorded
    cav = [n for n in g.live if n.kind == "substore" and fl.term(n.key, n) == const("caveats")]
    cid = {n.id for n in cav}
    w = fl.path([g.entry], put, stop_node=lambda n: n.id in cid)
    c.ob("Q4-caveats-recorded", "execute", w, "metadata of a successful quantum lacks its caveats", put[0])
    outs = {n.id for n in g.live if n.kind == "substore" and fl.term(n.key, n) == const("outputs")}
    w = fl.path([g.entry], put, stop_node=lambda n: n.id in outs)
    c.ob("Q4b-outputs-recorded", "execute", w, "metadata of a successful quantum lacks the list of outputs", put[0])
    for n in cav:
        after_run = fl.path([(r, None) for r in run], [n]) is not None
        if after_run:
            ok = fl.derives(n.value, n, lambda t, m: t[0] == "attr" and t[2] == "FLAGS")
            c.ob("Q4c-caveats-value", "task execution", None if ok else True, "the recorded caveats are not those of the run", n)
        else:
            ok = fl.derives(n.value, n, lambda t, m: (t[0] == "tmp" and g.nodes[t[1]].kind == "call" and g.nodes[t[1]].name ==
                            "from_adjust_quantum_no_work") or t == ("glob", CAV + ".ADJUST_QUANTUM_RAISED"))
            c.ob("Q4c-caveats-value", "no work", None if ok else True, "a no-work quantum is not recorded as such", n)
    _flags(c, fl, run, cav)
    # Q5: exceptions propagate, are recorded in the log extras, together with the metadata so far
    w = fl.path(exc_edges(make) + exc_edges(run), [g.exit], stop_edge=sedge)
    c.ob("Q5-exceptions-propagate", "execute", w, "an exception raised by the task is swallowed")
    for name, what in (("exception", "the exception"), ("metadata", "the task metadata")):
        st = {n.id for n in stores(fl, name, lambda t: t != const(None))}
        w = fl.path(exc_edges(make) + exc_edges(run), [g.exc_exit], stop_node=lambda n: n.id in st, stop_edge=sedge,
                    raising=make + run)
        c.ob("Q5b-failure-details-logged", name, w, f"{what} of a failed quantum is not attached to its logs")
    # attached metadata includes outputs written before the failure
    ext = [n for n in calls(fl, "extend", "append", "update") if n.args and fl.derives(
        n.args[0], n, lambda t, m: t[0] == "attr" and t[2] == "outputsPut")]
    eid = {n.id for n in ext}
    eid |= {n.id for n in g.live if n.kind == "iter" and any(s[0] == "attr" and s[2] == "outputsPut" for s in subterms(
        fl.term(n.iterable, n)))}
    w = fl.path(exc_edges(run) + [(n, None) for n in run], [g.exit, g.exc_exit], stop_node=lambda n: n.id in eid, raising=run)
    c.ob("Q5c-outputs-put-recorded", "run", w, "datasets written by the task are not recorded when it finishes or fails")
    unbound(c, fl, "Q5d-no-masking", "execute")
    # Q6: butlers made by the factory are closed, others are not
    fac = [n for n in g.calls() if n.recv is None and "butler_factory" in str(fl.term(n.d.get("func"), n) if n.d.get("func") else n.callee or n.name)
           or n.name == "_limited_butler_factory"]
    c.require(fac, "limited butler factory is no longer used")
    close = {n.id for n in calls(fl, "close") if _is_butler(fl, n)}
    w = fl.path(fl.out_edges(fac), [g.exit, g.exc_exit], stop_node=lambda n: n.id in close)
    c.ob("Q6-factory-butler-closed", "execute", w, "a butler created for one quantum is not closed", fac[0])
    fid = {n.id for n in fac}
    w = fl.path([g.entry], lambda n: n.id in close, stop_node=lambda n: n.id in fid)
    c.ob("Q6b-shared-butler-kept", "execute", w, "a butler owned by the caller is closed")
    # Q7: config frozen before construction
    fr = calls(fl, "freeze")
    w = fl.must_precede(fr, make)
    c.ob("Q7-config-frozen", "execute", w, "a task is constructed with a configuration that can still change", make[0])


def _flags(c, fl, run, cav):
    """Caveat flags computed by the run reach the metadata."""
    g = fl.g
    def adds(pred):
        out = set()
        for n in g.live:
            if n.kind == "def":
                for v, val in n.defs:
                    if val[0] in ("op", "attr", "glob") and any(pred(s) for s in subterms(fl.term(val, n))) or (
                            val[0] == "op" and any(pred(s) for s in subterms(val))):
                        out.add(n.id)
        return out

    cid = {n.id for n in cav}
    soft = [e for nm in ("NoWorkFound", "AnnotatedPartialOutputsError") for e in excis(fl, nm) if fl.path(exc_edges(run), [e[0]])]
    for e in soft:
        nm = e[0].atom[1][0].rsplit(".", 1)[-1]
        f = adds(lambda s: s[0] == "attr" and s[2] == "FLAGS")
        w = fl.path([e], lambda n: n.id in cid, stop_node=lambda n: n.id in f)
        c.ob("Q4d-early-exit-caveat", nm, w, f"a quantum that ended with {nm} is recorded without the corresponding caveat", e[0])

    def missing(lit):
        return lit[0] == "truth" and lit[2] is False and lit[1][0] == "attr" and lit[1][2] == "outputsPut" or (
            lit[0] == "eq" and lit[3] is True and any(s[0] == "attr" and s[2] == "outputsPut" for s in subterms(fl.expand(lit)))
            and any(s in (("const", "int", 0),) or (s[0] == "call" and s[1] == "builtins.set" and not s[4]) for s in subterms(fl.expand(lit))))

    def differ(lit, pol):
        if lit[0] == "eq" and lit[3] is not pol:
            x = [s[2] for s in subterms(fl.expand(lit)) if s[0] == "attr"]
            return "outputsPut" in x and "allOutputs" in x
        if lit[0] == "truth" and lit[2] is pol:
            x = [s[2] for s in subterms(fl.expand(lit)) if s[0] == "attr"]
            return "outputsPut" in x and "allOutputs" in x
        if lit[0] == "lt" and lit[3] is pol:
            x, y = ([s[2] for s in subterms(fl.expand(t)) if s[0] == "attr"] for t in lit[1:3])
            return "outputsPut" in x and "allOutputs" in y
        return False

    for nm, starts in (("ALL_OUTPUTS_MISSING", edges(fl, missing)), ("ANY_OUTPUTS_MISSING", edges(fl, lambda x: differ(x, True)))):
        f = adds(lambda s: s == ("glob", f"{CAV}.{nm}"))
        if not starts or not f:
            c.fail("Q4e-missing-outputs-caveat", nm, "missing outputs are not recorded as a caveat", run[0])
            continue
        w = fl.path(starts, lambda n: n.id in cid, stop_node=lambda n: n.id in f)
        c.ob("Q4e-missing-outputs-caveat", nm, w, "missing outputs are not recorded as a caveat", starts[0][0])
        sid = {(n.id, lab) for n, lab in starts}
        w = fl.path([g.entry], lambda n: n.id in f, stop_edge=lambda n, lab: (n.id, lab) in sid)
        c.ob("Q4f-missing-outputs-only-then", nm, w, "outputs are recorded as missing although they were not tested to be")
        # tested on every successful run
        tid = {n.id for n, _ in starts}
        w = fl.path([(n, None) for n in run], lambda n: n.id in cid, stop_node=lambda n: n.id in tid)
        c.ob("Q4g-missing-outputs-tested", nm, w, "a run's outputs are not compared with what was predicted")


def existing(c: Check):
    fl, put, run, make = _root(c)
    g = fl.g
    prune = calls(fl, "pruneDatasets")
    SK, CL, AS = self_flag("_skip_existing"), self_flag("_clobber_outputs"), self_flag("_assume_no_existing_outputs")
    # E1: deletion needs clobber
    w = fl.path([g.entry], prune, init={CL: "F"})
    c.ob("E1-prune-needs-clobber", "execute", w, "existing outputs are deleted although clobbering was not requested")
    w = fl.path([g.entry], prune, init={AS: "T"})
    c.ob("E1b-assume-none", "prune", w, "existing outputs are deleted although they were assumed not to exist")
    # E2: only existing outputs of this quantum are deleted
    for n in prune:
        pts = fl.insert_points(n)
        comp = [p for p in pts if p.kind == "compelt"]
        src = fl.derives(n.args[0], n, lambda t, m: t[0] == "attr" and t[2] == "outputs")
        inp = fl.derives(n.args[0], n, lambda t, m: t[0] == "attr" and t[2] in ("inputs", "initInputs"))
        c.ob("E2-prune-own-outputs", "pruneDatasets", None if src and not inp else True,
             "datasets other than the quantum's own outputs are deleted", n)
        if comp:
            w = None
            for p in comp:
                w = w or fl.guarded([p], lambda lit: lit[0] == "truth" and lit[2] is True)
            c.ob("E2b-prune-existing", "pruneDatasets", w, "datasets that do not exist are passed for deletion", n)
    # E3: what leads to skipping
    skip_ret = [n for n in g.live if n.kind == "call" and any(k == "skipped_existing" and fl.term(v, n) == const(True)
                                                            for k, v in n.kwargs.items())]
    if not skip_ret:
        c.fail("E3-skip-needs-request", "result", "no result says that a quantum was skipped because its outputs exist", func=g.root)
        return
    w = fl.path([g.entry], skip_ret, init={SK: "F"})
    c.ob("E3-skip-needs-request", "execute", w, "a quantum is skipped although skipping was not requested", skip_ret[0])
    w = fl.path([g.entry], skip_ret, init={AS: "T"})
    c.ob("E3-skip-needs-request", "assume none", w, "a quantum is skipped although its outputs were assumed not to exist", skip_ret[0])
    stored = edges(fl, lambda lit: lit[0] == "truth" and lit[2] is True and _stored_meta(fl, lit[1]))
    # the completeness test: existing refs non-empty and missing refs empty
    miss = edges(fl, lambda lit: _missing(fl, lit) is False)
    some = edges(fl, lambda lit: _existing(fl, lit) is True)
    ok = {(n.id, lab) for n, lab in stored + miss}
    w = fl.path([g.entry], skip_ret, stop_edge=lambda n, lab: (n.id, lab) in ok)
    c.ob("E3b-skip-needs-success", "execute", w,
         "a quantum is skipped although neither its metadata nor all of its outputs are known to exist", skip_ret[0])
    ok2 = {(n.id, lab) for n, lab in stored + some}
    w = fl.path([g.entry], skip_ret, stop_edge=lambda n, lab: (n.id, lab) in ok2)
    c.ob("E3b-skip-needs-success", "some outputs", w, "a quantum is skipped although none of its outputs exist", skip_ret[0])
    w = fl.path(stored, make + run + prune, init={SK: "T"})
    c.ob("E4-successful-not-rerun", "metadata exists", w,
         "a quantum whose metadata exists is run again (or its outputs deleted) although skipping was requested")
    w = fl.path([g.entry], make + run + prune, init={SK: "T", AS: "F"}, stop_edge=lambda n, lab: any(
        lit[0] == "truth" and _stored_meta(fl, lit[1]) or (lit[0] == "isnone" and lit[2] is True and mentions(
            fl.expand(lit[1]), lambda s: s[0] == "attr" and s[2] == "metadata_output")) for lit in fl.lits(n, lab)))
    c.ob("E4b-metadata-checked", "skip_existing", w, "with skipping requested, a quantum runs without checking for its metadata")
    w = fl.path(fl.out_edges(skip_ret), run + make + prune + put)
    c.ob("E4c-skip-does-nothing", "skip", w, "a skipped quantum is still run or written")
    # E5: outputs in the way
    w = fl.path(some, make + run, init={SK: "F", CL: "F"})
    c.ob("E5-existing-outputs-fail", "neither flag", w,
         "the task runs over existing outputs although neither skipping nor clobbering was requested")
    w = fl.path(some, [g.exit], init={SK: "F", CL: "F"})
    c.ob("E5-existing-outputs-fail", "returns", w, "existing outputs in the way do not cause an error")
    pr = {n.id for n in prune}
    w = fl.path(some, make + run, stop_node=lambda n: n.id in pr, init={SK: "F"})
    c.ob("E5b-clobber-removes", "clobber", w, "the task runs over existing outputs that were not removed")
    # every output is examined unless told otherwise
    chk = {n.id for n in calls(fl, "stored_many", "stored") if any(fl.derives(
        a, n, lambda t, m: t[0] == "attr" and t[2] == "outputs") for a in n.args)}
    many = {n.id for n in calls(fl, "stored_many") if n.id in chk}
    w = fl.path([g.entry], make, init={AS: "F"}, stop_node=lambda n: n.id in many)
    c.ob("E5c-outputs-checked", "execute", w, "the task runs without looking for existing outputs")
    # E6: logs
    sf, st = stores(fl, "store", lambda t: t == const(False)), stores(fl, "store", lambda t: t == const(True))
    if not (sf and st):
        c.fail("E6-logs-off-while-checking", "store flag",
               "log storage is not switched off while existing outputs are checked and on again for the run", func=g.root)
        return
    chkn = [n for n in g.calls() if n.id in chk]
    w = fl.must_precede(sf, chkn + prune)
    c.ob("E6-logs-off-while-checking", "check", w, "existing outputs are checked while log storage is on", sf[0])
    stid = {n.id for n in st}
    w = fl.path(fl.out_edges(sf), make + run + put, stop_node=lambda n: n.id in stid)
    c.ob("E6b-logs-on-while-running", "run", w, "the task runs with log storage switched off", st[0])
    w = fl.path(fl.out_edges(st), skip_ret, stop_node=lambda n: n in sf)
    c.ob("E6c-logs-off-when-skipped", "skip", w, "logs are stored for a skipped quantum", st[0])
    # previous attempt's logs are attached before they are deleted
    att = {n.id for n in calls(fl, "attach_previous_attempt")}
    logx = edges(fl, lambda lit: lit[0] == "truth" and lit[2] is True and mentions(fl.expand(lit[1]), lambda s: s[0] == "attr" and s[2] == "log_output")
                 and lit[1][0] == "sub")
    if logx:
        w = fl.path(logx, prune + make + run, stop_node=lambda n: n.id in att)
        c.ob("E7-previous-logs-kept", "attach", w, "logs of a previous attempt are deleted without being carried over")
        nolog = edges(fl, lambda lit: (lit[0] == "isnone" and lit[2] is True or lit[0] == "truth" and lit[2] is False) and
                      mentions(lit[1], lambda s: s[0] == "attr" and s[2] == "log_output"))
        skipx = {(n.id, lab) for n, lab in nolog} | {(n.id, lab) for n, _ in logx for lab in (True, False)}
        w = fl.path([g.entry], prune, stop_edge=lambda n, lab: (n.id, lab) in skipx)
        c.ob("E7-previous-logs-kept", "tested", w, "outputs are deleted without looking for logs of a previous attempt")
    else:
        c.fail("E7-previous-logs-kept", "attach", "logs of a previous attempt are not carried over", func=g.root)


def exec_inputs(c: Check):
    fl, put, run, make = _root(c)
    inputs(c, fl, run, make)


def _stored_meta(fl, t):
    e = fl.expand(t)
    if e[0] == "call" and e[2] == "stored":
        return mentions(e, lambda s: s[0] == "attr" and s[2] == "metadata_output")
    return e[0] == "sub" and mentions(e, lambda s: s[0] == "attr" and s[2] == "metadata_output") and mentions(
        e, lambda s: s[0] == "call" and s[2] in ("stored_many",))


def _comp_pol(fl, t):
    """For a comprehension over the existence mapping: True if it collects existing refs, False if missing ones."""
    if t[0] == "comp":
        for p in fl.compelts(t):
            h = fl.g.nodes[t[3][-1]]
            pols = set()
            for pol in (True, False):
                if fl.path([(h, "elem")], [p], stop_node=lambda n: n is h, stop_edge=lambda n, lab: any(
                        lit[0] == "truth" and lit[2] is pol and any(s == ("elem", h.id) for s in subterms(lit[1]))
                        for lit in fl.lits(n, lab))) is None:
                    pols.add(pol)
            if len(pols) == 1:
                return pols.pop()
    if t[0] == "var":
        # list filled in a loop
        ps = set()
        for m in fl.inserts(t):
            for h in fl.enclosing_loops(m):
                if h.kind != "iter":
                    continue
                for pol in (True, False):
                    if fl.path([(h, "elem")], [m], stop_node=lambda n: n is h, stop_edge=lambda n, lab: any(
                            lit[0] == "truth" and lit[2] is pol for lit in fl.lits(n, lab))) is None:
                        ps.add(pol)
        if len(ps) == 1:
            return ps.pop()
    return None


def _existing(fl, lit):
    """True: some existing output; False: none."""
    if lit[0] == "truth" and _comp_pol(fl, lit[1]) is True:
        return lit[2]
    return None


def _missing(fl, lit):
    if lit[0] == "truth" and _comp_pol(fl, lit[1]) is False:
        return lit[2]
    return None


def inputs(c, fl, run, make):
    """Existence of inputs just before running."""
    g = fl.g
    adj = calls(fl, "adjust_in_place")
    if not adj:
        c.fail("I3b-change-adjusts", "inputs", "the quantum runs with missing inputs without its adjustment hook being called", func=g.root)
        return
    QUANT = [n for n in g.calls() if (n.callee or "").endswith(".Quantum") and "inputs" in n.kwargs]
    c.require(QUANT, "no updated quantum is built")
    sm = [n for n in calls(fl, "stored_many") if any(fl.derives(a, n, lambda t, m: t[0] == "attr" and t[2] == "inputs") for a in n.args)]
    c.ob("I1-inputs-checked", "execute", None if sm else True, "inputs are not checked for existence", func=g.root)
    if not sm:
        return
    smid = {n.id for n in sm}
    dropped = edges(fl, lambda lit: lit[0] == "truth" and lit[2] is False and any(
        s[0] == "tmp" and s[1] in smid for s in subterms(lit[1])))
    kept = edges(fl, lambda lit: lit[0] == "truth" and lit[2] is True and any(
        s[0] == "tmp" and s[1] in smid for s in subterms(lit[1])))
    # a stored input is kept
    for n, lab in kept:
        hs = [h for h in fl.enclosing_loops(n) if h.kind == "iter"]
        inner = min(hs, key=lambda h: len(fl.loop_body(h))) if hs else None
        if inner is None:
            continue
        ins = {m.id for m in g.live if m.kind == "call" and m.name in ("append", "add") and m.id in fl.loop_body(inner)}
        ins |= {m.id for m in g.live if m.kind == "compelt" and m.id in fl.loop_body(inner)}
        w = fl.path([(n, lab)], lambda m: m is inner, stop_node=lambda m: m.id in ins)
        c.ob("I2-stored-input-kept", "inputs", w, "an input that exists is dropped from the quantum", n)
        d = [(n, not lab)]
        w = fl.path(d, lambda m: m.id in ins, stop_node=lambda m: m is inner)
        c.ob("I2b-missing-input-dropped", "inputs", w, "an input that does not exist is kept in the quantum", n)
        # changes lead to adjustQuantum: the outer loop compares sizes or notes the change
        outer = [h for h in hs if h is not inner]
        outer = min(outer, key=lambda h: len(fl.loop_body(h))) if outer else None
        lens = {m.id for m in g.live if m.kind == "branch" and any(
            lit[0] in ("eq", "lt") and sum(1 for s in subterms(fl.expand(lit)) if s[0] == "call" and s[1] == "builtins.len") >= 2
            for lit in fl.lits(m, True)) and (outer is None or m.id in fl.loop_body(outer))}
        sets = {m.id for m in g.live if m.kind == "def" and any(
            val == const(True) and not v[2].startswith("$") for v, val in m.defs)}
        goal = (lambda m: m is outer) if outer is not None else (lambda m: m in QUANT)
        w = fl.path(d, goal, stop_node=lambda m: m.id in lens or m.id in sets)
        c.ob("I3-change-noticed", "inputs", w, "dropping a missing input is not noticed, so the task cannot adjust to it", n)
        diff = [(m, l2) for m in g.live if m.id in lens for l2 in (True, False) if any(
            lit[0] == "eq" and lit[3] is False or lit[0] == "lt" and lit[3] is True for lit in fl.lits(m, l2))]
        setsl = [m for m in g.live if m.id in sets and m.id in fl.loop_body(outer or inner)]
        aid = {a.id for a in adj}
        w = fl.path(diff or setsl, QUANT, stop_node=lambda m: m.id in aid)
        c.ob("I3b-change-adjusts", "inputs", w, "the quantum runs with missing inputs without its adjustment hook being called", n)
    c.ob("I2-instances", "inputs", None if kept else True, "the existence of inputs is not tested", sm[0])
    for q in QUANT:
        for k in ("inputs", "outputs"):
            v = q.kwargs.get(k)
            ok = v is not None and fl.derives(v, q, lambda t, m: t[0] == "attr" and t[2] == k and any(
                s[0] == "tmp" and g.nodes[s[1]].kind == "call" and (g.nodes[s[1]].callee or "").endswith("AdjustQuantumHelper")
                for s in subterms(fl.term(t[1], m))))
            c.ob("I4-adjusted-quantum-used", k, None if ok else True, f"the adjusted {k} are not the ones used for execution", q)
    f = c.flow("single_quantum_executor.SingleQuantumExecutor._should_assume_exists")
    rets = [n for n in f.g.live if n.kind == "return" and n.frame.id == 0 and f.term(n.value, n) == const(True)]
    if rets:
        w = f.guarded(rets, lambda lit: lit[0] == "in" and lit[3] is True and mentions(lit[1], lambda s: s[0] == "attr" and s[2] == "id"))
        c.ob("I5-assume-exists", "overall inputs", w, "an input is assumed to exist without a datastore record", rets[0])


def qcontext(c: Check):
    cls = c.prog.cls("_quantumContext.QuantumContext")
    n_get = n_put = 0
    leafs = {f.qual for f in cls.methods.values() if any(
        isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("get", "getDeferred", "put")
        and "butler" in ast.unparse(x.func.value) for x in ast.walk(f.node)) or f.name in ("_get", "_put")}
    leafs -= {f.qual for f in cls.methods.values() if unknown(f)}
    inl = lambda f: f.module.name == "lsst.pipe.base._quantumContext" and f.qual not in leafs  # noqa: E731
    leafnames = {q.rsplit(".", 1)[-1] for q in leafs}
    for name, f in sorted(cls.methods.items()):
        if unknown(f) and name.startswith("_"):
            continue  # part of its callers
        fl = c.flow(f.qual, inline=inl)
        g = fl.g
        if name == "put":
            for n in calls(fl, "put", *leafnames):
                if n.recv is not None and ("butler" in str(fl.term(n.recv, n)) or fl.term(n.recv, n) == ("param", "self")):
                    ref = n.args[1] if len(n.args) > 1 else n.kwargs.get("ref")
                    _pairing(c, fl, n, ref)
        bc = [n for n in g.calls() if n.recv is not None and fl.term(n.recv, n)[0] == "attr" and "butler" in fl.term(n.recv, n)[2]]
        for n in bc:
            if n.name in ("get", "getDeferred"):
                n_get += 1
                _member(c, fl, n, n.args[0] if n.args else n.kwargs.get("ref"), "allInputs", "C1-get-needs-membership",
                        "a dataset that is not an input of the quantum can be read", name)
                pi = [m for m in calls(fl, "add_input") if m.args and fl.term(m.args[0], m) == fl.term(n.args[0], n)]
                w = fl.must_precede(pi, [n])
                c.ob("C4-inputs-in-provenance", name, w, "an input is read without being added to the provenance of the outputs", n)
            elif n.name == "put":
                n_put += 1
                ref = n.args[1] if len(n.args) > 1 else n.kwargs.get("ref")
                _member(c, fl, n, ref, "allOutputs", "C2-put-needs-membership",
                        "a dataset that is not an output of the quantum can be written", name)
                add = [m for m in calls(fl, "add") if fl.term(m.recv, m)[0] == "attr" and fl.term(m.recv, m)[2] == "outputsPut"]
                nid = {n.id}
                aid = {m.id for m in add}
                w = fl.path(fl.out_edges([n]), [g.exit] + [n], stop_node=lambda m: m.id in aid)
                c.ob("C3-put-recorded", name, w, "a dataset is written without being recorded as written", n)
                w = fl.path([g.entry], add, stop_edge=lambda m, lab: m.id in nid and lab != "exc")
                c.ob("C3b-recorded-only-after-put", name, w, "a dataset is recorded as written before it has been", n)
                p = n.kwargs.get("provenance")
                ok = p is not None and mentions(fl.term(p, n), lambda s: s[0] == "attr" and s[2] == "dataset_provenance")
                c.ob("C4b-provenance-passed", name, None if ok else True, "a dataset is written without provenance", n)
            elif n.name not in ("registry",):
                c.fail("C5-butler-use", f"{name}:{n.name}", "the task context exposes another butler operation without a membership check", n)
    c.require(n_get >= 2 and n_put >= 1, "QuantumContext no longer reads and writes through its butler")
    # reads: every requested dataset is returned
    fl = c.flow(cls.methods["get"].qual, inline=inl)
    got = [n for n in fl.g.calls() if n.recv is not None and (n.name in ("get", "getDeferred") and "butler" in str(
        fl.term(n.recv, n)) or n.name in leafnames)]
    for h in fl.loops():
        if h.kind != "iter" or not any(n.id in fl.loop_body(h) for n in got):
            continue
        inner = [k for k in fl.loops() if k.kind == "iter" and k.id in fl.loop_body(h) and any(n.id in fl.loop_body(k) for n in got)]
        ins = {m.id for m in fl.g.live if m.id in fl.loop_body(h) and (m.kind == "substore" or (m.kind == "call" and m.name in ("append", "add"))
               or m.kind == "compelt")}
        if not inner:
            w = fl.path([(h, "elem")], lambda m: m is h, stop_node=lambda m: m.id in ins)
        else:
            subs = {m.id for m in fl.g.live if m.id in ins and not any(m.id in fl.loop_body(k) for k in inner)}
            w = fl.path([(h, "elem")], lambda m: m is h, stop_node=lambda m: m.id in subs)
        c.ob("C6-get-returns-all", f"get:{len(inner)}", w, "a requested dataset is missing from what is returned", h)
    # construction
    fl = c.flow(cls.methods["__init__"].qual)
    for attr, src in (("allInputs", "inputs"), ("allOutputs", "outputs")):
        ins = [m for m in fl.g.live if (m.kind == "call" and m.name in ("add", "update") and m.recv is not None
               and fl.term(m.recv, m) == self_flag(attr)) or (m.kind == "attrstore" and m.name == attr and fl.term(m.value, m)[0] == "comp")]
        ok = any(fl.derives(a, m, lambda t, k: t[0] == "attr" and t[2] == src) for m in ins for a in
                 (m.args if m.kind == "call" else [m.value]))
        other = "outputs" if src == "inputs" else "inputs"
        bad = any(fl.derives(a, m, lambda t, k: t[0] == "attr" and t[2] == other) for m in ins for a in
                  (m.args if m.kind == "call" else [m.value]))
        c.ob("C7-membership-sets", attr, None if ok and not bad else True, f"{attr} is not built from the quantum's {src}",
             ins[0] if ins else None, func=cls.methods["__init__"])
        for m in ins:
            for h in fl.enclosing_loops(m):
                if h.kind != "iter":
                    continue
                inn = {k.id for k in fl.enclosing_loops(m) if k is not h and k.id in fl.loop_body(h)}
                skip = lambda n, lab: any(lit[0] == "truth" and lit[2] is True and mentions(fl.expand(lit[1]), lambda s: (  # noqa: E731
                    s[0] == "call" and s[2] == "endswith")) for lit in fl.lits(n, lab))
                w = fl.path([(h, "elem")], lambda n: n is h, stop_node=lambda n: n is m or n.id in inn, stop_edge=skip)
                c.ob("C7b-membership-complete", attr, w, f"some of the quantum's {src} are left out of {attr}", h)


def _member(c, fl, n, ref, attr, rule, msg, inst):
    rt = fl.term(ref, n)

    def good(lit):
        return lit[0] == "in" and lit[2] == self_flag(attr) and lit[3] is True

    def good_ref(m, lab):
        for lit in fl.lits(m, lab):
            if good(lit) and any(_rel(fl, s, m, rt) for s in [lit[1]]):
                return True
        return False

    w = fl.path([fl.g.entry], [n], stop_edge=good_ref)
    if w is not None:
        # membership verified in a loop over the references
        res = fl.forall_guard([n], lambda h: fl.derives(h.iterable, h, lambda t, m: t == rt or fl.term(t, m) == rt)
                              and any(m.kind == "branch" and m.id in fl.loop_body(h) and any(
                                  x[0] == "in" for x in fl.lits(m, True)) for m in fl.g.live),
                              lambda lit, h: lit[3] if lit[0] == "in" and lit[2] == self_flag(attr) else None)
        w = res and res[0]
    c.ob(rule, f"{inst}:{n.name}", w, msg, n)


def _rel(fl, t, m, rt):
    return any(s == rt for s in subterms(t)) and not any(s[0] == "elem" for s in subterms(t) if s not in list(subterms(rt)))


def _pairing(c, fl, n, ref):
    """Values and references written in a loop come from the same position, after a length check."""
    hs = [h for h in fl.enclosing_loops(n) if h.kind == "iter"]
    if not hs:
        return
    h = min(hs, key=lambda x: len(fl.loop_body(x)))
    iselem = lambda t, m: t == ("elem", h.id) or t[:2] == ("enumidx", h.id)  # noqa: E731
    val = n.args[0]
    many = fl.derives(ref, n, iselem)
    if not many:
        return
    # a single-valued connection iterates over (name, ref) pairs
    both = fl.derives(val, n, iselem)
    c.ob("C8-values-match-refs", "put", None if both else True, "values and references of a multi-dataset put do not correspond", n)
    by_index = not mentions(fl.expand(fl.term(h.iterable, h)), lambda s: s[0] == "call" and s[1] == "builtins.zip" and any(
        k == "strict" for k, _ in s[5]))
    name_loop = mentions(fl.expand(fl.term(val, n)), lambda s: s[0] == "call" and s[2] == "getattr") and len(hs) == 1
    if by_index and not name_loop:
        def same_len(lit):
            return lit[0] == "eq" and lit[3] is True and sum(1 for s in subterms(fl.expand(lit)) if s[0] == "call" and s[1] == "builtins.len") >= 2

        w = fl.path([fl.g.entry], [n], stop_edge=lambda m, lab: any(same_len(x) for x in fl.lits(m, lab)))
        c.ob("C8b-length-checked", "put", w, "a list of values is written without checking that there is one for every reference", n)


def logcapture(c: Check):
    fl = c.flow("log_capture.LogCapture.capture_logging")
    g = fl.g
    ys = [n for n in g.live if n.kind == "yield"]
    c.require(ys, "capture_logging no longer yields")
    add, rem = calls(fl, "addHandler"), calls(fl, "removeHandler")
    for a in add:
        t = fl.term(a.args[0], a)
        rid = {r.id for r in rem if r.args and fl.term(r.args[0], r) == t}
        w = fl.path(fl.out_edges([a]), [g.exit, g.exc_exit], stop_node=lambda n: n.id in rid, raising=ys)
        kind = _ctor_name(fl, t)
        c.ob("L1-handler-removed", kind, w, "the log handler can stay installed after the quantum ended", a)
    c.require(len(add) >= 1, "capture_logging no longer installs a log handler")
    store = [n for n in g.calls() if n.name == "ingest" or (n.name == "put" and n.recv is not None)]
    c.require(store, "logs are never stored")
    sid = {n.id for n in store}
    off = lambda n, lab: any(lit[0] == "truth" and lit[2] is False and lit[1][0] == "attr" and lit[1][2] == "store"  # noqa: E731
                             for lit in fl.lits(n, lab))
    withlog = [y for y in ys if any(fl.path(fl.out_edges([a]), [y]) for a in add)]
    starts = [(y, lab) for y in withlog for _, lab in y.succ]
    rz = withlog
    for y in withlog:
        kind = "streaming" if fl.path([(y, None)], [n for n in store if n.name == "ingest"]) else "memory"
        for _, lab in y.succ:
            how = "failure" if lab == "exc" else "success"
            w = fl.path([(y, lab)], [g.exit, g.exc_exit], stop_node=lambda n: n.id in sid, stop_edge=off, raising=rz)
            c.ob("L2-logs-stored", f"{kind} {how}", w, "logs of a quantum that ran are not stored", y)
        mc = {n.id for n in stores(fl, "metadata", lambda t: t == const(None))}
        w = fl.path([(y, None)], store, stop_node=lambda n: n.id in mc)
        c.ob("L3-no-metadata-in-success-logs", kind, w, "logs of a successful quantum duplicate its metadata", y)
        w = fl.path([(y, "exc")], [n for n in g.live if n.id in mc])
        c.ob("L3b-metadata-kept-on-failure", kind, w, "the metadata of a failed quantum is discarded", y)
        # extra information is written before the logs are stored
        ext = {n.id for n in calls(fl, "write_streaming_extra")} | {n.id for n in stores(fl, "extra")}
        noextra = lambda n, lab: any(lit[0] == "truth" and lit[2] is False and lit[1][0] == "attr" and lit[1][2] == "extra"  # noqa: E731
                                     for lit in fl.lits(n, lab))
        w = fl.path([(y, lab) for _, lab in y.succ], store, stop_node=lambda n: n.id in ext, stop_edge=noextra)
        c.ob("L4-extra-stored", kind, w, "failure details are not stored with the logs", y)
        # the metadata decision is taken before the extra information is serialised
        w = fl.path([(y, None)], lambda n: n.id in ext, stop_node=lambda n: n.id in mc)
        c.ob("L4b-extra-after-decision", kind, w, "extra log information is serialised before the metadata is dropped from it", y)
        r2 = {n.id for n in rem}
        w = fl.path([(y, lab) for _, lab in y.succ], store, stop_node=lambda n: n.id in r2)
        c.ob("L5-removed-before-storing", kind, w, "logs are stored while the handler is still recording", y)
    w = fl.path(starts, store, stop_edge=lambda n, lab: any(lit[0] == "truth" and lit[2] is True and lit[1][0] == "attr" and
                lit[1][2] == "store" for lit in fl.lits(n, lab)))
    c.ob("L2b-not-stored-when-off", "store flag", w, "logs are stored although storing was switched off")
    sw = stores(fl, "store", lambda t: t != const(True))
    w = fl.path([(y, lab) for y in ys for _, lab in y.succ], sw)
    c.ob("L2c-store-flag-untouched", "store flag", w, "log capture itself switches off the storing of logs", sw[0] if sw else None)
    # exceptions propagate
    w = fl.path([(y, "exc") for y in ys], [g.exit])
    c.ob("L6-exceptions-propagate", "capture_logging", w, "an exception raised by the quantum is swallowed by log capture")
    # previous attempts
    f = c.flow("log_capture._ExecutionLogRecordsExtra.attach_previous_attempt")
    old = [n for n in calls(f, "extend") if f.term(n.recv, n) == self_flag("previous_attempts")]
    new = [n for n in calls(f, "append") if f.term(n.recv, n) == self_flag("previous_attempts")]
    clr = [n for n in calls(f, "clear")]
    lg = [n for n in calls(f, "extend", "append") if f.term(n.recv, n)[0] == "attr" and f.term(n.recv, n)[2] == "logs"]
    for x, what in ((old, "older attempts"), (new, "the previous attempt"), (lg, "its log records")):
        w = f.must_precede(x, [f.g.exit])
        c.ob("L7-previous-attempts-kept", what, w, f"{what} are not carried over", func=f.g.root)
    if clr:
        w = f.must_precede(old, clr)
        c.ob("L7b-flatten-order", "clear", w, "older attempts are discarded before being carried over", clr[0])
    if old and new:
        w = f.path(f.out_edges(new), old)
        c.ob("L7c-attempt-order", "order", w, "attempts are recorded out of order", new[0])


def _ctor_name(fl, t):
    if t[0] == "tmp" and fl.g.nodes[t[1]].kind == "call":
        return (fl.g.nodes[t[1]].callee or fl.g.nodes[t[1]].name or "?").rsplit(".", 1)[-1]
    return "handler"


def run(c: Check):
    success_marker(c)
    existing(c)
    exec_inputs(c)
    qcontext(c)
    logcapture(c)
