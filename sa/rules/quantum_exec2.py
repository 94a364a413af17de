"""Execution of one quantum, continued: what the metadata and results say, completeness of the output and input checks."""

from __future__ import annotations

from ..flow import subterms
from ..lib import Check, calls, const, edges, exc_edges, excis, self_flag
from ..q import arg, as_edges, attrs, bycall, comp_filtered, ctor, each, evalpoint, ex, flow_of, full, guard, iters, lit_edges, mentions, partial, tail
from . import quantum_exec as qe


def _defs(fl, e, n):
    """Definitions an expression (usually a variable) may denote, seen through plain copies."""
    e, n = evalpoint(fl, e, n)
    if e[0] == "var":
        return frozenset(d.id for _, _, d in fl.reaching(e, n))
    return frozenset([str(fl.term(e, n))])


def _sub(fl, key):
    return [n for n in fl.g.live if n.kind == "substore" and fl.term(n.key, n) == const(key)]


def _attr(t, *names):
    return any(s[0] == "attr" and s[2] in names for s in subterms(t))


def marker2(c: Check):
    fl, put, run, make = qe._root(c)
    g = fl.g
    if not put:
        return
    cav, outs = _sub(fl, "caveats"), _sub(fl, "outputs")
    qmd = {fl.term(n.base, n) for n in cav}
    quant = [n for n in _sub(fl, "quantum") if fl.term(n.value, n) in qmd]
    job = [n for n in _sub(fl, "job") if fl.expand(fl.term(n.value, n)) == self_flag("_job_metadata")]
    for p in put:
        md = arg(p, 0, "obj")
        ds = _defs(fl, md, p) if md is not None else frozenset()
        inst = "no work" if not fl.path([(r, None) for r in run] + exc_edges(run), [p]) else "task execution"
        qs = {n.id for n in quant if _defs(fl, n.base, n) == ds}
        w = fl.path([g.entry], [p], stop_node=lambda n: n.id in qs)
        c.ob("Q8-quantum-section", inst, w, "the metadata written does not contain the section with the caveats and outputs of this quantum", p)
        js = {n.id for n in job if _defs(fl, n.base, n) == ds}
        nojob = lit_edges(fl, lambda lit, n: (lit[0] == "isnone" and lit[2] is True or lit[0] == "truth" and lit[2] is False)
                          and fl.expand(lit[1]) == self_flag("_job_metadata"))
        w = fl.path([g.entry], [p], stop_node=lambda n: n.id in js, stop_edge=lambda n, lab: (n.id, lab) in nojob)
        c.ob("Q8b-job-section", inst, w, "the metadata written does not contain the job metadata it was configured with", p)
        # nothing of the section is replaced after it was attached by a different object
        for n in outs + cav:
            ok = fl.term(n.base, n) in qmd
            c.ob("Q8c-one-section", f"{inst}:{n.line}", None if ok else True, "caveats and outputs are recorded in different places", n)
    # completeness of the recorded outputs
    for h in iters(fl):
        t = ex(fl, h.iterable, h, 8)
        if _attr(t, "outputsPut") and h.d.get("comp"):
            c.ob("Q9-all-outputs-listed", f"written:{h.line}", True if partial(fl, h) else comp_filtered(fl, h), "a dataset that was written is left out", h)
    for n in outs:
        e, m = evalpoint(fl, n.value, n)
        t = fl.term(e, m)
        if t[0] == "comp":
            h = g.nodes[t[3][-1]]
            c.ob("Q9-all-outputs-listed", f"metadata:{n.line}", True if partial(fl, h) else comp_filtered(fl, h),
                 "a dataset that was written is left out of the metadata", n)
        after_run = fl.path([(r, None) for r in run], [n]) is not None
        if after_run:
            ok = fl.derives(n.value, n, lambda t, m: t[0] == "attr" and t[2] == "outputsPut") or t[0] == "comp"
            c.ob("Q9b-outputs-of-this-run", f"{n.line}", None if ok else True, "the outputs recorded are not those that were written", n)
    # partial outputs: the error raised is the task's own
    part = [e for e in excis(fl, "AnnotatedPartialOutputsError") if fl.path(exc_edges(run), [e[0]])]
    cause = lambda t: t[0] == "attr" and t[2] == "__cause__"  # noqa: E731
    known = lambda pol: lit_edges(fl, lambda lit, n: (lit[0] == "isnone" and lit[2] is pol or lit[0] == "truth" and lit[2] is not pol)  # noqa: E731
                                  and mentions(fl.expand(lit[1]), cause))
    for r in g.live:
        if r.kind != "raise" or r.d.get("value") is None or not part or fl.path(part, [r]) is None:
            continue
        if not str(r.d.get("exc")).endswith("AnnotatedPartialOutputsError") and r.d["value"][0] == "tmp":
            continue
        e = r.d["value"]
        alts = [(val, d) for _, val, d in fl.reaching(e, r)] if e[0] == "var" else [(e, r)]
        for val, d in alts:
            t = fl.term(val, d)
            isc = cause(t) or cause(val)
            es = known(False if isc else True)
            w = fl.path(part, [d], stop_edge=lambda n, lab: (n.id, lab) in es)
            if not isc and not fl.derives(val, d, lambda t, m: t[0] == "exc" or t[0] == "var" or t[0] == "tmp"):
                continue
            c.ob("Q10-partial-error", f"{'cause' if isc else 'wrapper'}:{r.line}", w,
                 "the error raised for partial outputs may be missing" if isc else "the task's own error is replaced by the partial-outputs wrapper", r)
    # the result object tells the truth
    res = ctor(fl, "QuantumExecutionResult")
    nw = [e for e in excis(fl, "NoWorkFound") if not fl.path(exc_edges(run), [e[0]])]
    nwid = {(n.id, lab) for n, lab in nw}
    for n in res:
        no_work = _flag(fl, n, "adjusted_no_work", 3)
        skipped = _flag(fl, n, "skipped_existing", 2)
        if skipped is False:
            pid = {x.id for x in put}
            w = fl.path([g.entry], [n], stop_edge=lambda m, lab: m.id in pid and lab != "exc")
            c.ob("Q11-result-metadata", f"written:{n.line}", w, "a result that does not say skipped is returned although no metadata was written", n)
            md = arg(n, 4, "task_metadata")
            if md is None:
                c.fail("Q11-result-metadata", f"present:{n.line}", "the result of an executed quantum lacks its metadata", n)
            else:
                mine = _defs(fl, md, n)
                other = [p for p in put if fl.path(fl.out_edges([p]), [n]) is not None and _defs(fl, arg(p, 0, "obj"), p) != mine]
                c.ob("Q11-result-metadata", f"same:{n.line}", True if other else None, "the metadata returned is not the metadata written", n)
        if no_work is True:
            w = fl.path([g.entry], [n], stop_edge=lambda m, lab: (m.id, lab) in nwid)
            c.ob("Q11b-result-no-work", f"only:{n.line}", w, "a quantum that was executed is reported as having had no work", n)
        elif no_work is False:
            w = fl.path(nw, [n])
            c.ob("Q11b-result-no-work", f"always:{n.line}", w, "a quantum that had no work is reported as executed", n)
    for n in ctor(fl, "QuantumReport"):
        for k, ok in (("quantumId", lambda t: t[0] in ("param", "var") and t[-1] == "quantum_id"), ("dataId", lambda t: t[0] == "attr" and t[2] == "dataId"),
                      ("taskLabel", lambda t: t[0] == "attr" and t[2] == "label")):
            v = n.kwargs.get(k)
            good = v is not None and fl.derives(v, n, lambda t, m: ok(t))
            c.ob("Q11c-result-report", k, None if good else True, "the report of a quantum does not identify it", n)
    # quanta executed earlier in the same process
    ppq = self_flag("_previous_process_quanta")
    ext = [n for n in calls(fl, "extend") if n.recv is not None and tail(ex(fl, n.recv, n)) == "previous_process_quanta"]
    app = [n for n in calls(fl, "append") if n.recv is not None and ex(fl, n.recv, n) == ppq]
    st = [n for n in g.live if n.kind == "attrstore" and n.name == "previous_process_quanta"]
    rec = ext + st
    w = fl.must_precede(rec, make) if rec else True
    c.ob("Q12-process-history", "recorded", w, "the quanta executed earlier in the process are not recorded", make[0])
    for n in ext:
        ok = n.args and (ex(fl, n.args[0], n) == ppq or fl.derives(n.args[0], n, lambda t, m: t == ppq)) and "slice" not in str(ex(fl, n.args[0], n))
        c.ob("Q12-process-history", "complete", None if ok else True, "only part of the process history is recorded", n)
    for n in st:
        c.ob("Q12c-history-excludes-self", "copied", True if app and ex(fl, n.value, n) == ppq else None, "a quantum is listed as having been executed before itself, as are all that follow it", n)
    aid = {n.id for n in app}
    noid = lit_edges(fl, lambda lit, n: (lit[0] == "isnone" and lit[2] is True or lit[0] == "truth" and lit[2] is False) and _names(fl, lit[1], "quantum_id"))
    w = fl.path([g.entry], make, stop_node=lambda n: n.id in aid, stop_edge=lambda n, lab: (n.id, lab) in noid)
    c.ob("Q12b-process-history-kept", "append", w, "an executed quantum is not remembered for the quanta executed after it", make[0])
    w = fl.path(fl.out_edges(app), rec) if app else None
    c.ob("Q12c-history-excludes-self", "order", w, "a quantum is listed as having been executed before itself", app[0] if app else None)


def _names(fl, t, name):
    e = fl.expand(t)
    return any(s[0] in ("param", "var") and s[-1] == name for s in subterms(e)) or any(
        s[0] in ("param", "var") and s[-1] == name for s in subterms(t))


def _flag(fl, n, name, pos):
    v = arg(n, pos, name)
    if v is None:
        return None
    t = fl.term(v, n)
    return t[2] if t[0] == "const" and t[1] == "bool" else None


def existing2(c: Check):
    fl, put, run, make = qe._root(c)
    g = fl.g
    SK, CL, AS = self_flag("_skip_existing"), self_flag("_clobber_outputs"), self_flag("_assume_no_existing_outputs")
    prune = calls(fl, "pruneDatasets")
    # proceeding needs: assumed none, or no existing outputs, or pruned
    none = edges(fl, lambda lit: qe._existing(fl, lit) is False)
    if not edges(fl, lambda lit: qe._existing(fl, lit) is True):
        c.fail("E8-proceed-only-when-clear", "execute", "whether any output already exists is never tested", func=g.root)
    else:
        ok = {(n.id, lab) for n, lab in none}
        pid = {n.id for n in prune}
        w = fl.path([g.entry], make + run, init={AS: "F"}, stop_edge=lambda n, lab: (n.id, lab) in ok or n.id in pid and lab != "exc")
        c.ob("E8-proceed-only-when-clear", "execute", w, "the task can run although existing outputs were neither found absent nor removed", make[0])
    # all outputs are looked up and all existing ones collected
    sm = [n for n in calls(fl, "stored_many") if n.args and not fl.derives(n.args[0], n, lambda t, m: t[0] == "attr" and t[2] == "inputs")]
    for n in sm:
        t = ex(fl, n.args[0], n, 8)
        bad = mentions(t, lambda s: s[0] == "slice" or s[0] == "call" and s[2] in ("islice", "next"))
        has = fl.derives(n.args[0], n, lambda t, m: t[0] == "attr" and t[2] == "outputs")
        c.ob("E9-all-outputs-examined", "lookup", None if has and not bad else True, "not all outputs of the quantum are looked up", n)
        e, m = evalpoint(fl, n.args[0], n)
        tt = fl.term(e, m)
        if tt[0] == "comp":
            for hid in tt[3]:
                h = g.nodes[hid]
                c.ob("E9-all-outputs-examined", f"lookup:{h.line}", True if partial(fl, h) else None, "not all outputs are looked up", h)
            c.ob("E9-all-outputs-examined", "lookup filter", comp_filtered(fl, g.nodes[tt[3][-1]]), "some outputs are not looked up", n)
    smid = {n.id for n in sm}
    for h in iters(fl):
        if fl.derives(h.iterable, h, lambda t, m: t[0] == "tmp" and t[1] in smid, through_args=False) or mentions(
                fl.term(h.iterable, h), lambda s: s[0] == "tmp" and s[1] in smid) or mentions(ex(fl, h.iterable, h, 8), lambda s: s[0] == "call" and s[2] == "stored_many"):
            c.ob("E9b-all-existing-collected", f"{h.line}", True if partial(fl, h) else None, "some existing or missing outputs are overlooked", h)
    for n in prune:
        for k in ("disassociate", "unstore", "purge"):
            v = n.kwargs.get(k)
            ok = v is not None and fl.expand(fl.term(v, n)) == const(True)
            c.ob("E10-removal-complete", f"{k}:{n.line}", None if ok else True, "existing outputs are not removed completely before the task runs", n)
        t = ex(fl, n.args[0], n, 8) if n.args else ("none",)
        c.ob("E10b-removal-all", f"{n.line}", True if mentions(t, lambda s: s[0] == "slice") else None, "only some of the existing outputs are removed", n)
        # what is removed is what exists
        pol = qe._comp_pol(fl, fl.term(evalpoint(fl, n.args[0], n)[0], evalpoint(fl, n.args[0], n)[1])) if n.args else None
        if pol is not None:
            c.ob("E10c-removal-existing", f"{n.line}", None if pol else True, "the outputs passed for removal are those that do not exist", n)
    # metadata existence is tested for this quantum's metadata output
    for n in calls(fl, "attach_previous_attempt"):
        ok = n.args and bycall(fl, n.args[0], n, "get")
        c.ob("E11-previous-logs-read", f"{n.line}", None if ok else True, "the logs of the previous attempt are not the ones attached", n)
        gets = [m for m in calls(fl, "get") if n.args and mentions(fl.term(n.args[0], n), lambda s: s == ("tmp", m.id))]
        for m in gets:
            ok = fl.derives(m.args[0], m, lambda t, mm: t[0] == "attr" and t[2] == "outputs") and mentions(ex(fl, m.args[0], m, 8), lambda s: s[0] == "attr" and s[2] in ("log_output", "outputs"))
            c.ob("E11-previous-logs-read", f"source:{n.line}", None if ok else True, "the logs of the previous attempt are read from another dataset", m)
    _options(c, SK, CL, AS)


def _options(c, SK, CL, AS):
    """Options mean what was passed to the constructor."""
    C = c.prog.cls("single_quantum_executor.SingleQuantumExecutor")
    fl = c.flow(C.methods["__init__"].qual, inline=lambda f: f.cls is C)
    g = fl.g
    for name in ("clobber_outputs", "assume_no_existing_outputs", "raise_on_partial_outputs", "skip_existing", "job_metadata"):
        st = [n for n in g.live if n.kind == "attrstore" and n.name == "_" + name]
        mine = [n for n in st if fl.derives(n.value, n, lambda t, m: t == ("param", name))]
        w = fl.path([g.entry], [g.exit], stop_node=lambda n: n in mine) if st else True
        c.ob("E12-options-kept", name, w, f"the option {name} is not what the caller passed")
    qst = [n for n in g.live if n.kind == "attrstore" and n.name == "_skip_existing" and mentions(
        ex(fl, n.value, n, 10), lambda s: s[0] == "call" and s[2] == "query")]
    qst += [n for n in g.live if n.kind == "branch" and any(lit[0] == "in" and mentions(ex(fl, lit[2], n, 8), lambda s: s == ("param", "skip_existing_in"))
                                                            for lit in fl.lits(n, True))]
    qid = {n.id for n in qst}
    isp = lambda t, *nm: any(s in [("param", x) for x in nm] + [self_flag("_" + x) for x in nm] for s in subterms(t))  # noqa: E731
    na = lit_edges(fl, lambda lit, m: lit[0] == "truth" and (lit[2] is False and isp(fl.expand(lit[1]), "skip_existing_in") or lit[2] is True and isp(
        fl.expand(lit[1]), "skip_existing")) or lit[0] == "isnone" and lit[2] is True and isp(fl.expand(lit[1]), "butler", "skip_existing_in") or (
        lit[0] == "isinstance" and lit[3] is False) or lit[0] == "truth" and lit[2] is False and isp(fl.expand(lit[1]), "butler"))
    w = fl.path([g.entry], [g.exit], stop_node=lambda m: m.id in qid, stop_edge=lambda m, lab: (m.id, lab) in na)
    c.ob("E13c-skip-existing-in-honoured", "init", w, "collections whose quanta are to be skipped are ignored")
    for n in [x for x in calls(fl, "query", "queryCollections") if x.args and isp(fl.expand(fl.term(x.args[0], x)), "skip_existing_in")]:
        v = n.kwargs.get("flatten_chains", n.kwargs.get("flattenChains"))
        c.ob("E13c-skip-existing-in-honoured", "chains", None if v is not None and fl.expand(fl.term(v, n)) == const(True) else True,
             "an output run inside a chained collection is not recognised", n)
    st = [n for n in g.live if n.kind == "attrstore" and n.name == "_skip_existing" and not (
        fl.expand(fl.term(n.value, n)) == ("param", "skip_existing"))]
    for n in st:
        e = ex(fl, n.value, n, 10)
        txt = attrs(e) | {s[2] for s in subterms(e) if s[0] == "call"}
        ok_val = ("run" in txt and "query" in txt) and mentions(e, lambda s: s == ("param", "skip_existing_in"))
        lits = lit_edges(fl, lambda lit, m: lit[0] == "in" and lit[3] is True and tail(fl.expand(lit[1])) == "run" and mentions(
            ex(fl, lit[2], m, 8), lambda s: s == ("param", "skip_existing_in")))
        own = lit_edges(fl, lambda lit, m: lit[0] == "truth" and lit[2] is True and fl.expand(lit[1]) in (("param", "skip_existing"), SK))
        w = None if ok_val else fl.path([g.entry], [n], stop_edge=lambda m, lab: (m.id, lab) in lits or (m.id, lab) in own)
        c.ob("E13-skip-existing-in", f"{n.line}", w, "skipping is switched on although the output run is not among the collections it was requested for", n)
        q = [s for s in subterms(e) if s[0] == "call" and s[2] == "query"]
        if q:
            neg = mentions(e, lambda s: s[0] == "op" and s[1] in ("NotIn",))
            c.ob("E13-skip-existing-in", f"polarity:{n.line}", True if neg else None, "skipping is switched on when the output run is not among the collections", n)
        # never switches an explicit request off
        off = lit_edges(fl, lambda lit, m: lit[0] == "truth" and lit[2] is False and fl.expand(lit[1]) in (("param", "skip_existing"), SK))
        if not mentions(e, lambda s: s in (("param", "skip_existing"), SK)) and fl.term(n.value, n) != const(True):
            w = fl.path([g.entry], [n], stop_edge=lambda m, lab: (m.id, lab) in off)
            c.ob("E13b-skip-request-kept", f"{n.line}", w, "an explicit request to skip is overridden", n)


def inputs2(c: Check):
    fl, put, run, make = qe._root(c)
    g = fl.g
    QUANT = [n for n in g.calls() if (n.callee or "").endswith(".Quantum") and "inputs" in n.kwargs]
    isq = lambda t: t[0] == "attr" and t[2] == "inputs"  # noqa: E731
    sm = [n for n in calls(fl, "stored_many") if any(fl.derives(a, n, lambda t, m: isq(t)) for a in n.args)]
    if not sm or not QUANT:
        return
    smid = {n.id for n in sm}
    # the result of the check: containers inserted into
    outer = [h for h in iters(fl, comp=False) if isq(_strip(ex(fl, h.iterable, h, 8))) and fl.path(
        [(h, "elem")], sm, stop_node=lambda m: m is h)]
    for h in outer:
        body = fl.loop_body(h)
        full(c, "I6-every-input-type", f"{h.line}", fl, h, "some input dataset types are not examined")
        inner = [x for x in iters(fl) if x.id in body and x is not h]
        for x in inner:
            c.ob("I6b-every-input", f"{x.line}", True if partial(fl, x) else None, "some inputs of a dataset type are not examined", x)
            if not x.d.get("comp"):
                ins = [m for m in g.live if m.id in fl.loop_body(x) and (m.kind == "call" and m.name in ("append", "add") or m.kind == "def" and m.d.get("aug"))]
                no = lit_edges(fl, lambda lit, n: lit[0] == "truth" and lit[2] is False and any(s[0] == "tmp" and s[1] in smid for s in subterms(lit[1])))
                iid = {m.id for m in ins}
                if ins:
                    full(c, "I6b-every-input", f"cut off:{x.line}", fl, x, "examining the inputs of a dataset type stops early")
                    w = fl.path([(x, "elem")], lambda m: m is x, stop_node=lambda m: m.id in iid, stop_edge=lambda n, lab: (n.id, lab) in no or lab == "exc")
                    c.ob("I7-input-kept-or-tested", f"{x.line}", w, "an input is dropped without having been found missing", x)
        # a dataset type is left unexamined only when nothing is left to check
        src = set()
        for s in sm:
            for t in subterms(fl.expand(fl.term(s.args[0], s))):
                src.add(t)
        empty = lit_edges(fl, lambda lit, n: lit[0] == "truth" and lit[2] is False and fl.term(lit[1], n) == fl.term(sm[0].args[0], sm[0]) or (
            lit[0] == "truth" and lit[2] is False and lit[1][0] == "var") or lit[0] == "eq" and lit[3] is True and const(0) in lit)
        w = fl.path([(h, "elem")], lambda m: m is h, stop_node=lambda m: m.id in smid, stop_edge=lambda n, lab: (n.id, lab) in empty)
        c.ob("I8-check-not-skipped", f"{h.line}", w, "inputs are not tested although some are not known to exist", h)
        neg = lit_edges(fl, lambda lit, n: lit[0] == "truth" and lit[2] is True and lit[1][0] == "var" and n.id in body)
        es = [e for e in as_edges(fl, neg) if e[0].frame is h.frame]
        lst = [e for e in es if _is_list(fl, e[0], e[1])]
        if lst:
            w = fl.path(lst, lambda m: m is h, stop_node=lambda m: m.id in smid)
            c.ob("I8b-nonempty-checked", f"{h.line}", w, "inputs left to check are not tested", h)
    # adjustment helper and resulting quantum
    H = [n for n in g.calls() if (n.callee or "").endswith("AdjustQuantumHelper")]
    for n in H:
        i, o = arg(n, 0, "inputs"), arg(n, 1, "outputs")
        raw = i is not None and tail(fl.expand(fl.term(i, n))) == "inputs"
        c.ob("I9-adjust-updated-inputs", f"{n.line}", True if raw else None, "the adjustment starts from inputs that were not checked", n)
        oko = o is not None and fl.derives(o, n, lambda t, m: t[0] == "attr" and t[2] == "outputs")
        c.ob("I9b-adjust-outputs", f"{n.line}", None if oko else True, "the adjustment does not see the outputs of the quantum", n)
    for n in QUANT:
        for k, a in (("taskName", "taskName"), ("taskClass", "taskClass"), ("dataId", "dataId"), ("initInputs", "initInputs")):
            v = n.kwargs.get(k)
            ok = v is not None and fl.derives(v, n, lambda t, m: t[0] == "attr" and t[2] == a)
            if k in ("taskName", "taskClass"):
                ok = any(n.kwargs.get(x) is not None and fl.derives(n.kwargs[x], n, lambda t, m: t[0] == "attr" and t[2] == x) for x in ("taskName", "taskClass"))
            c.ob("I10-quantum-identity", k, None if ok else True, f"the quantum that is executed loses its {k}", n)
    # the task is run with the updated quantum
    qid = {n.id for n in QUANT}
    for n in ctor(fl, "QuantumContext"):
        v = arg(n, 1, "quantum")
        ok = v is not None and fl.derives(v, n, lambda t, m: t[0] == "tmp" and t[1] in qid)
        c.ob("I11-updated-quantum-run", "context", None if ok else True, "the task is run on the quantum as it was before its inputs were checked", n)
    for n in calls(fl, "buildDatasetRefs"):
        v = arg(n, 0, "quantum")
        ok = v is not None and fl.derives(v, n, lambda t, m: t[0] == "tmp" and t[1] in qid)
        c.ob("I11-updated-quantum-run", "references", None if ok else True, "the task is given the references of the quantum before its inputs were checked", n)
    for n in run:
        refs = [bycall(fl, a, n, "buildDatasetRefs") for a in n.args[1:3]]
        c.ob("I11b-references-passed", "runQuantum", None if len(refs) == 2 and all(refs) else True, "the task is not given the references of its quantum", n)
        if len(n.args) >= 3:
            idx = [_index(fl, a, n) for a in n.args[1:3]]
            c.ob("I11c-references-order", "runQuantum", True if idx == [1, 0] else None, "input and output references are exchanged", n)
    f = c.flow("single_quantum_executor.SingleQuantumExecutor._should_assume_exists")
    for h in iters(f):
        c.ob("I5b-assume-all-records", f"{h.line}", True if f.partial(h) else None, "only some datastore records are consulted", h)


def _index(fl, a, n):
    e, m = evalpoint(fl, a, n)
    t = fl.term(e, m)
    if t[0] in ("item", "sub", "unpacked") and isinstance(t[-1], int):
        return t[-1]
    if t[0] == "sub" and t[2][0] == "const":
        return t[2][2]
    return None


def _is_list(fl, n, lab):
    for lit in fl.lits(n, lab):
        if lit[0] == "truth" and lit[1][0] == "var" and fl.inserts(lit[1]):
            return True
    return False


def _strip(t):
    """Collection behind .items()/.values()/sorted()/list() wrappers."""
    while t[0] in ("call", "sub"):
        if t[0] == "sub":
            if t[2][0] != "slice":
                break
            t = t[1]
        elif t[3] is not None and t[2] in ("items", "values", "keys"):
            t = t[3]
        elif t[4]:
            t = t[4][0]
        else:
            break
    return t


def qcontext2(c: Check):
    """The task context: completeness of its membership sets, reads and writes."""
    cls = c.prog.cls("_quantumContext.QuantumContext")
    _identity(c, cls)
    fl = flow_of(c, cls, "__init__")
    g = fl.g
    for attr, src in (("allInputs", "inputs"), ("allOutputs", "outputs")):
        for h in iters(fl):
            if not mentions(ex(fl, h.iterable, h, 8), lambda s: s[0] == "attr" and s[2] == src):
                continue
            full(c, "C9-all-references", f"{attr}:{h.line}", fl, h, f"some of the quantum's {src} are left out of {attr}")
    # log and metadata outputs are not for the task to write
    ins = [m for m in g.live if m.kind == "call" and m.name in ("add", "update") and m.recv is not None and fl.term(m.recv, m) == self_flag("allOutputs")]
    ins += [m for m in g.live if m.kind == "compelt" and any(h.kind == "iter" and mentions(ex(fl, h.iterable, h, 8), lambda s: s[0] == "attr" and s[2] == "outputs")
                                                           for h in fl.enclosing_loops(m))]
    for suffix in ("METADATA_OUTPUT_CONNECTION_NAME", "LOG_OUTPUT_CONNECTION_NAME"):
        for m in ins:
            es = lit_edges(fl, lambda lit, n: lit[0] == "truth" and lit[2] is False and mentions(fl.expand(lit[1]), lambda s: (
                s[0] == "call" and s[2] == "endswith" and mentions(s, lambda t: t[0] == "glob" and t[1].endswith("." + suffix)))))
            hs = [h for h in fl.enclosing_loops(m) if h.kind == "iter"]
            st = [(h, "elem") for h in hs] or [g.entry]
            w = fl.path([max(st, key=lambda e: len(fl.loop_body(e[0])))] if hs else st, [m], stop_edge=lambda n, lab: (n.id, lab) in es)
            c.ob("C10-reserved-outputs", f"{suffix}:{m.line}", w, "the task can write its own log or metadata dataset", m)
    for n in ctor(fl, "DatasetProvenance"):
        v = arg(n, 1, "quantum_id")
        ok = v is not None and fl.derives(v, n, lambda t, m: t == ("param", "quantum_id"))
        c.ob("C11-quantum-in-provenance", "context", None if ok else True, "the provenance of outputs does not name the quantum", n)
    x, _, run, _ = qe._root(c)
    for n in ctor(x, "QuantumContext"):
        v = arg(n, None, "quantum_id")
        ok = v is not None and x.derives(v, n, lambda t, m: t[0] in ("param", "var") and t[-1] == "quantum_id")
        c.ob("C11-quantum-in-provenance", "executor", None if ok else True, "the provenance of outputs does not name the quantum", n)
    # reads and writes cover what was asked for
    for name, leaf in (("get", "_get"), ("put", "_put")):
        fl = flow_of(c, cls, name)
        g = fl.g
        acts = [n for n in g.calls() if n.recv is not None and (fl.term(n.recv, n) == ("param", "self") and n.name == leaf)]
        if not acts:
            continue
        given = lambda lit, n: lit[0] == "isnone" and lit[2] is True and mentions(fl.expand(lit[1]), lambda s: s[0] == "call" and s[2] == "getattr")  # noqa: E731
        tops = [h for h in iters(fl) if _strip(ex(fl, h.iterable, h, 8)) == ("param", "dataset")]
        aid = {a.id for a in acts}
        for h in tops:
            each(c, "C12-every-reference", f"{name}:{h.line}", fl, h, acts, f"some of the datasets passed to {name} are left out", unless=given, exc=False)
            full(c, "C12-every-reference", f"{name} all:{h.line}", fl, h, f"some of the datasets passed to {name} are left out")
        tid = {h.id for h in tops}
        w = fl.path([g.entry], [g.exit], stop_node=lambda n: n.id in aid or n.id in tid)
        c.ob("C12b-no-silent-return", name, w, f"{name} returns without having done anything")


def _identity(c, cls):
    """A reference is recognised by its dataset type, data ID and unique ID, in the sets and in the test alike."""
    want = {"datasetType", "dataId", "id"}

    def seen(fl, e, n):
        t = ex(fl, e, n, 8)
        return {s[2] for s in t[1]} if t[0] == "tuple" and all(s[0] == "attr" for s in t[1]) else None

    fl = flow_of(c, cls, "__init__")
    for m in fl.g.live:
        e = None
        if m.kind == "call" and m.name == "add" and m.recv is not None and ex(fl, m.recv, m) in (self_flag("allInputs"), self_flag("allOutputs")):
            e = m.args[0]
        if e is not None:
            a = seen(fl, e, m)
            c.ob("C14-identity", f"{m.line}", None if a is None or "id" in a and a <= want else True, "references are told apart by something else than their identity", m)
    fl = flow_of(c, cls, "_checkMembership")
    for m in fl.g.live:
        if m.kind != "branch":
            continue
        for lit in fl.lits(m, True):
            if lit[0] == "in" and ex(fl, lit[2], m) == ("param", "inout"):
                a = seen(fl, lit[1], m)
                c.ob("C14-identity", "tested", None if a is None or "id" in a and a <= want else True, "references are told apart by something else than their identity", m)
    # values and references are paired by position
    s_ = lambda k: k[2][0] == "const" and k[2] != const(0)  # noqa: E731
    fl = flow_of(c, cls, "put")
    for m in calls(fl, "put", "_put"):
        for e in m.args[:1]:
            for t, d in fl.sources(e, m) or [(e, m)]:
                t = fl.term(t, d)
                if t[0] == "sub":
                    k = fl.expand(fl.term(t[2], d), 4)
                    bad = k[0] == "op" and mentions(k, lambda s: s[0] == "enumidx" and s[2] == const(0)) or k[0] == "enumidx" and s_(k) or k[0] == "const"
                    c.ob("C15-pairing", f"{m.line}", True if bad else None, "a value is written under the reference of another", m)
    fl = flow_of(c, cls, "_get")
    hows = calls(fl, "get", "getDeferred")
    es = lit_edges(fl, lambda l, m: l[0] == "isinstance" and l[3] is True and any(x.rsplit(".", 1)[-1] == "DeferredDatasetRef" for x in l[2]) and len(l[2]) == 1)
    no = lit_edges(fl, lambda l, m: l[0] == "isinstance" and l[3] is False and any(x.rsplit(".", 1)[-1] == "DeferredDatasetRef" for x in l[2]) and len(l[2]) == 1)
    if es:
        w = fl.path([(fl.g.nodes[i], lab) for i, lab in es], [n for n in hows if n.name == "get"])
        c.ob("C16-deferred", "deferred", w, "a dataset that is to be read later is read at once")
        w = fl.path([(fl.g.nodes[i], lab) for i, lab in no], [n for n in hows if n.name == "getDeferred"])
        c.ob("C16-deferred", "not deferred", w, "a handle is returned instead of a dataset")


def _extras(c, fl):
    """What is stored with the logs is everything that was collected, added after the records."""
    for n in calls(fl, "model_dump_json", "model_dump"):
        bad = set(n.kwargs) & {"exclude", "include"} or n.kwargs.get("exclude_none") is not None and False
        c.ob("L13-extra-complete", f"{n.line}", True if bad else None, "part of what is stored with the logs (failure, metadata or earlier attempts) is left out", n)
    for n in calls(fl, "open"):
        v = arg(n, 1, "mode")
        if n.recv is None and v is not None and fl.term(v, n)[0] == "const":
            c.ob("L14-records-kept", f"{n.line}", True if str(fl.term(v, n)[2]).startswith("w") else None, "the log records are overwritten by what is stored with them", n)


def logcapture2(c: Check):
    fl = c.flow("log_capture.LogCapture.capture_logging", inline=lambda f: f.module.name.endswith("log_capture") and f.name == "_store_log_records")
    g = fl.g
    _extras(c, fl)
    ing = calls(fl, "ingest")
    put = [n for n in calls(fl, "put") if n.recv is not None]
    isrec = lambda t: t == ("param", "records")  # noqa: E731
    for n in ing:
        guard(c, "L8-caller-records", "streaming", fl, [n], lambda lit, m: (lit[0] == "isnone" and lit[2] is True or lit[0] == "truth" and lit[2] is False)
              and isrec(fl.expand(lit[1])), "logs are streamed to a file although the caller asked for the records")
    for n in ctor(fl, "ButlerLogRecordHandler"):
        ok = n.args and fl.derives(n.args[0], n, lambda t, m: isrec(t))
        c.ob("L8-caller-records", "memory", None if ok else True, "log records are not collected into the caller's list", n)
    add = calls(fl, "addHandler")
    ys = [n for n in g.live if n.kind == "yield"]
    nolog = lit_edges(fl, lambda lit, n: (lit[0] == "isnone" and lit[2] is True or lit[0] == "truth" and lit[2] is False) and fl.derives(
        lit[1], n, lambda t, m: t[0] == "attr" and t[2] in ("log_output", "dataset_type_name")))
    aid = {n.id for n in add}
    w = fl.path([g.entry], ys, stop_node=lambda n: n.id in aid, stop_edge=lambda n, lab: (n.id, lab) in nolog)
    c.ob("L9-logs-recorded", "handler", w, "a task with a log output runs without its logs being recorded", ys[0] if ys else None)
    for n in put:
        v, r = arg(n, 0, "obj"), arg(n, 1, "ref")
        ok = v is not None and tail(fl.expand(fl.term(v, n))) == "records"
        c.ob("L10-stored-what-was-recorded", f"{n.line}", None if ok else True, "what is stored is not the records collected", n)
        ok = r is not None and fl.derives(r, n, lambda t, m: t[0] == "attr" and t[2] == "outputs")
        c.ob("L10b-stored-as-log-output", f"{n.line}", None if ok else True, "logs are not stored as the log output of the quantum", n)
    for n in ctor(fl, "TemporaryForIngest"):
        r = arg(n, 1, "ref")
        ok = r is not None and fl.derives(r, n, lambda t, m: t[0] == "attr" and t[2] == "outputs")
        c.ob("L10b-stored-as-log-output", f"{n.line}", None if ok else True, "logs are not stored as the log output of the quantum", n)
    cl = [n for n in calls(fl, "close")]
    for n in ing:
        w = fl.path([(y, lab) for y in ys for _, lab in y.succ], [n], stop_node=lambda m: m in cl)
        c.ob("L11-file-closed", f"{n.line}", w, "the log file is stored before it was closed, losing buffered records", n)
    # previous attempts: flattened exactly once
    f = c.flow("log_capture._ExecutionLogRecordsExtra.attach_previous_attempt")
    old = [n for n in calls(f, "extend") if f.term(n.recv, n) == self_flag("previous_attempts")]
    new = [n for n in calls(f, "append") if f.term(n.recv, n) == self_flag("previous_attempts")]
    clr = {n.id for n in f.g.live if n.kind == "call" and n.name == "clear" and n.recv is not None and tail(f.expand(f.term(n.recv, n))) == "previous_attempts"}
    clr |= {n.id for n in f.g.live if n.kind == "attrstore" and n.name == "previous_attempts"}
    clr |= {n.id for n in f.g.live if n.kind == "delsub"}
    if old and new:
        w = f.path([f.g.entry], [f.g.exit], stop_node=lambda n: n.id in clr)
        c.ob("L12-attempts-once", "flattened", w, "attempts before the previous one are recorded twice, nested in it")
    x, _, _, _ = qe._root(c)
    for n in calls(x, "capture_logging"):
        v = n.kwargs.get("records", n.args[2] if len(n.args) > 2 else None)
        ok = v is not None and x.derives(v, n, lambda t, m: t[0] in ("param", "var") and t[-1] == "log_records")
        c.ob("L8-caller-records", "executor", None if ok else True, "the executor does not hand on the caller's list of log records", n)
