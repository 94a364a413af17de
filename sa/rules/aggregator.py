"""Aggregation of provenance: the protocol between supervisor, scanners, ingester and writer."""

from __future__ import annotations

from ..lib import Check, const
from ..q import arg, calls, ctor, each, ex, flow_of, frm, full, guard, iters, lit_edges, loops_of, mentions, partial, present, retvals, subterms
from .boolval import cut_edges, passes
from .pgresolve import _root
from .pipedef import _attrstores, _isnone, _raises, _true, after, at, each_break, elems, must, self_

A = "lsst.pipe.base.quantum_graph.aggregator."


def run(c: Check):
    supervisor(c)
    reports(c)
    shutdown(c)
    get_report(c)
    workers(c)
    polls(c)
    wiring(c)
    start(c)
    primitives(c)
    scanner(c)
    ingest_request(c)
    ingester(c)
    pending(c)
    writer(c)
    details(c)


def cls(c, q):
    return c.prog.cls(A + q)


def _glob(t, last):
    return t[0] == "glob" and t[1].rsplit(".", 1)[-1] == last


def is_(last):
    """Literals comparing something with the enumeration member."""
    return lambda lit, m: lit[0] == "eq" and any(_glob(t, last) for t in lit[1:3])


def isa(last):
    return lambda lit, m: lit[0] == "isinstance" and any(str(t).rsplit(".", 1)[-1] == last for t in lit[2])


def q_(fl, op, queue):
    """Operations on a queue (an attribute of self)."""
    return [n for n in calls(fl, op) if n.recv is not None and ex(fl, n.recv, n) == self_(queue)]


def sends(fl, queue, last):
    """Puts of a sentinel, or of an object of class ``last``, into a queue."""
    return [n for n in q_(fl, "put", queue) if n.args and (_glob(ex(fl, n.args[0], n), last) or fl.derives(n.args[0], n, lambda t, m: t[0] == "tmp" and fl.g.nodes[t[1]].kind == "call"
            and (fl.g.nodes[t[1]].callee or "").rsplit(".", 1)[-1] == last, through_args=False))]


def rng(t):
    """The number of iterations of a loop over range(n), or None."""
    while t[0] == "call" and t[2] in ("list", "tuple", "iter") and len(t[4]) == 1:
        t = t[4][0]
    return t[4][0] if t[0] == "call" and t[2] == "range" and len(t[4]) == 1 else None


def edges_of(fl, es):
    return [(m, lab) for m in fl.g.live for _, lab in m.succ if (m.id, lab) in es]


def cfg(nm):
    return lambda lit, m: lit[0] == "truth" and at(lit[1], nm)


def exc_given(lit, m):
    return lit[0] == "isnone" and lit[1][0] == "param" and lit[1][1] in ("exc_type", "exc_value", "exc_val")


# ---------------------------------------------------------------- supervisor

def supervisor(c):
    C = cls(c, "_supervisor.Supervisor")
    fl = flow_of(c, C, "__post_init__")
    g = fl.g
    adds = calls(fl, "add_node", "add_nodes_from")
    for attr, what in (("quanta", "quantum"), ("init_quanta", "init quantum")):
        hs = [h for h in iters(fl, False) if mentions(ex(fl, h.iterable, h, 8), lambda s, a=attr: at(s, a))]
        ns = [n for n in adds if any(h in loops_of(fl, n) for h in hs)] or [n for n in adds if mentions(ex(fl, n.args[0], n, 10), lambda s, a=attr: at(s, a))]
        present(c, "A1-nodes", what, ns, f"a {what} is never scanned", fl)
        for h in hs:
            each(c, "A1-nodes", what + ":each", fl, h, ns, f"a {what} is never scanned")
    gw = ctor(fl, "GraphWalker")
    present(c, "A1-nodes", "walker", gw, "quanta are not scanned in order", fl)
    for n in gw:
        t = ex(fl, n.args[0], n, 8)
        made = mentions(t, lambda s: at(s, "edges")) or fl.derives(n.args[0], n, lambda t, m: t[0] == "tmp" and fl.g.nodes[t[1]].kind == "call" and fl.g.nodes[t[1]].args and mentions(
            ex(fl, fl.g.nodes[t[1]].args[0], fl.g.nodes[t[1]], 8), lambda s: at(s, "edges"))) or any(
            m.name in ("add_edges_from", "add_edge") and _root(fl, m.recv, m) == _root(fl, n.args[0], n) for m in g.calls() if m.recv is not None)
        c.ob("A1-nodes", "edges", None if made else True, "quanta are scanned before those they depend on", n)
        for a in adds:
            c.ob("A1-nodes", "before", fl.path([n], [a]), "a quantum is never scanned", a)
            c.ob("A1-nodes", "same graph", None if _root(fl, a.recv, a) == _root(fl, n.args[0], n) else True, "a quantum is never scanned", a)
    for n in _attrstores(fl, "walker"):
        c.ob("A1-nodes", "walker:kept", None if frm(fl, n.value, n, gw) else True, "quanta are not scanned in order", n)

    fl = flow_of(c, C, "loop")
    g = fl.g
    hs = [h for h in iters(fl, False) if at(ex(fl, h.iterable, h), "walker")]
    present(c, "A2-requests", "walker", hs, "ready quanta are not scanned", fl)
    req, hr = calls(fl, "request_scan"), calls(fl, "handle_report")
    ph = [h for h in iters(fl, False) if mentions(ex(fl, h.iterable, h), lambda s: s[0] == "call" and s[2] == "poll")]
    present(c, "A2-requests", "requested", req, "ready quanta are not scanned", fl)
    present(c, "A2-requests", "reports", [h for h in ph if any(h in loops_of(fl, n) for n in hr)], "scan reports are not handled", fl)
    for h in hs:
        full(c, "A2-requests", "all ready", fl, h, "ready quanta are not scanned")
        must(c, "A2-requests", "polled", fl, elems(h), ph, [h, g.exit], "scan reports are not awaited")
        for n in req:
            inner = [x for x in loops_of(fl, n) if x is not h and frm_elem(fl, x.iterable, x, h)]
            if inner:
                for x in inner:
                    each(c, "A2-requests", "each", fl, x, [n], "a ready quantum is not scanned")
                    c.ob("A2-requests", "before polling", fl.path(elems(h), ph, stop_node=lambda m: m is x), "a ready quantum is not scanned", x)
                continue
            roots = {_root(fl, m.recv, m) for m in calls(fl, "pop", "popleft") if fl.derives(n.args[0], n, lambda t, k, m=m: t == ("tmp", m.id))} - {None}
            if not roots:
                c.fail("A2-requests", "each", "a ready quantum is not scanned", n)
                continue
            empty = lit_edges(fl, lambda l, m: l[0] == "truth" and l[2] is False and _root(fl, l[1], m) in roots)
            c.ob("A2-requests", "each", fl.path(elems(h), ph, stop_edge=lambda m, lab: (m.id, lab) in empty), "a ready quantum is not scanned", n)
            up = [m for m in g.calls() if m.name in ("update", "extend", "add", "append") and m.recv is not None and _root(fl, m.recv, m) in roots and m.args and frm_elem(fl, m.args[0], m, h)]
            up += [m for m in g.live if m.kind == "def" and any(frm_elem(fl, v, m, h) and _root(fl, ("var", m.frame.id, str(k)) if isinstance(k, str) else k, m) in roots for k, v in m.d["defs"])] if not up else []
            present(c, "A2-requests", "taken up", up, "a ready quantum is not scanned", fl)
            if up:
                c.ob("A2-requests", "taken up", fl.path(elems(h), [n], stop_node=lambda m: m in up), "a ready quantum is not scanned", n)
            # nothing taken out of the set is dropped
            for m in calls(fl, "pop", "popleft"):
                if _root(fl, m.recv, m) in roots:
                    c.ob("A2-requests", "none dropped", fl.path([(m, lab) for _, lab in m.succ if lab != "exc"], ph + [m], stop_node=lambda k: k in req), "a ready quantum is not scanned", m)
    for h in ph:
        each(c, "A2-requests", "each report", fl, h, hr, "a scan report is not handled")
    for n in hr:
        c.ob("A2-requests", "report", None if any(("elem", h.id) == fl.term(n.args[0], n) or frm_elem(fl, n.args[0], n, h) for h in ph) else True, "a scan report is not handled", n)

    fl = flow_of(c, C, "handle_report")
    g = fl.g
    atoms = {k: is_(v) for k, v in (("successful", "SUCCESSFUL"), ("init", "INIT"), ("failed", "FAILED"), ("abandoned", "ABANDONED"))}

    def one(f):
        def spec(**a):
            on = [k for k, v in a.items() if v]
            return None if len(on) > 1 else f(on[0] if on else None)
        return spec

    fin, fail, wr = calls(fl, "finish"), calls(fl, "fail"), calls(fl, "request_write")
    ok = [g.exit]
    passes(c, "A3-outcomes", "finished", fl, [g.entry], fin, ok, atoms, one(lambda k: "must" if k in ("successful", "init") else "never"), "a finished quantum does not unblock those downstream, or a failed one does",
           exc=False)
    passes(c, "A3-outcomes", "failed", fl, [g.entry], fail, ok, atoms, one(lambda k: "must" if k in ("failed", "abandoned") else "never"), "a failed quantum does not block those downstream", exc=False)
    passes(c, "A3-outcomes", "unexpected", fl, [g.entry], [g.exit], [], atoms, one(lambda k: "never" if k is None else None), "an unexpected status is accepted", exc=False)
    cnt = [n for n in _attrstores(fl, "n_abandoned")]
    passes(c, "A3-outcomes", "counted", fl, [g.entry], cnt, ok, atoms, one(lambda k: "must" if k == "abandoned" else "never"), "abandoned quanta are miscounted", exc=False)
    for n in fin + fail:
        t = ex(fl, n.args[0], n)
        c.ob("A3-outcomes", f"{n.name}:quantum", None if at(t, "quantum_id") and t[1] == ("param", "scan_report") else True, "a report is handled for another quantum", n)
        c.ob("A3-outcomes", f"{n.name}:walker", None if at(ex(fl, n.recv, n), "walker") else True, "a report is not handled", n)
        c.ob("A3-outcomes", f"{n.name}:once", fl.path(fl.out_edges([n]), fin + fail), "a report is handled twice", n)
    bh = [h for h in iters(fl, False) if frm(fl, h.iterable, h, fail)]
    present(c, "A4-blocked", "written", [n for n in wr if any(h in loops_of(fl, n) for h in bh)], "quanta blocked by a failure have no provenance", fl)
    cut = cut_edges(fl, atoms, {"failed": True, "successful": False, "init": False, "abandoned": False})
    for n in fail:
        c.ob("A4-blocked", "failed", fl.path([g.entry], [g.exit], stop_node=lambda m: m in bh, stop_edge=lambda m, lab: (m.id, lab) in cut or lab == "exc") if bh else True,
             "quanta blocked by a failure have no provenance", n)
    for h in bh:
        each(c, "A4-blocked", "each", fl, h, wr, "quanta blocked by a failure have no provenance", unless=lambda l, m: l[0] == "truth" and l[2] is False and at(l[1], "is_writing_provenance"))
    for n in wr:
        guard(c, "A4-blocked", "only if writing", fl, [n], lambda l, m: l[0] == "truth" and l[2] is True and at(l[1], "is_writing_provenance"), "a write is requested without a writer")
        t = ex(fl, n.args[0], n, 8)
        mk = [s for s in subterms(t) if s[0] == "call" and (s[2] in ("ProvenanceQuantumScanData", "make_blocked"))]
        c.ob("A4-blocked", "status", None if mk and (mk[0][2] == "make_blocked" or mentions(t, lambda s: _glob(s, "BLOCKED"))) else True, "a blocked quantum is reported as something else", n)
        c.ob("A4-blocked", "quantum", None if any(frm_elem(fl, n.args[0], n, h) for h in bh) else True, "a blocked quantum is reported for another", n)


def frm_elem(fl, e, n, h):
    """Whether e at n may derive from the elements of loop h."""
    return fl.derives(e, n, lambda t, m: t == ("elem", h.id))


# ---------------------------------------------------------------- reports to the supervisor

def reports(c):
    C = cls(c, "_communicators.SupervisorCommunicator")
    fl = flow_of(c, C, "_handle_progress_reports")
    g = fl.g
    err, failing = isa("_WorkerErrorMessage"), _true(("param", "already_failing"))
    rs = [n for n in _raises(fl) if (n.d.get("exc") or "").endswith("FatalWorkerError")]
    present(c, "A5-errors", "raised", rs, "the error of a worker is ignored", fl)
    passes(c, "A5-errors", "error", fl, [g.entry], [g.exit], [], {"error": err, "failing": failing}, lambda error, failing: "never" if error and not failing else None, "the error of a worker is ignored",
           exc=False)
    passes(c, "A5-errors", "only", fl, [g.entry], rs, [], {"error": err, "failing": failing}, lambda error, failing: "never" if failing or not error else None, "aggregation is stopped without an error",
           exc=False)
    # anything else is handed back
    others = {"error": err, "ingest": isa("_IngestReport"), "write": is_("WRITE_REPORT"), "log": isa("_ProgressLog")}
    cut = cut_edges(fl, others, {k: False for k in others})
    for r in retvals(fl):
        w = fl.path([g.entry], [r], stop_edge=lambda m, lab: (m.id, lab) in cut or lab == "exc")
        c.ob("A5-errors", "handed back", True if w is not None and ex(fl, r.value, r) != ("param", "report") and not fl.derives(r.value, r, lambda t, m: t == ("param", "report")) else None,
             "scan reports are lost", r)
    w = fl.path([g.entry], [g.exit], stop_node=lambda m: m.kind == "return" and m.frame.id == 0 and m.value is not None and m.value != const(None), stop_edge=lambda m, lab: (m.id, lab) in cut or lab == "exc")
    c.ob("A5-errors", "handed back", w, "scan reports are lost")
    for r in retvals(fl):
        if r.value is not None and fl.derives(r.value, r, lambda t, m: t == ("param", "report")):
            for k in others:
                cut = cut_edges(fl, others, {j: j == k for j in others} | {})
                ff = cut_edges(fl, {"failing": failing}, {"failing": True})
                c.ob("A5-errors", f"handled({k})", fl.path([g.entry], [r], stop_edge=lambda m, lab: (m.id, lab) in cut or (m.id, lab) in ff or lab == "exc"),
                     "a progress report is taken for something else", r)

    fl = flow_of(c, C, "poll")
    g = fl.g
    got = calls(fl, "_get_report")
    present(c, "A6-polling", "got", got, "scan reports are lost", fl)
    han = calls(fl, "_handle_progress_reports")
    ys = [n for n in g.live if n.kind == "yield"]
    present(c, "A6-polling", "yielded", ys, "scan reports are lost", fl)
    scan = lit_edges(fl, lambda l, m: isa("ScanReport")(l, m) and l[-1] is True)
    present(c, "A6-polling", "recognised", scan, "scan reports are lost", fl)
    c.ob("A6-polling", "each", fl.path(edges_of(fl, scan), got + [g.exit], stop_node=lambda m: m in ys), "a scan report is lost")
    for y in ys:
        v = y.d.get("value")
        c.ob("A6-polling", "value", None if v is None or frm(fl, v, y, han) or frm(fl, v, y, got) else True, "a scan report is lost", y)
    some = lit_edges(fl, lambda l, m: (l[0] == "truth" and l[2] is True or l[0] == "isnone" and l[2] is False) and frm(fl, l[1], m, got, False))
    c.ob("A6-polling", "handled", fl.path(edges_of(fl, some), got + [g.exit], stop_node=lambda m: m in han), "a report is not handled")
    for n in han:
        a = arg(n, 0, "report")
        c.ob("A6-polling", "report", None if a is not None and frm(fl, a, n, got) else True, "a report is not handled", n)
        f = arg(n, 1, "already_failing")
        c.ob("A6-polling", "not failing", None if f is None or ex(fl, f, n) == const(False) else True, "the error of a worker is ignored", n)
    # it blocks until there is a report to hand out: otherwise the walker is asked again without anything new
    first = fl.path([g.entry], got, stop_node=lambda m: m.kind == "x")
    for n in got:
        b = arg(n, 0, "block")
        vals = {ex(fl, v, m)[2] for v, m in fl.sources(b, n) if ex(fl, v, m)[0] == "const"} if b is not None and fl.term(b, n)[0] == "var" else {ex(fl, b, n)[2]} if b is not None and ex(fl, b, n)[0] == "const" else {None}
        c.ob("A6-polling", "blocks", None if True in vals or None in vals else True, "the supervisor spins without waiting for reports", n)
    offs = [n for n in g.live if n.kind == "def" and any(fl.term(v, n) == const(False) and any(mentions(arg(m, 0, "block") or (), lambda s, k=k: s == k) for m in got) for k, v in n.d["defs"])]
    if offs and first is not None:
        c.ob("A6-polling", "blocks until", fl.path([g.entry], offs, stop_edge=lambda m, lab: (m.id, lab) in scan), "the supervisor spins without waiting for reports")


def get_report(c):
    fl = flow_of(c, cls(c, "_communicators.SupervisorCommunicator"), "_get_report")
    g = fl.g
    gets = q_(fl, "get", "_reports")
    rs = [n for n in _raises(fl) if (n.d.get("exc") or "").endswith("_WorkerCommunicationError")]
    present(c, "A7-dead", "raised", rs, "a dead worker goes unnoticed", fl)
    hs = [h for h in iters(fl, False) if mentions(ex(fl, h.iterable, h), lambda s: at(s, "workers"))]
    present(c, "A7-dead", "workers", hs, "a dead worker goes unnoticed", fl)
    alive = lambda lit, m: lit[0] == "truth" and mentions(ex(fl, lit[1], m), lambda s: s[0] == "call" and s[2] == "is_alive")  # noqa: E731
    succ = lambda lit, m: lit[0] == "truth" and at(lit[1], "successful")  # noqa: E731
    nothing = lambda lit, m: lit[0] == "isnone" and frm(fl, lit[1], m, gets, False) or lit[0] == "truth" and frm(fl, lit[1], m, gets, False)  # noqa: E731
    for h in hs:
        reg, todo = set(), [t for t, lab in h.succ if lab == "elem"]
        while todo:  # the body, including ways out of the loop
            m = todo.pop()
            if m.id not in reg and m is not h:
                reg.add(m.id)
                todo.extend(t for t, lab in m.succ if lab != "exc")
        w = True if partial(fl, h) else fl.path(elems(h), [m for m in gets if not (ex(fl, m.kwargs.get("block", const(False)), m) == const(False))], stop_node=lambda m: m is h)
        c.ob("A7-dead", "all workers", w, "a dead worker goes unnoticed", h)
        cut = cut_edges(fl, {"alive": alive, "succ": succ}, {"alive": False, "succ": False})
        late = lit_edges(fl, lambda l, m: l[0] == "isnone" and l[2] is False and m.id in reg and frm(fl, l[1], m, gets, False) or l[0] == "truth" and l[2] is True and m.id in reg
                         and frm(fl, l[1], m, gets, False))
        c.ob("A7-dead", "noticed", fl.path(elems(h), [h, g.exit], stop_edge=lambda m, lab: (m.id, lab) in cut or (m.id, lab) in late or lab == "exc"), "a dead worker goes unnoticed", h)
        for nm, a in (("alive", {"alive": True}), ("finished", {"succ": True})):
            cut = cut_edges(fl, {"alive": alive, "succ": succ}, a)
            c.ob("A7-dead", nm, fl.path(elems(h), rs, stop_node=lambda m: m is h, stop_edge=lambda m, lab: (m.id, lab) in cut), "a worker is declared dead that is not", h)
        # a worker that ended after the last look at the queue may have reported before it ended
        av = calls(fl, "is_alive")
        for r in rs:
            w = fl.path([(m, lab) for m in av for _, lab in m.succ if lab != "exc"], [r], stop_node=lambda m: m in gets)
            c.ob("A7-dead", "last reports", w, "a worker that has finished after the timeout is declared dead although its report is in the queue", r)
            em = lit_edges(fl, lambda l, m: nothing(l, m) and (l[0] == "isnone" and l[2] is True or l[0] == "truth" and l[2] is False))
            if w is None:
                c.ob("A7-dead", "no report", fl.path([(m, lab) for m in gets if m.id in reg for _, lab in m.succ if lab != "exc"], [r],
                                                     stop_edge=lambda m, lab: (m.id, lab) in em), "a report is lost when a worker ends", r)
    blk = {"none": lambda lit, m: lit[0] == "isnone" and frm(fl, lit[1], m, gets, False), "block": lambda lit, m: lit == ("truth", ("param", "block"), True)}
    cut = cut_edges(fl, blk, {"none": True, "block": True})
    c.ob("A7-dead", "blocking", fl.path([(m, lab) for m in gets for _, lab in m.succ if lab != "exc"], [n for n in retvals(fl)] or [g.exit], stop_edge=lambda m, lab: (m.id, lab) in cut),
         "a blocking request returns nothing")
    blk["block"] = lambda lit, m: lit[0] == "truth" and lit[1] == ("param", "block")
    got = [(m, lab) for m in gets for _, lab in m.succ if lab != "exc"]
    cut = cut_edges(fl, blk, {"none": False})
    c.ob("A7-dead", "report kept", fl.path(got, gets, stop_edge=lambda m, lab: (m.id, lab) in cut), "a report is lost")
    cut = cut_edges(fl, blk, {"none": True, "block": False})
    c.ob("A7-dead", "not blocking", fl.path([(m, lab) for m, lab in got if not any(m.id in fl.loop_body(h) for h in hs)], gets, stop_edge=lambda m, lab: (m.id, lab) in cut),
         "a request that should not wait waits")
    for h in hs:
        c.ob("A7-dead", "checked", fl.path([(m, lab) for m in gets for _, lab in m.succ if lab != "exc"], [m for m in gets if m.id not in fl.loop_body(h)], stop_node=lambda m: m is h),
             "a dead worker goes unnoticed", h)
    for r in retvals(fl):
        c.ob("A7-dead", "returned", None if r.value is not None and frm(fl, r.value, r, gets) else True, "a report is lost", r)
    for n in gets:
        b, t = arg(n, None, "block"), arg(n, None, "timeout")
        bt = ex(fl, b, n) if b is not None else const(False)
        c.ob("A7-dead", "timeout", None if bt == const(False) or t is not None else True, "a dead worker goes unnoticed", n)


# ---------------------------------------------------------------- shutdown

def shutdown(c):
    C = cls(c, "_communicators.SupervisorCommunicator")
    fl = flow_of(c, C, "_wait_for_workers_to_finish")
    g = fl.g
    sc, wr = sends(fl, "_scan_requests", "NO_MORE_SCAN_REQUESTS"), sends(fl, "_write_requests", "NO_MORE_WRITE_REQUESTS")
    present(c, "A8-sentinels", "scan", sc, "scanners are never told to stop", fl)
    present(c, "A8-sentinels", "write", wr, "the writer is never told to stop", fl)
    got = calls(fl, "_get_report")
    sent = _true(self_("_sent_no_more_scan_requests"))
    hs = [h for n in sc for h in loops_of(fl, n)]
    for n in sc:
        t = [ex(fl, h.iterable, h) for h in loops_of(fl, n)]
        c.ob("A8-sentinels", "scan:count", None if len(t) == 1 and rng(t[0]) == self_("n_scanners") or any(at(s, "workers") for x in t for s in subterms(x)) else True,
             "not every scanner is told to stop exactly once", n)
    for h in hs:
        each(c, "A8-sentinels", "scan:each", fl, h, sc, "a scanner is never told to stop")
        passes(c, "A8-sentinels", "scan:once", fl, [g.entry], [h], [g.exit] + got, {"sent": sent}, lambda sent: "never" if sent else "must", "scanners are told to stop twice, or never", exc=False)
        fs = [n for n in _attrstores(fl, "_sent_no_more_scan_requests") if ex(fl, n.value, n) == const(True)]
        must(c, "A8-sentinels", "scan:remembered", fl, [h], fs, got + [g.exit], "scanners are told to stop twice")
    at_ = {"sent": _true(self_("_sent_no_more_write_requests")), "no writer": _isnone(self_("_write_requests"))}
    passes(c, "A8-sentinels", "write:once", fl, [g.entry], wr, [g.exit] + got, at_, lambda **a: "never" if a["sent"] or a["no writer"] else "must", "the writer is told to stop twice, or never", exc=False)
    fs = [n for n in _attrstores(fl, "_sent_no_more_write_requests") if ex(fl, n.value, n) == const(True)]
    for n in wr:
        must(c, "A8-sentinels", "write:remembered", fl, [n], fs, got + [g.exit], "the writer is told to stop twice")
    # wait for all
    joins = calls(fl, "join")
    jh = [h for h in iters(fl, False) if mentions(ex(fl, h.iterable, h), lambda s: at(s, "workers")) and any(h in loops_of(fl, n) for n in joins)]
    present(c, "A9-waiting", "joined", jh, "workers are not waited for", fl)
    for h in jh:
        each(c, "A9-waiting", "each", fl, h, [n for n in joins if h in loops_of(fl, n)], "a worker is not waited for")
    must(c, "A9-waiting", "always", fl, [g.entry], jh, [g.exit], "workers are not waited for")
    qh = [h for h in iters(fl) if mentions(ex(fl, h.iterable, h), lambda s: at(s, "workers")) and any(at(l[1], "successful") and l[1][1][0] in ("elem", "item") for m in g.live if m.kind == "branch" and (
        m.id in fl.loop_body(h) or h.d.get("quant")) for l in fl.lits(m, True) if l[0] == "truth")]
    present(c, "A9-waiting", "until done", qh, "workers are not waited for until they report that they are done", fl)
    succ = lambda lit, m: lit[0] == "truth" and at(lit[1], "successful")  # noqa: E731
    cut = cut_edges(fl, {"s": succ}, {"s": False})
    quants = [h for h in qh if h.d.get("quant")]
    for h in qh:
        full(c, "A9-waiting", "all workers", fl, h, "not all workers are waited for")
    for h in quants[:1]:
        c.ob("A9-waiting", "all done", fl.path(elems(h), jh, stop_node=lambda m: m in quants or m in got, stop_edge=lambda m, lab: (m.id, lab) in cut), "not all workers are waited for", h)
    done = lit_edges(fl, lambda l, m: isa("_WorkerDone")(l, m) and l[-1] is True)
    ok = [n for n in _attrstores(fl, "successful") if ex(fl, n.value, n) == const(True)]
    present(c, "A9-waiting", "noted", ok, "finished workers are waited for forever", fl)
    c.ob("A9-waiting", "each done", fl.path(edges_of(fl, done), got + [g.exit], stop_node=lambda m: m in ok) if done else True, "finished workers are waited for forever")
    c.ob("A9-waiting", "only done", fl.path([g.entry], ok, stop_edge=lambda m, lab: (m.id, lab) in done), "a worker is taken for finished that is not")
    for n in ok:
        t = ex(fl, n.base, n, 8)
        keys = [s[2] for s in subterms(t) if s[0] == "sub" and at(s[1], "workers")]
        c.ob("A9-waiting", "which", True if keys and any(k[0] == "const" for k in keys) else None, "a worker is taken for finished that is not", n)
    han = calls(fl, "_handle_progress_reports")
    some = [(m, lab) for m in got for _, lab in m.succ if lab != "exc"]
    c.ob("A9-waiting", "handled", fl.path(some, got + [g.exit], stop_node=lambda m: m in han), "reports of the last workers are lost")
    for n in han:
        f = arg(n, 1, "already_failing")
        c.ob("A9-waiting", "failing", None if f is not None and ex(fl, f, n) == ("param", "already_failing") else True, "an error at shutdown is ignored or stops the shutdown", n)
        a = arg(n, 0, "report")
        c.ob("A9-waiting", "report", None if a is not None and frm(fl, a, n, got) else True, "reports of the last workers are lost", n)
    for n in got:
        b = arg(n, 0, "block")
        c.ob("A9-waiting", "blocks", None if b is not None and ex(fl, b, n) == const(True) else True, "the end of the workers is not awaited", n)
    after(c, "A8-sentinels", "before waiting", fl, sc + wr, got, "workers are not told to stop before they are waited for")

    fl = flow_of(c, C, "__exit__")
    g = fl.g
    given = {"none": lambda lit, m: lit == ("isnone", ("param", "exc_type"), True) or lit == ("isnone", ("param", "exc_value"), True)}
    st = [n for n in calls(fl, "set") if at(ex(fl, n.recv, n), "_cancel_event")]
    passes(c, "A10-exit", "cancelled", fl, [g.entry], st, [g.exit], given, lambda none: "never" if none else "must", "workers are not cancelled after an error, or without one", exc=False)
    wait, term = calls(fl, "_wait_for_workers_to_finish"), calls(fl, "_terminate")
    must(c, "A10-exit", "finished", fl, [g.entry], wait + term, [g.exit], "workers are left running")
    for w in wait:
        for s in st:
            c.ob("A10-exit", "cancelled first", fl.path([w], [s]), "workers are not cancelled after an error", w)
        f = arg(w, 0, "already_failing")
        t = ex(fl, f, w) if f is not None else const(False)
        good = t[0] == "cmp" and t[1] in ("IsNot", "NotEq") and t[2] in (("param", "exc_type"), ("param", "exc_value")) and t[3] == const(None) or t[0] == "not" and t[1][0] == "cmp" and t[1][1] in ("Is", "Eq")
        if f is not None and fl.term(f, w)[0] == "var" or t[0] == "tmp":
            good = True
        c.ob("A10-exit", "failing", None if good else True, "the error of a worker at shutdown is ignored, or hides the first error", w)
    lost = lambda lit, m: lit[0] == "eq" and any(_glob(t, "_WorkerCommunicationError") for t in lit[1:3])  # noqa: E731
    passes(c, "A10-exit", "dead worker", fl, [g.entry], term, [g.exit], {"lost": lost, **given}, lambda lost, none: "must" if lost and not none else None, "the other workers are left running when one has died",
           exc=False)
    passes(c, "A10-exit", "dead worker:no wait", fl, [g.entry], wait, [], {"lost": lost, **given}, lambda lost, none: "never" if lost and not none else None,
           "the supervisor waits for a dead worker", exc=False)
    exc = lit_edges(fl, lambda l, m: l[0] == "excis" and l[-1] is True and any(str(x).endswith("_WorkerCommunicationError") for x in l[1]))
    ends = [n for n in g.live if n.kind in ("raise", "reraise")]
    if exc:
        c.ob("A10-exit", "dead at shutdown", fl.path(edges_of(fl, exc), [g.exit] + ends, stop_node=lambda m: m in term), "the other workers are left running when one has died")
        c.ob("A10-exit", "raised", fl.path(edges_of(fl, exc), [g.exit]), "the death of a worker is ignored")
    for r in retvals(fl):
        t = ex(fl, r.value, r) if r.value is not None else const(None)
        c.ob("A10-exit", "not swallowed", True if t[0] == "const" and t[2] else None, "the error that stopped the aggregation is swallowed", r)

    fl = flow_of(c, C, "_terminate")
    kills = calls(fl, "kill")
    hs = [h for h in iters(fl, False) if mentions(ex(fl, h.iterable, h), lambda s: at(s, "workers"))]
    wk = [n for n in kills if any(h in loops_of(fl, n) for h in hs)]
    present(c, "A10-exit", "killed", wk, "workers are left running", fl)
    for h in hs:
        each(c, "A10-exit", "each killed", fl, h, wk, "workers are left running", unless=lambda l, m: l[0] == "truth" and l[2] is False and mentions(ex(fl, l[1], m), lambda s: s[0] == "call" and s[2] == "is_alive"))
    must(c, "A10-exit", "killed:always", fl, [fl.g.entry], hs, [fl.g.exit], "workers are left running")
    for queue in ("_scan_requests", "_ingest_requests", "_compression_dict", "_reports"):
        must(c, "A10-exit", "queue" + queue, fl, [fl.g.entry], q_(fl, "kill", queue), [fl.g.exit], "a queue of a dead worker is joined forever")


# ---------------------------------------------------------------- workers

def workers(c):
    fl = flow_of(c, cls(c, "_communicators.WorkerCommunicator"), "__exit__")
    g = fl.g
    er = sends(fl, "_reports", "_WorkerErrorMessage")
    present(c, "A11-worker", "error", er, "the error of a worker is not reported", fl)
    none = lambda lit, m: lit[0] == "isnone" and lit[1] in (("param", "exc_type"), ("param", "exc_value"))  # noqa: E731
    fatal = lambda lit, m: lit[0] == "eq" and any(_glob(t, "FatalWorkerError") for t in lit[1:3])  # noqa: E731
    passes(c, "A11-worker", "error", fl, [g.entry], er, [g.exit], {"none": none, "fatal": fatal}, lambda none, fatal: "never" if none or fatal else "must",
           "the error of a worker is not reported, or reported by workers that are only told to stop", exc=False)
    ex_ = [n for n in calls(fl, "__exit__") if n.recv is not None and at(ex(fl, n.recv, n), "_exit_stack", "exit_stack")] + [n for n in calls(fl, "close") if n.recv is not None and at(ex(fl, n.recv, n), "_exit_stack")]
    present(c, "A11-worker", "closed", ex_, "files of a worker are not closed", fl)
    must(c, "A11-worker", "closed", fl, [g.entry], ex_, [g.exit], "files of a worker are not closed")
    for n in ex_:
        if n.name == "__exit__":
            c.ob("A11-worker", "closed:how", None if n.args and ex(fl, n.args[0], n) == ("param", "exc_type") else True, "files of a failed worker are completed as if it had succeeded", n)
    for r in retvals(fl):
        c.ob("A11-worker", "swallowed", None if r.value is None or ex(fl, r.value, r)[0] != "const" or ex(fl, r.value, r)[2] is True else True,
             "a worker dies of its error before the supervisor is told that it is done", r)
    must(c, "A11-worker", "swallowed:always", fl, [g.entry], [r for r in retvals(fl) if r.value is not None and r.value != const(None)], [g.exit], "a worker dies of its error")

    fl = flow_of(c, cls(c, "_communicators.WorkerCommunicator"), "check_for_cancel")
    g = fl.g
    isset = lambda lit, m: lit[0] == "truth" and mentions(ex(fl, lit[1], m), lambda s: s[0] == "call" and s[2] == "is_set" and s[3] is not None and at(s[3], "_cancel_event"))  # noqa: E731
    rs = [n for n in _raises(fl) if (n.d.get("exc") or "").endswith("FatalWorkerError")]
    passes(c, "A11-worker", "cancel", fl, [g.entry], rs, [g.exit], {"set": isset}, lambda set: "must" if set else "never", "cancelling has no effect, or workers stop without it", exc=False)

    for nm, queue, end, n_attr, puts in (("ScannerCommunicator", "_scan_requests", "NO_MORE_SCAN_REQUESTS", None, (("_ingest_requests", "NO_MORE_INGEST_REQUESTS"), ("_write_requests", "NO_MORE_WRITE_REQUESTS"))),
                                         ("IngesterCommunicator", "_ingest_requests", "NO_MORE_INGEST_REQUESTS", "n_scanners", ()),
                                         ("WriterCommunicator", "_write_requests", "NO_MORE_WRITE_REQUESTS", "_n_requesters", ())):
        C = cls(c, "_communicators." + nm)
        fl = flow_of(c, C, "__exit__")
        g = fl.g
        sup = [n for n in calls(fl, "__exit__")]
        must(c, "A12-done", f"{nm}:base", fl, [g.entry], sup, [g.exit], "the error of a worker is not reported")
        for n in sup:
            c.ob("A12-done", f"{nm}:base:args", None if any(ex(fl, a, n) == ("param", "exc_type") for a in n.args) and any(ex(fl, a, n) in (("param", "exc_value"), ("param", "exc_val")) for a in n.args) else True,
                 "the error of a worker is not reported", n)
        dn = sends(fl, "_reports", "_WorkerDone")
        present(c, "A12-done", nm, dn, "the supervisor waits for a worker that has ended", fl)
        must(c, "A12-done", f"{nm}:always", fl, [g.entry], dn, [g.exit], "the supervisor waits for a worker that has ended")
        for n in dn:
            c.ob("A12-done", f"{nm}:once", fl.path(fl.out_edges([n]), dn), "a worker reports twice that it is done", n)
            c.ob("A12-done", f"{nm}:name", None if mentions(ex(fl, n.args[0], n), lambda s: s == self_("name")) else True, "the supervisor waits for a worker that has ended", n)
            for s in sup:
                c.ob("A12-done", f"{nm}:last", fl.path([n], [s]), "a worker reports that it is done before its files are closed", n)
        for q2, s2 in puts:
            ns = sends(fl, q2, s2)
            present(c, "A12-done", f"{nm}{q2}", ns, "the receiver of requests waits for a scanner that has ended", fl)
            cut = lit_edges(fl, lambda l, m, q2=q2: l[0] == "isnone" and l[2] is True and l[1] == self_(q2))
            c.ob("A12-done", f"{nm}{q2}:always", fl.path([g.entry], [g.exit], stop_node=lambda m: m in ns, stop_edge=lambda m, lab: (m.id, lab) in cut or lab == "exc"),
                 "the receiver of requests waits for a scanner that has ended")
            for n in ns:
                c.ob("A12-done", f"{nm}{q2}:once", fl.path(fl.out_edges([n]), ns), "a scanner tells twice that it has ended", n)
                # the sentinel comes before waiting for the own queue to drain: the others do not wait for it
                c.ob("A12-done", f"{nm}{q2}:first", fl.path(q_(fl, "get", queue), [n]), "workers wait for each other", n)
                for s in sup:
                    c.ob("A12-done", f"{nm}{q2}:after base", fl.path([n], [s]), "a scanner announces that it has ended before it reports its error", n)
        # drained
        if n_attr is None:
            flag = lit_edges(fl, lambda l, m: l == ("truth", self_("_got_no_more_scan_requests"), True))
            c.ob("A13-drain", nm, fl.path([g.entry], dn, stop_edge=lambda m, lab: (m.id, lab) in flag), "a scanner ends before it is told to, and leaves requests in the queue")
            st = [n for n in _attrstores(fl, "_got_no_more_scan_requests")]
        else:
            flag = lit_edges(fl, lambda l, m: l[0] == "eq" and l[3] is True and set(l[1:3]) == {self_("_n_requesters_done"), self_(n_attr)} or l[0] == "lt" and l[3] is False
                             and l[1:3] == (self_("_n_requesters_done"), self_(n_attr)))
            c.ob("A13-drain", nm, fl.path([g.entry], dn, stop_edge=lambda m, lab: (m.id, lab) in flag), "a worker ends before its requesters, and leaves requests in the queue")
            st = [n for n in _attrstores(fl, "_n_requesters_done")]
        got = q_(fl, "get", queue)
        present(c, "A13-drain", f"{nm}:gets", got, "a worker leaves requests in the queue", fl)
        present(c, "A13-drain", f"{nm}:counts", st, "a worker waits for requesters that have ended", fl)
        isend = lit_edges(fl, lambda l, m: is_(end)(l, m) and l[3] is True)
        c.ob("A13-drain", f"{nm}:each", fl.path(edges_of(fl, isend), got + dn, stop_node=lambda m: m in st) if isend else True, "a worker waits for requesters that have ended")
        c.ob("A13-drain", f"{nm}:only", fl.path([g.entry], st, stop_edge=lambda m, lab: (m.id, lab) in isend), "a worker ends before its requesters")
        for n in got:
            b = arg(n, None, "block")
            c.ob("A13-drain", f"{nm}:blocks", None if b is not None and ex(fl, b, n) == const(True) else True, "a worker spins at its end", n)
        counts(c, "A13-drain", nm, fl, st, n_attr)


def counts(c, rule, nm, fl, st, n_attr):
    for n in st:
        if n_attr is None:
            c.ob(rule, f"{nm}:flag", None if ex(fl, n.value, n) == const(True) else True, "a scanner waits forever, or not at all", n)
        else:
            t = ex(fl, n.value, n)
            good = n.d.get("aug") and (t == const(1) or t[0] == "op" and const(1) in t[2]) or t[0] == "op" and t[1] == "Add" and const(1) in t[2] and self_("_n_requesters_done") in t[2]
            c.ob(rule, f"{nm}:one", None if good else True, "requesters that have ended are miscounted", n)


def polls(c):
    for nm, queue, end, n_attr in (("ScannerCommunicator", "_scan_requests", "NO_MORE_SCAN_REQUESTS", None), ("IngesterCommunicator", "_ingest_requests", "NO_MORE_INGEST_REQUESTS", "n_scanners"),
                                   ("WriterCommunicator", "_write_requests", "NO_MORE_WRITE_REQUESTS", "_n_requesters")):
        fl = flow_of(c, cls(c, "_communicators." + nm), "poll")
        g = fl.g
        got, chk = q_(fl, "get", queue), calls(fl, "check_for_cancel")
        ys = [n for n in g.live if n.kind == "yield"]
        present(c, "A14-poll", nm, got, "requests are lost", fl)
        present(c, "A14-poll", f"{nm}:yields", ys, "requests are lost", fl)
        for n in got:
            c.ob("A14-poll", f"{nm}:cancel", fl.path([g.entry] + [(m, lab) for m in got for _, lab in m.succ if lab != "exc"], got, stop_node=lambda m: m in chk), "a cancelled worker goes on", n)
            b, t = arg(n, None, "block"), arg(n, None, "timeout")
            c.ob("A14-poll", f"{nm}:timeout", None if t is not None or b is None or ex(fl, b, n) == const(False) else True, "a worker that waits for requests does not notice that it is cancelled", n)
        isend = lit_edges(fl, lambda l, m: is_(end)(l, m) and l[3] is True)
        notend = lit_edges(fl, lambda l, m: is_(end)(l, m) and l[3] is False)
        present(c, "A14-poll", f"{nm}:end", isend, "a worker never ends", fl)
        nothing = lambda lit, m: lit[0] == "isnone" and frm(fl, lit[1], m, got, False)  # noqa: E731
        atoms = {"end": is_(end), "none": nothing}
        after_get = [(m, lab) for m in got for _, lab in m.succ if lab != "exc"]
        cut = cut_edges(fl, atoms, {"end": False, "none": False})
        c.ob("A14-poll", f"{nm}:each", fl.path(after_get, got + [g.exit], stop_node=lambda m: m in ys, stop_edge=lambda m, lab: (m.id, lab) in cut or lab == "exc"), "a request is lost")
        for k in ("end", "none"):
            cut = cut_edges(fl, atoms, {"end": k == "end", "none": k == "none"})
            c.ob("A14-poll", f"{nm}:not({k})", fl.path(after_get, ys, stop_node=lambda m: m in got, stop_edge=lambda m, lab: (m.id, lab) in cut), "something is handed out that is no request")
        cut = cut_edges(fl, atoms, {"end": False, "none": True})
        c.ob("A14-poll", f"{nm}:waits", fl.path(after_get, [g.exit], stop_node=lambda m: m in got, stop_edge=lambda m, lab: (m.id, lab) in cut or lab == "exc"), "a worker ends before its requesters")
        for y in ys:
            v = y.d.get("value")
            c.ob("A14-poll", f"{nm}:value", None if v is None or frm(fl, v, y, got) else True, "a request is lost", y)
            c.ob("A14-poll", f"{nm}:goes on", fl.path([(y, lab) for _, lab in y.succ if lab != "exc"], [g.exit], stop_node=lambda m: m in got), "a worker ends after its first request", y)
        st = _attrstores(fl, "_got_no_more_scan_requests" if n_attr is None else "_n_requesters_done")
        present(c, "A14-poll", f"{nm}:counted", st, "a worker waits forever for requesters that have ended", fl)
        c.ob("A14-poll", f"{nm}:counted", fl.path(edges_of(fl, isend), got + [g.exit], stop_node=lambda m: m in st), "a worker waits forever for requesters that have ended")
        c.ob("A14-poll", f"{nm}:only", fl.path([g.entry], st, stop_edge=lambda m, lab: (m.id, lab) in isend), "a worker ends before its requesters")
        counts(c, "A14-poll", nm, fl, st, n_attr)
        if n_attr is not None:
            full_ = {"all": lambda lit, m: lit[0] == "eq" and set(lit[1:3]) == {self_("_n_requesters_done"), self_(n_attr)}, "less": lambda lit, m: lit[0] == "lt" and lit[1:3] == (
                self_("_n_requesters_done"), self_(n_attr))}
            for s in st:
                nx = [(s, lab) for _, lab in s.succ if lab != "exc"]
                cut = cut_edges(fl, full_, {"all": False, "less": True})
                c.ob("A14-poll", f"{nm}:not all", fl.path(nx, [g.exit], stop_node=lambda m: m in got, stop_edge=lambda m, lab: (m.id, lab) in cut or lab == "exc"),
                     "a worker ends before all its requesters have", s)
                cut = cut_edges(fl, full_, {"all": True, "less": False})
                c.ob("A14-poll", f"{nm}:all", fl.path(nx, got, stop_edge=lambda m, lab: (m.id, lab) in cut), "a worker goes on after all its requesters have ended", s)
        else:
            c.ob("A14-poll", f"{nm}:stops", fl.path(edges_of(fl, isend), got), "a scanner takes the end of another one")


def wiring(c):
    S = "_communicators.SupervisorCommunicator"
    for nm, qs in (("WorkerCommunicator", ("_reports", "_cancel_event", "config")), ("ScannerCommunicator", ("_scan_requests", "_ingest_requests", "_write_requests", "_compression_dict")),
                   ("IngesterCommunicator", ("_ingest_requests", "n_scanners")), ("WriterCommunicator", ("_write_requests", "_compression_dict", "n_scanners"))):
        fl = flow_of(c, cls(c, "_communicators." + nm), "__init__")
        for q in qs:
            st = [n for n in _attrstores(fl, q) if ex(fl, n.base, n) == ("param", "self")]
            present(c, "A15-wiring", f"{nm}.{q}", st, "a worker is not connected", fl)
            must(c, "A15-wiring", f"{nm}.{q}", fl, [fl.g.entry], st, [fl.g.exit], "a worker is not connected")
            for n in st:
                c.ob("A15-wiring", f"{nm}.{q}:which", None if ex(fl, n.value, n) == ("attr", ("param", "supervisor"), q) else True, "a worker is connected to another queue", n)
        if nm == "WriterCommunicator":
            for n in _attrstores(fl, "_n_requesters"):
                t = ex(fl, n.value, n)
                c.ob("A15-wiring", "requesters of the writer", None if t[0] == "op" and t[1] == "Add" and const(1) in t[2] and any(at(x, "n_scanners") for x in t[2]) else True,
                     "the writer ends before all its requesters have, or never", n)
        for n in _attrstores(fl, "_n_requesters_done"):
            c.ob("A15-wiring", f"{nm}:none done", None if ex(fl, n.value, n) == const(0) else True, "a worker ends before its requesters", n)
        for n in _attrstores(fl, "_got_no_more_scan_requests"):
            c.ob("A15-wiring", f"{nm}:not told", None if ex(fl, n.value, n) == const(False) else True, "a scanner ends at once", n)
    fl = flow_of(c, cls(c, S), "__init__")
    g = fl.g
    mk = calls(fl, "make_queue")
    seen = {}
    for q in ("_scan_requests", "_ingest_requests", "_write_requests", "_reports", "_compression_dict"):
        st = _attrstores(fl, q)
        present(c, "A15-wiring", q, st, "a queue is missing", fl)
        for n in st:
            src = [m for m in mk if frm(fl, n.value, n, [m])]
            c.ob("A15-wiring", q + ":own", None if src and not any(m.id in seen for m in src) else True, "two queues are one", n)
            seen.update((m.id, q) for m in src)
    for n in _attrstores(fl, "_write_requests"):
        on = cfg("is_writing_provenance")
        srcs = fl.sources(n.value, n) if fl.term(n.value, n)[0] == "var" else [(n.value, n)]
        for v, m in srcs:
            isq = frm(fl, v, m, mk)
            cut = cut_edges(fl, {"on": on}, {"on": not isq})
            c.ob("A15-wiring", "writer:" + ("made" if isq else "none"), fl.path([g.entry], [m], stop_edge=lambda k, lab: (k.id, lab) in cut), "writes are requested without a writer, or none with one", m)
    for nm in ("_sent_no_more_scan_requests", "_sent_no_more_write_requests"):
        for n in _attrstores(fl, nm):
            c.ob("A15-wiring", nm, None if ex(fl, n.value, n) == const(False) else True, "workers are never told to stop", n)
    for n in _attrstores(fl, "n_scanners"):
        c.ob("A15-wiring", "n_scanners", None if ex(fl, n.value, n) == ("param", "n_scanners") else True, "not every scanner is told to stop", n)
    for nm, meth, queue, par in ((S, "request_scan", "_scan_requests", "quantum_id"), (S, "request_write", "_write_requests", "request"), ("_communicators.ScannerCommunicator", "report_scan", "_reports", "msg"),
                                 ("_communicators.ScannerCommunicator", "request_write", "_write_requests", "request"), ("_communicators.ScannerCommunicator", "request_ingest", "_ingest_requests", "request"),
                                 ("_communicators.IngesterCommunicator", "report_ingest", "_reports", "n_producers"), ("_communicators.WriterCommunicator", "report_write", "_reports", None),
                                 ("_communicators.WorkerCommunicator", "log_progress", "_reports", "message")):
        fl = flow_of(c, cls(c, nm), meth)
        ns = q_(fl, "put", queue)
        what = f"{nm.rsplit('.', 1)[-1]}.{meth}"
        present(c, "A16-messages", what, ns, "a message is not sent", fl)
        cut = lit_edges(fl, lambda l, m: meth == "request_ingest" and l == ("truth", ("param", "request"), False))
        c.ob("A16-messages", what + ":always", fl.path([fl.g.entry], [fl.g.exit], stop_node=lambda m: m in ns, stop_edge=lambda m, lab: (m.id, lab) in cut or lab == "exc"), "a message is not sent")
        for n in ns:
            if par is not None:
                c.ob("A16-messages", what + ":content", None if fl.derives(n.args[0], n, lambda t, m: t == ("param", par), through_args=True) or mentions(ex(fl, n.args[0], n), lambda s: s == ("param", par)) else True,
                     "another message is sent", n)
            else:
                c.ob("A16-messages", what + ":content", None if _glob(ex(fl, n.args[0], n), "WRITE_REPORT") else True, "another message is sent", n)
            c.ob("A16-messages", what + ":once", fl.path(fl.out_edges([n]), ns), "a message is sent twice", n)
    fl = flow_of(c, cls(c, "_communicators.WriterCommunicator"), "send_compression_dict")
    ns = q_(fl, "put", "_compression_dict")
    for n in ns:
        hs = loops_of(fl, n)
        t = [ex(fl, h.iterable, h) for h in hs]
        c.ob("A16-messages", "dictionary:count", None if len(t) == 1 and rng(t[0]) is not None and at(rng(t[0]), "n_scanners") else True,
             "a scanner never gets the compression dictionary", n)
        for h in hs:
            each(c, "A16-messages", "dictionary:each", fl, h, ns, "a scanner never gets the compression dictionary")
        c.ob("A16-messages", "dictionary:content", None if mentions(ex(fl, n.args[0], n), lambda s: s == ("param", "cdict_data")) else True, "scanners compress with another dictionary than the graph has", n)
    present(c, "A16-messages", "dictionary", ns, "a scanner never gets the compression dictionary", fl)


def start(c):
    fl = c.flow(A + "_supervisor.aggregate_graph", inline=lambda f: f.module.name.endswith("_supervisor") and f.cls is None and f.name != "aggregate_graph")
    g = fl.g
    sup = ctor(fl, "SupervisorCommunicator")
    present(c, "A17-start", "supervisor", sup, "aggregation has no supervisor", fl)
    n_sc = {ex(fl, arg(n, 1, "n_scanners"), n) for n in sup}
    mk = calls(fl, "make_worker")
    mk_of = {}
    for kind, com in (("Writer", "WriterCommunicator"), ("Scanner", "ScannerCommunicator"), ("Ingester", "IngesterCommunicator")):
        ns = [n for n in mk if arg(n, 0, "target") is not None and mentions(ex(fl, arg(n, 0, "target"), n), lambda s: s[0] == "glob" and s[1].endswith(f".{kind}.run"))]
        mk_of[kind] = ns
        present(c, "A17-start", kind, ns, f"the {kind.lower()} is not started", fl)
        coms = ctor(fl, com)
        for n in ns:
            c.ob("A17-start", f"{kind}:connected", None if fl.derives(arg(n, 1, "args"), n, lambda t, m: t[0] == "tmp" and t[1] in {x.id for x in coms}, through_args=True) else True,
                 f"the {kind.lower()} is not connected", n)
            st = [m for m in g.live if m.kind == "substore" and at(ex(fl, m.base, m), "workers") and frm(fl, m.value, m, [n])]
            present(c, "A17-start", f"{kind}:registered", st, f"the end of the {kind.lower()} is not awaited", fl)
            for m in st:
                c.ob("A17-start", f"{kind}:name", None if mentions(ex(fl, m.key, m), lambda s: at(s, "name")) else True, f"the end of the {kind.lower()} is not awaited", m)
            must(c, "A17-start", f"{kind}:always registered", fl, [(n, lab) for _, lab in n.succ if lab != "exc"], st, [g.exit] + mk, f"the end of the {kind.lower()} is not awaited")
    on = cfg("is_writing_provenance")
    lp = calls(fl, "loop")
    passes(c, "A17-start", "writer", fl, [g.entry], mk_of["Writer"], lp, {"on": on}, lambda on: "must" if on else "never", "provenance is not written, or written against the wish of the user", exc=False)
    for n in mk_of["Scanner"]:
        hs = loops_of(fl, n)
        t = [ex(fl, h.iterable, h) for h in hs]
        c.ob("A17-start", "scanners:count", None if len(t) == 1 and rng(t[0]) in n_sc else True,
             "the supervisor expects another number of scanners than there are", n)
        for h in hs:
            each(c, "A17-start", "scanners:each", fl, h, mk_of["Scanner"], "the supervisor expects another number of scanners than there are")
    must(c, "A17-start", "ingester", fl, [g.entry], mk_of["Ingester"], lp + [g.exit], "outputs are not ingested")
    present(c, "A17-start", "loop", lp, "nothing is scanned", fl)
    must(c, "A17-start", "loop", fl, [g.entry], lp, [g.exit], "nothing is scanned")
    wx = [n for n in g.live if n.kind == "wenter"]
    for n in lp + mk:
        c.ob("A17-start", "inside", fl.path([g.entry], [n], stop_node=lambda m: m in wx), "workers are left running after an error", n)
    for com in ("WriterCommunicator", "ScannerCommunicator", "IngesterCommunicator"):
        for n in ctor(fl, com):
            a = arg(n, 0, "supervisor")
            c.ob("A17-start", f"{com}:supervisor", None if a is not None and frm(fl, a, n, sup + wx) or a is not None and fl.term(a, n)[0] in ("tmp", "var") else True, "a worker is not connected", n)
    for kind in ("_scanner.Scanner", "_ingester.Ingester", "_writer.Writer"):
        fl = flow_of(c, cls(c, kind), "run")
        lp = calls(fl, "loop")
        present(c, "A17-start", kind + ".run", lp, "a worker does nothing", fl)
        must(c, "A17-start", kind + ".run", fl, [fl.g.entry], lp, [fl.g.exit], "a worker does nothing")
        wx = [n for n in fl.g.live if n.kind == "wenter" and ex(fl, n.d.get("value") or n.d.get("ctx") or ("x",), n) == ("param", "comms")]
        if wx:
            for n in ctor(fl, kind.rsplit(".", 1)[-1]) + lp:
                c.ob("A17-start", kind + ":inside", fl.path([fl.g.entry], [n], stop_node=lambda m: m in wx), "the error of a worker is not reported", n)


def primitives(c):
    """Queues and workers."""
    for nm in ("_ThreadQueue", "_ProcessQueue"):
        C = cls(c, "_workers." + nm)
        fl = flow_of(c, C, "get")
        got = [n for n in calls(fl, "get") if n.recv is not None and at(ex(fl, n.recv, n), "_impl")]
        present(c, "A18-queues", nm + ".get", got, "messages are lost", fl)
        for n in got:
            for k in ("block", "timeout"):
                v = arg(n, 0 if k == "block" else 1, k)
                c.ob("A18-queues", f"{nm}.get:{k}", None if v is not None and ex(fl, v, n) == ("param", k) else True, "a queue is not waited for", n)
            c.ob("A18-queues", f"{nm}.get:value", fl.path([(n, lab) for _, lab in n.succ if lab != "exc"], [fl.g.exit], stop_node=lambda m: m.kind == "return" and m.value is not None and frm(fl, m.value, m, [n])),
                 "a message is lost", n)
        fl = flow_of(c, C, "put")
        ns = [n for n in calls(fl, "put", "put_nowait") if n.recv is not None and at(ex(fl, n.recv, n), "_impl")]
        must(c, "A18-queues", nm + ".put", fl, [fl.g.entry], ns, [fl.g.exit], "messages are lost")
        for n in ns:
            c.ob("A18-queues", nm + ".put:value", None if ex(fl, n.args[0], n) == ("param", "item") else True, "messages are lost", n)
    for nm in ("ThreadWorkerFactory", "SpawnWorkerFactory"):
        fl = flow_of(c, cls(c, "_workers." + nm), "make_worker")
        mk = [n for n in fl.g.calls() if n.name in ("Thread", "Process")]
        present(c, "A18-queues", nm, mk, "workers are not started", fl)
        for n in mk:
            for k in ("target", "args", "name"):
                c.ob("A18-queues", f"{nm}:{k}", None if k in n.kwargs and ex(fl, n.kwargs[k], n) == ("param", k) else True, "another worker is started", n)
        st = [n for n in calls(fl, "start") if frm(fl, n.recv, n, mk)]
        must(c, "A18-queues", nm + ":started", fl, [fl.g.entry], st, [fl.g.exit], "workers are not started")
    for nm in ("_ThreadWorker", "_ProcessWorker"):
        for meth in ("join", "is_alive") + (("kill",) if nm == "_ProcessWorker" else ()):
            fl = flow_of(c, cls(c, "_workers." + nm), meth)
            ns = [n for n in calls(fl, meth) if n.recv is not None and at(ex(fl, n.recv, n), "_thread", "_process")]
            present(c, "A18-queues", f"{nm}.{meth}", ns, "a worker is not watched", fl)
            must(c, "A18-queues", f"{nm}.{meth}", fl, [fl.g.entry], ns, [fl.g.exit], "a worker is not watched")
            if meth == "is_alive":
                for r in retvals(fl):
                    c.ob("A18-queues", f"{nm}.{meth}:value", None if frm(fl, r.value, r, ns, False) else True, "a worker is not watched", r)


# ---------------------------------------------------------------- scanner

def scanner(c):
    C = cls(c, "_scanner.Scanner")
    fl = flow_of(c, C, "loop")
    hs = [h for h in iters(fl, False) if mentions(ex(fl, h.iterable, h), lambda s: s[0] == "call" and s[2] == "poll")]
    sq = calls(fl, "scan_quantum")
    present(c, "A19-scan", "requests", hs, "scan requests are ignored", fl)
    for h in hs:
        each(c, "A19-scan", "each request", fl, h, sq, "a scan request is ignored")
        for n in sq:
            c.ob("A19-scan", "quantum", None if frm_elem(fl, n.args[0], n, h) else True, "another quantum is scanned", n)
    for n in _attrstores(fl, "compressor"):
        mk = calls(fl, "get_compression_dict")
        c.ob("A19-scan", "dictionary", None if frm(fl, n.value, n, mk) else True, "scanners compress with another dictionary than the graph has", n)
        guard(c, "A19-scan", "dictionary:given", fl, [n], lambda l, m: l[0] == "isnone" and l[2] is False and frm(fl, l[1], m, mk, False) or l[0] == "truth" and l[2] is True and frm(fl, l[1], m, mk, False),
              "scanners compress with another dictionary than the graph has")

    fl = flow_of(c, C, "scan_quantum")
    g = fl.g
    rep, ing, wr = calls(fl, "report_scan"), calls(fl, "request_ingest"), calls(fl, "request_write")
    for nm, ns in (("reported", rep), ("ingested", ing), ("written", wr)):
        present(c, "A20-results", nm, ns, f"the result of a scan is not {nm}", fl)
    ab = is_("ABANDONED")
    must(c, "A20-results", "reported", fl, [g.entry], rep, [g.exit], "the supervisor waits for the result of a scan forever")
    for n in rep:
        c.ob("A20-results", "reported:once", fl.path(fl.out_edges([n]), rep), "the result of a scan is reported twice", n)
        t = ex(fl, n.args[0], n)
        mk = [s for s in subterms(t) if s[0] == "call" and s[2] == "ScanReport"]
        for s in mk:
            a = list(s[4]) + [v for _, v in s[5]]
            c.ob("A20-results", "report", None if any(at(x, "status") for x in a) and any(at(x, "quantum_id") or x == ("param", "quantum_id") for x in a) else True, "the result of a scan is reported wrongly", n)
        for m in ing + wr:
            c.ob("A20-results", "reported:last", fl.path([n], [m]), "the supervisor goes on before the outputs of a quantum are known", n)
    passes(c, "A20-results", "abandoned", fl, [g.entry], ing + wr, [], {"ab": ab}, lambda ab: None, "")
    abe = lit_edges(fl, lambda l, m: ab(l, m) and l[3] is True)
    present(c, "A20-results", "abandoned", abe, "outputs of an abandoned quantum are ingested", fl)
    c.ob("A20-results", "abandoned", fl.path(edges_of(fl, abe), ing + wr), "outputs of an abandoned quantum are ingested or written")
    c.ob("A20-results", "abandoned:asked", fl.path([m for m in calls(fl, "from_metadata_and_logs")], ing + wr, stop_edge=lambda m, lab: (m.id, lab) in lit_edges(fl, lambda l, k: ab(l, k) and l[3] is False)),
         "outputs of an abandoned quantum are ingested or written")
    c.ob("A20-results", "ingested", fl.path([g.entry], [g.exit], stop_node=lambda m: m in ing, stop_edge=lambda m, lab: (m.id, lab) in abe or lab == "exc"), "the outputs of a quantum are not ingested")
    off = lit_edges(fl, lambda l, m: l[0] == "truth" and l[2] is False and at(l[1], "is_writing_provenance"))
    c.ob("A20-results", "written", fl.path([g.entry], [g.exit], stop_node=lambda m: m in wr, stop_edge=lambda m, lab: (m.id, lab) in abe or (m.id, lab) in off or lab == "exc"),
         "the provenance of a quantum is not written")
    for n in wr:
        guard(c, "A20-results", "written:only", fl, [n], lambda l, m: l[0] == "truth" and l[2] is True and at(l[1], "is_writing_provenance"), "a write is requested without a writer")
        tsd = calls(fl, "to_scan_data")
        c.ob("A20-results", "written:what", None if frm(fl, n.args[0], n, tsd) else True, "the provenance of a quantum is not written", n)
        for m in tsd:
            v = arg(m, 1, "compressor")
            c.ob("A20-results", "compressor", None if v is not None and at(ex(fl, v, m), "compressor") else True, "scan results are not compressed", m)
    for n in ing:
        mk = calls(fl, "_make_ingest_request")
        c.ob("A20-results", "ingested:what", None if frm(fl, n.args[0], n, mk) else True, "the outputs of a quantum are not ingested", n)
    # existence of all outputs is determined before any of this
    hs = [h for h in iters(fl, False) if mentions(ex(fl, h.iterable, h, 8), lambda s: at(s, "outputs"))]
    sd = calls(fl, "scan_dataset")
    st = [n for n in g.live if n.kind == "substore" and at(ex(fl, n.base, n), "output_existence")]
    present(c, "A21-existence", "outputs", [h for h in hs if any(h in loops_of(fl, n) for n in st)], "the existence of outputs is not determined", fl)
    for h in hs:
        if any(h in loops_of(fl, n) for n in st):
            each(c, "A21-existence", "each", fl, h, st, "the existence of an output is not determined", unless=lambda l, m: l[0] == "in" and l[3] is True and at(ex(fl, l[2], m), "output_existence"), exc=False)
            c.ob("A21-existence", "first", fl.path([g.entry], ing + wr, stop_node=lambda m: m is h), "outputs are ingested before their existence is known", h)
    for n in st:
        c.ob("A21-existence", "value", None if frm(fl, n.value, n, sd) else True, "the existence of an output is not determined", n)
        guard(c, "A21-existence", "known", fl, [n], lambda l, m: l[0] == "in" and l[3] is False and at(ex(fl, l[2], m), "output_existence"), "what is known of the existence of an output is overwritten") if not all(
            frm(fl, n.value, n, sd) for n in st) else None
        c.ob("A21-existence", "key", None if at(ex(fl, n.key, n), "dataset_id") else True, "the existence of an output is noted for another", n)
    atoms = {"not init": lambda lit, m: lit[0] == "isnone" and mentions(ex(fl, lit[1], m), lambda s: at(s, "init_quanta")) or lit[0] == "in" and False}
    fm = calls(fl, "from_metadata_and_logs")
    present(c, "A21-existence", "scanned", fm, "quanta are not scanned", fl)
    cut = cut_edges(fl, atoms, {"not init": True})
    c.ob("A21-existence", "scanned", fl.path([g.entry], ing + wr, stop_node=lambda m: m in fm, stop_edge=lambda m, lab: (m.id, lab) in cut), "a quantum is taken for one that needs no scan")
    cut = cut_edges(fl, atoms, {"not init": False})
    c.ob("A21-existence", "init", fl.path([g.entry], fm, stop_edge=lambda m, lab: (m.id, lab) in cut) if any(atoms["not init"](l, m) for m in g.live if m.kind == "branch" for l in fl.lits(m, True)) else None,
         "an init quantum is scanned like others")
    for n in fm:
        for i, k, src in ((1, "metadata", "_read_metadata"), (2, "logs", "_read_log")):
            v = arg(n, i, k)
            c.ob("A21-existence", k, None if v is not None and frm(fl, v, n, calls(fl, src)) else True, f"the {k} of a quantum are not looked at", n)
        v = arg(n, None, "incomplete")
        c.ob("A21-existence", "incomplete", None if v is not None and at(ex(fl, v, n), "incomplete") else True, "unfinished quanta are taken for failed ones, or the reverse", n)
    for nm in ("_read_metadata", "_read_log"):
        fl = flow_of(c, C, nm)
        g = fl.g
        gets = calls(fl, "get")
        gets = [n for n in gets if n.recv is not None and at(ex(fl, n.recv, n), "qbb")]
        present(c, "A22-reading", nm, gets, "quanta are not scanned", fl)
        must(c, "A22-reading", nm, fl, [g.entry], gets, [g.exit], "quanta are not scanned")
        c.ob("A22-reading", nm + ":value", fl.path([(n, lab) for n in gets for _, lab in n.succ if lab != "exc"], [g.exit], stop_node=lambda m: m.kind == "return" and m.value is not None and frm(fl, m.value, m, gets)),
             "what a quantum has written is not looked at")
        nf = lit_edges(fl, lambda l, m: l[0] == "excis" and l[-1] is True and all(str(x).rsplit(".", 1)[-1] == "FileNotFoundError" for x in l[1]))
        c.ob("A22-reading", nm + ":missing", fl.path([(n, "exc") for n in gets], [g.exit], stop_edge=lambda m, lab: (m.id, lab) in nf), "an unreadable dataset is taken for a missing one")
        want = "METADATA_OUTPUT_CONNECTION_NAME" if nm == "_read_metadata" else "LOG_OUTPUT_CONNECTION_NAME"
        for n in gets:
            c.ob("A22-reading", nm + ":which", None if fl.derives(n.args[0], n, lambda t, m: mentions(t, lambda s: _glob(s, want)) or mentions(fl.expand(t, 8), lambda s: _glob(s, want) or s[0] == "const" and s[2] in ("_metadata", "_log")),
                                                                  through_args=True) else True, "another dataset is read", n)
    fl = flow_of(c, C, "scan_dataset")
    st = calls(fl, "stored", "exists")
    for r in retvals(fl):
        c.ob("A22-reading", "scan_dataset", None if frm(fl, r.value, r, st) else True, "the existence of an output is not determined", r)


def ingest_request(c):
    C = cls(c, "_scanner.Scanner")
    fl = flow_of(c, C, "_make_ingest_request")
    g = fl.g
    hs = [h for h in iters(fl, None) if mentions(ex(fl, h.iterable, h, 8), lambda s: at(s, "output_existence"))]
    present(c, "A23-request", "outputs", hs, "outputs are not ingested", fl)
    was = lambda lit, m: lit[0] == "truth" and lit[1][0] in ("item", "sub")  # noqa: E731
    ign = lambda lit, m: lit[0] == "in" and lit[1][0] in ("item", "elem", "attr")  # noqa: E731
    for h in hs:
        body = fl.loop_body(h)
        ap = [n for n in g.live if n.id in body and (n.kind == "call" and n.name in ("append", "add") or n.kind == "compelt")]
        present(c, "A23-request", "taken", ap, "outputs are not ingested", fl)
        passes(c, "A23-request", "which", fl, elems(h), ap, [h, g.exit], {"produced": was, "promised": ign}, lambda produced, promised: "must" if produced and not promised else "never",
               "an output is not ingested, or one that does not exist", stop=[h], exc=False)
        each_break(c, "A23-request", "all", fl, h, "an output is not ingested")
    on, init = cfg("promise_ingest_graph"), is_("INIT")
    ig = [n for n in calls(fl, "add", "update") if n.recv is not None and _root(fl, n.recv, n) is not None and any(ign(l, m) and _root(fl, l[2], m) == _root(fl, n.recv, n) for m in g.live if m.kind == "branch"
                                                                                                                for l in fl.lits(m, True))]
    present(c, "A24-promised", "noted", ig, "datasets of the promised graph are ingested twice", fl)
    passes(c, "A24-promised", "only promised", fl, [g.entry], ig, [], {"on": on}, lambda on: "never" if not on else None, "outputs are left to a graph that will not be ingested", exc=False)
    want = {"METADATA_OUTPUT_CONNECTION_NAME": False, "LOG_OUTPUT_CONNECTION_NAME": False, "CONFIG_INIT_OUTPUT_CONNECTION_NAME": True}
    for k, isinit in want.items():
        ns = [n for n in ig if fl.derives(n.args[0], n, lambda t, m, k=k: mentions(fl.expand(t, 8), lambda s: _glob(s, k)), through_args=True)]
        present(c, "A24-promised", k, ns, "datasets of the promised graph are ingested twice", fl)
        passes(c, "A24-promised", k, fl, [g.entry], ns, hs, {"on": on, "init": init}, lambda on, init, isinit=isinit: None if not on else ("must" if not isinit else None) if init is isinit else "never",
               "datasets of the promised graph are ingested twice, or others not at all", exc=False)
    packages = lambda lit, m: lit[0] == "truth" and at(lit[1], "task_label")  # noqa: E731
    cn = [n for n in ig if fl.derives(n.args[0], n, lambda t, m: mentions(fl.expand(t, 8), lambda s: _glob(s, "CONFIG_INIT_OUTPUT_CONNECTION_NAME")), through_args=True)]
    passes(c, "A24-promised", "config", fl, [g.entry], cn, hs, {"on": on, "init": init, "task": packages}, lambda on, init, task: None if not (on and init) else "must" if task else "never",
           "the configuration of a task is ingested twice", exc=False)
    rec = calls(fl, "export_predicted_records")
    present(c, "A23-request", "records", rec, "outputs are ingested without their datastore records", fl)
    refs_root = None
    for n in rec:
        refs_root = _root(fl, n.args[0], n)
        for h in hs:
            c.ob("A23-request", "records:after", fl.path([n], [h]), "outputs are ingested without their datastore records", n)
    for n in ctor(fl, "IngestRequest"):
        r, q = arg(n, 1, "refs"), arg(n, 2, "records")
        c.ob("A23-request", "refs", None if r is not None and (_root(fl, r, n) == refs_root or refs_root is None) else True, "outputs and records of an ingest request differ", n)
        c.ob("A23-request", "request:records", None if q is not None and frm(fl, q, n, rec) else True, "outputs are ingested without their datastore records", n)
    fl = flow_of(c, cls(c, "_structs.IngestRequest"), "__bool__")
    for r in retvals(fl):
        t = ex(fl, r.value, r, 8)
        c.ob("A23-request", "empty", None if mentions(t, lambda s: at(s, "refs")) or fl.term(r.value, r)[0] == "var" else True, "an ingest request is dropped", r)


# ---------------------------------------------------------------- ingester

def ingester(c):
    C = cls(c, "_ingester.Ingester")
    fl = flow_of(c, C, "loop")
    g = fl.g
    dry = cfg("dry_run")
    reg = calls(fl, "register_dataset_types", "register", "update_output_chain")
    passes(c, "A25-dryrun", "registration", fl, [g.entry], reg, [], {"dry": dry}, lambda dry: "never" if dry else None, "a dry run changes the repository", exc=False)
    for flag, ns in (("register_dataset_types", calls(fl, "register_dataset_types")), ("update_output_chain", calls(fl, "update_output_chain"))):
        present(c, "A26-setup", flag, ns, f"{flag} has no effect", fl)
        passes(c, "A26-setup", flag, fl, [g.entry], ns, [g.exit], {"dry": dry, "on": cfg(flag)}, lambda dry, on: "never" if dry or not on else "must", f"{flag} is ignored", exc=False)
    rc = calls(fl, "register")
    passes(c, "A26-setup", "run", fl, [g.entry], rc, [g.exit], {"dry": dry}, lambda dry: "never" if dry else "must", "the output run is not registered", exc=False)
    for n in calls(fl, "register_dataset_types"):
        for k in ("include_packages", "include_configs", "include_logs"):
            v = n.kwargs.get(k)
            c.ob("A26-setup", k, None if v is not None and ex(fl, v, n) == const(True) else True, "a dataset type is not registered", n)
    hs = [h for h in iters(fl, False) if mentions(ex(fl, h.iterable, h), lambda s: s[0] == "call" and s[2] == "poll")]
    up, ing = calls(fl, "update_outputs_pending"), calls(fl, "ingest")
    present(c, "A27-ingest", "requests", hs, "ingest requests are ignored", fl)
    for h in hs:
        each(c, "A27-ingest", "each request", fl, h, up, "an ingest request is ignored")
        c.ob("A27-ingest", "registered first", fl.path([h], reg), "outputs are ingested before their dataset types are registered", h)
        for n in up:
            for i, k in ((0, "refs"), (1, "records")):
                v = arg(n, i, k)
                t = ex(fl, v, n) if v is not None else ("x",)
                c.ob("A27-ingest", k, None if at(t, k) and t[1] in (("elem", h.id), ("elemof", ex(fl, h.iterable, h, 5))) or v is not None and frm_elem(fl, v, n, h) and at(t, k) else True, f"the {k} of an ingest request are lost", n)
        cnt = [n for n in _attrstores(fl, "n_producers_pending") if h in loops_of(fl, n)]
        each(c, "A27-ingest", "counted", fl, h, cnt, "ingested quanta are miscounted")
        done = lit_edges(fl, lambda l, m: (l[0] == "truth" and l[2] is False or l[0] == "eq" and l[3] is True or l[0] == "lt" and l[3] is False) and any(
            at(x, "n_datasets_pending", "refs_pending") for x in l[1:-1]) and m.id not in fl.loop_body(h))
        out = [(h, "done")]
        c.ob("A27-ingest", "rest", fl.path(out, [g.exit], stop_edge=lambda m, lab: (m.id, lab) in done or lab == "exc"), "the last outputs are not ingested", h)
        rest = [n for n in ing if h not in loops_of(fl, n)]
        present(c, "A27-ingest", "rest", rest, "the last outputs are not ingested", fl)
        # after a conflict, ingest() returns with datasets still pending
        for n in rest:
            c.ob("A27-ingest", "again", fl.path([(n, lab) for _, lab in n.succ if lab != "exc"], [g.exit], stop_edge=lambda m, lab: (m.id, lab) in done or lab == "exc"),
                 "outputs that conflict are not ingested in the second attempt", n)
        rp = calls(fl, "report")
        noprod = lit_edges(fl, lambda l, m: (l[0] == "truth" and l[2] is False or l[0] == "eq" and l[3] is True) and any(at(x, "n_producers_pending") for x in l[1:-1]))
        c.ob("A27-ingest", "reported", fl.path(out, [g.exit], stop_node=lambda m: m in rp, stop_edge=lambda m, lab: (m.id, lab) in noprod or lab == "exc"), "the last quanta are not reported", h)
    fa = calls(fl, "fetch_already_ingested")
    passes(c, "A28-defensive", "asked", fl, [g.entry], fa, hs, {"on": cfg("defensive_ingest")}, lambda on: "must" if on else "never", "defensive ingest is ignored", exc=False)

    fl = flow_of(c, C, "ingest")
    g = fl.g
    imp, rec = calls(fl, "_importDatasets"), calls(fl, "import_records")
    passes(c, "A25-dryrun", "ingest", fl, [g.entry], imp + rec, [], {"dry": dry}, lambda dry: "never" if dry else None, "a dry run changes the repository", exc=False)
    ih = [h for h in iters(fl, False) if mentions(ex(fl, h.iterable, h), lambda s: at(s, "refs_pending"))]
    present(c, "A29-transaction", "refs", [h for h in ih if any(h in loops_of(fl, n) for n in imp)], "pending outputs are not ingested", fl)
    present(c, "A29-transaction", "records", rec, "datastore records of outputs are not ingested", fl)
    for h in ih:
        each(c, "A29-transaction", "each", fl, h, imp, "pending outputs are not ingested", exc=False)
    clr = {a: [n for n in calls(fl, "clear") if at(ex(fl, n.recv, n), a)] + _attrstores(fl, a) for a in ("refs_pending", "records_pending")}
    rp = calls(fl, "report", "report_ingest")
    off = lit_edges(fl, lambda l, m: l[0] == "truth" and l[2] is True and at(l[1], "dry_run"))
    for a, ns in clr.items():
        present(c, "A29-transaction", a + ":cleared", ns, "outputs are ingested twice", fl)
        for nm, tgt in (("refs", ih), ("records", rec)):
            c.ob("A29-transaction", f"{a}:after {nm}", fl.path([g.entry], ns, stop_node=lambda m: m in tgt, stop_edge=lambda m, lab: (m.id, lab) in off), "pending outputs are dropped before they are ingested")
        c.ob("A29-transaction", f"{a}:failure", fl.path([(n, "exc") for n in imp + rec], ns), "outputs that could not be ingested are dropped")
        tail_ = fl.path([(n, lab) for n in rec for _, lab in n.succ if lab != "exc"], [g.exit], stop_node=lambda m: m in ns, stop_edge=lambda m, lab: lab == "exc")
        c.ob("A29-transaction", f"{a}:always", tail_, "outputs are ingested twice")
    c.ob("A29-transaction", "report:failure", fl.path([(n, "exc") for n in imp + rec], rp), "quanta are reported as ingested that are not")
    tx = [n for n in g.live if n.kind == "wenter" and (mentions(ex(fl, n.d.get("value") or ("x",), n), lambda s: s[0] == "call" and s[2] == "transaction") or frm(fl, n.d.get("value") or n.d.get("ctx") or ("x",), n, calls(fl, "transaction")))]
    txc = calls(fl, "transaction")
    present(c, "A29-transaction", "transaction", txc, "outputs are ingested without their datastore records after a crash", fl)
    wx = [n for n in g.live if n.kind == "wexit"]
    for n in imp + rec:
        c.ob("A29-transaction", f"inside:{n.name}", fl.path([g.entry], [n], stop_node=lambda m: m in txc), "outputs are ingested without their datastore records after a crash", n)
    for n in rec:
        c.ob("A29-transaction", "one", fl.path(imp + ih, [n], stop_node=lambda m: m not in wx and m.kind == "x") if False else fl.path([m for m in wx], [n], stop_node=lambda m: m in txc), "outputs and their datastore records are ingested in two transactions", n)
        v = arg(n, 0, "data")
        c.ob("A29-transaction", "records:which", None if v is not None and ex(fl, v, n) == self_("records_pending") else True, "other datastore records are ingested", n)
    for n in imp:
        v = arg(n, 0, "datasets", "refs")
        c.ob("A29-transaction", "refs:which", None if v is not None and any(frm_elem(fl, v, n, h) for h in ih) else True, "other outputs are ingested", n)
    con = lit_edges(fl, lambda l, m: l[0] == "excis" and l[-1] is True and any(str(x).endswith("ConflictingDefinitionError") for x in l[1]))
    present(c, "A28-defensive", "conflict", con, "outputs that were ingested before stop the aggregation", fl)
    fa = calls(fl, "fetch_already_ingested")
    first = _isnone(self_("already_ingested"))
    ends = [n for n in g.live if n.kind in ("raise", "reraise")]
    for val, nodes, stop, msg in ((True, [g.exit] + ends, fa, "outputs that were ingested before stop the aggregation"), (False, [g.exit], [], "a conflict in defensive mode is ignored")):
        cut = cut_edges(fl, {"first": first}, {"first": val})
        c.ob("A28-defensive", f"conflict({'first' if val else 'again'})", fl.path(edges_of(fl, con), nodes, stop_node=lambda m: m in stop, stop_edge=lambda m, lab: (m.id, lab) in cut), msg)
    other = fl.path([(n, "exc") for n in imp + rec], [g.exit], stop_edge=lambda m, lab: (m.id, lab) in con)
    c.ob("A28-defensive", "other errors", other, "an error of the ingest is ignored")

    fl = flow_of(c, C, "report")
    ri = calls(fl, "report_ingest")
    present(c, "A27-ingest", "report", ri, "ingested quanta are not reported", fl)
    z = [n for n in _attrstores(fl, "n_producers_pending")]
    for n in ri:
        c.ob("A27-ingest", "report:count", None if ex(fl, n.args[0], n) == self_("n_producers_pending") else True, "ingested quanta are miscounted", n)
        c.ob("A27-ingest", "report:reset after", fl.path(z, [n]), "ingested quanta are miscounted", n)
    for n in z:
        c.ob("A27-ingest", "report:reset", None if ex(fl, n.value, n) == const(0) else True, "ingested quanta are miscounted", n)
    must(c, "A27-ingest", "report:reset always", fl, [fl.g.entry], z, [fl.g.exit], "ingested quanta are miscounted")


def pending(c):
    C = cls(c, "_ingester.Ingester")
    known = lambda lit, m: lit[0] == "in" and at(lit[2], "already_ingested")  # noqa: E731
    fl = flow_of(c, C, "fetch_already_ingested")
    g = fl.g
    st = [n for n in _attrstores(fl, "already_ingested")]
    must(c, "A30-known", "fetched", fl, [g.entry], st, [g.exit], "what has been ingested is not looked up")
    for n in st:
        c.ob("A30-known", "fetched:what", None if mentions(ex(fl, n.value, n, 8), lambda s: s[0] == "call" and s[2] == "_fetch_run_dataset_ids") else True, "what has been ingested is not looked up", n)
    rh = [h for h in iters(fl, None) if mentions(ex(fl, h.iterable, h, 8), lambda s: at(s, "refs_pending"))]
    outer = [h for h in rh if not any(h in loops_of(fl, x, None) and h is not x and h.id != x.id for x in rh) or True]
    stores = [n for n in g.live if n.kind == "substore" and at(ex(fl, n.base, n), "refs_pending")] + _attrstores(fl, "refs_pending")
    present(c, "A30-known", "refs", stores, "outputs that were ingested before are ingested again", fl)
    for h in outer:
        keep = [n for n in g.live if n.id in fl.loop_body(h) and (n.kind == "call" and n.name in ("append", "add") or n.kind == "compelt")]
        br = lit_edges(fl, lambda l, m: known(l, m) and m.id in fl.loop_body(h))
        if not br or any(x is not h and x.id in fl.loop_body(h) for x in rh if lit_edges(fl, lambda l, m: known(l, m) and m.id in fl.loop_body(x))):
            continue
        lists = {}
        for n in keep:
            lists.setdefault(_root(fl, n.recv, n) if n.kind == "call" else n.id, []).append(n)
        for k, ns in lists.items():
            passes(c, "A30-known", "kept", fl, elems(h), ns, [h, g.exit], {"known": known}, lambda known: "never" if known else "must", "an output is dropped, or ingested twice", stop=[h], exc=False)
        each_break(c, "A30-known", "all", fl, h, "an output is dropped")
    ch = [h for h in iters(fl, False) if mentions(ex(fl, h.iterable, h, 8), lambda s: at(s, "records_pending"))]
    rs = [n for n in g.live if n.kind in ("substore", "delsub") and at(ex(fl, n.base, n), "records_pending")] + _attrstores(fl, "records_pending") + [n for n in calls(fl, "pop") if at(ex(fl, n.recv, n), "records_pending")]
    present(c, "A30-known", "records", rs, "datastore records that were ingested before are ingested again", fl)
    for h in ch:
        each(c, "A30-known", "records:each", fl, h, rs, "datastore records that were ingested before are ingested again")
        c.ob("A30-known", "records:copy", None if mentions(ex(fl, h.iterable, h), lambda s: s[0] == "call" and s[2] in ("list", "tuple", "sorted", "copy", "dict", "set")) or not any(n.kind == "delsub" or n.kind == "call"
             for n in rs if h in loops_of(fl, n)) else True, "records change while they are gone through", h)
    sub = calls(fl, "subset")
    for n in sub:
        t = ex(fl, n.args[0], n, 8)
        c.ob("A30-known", "records:which", None if _root(fl, n.args[0], n) is not None and any(m.kind == "call" and m.name in ("add", "update", "append") and _root(fl, m.recv, m) == _root(fl, n.args[0], n) for m in g.calls())
             or t[0] == "comp" else True, "datastore records of other outputs are kept", n)
        w = fl.path([n], [h for h in rh if not h.d.get("comp")])
        c.ob("A30-known", "records:after", w, "datastore records of outputs are dropped", n)
    for n in rs:
        if n.kind == "substore":
            c.ob("A30-known", "records:value", None if frm(fl, n.value, n, sub) else True, "datastore records that were ingested before are ingested again", n)

    fl = flow_of(c, C, "update_outputs_pending")
    g = fl.g
    ap = [n for n in calls(fl, "append", "extend") if mentions(ex(fl, n.recv, n, 8), lambda s: at(s, "refs_pending"))] + [n for n in g.live if n.kind == "substore" and at(ex(fl, n.base, n), "refs_pending")]
    hs = [h for h in iters(fl, False) if any(h in loops_of(fl, n) for n in ap)]
    present(c, "A31-pending", "refs", hs, "outputs are not ingested", fl)
    for h in hs:
        each(c, "A31-pending", "refs:each", fl, h, ap, "an output is not ingested")
        must(c, "A31-pending", "refs:always", fl, [g.entry], [h], [g.exit], "outputs are not ingested")
        c.ob("A31-pending", "refs:which", None if fl.derives(h.iterable, h, lambda t, m: t == ("param", "refs") or t[0] == "comp") else True, "other outputs are ingested", h)
    comps = [h for h in iters(fl, True) if ex(fl, h.iterable, h) == ("param", "refs") or fl.derives(h.iterable, h, lambda t, m: t == ("param", "refs"))]
    isn = _isnone(self_("already_ingested"))
    fh = [h for h in comps if any(known(l, m) for m in g.live if m.kind == "branch" and m.id in fl.loop_body(h) for l in fl.lits(m, True))]
    any_known = lit_edges(fl, known)
    present(c, "A30-known", "skipped", any_known, "outputs that were ingested before are ingested again", fl)
    for h in fh:
        body = fl.loop_body(h)
        ce = [m for m in g.live if m.kind == "compelt" and m.id in body]
        passes(c, "A30-known", "skipped", fl, elems(h), ce, [h], {"known": known}, lambda known: "never" if known else "must", "an output is dropped, or ingested twice", stop=[h], exc=False)
        cut = cut_edges(fl, {"none": isn}, {"none": False})
        c.ob("A30-known", "skipped:always", fl.path([g.entry], hs, stop_node=lambda m: m is h, stop_edge=lambda m, lab: (m.id, lab) in cut), "outputs that were ingested before are ingested again", h)
    sub = calls(fl, "subset")
    present(c, "A30-known", "records:skipped", sub, "datastore records that were ingested before are ingested again", fl)
    rh = [h for h in iters(fl, False) if fl.derives(h.iterable, h, lambda t, m: t == ("param", "records") or mentions(t, lambda s: s == ("param", "records")) or t[0] == "comp" and any(
        mentions(ex(fl, g.nodes[i].iterable, g.nodes[i]), lambda s: s == ("param", "records")) for i in t[3])) and h not in hs]
    upd = [n for n in calls(fl, "update") if mentions(ex(fl, n.recv, n, 8), lambda s: at(s, "records_pending"))]
    sto = [n for n in g.live if n.kind == "substore" and at(ex(fl, n.base, n), "records_pending")]
    sd = [n for n in calls(fl, "setdefault") if at(ex(fl, n.recv, n), "records_pending")]
    present(c, "A31-pending", "records", rh, "datastore records are not ingested", fl)
    for h in rh:
        each(c, "A31-pending", "records:each", fl, h, upd + sto, "datastore records are not ingested") if not sd else None
        must(c, "A31-pending", "records:always", fl, [g.entry], [h], [g.exit], "datastore records are not ingested")
        for n in sto:
            guard(c, "A31-pending", "records:kept", fl, [n], lambda l, m: l[0] == "isnone" and l[2] is True and mentions(ex(fl, l[1], m), lambda s: at(s, "records_pending")) or l[0] == "in" and l[3] is False and at(l[2], "records_pending"),
                  "pending datastore records are overwritten", starts=elems(h))
    present(c, "A31-pending", "records:joined", upd, "pending datastore records are overwritten", fl)


# ---------------------------------------------------------------- writer

def writer(c):
    C = cls(c, "_writer.Writer")
    fl = flow_of(c, C, "loop")
    g = fl.g
    hs = [h for h in iters(fl, False) if mentions(ex(fl, h.iterable, h), lambda s: s[0] == "call" and s[2] == "poll")]
    present(c, "A32-writes", "requests", hs, "write requests are ignored", fl)
    wr = calls(fl, "write_scan_data")
    qu = [n for n in calls(fl, "append") if at(ex(fl, n.recv, n), "pending_compression_training")]
    mk, io, rp = calls(fl, "make_qg_writer"), calls(fl, "write_init_outputs"), calls(fl, "report_write")
    present(c, "A32-writes", "written", wr, "write requests are ignored", fl)
    for h in hs:
        each(c, "A32-writes", "each", fl, h, wr + qu, "a write request is ignored")
        for n in wr + qu:
            c.ob("A32-writes", n.name + ":what", None if frm_elem(fl, n.args[0], n, h) else True, "another request is written", n)
        for n in wr:
            must(c, "A32-writes", "reported", fl, [(n, lab) for _, lab in n.succ if lab != "exc"], rp, [h, g.exit], "a write is not reported")
    # once there is a writer, nothing more is queued; queued requests are written when it is made
    c.ob("A32-writes", "queue closed", fl.path(mk, qu, stop_edge=lambda m, lab: (m.id, lab) in lit_edges(fl, lambda l, k: l[0] == "isnone" and l[2] is True and (frm(fl, l[1], k, mk) or l[1][0] == "var"))),
         "a write request is queued and never written")
    for n in qu + wr:
        guard(c, "A32-writes", n.name + ":when", fl, [n], lambda l, m, w=n in qu: l[0] == "isnone" and l[2] is w and not at(l[1], "x"), "a write request is queued and never written",
              starts=[e for h in hs for e in elems(h)])
    must(c, "A32-writes", "made", fl, [g.entry], mk, io + [g.exit], "queued write requests are never written")
    present(c, "A32-writes", "init", io, "init outputs have no provenance", fl)
    must(c, "A32-writes", "init", fl, [g.entry], io, [g.exit], "init outputs have no provenance")
    for n in io:
        for h in hs:
            c.ob("A32-writes", "init:last", fl.path([n], [h]), "the existence of init outputs is not known when they are written", n)
            c.ob("A32-writes", "init:after", fl.path([g.entry], [n], stop_node=lambda m: m is h), "the existence of init outputs is not known when they are written", n)
        v = arg(n, 0, "assume_existence")
        c.ob("A32-writes", "init:existence", None if v is not None and ex(fl, v, n) == const(False) else True, "init outputs are written as existing that do not", n)

    fl = flow_of(c, C, "make_qg_writer")
    g = fl.g
    wh = [h for h in iters(fl, False) if mentions(ex(fl, h.iterable, h), lambda s: at(s, "pending_compression_training"))]
    wr, rp = calls(fl, "write_scan_data"), calls(fl, "report_write")
    present(c, "A33-queued", "written", [h for h in wh if any(h in loops_of(fl, n) for n in wr)], "queued write requests are never written", fl)
    for h in wh:
        each(c, "A33-queued", "each", fl, h, wr, "a queued write request is never written")
        each(c, "A33-queued", "reported", fl, h, rp, "a write is not reported")
        must(c, "A33-queued", "always", fl, [g.entry], [h], [g.exit], "queued write requests are never written")
    for nm in ("send_compression_dict", "write_overall_inputs", "write_packages"):
        ns = calls(fl, nm)
        present(c, "A33-queued", nm, ns, f"{nm} is left out", fl)
        must(c, "A33-queued", nm, fl, [g.entry], ns, [g.exit], f"{nm} is left out")
        for n in ns:
            c.ob("A33-queued", nm + ":once", fl.path(fl.out_edges([n]), ns), f"{nm} is done twice", n)
    cd = calls(fl, "make_compression_dictionary")
    for n in calls(fl, "send_compression_dict"):
        c.ob("A33-queued", "dictionary", None if frm(fl, n.args[0], n, cd) else True, "scanners compress with another dictionary than the graph has", n)
    for n in ctor(fl, "ProvenanceQuantumGraphWriter"):
        v = arg(n, None, "cdict_data")
        c.ob("A33-queued", "dictionary:writer", None if v is not None and frm(fl, v, n, cd) else True, "the graph has another dictionary than scanners compress with", n)
        v = arg(n, None, "predicted")
        c.ob("A33-queued", "predicted", None if v is not None and at(ex(fl, v, n), "predicted") else True, "provenance of another graph is written", n)
        v = arg(n, None, "exit_stack")
        c.ob("A33-queued", "exit stack", None if v is not None and at(ex(fl, v, n), "exit_stack") else True, "the graph is not completed at the end", n)
    for r in retvals(fl):
        c.ob("A33-queued", "returned", None if frm(fl, r.value, r, ctor(fl, "ProvenanceQuantumGraphWriter")) else True, "write requests are written elsewhere", r)
    fl = flow_of(c, C, "make_compression_dictionary")
    for h in iters(fl, False):
        if mentions(ex(fl, h.iterable, h), lambda s: at(s, "pending_compression_training")):
            c.ob("A33-queued", "untouched", True if any(m.kind == "attrstore" and m.id in fl.loop_body(h) and m.name in ("quantum", "metadata", "logs") for m in fl.g.live) else None, "queued requests are changed", h)
    fl = flow_of(c, C, "__post_init__")
    for nm in ("read_init_quanta", "read_quantum_datasets"):
        ns = calls(fl, nm)
        present(c, "A33-queued", nm, ns, "the writer does not know all quanta", fl)
        must(c, "A33-queued", nm, fl, [fl.g.entry], ns, [fl.g.exit], "the writer does not know all quanta")
        for n in ns:
            c.ob("A33-queued", nm + ":all", None if not n.args and not n.kwargs else True, "the writer does not know all quanta", n)


# ---------------------------------------------------------------- reading, reporting and the last steps

def _eager(c, rule, fl, cls_attr, names):
    """The named parts of the graph are read before the components are used."""
    for nm in names:
        ns = calls(fl, nm)
        present(c, rule, nm, ns, f"{nm} is left out: quanta are not known", fl)
        must(c, rule, nm, fl, [fl.g.entry], ns, [fl.g.exit], f"{nm} is left out: quanta are not known")


def _frees(fl, names):
    return [n for n in fl.g.calls() if n.name in names]


def details(c):
    _eager(c, "A34-read", flow_of(c, cls(c, "_supervisor.Supervisor"), "__post_init__"), None, ("read_thin_graph", "read_init_quanta"))
    S = cls(c, "_scanner.Scanner")
    fl = flow_of(c, S, "__post_init__")
    _eager(c, "A34-read", fl, None, ("read_dimension_data", "read_init_quanta"))
    for n in _attrstores(fl, "init_quanta"):
        t = ex(fl, n.value, n, 8)
        if t[0] == "comp":
            for i in t[3]:
                h = fl.g.nodes[i]
                full(c, "A34-read", "init quanta", fl, h, "an init quantum is scanned as a quantum")
                each(c, "A34-read", "init quanta:each", fl, h, [m for m in fl.g.live if m.kind == "compelt" and m.id in fl.loop_body(h)], "an init quantum is scanned as a quantum")
                c.ob("A34-read", "init quanta:all", None if mentions(ex(fl, h.iterable, h, 8), lambda s: at(s, "init_quanta")) else True, "an init quantum is scanned as a quantum", h)
    # the scan results
    fl = flow_of(c, S, "scan_quantum")
    for n in ctor(fl, "ProvenanceQuantumScanModels"):
        v = arg(n, 1, "status")
        t = ex(fl, v, n) if v is not None else None
        c.ob("A35-report", "init:status", None if t is not None and _glob(t, "INIT") else True, "init outputs are reported as something else", n)
        v = arg(n, 0, "quantum_id")
        t = ex(fl, v, n) if v is not None else None
        c.ob("A35-report", "init:quantum", None if t is not None and (at(t, "quantum_id") or t == ("param", "quantum_id")) else True, "a scan is reported for another quantum", n)
    for n in ctor(fl, "ScanReport"):
        a, b = arg(n, 0, "quantum_id"), arg(n, 1, "status")
        ta, tb = (ex(fl, v, n) if v is not None else ("none",) for v in (a, b))
        c.ob("A35-report", "quantum", None if at(ta, "quantum_id") or ta == ("param", "quantum_id") else True, "a scan is reported for another quantum", n)
        c.ob("A35-report", "status", None if at(tb, "status") or _glob(tb, "ABANDONED") else True, "a scan is reported with another status", n)
    for nm in ("_read_metadata", "_read_log"):
        fl = flow_of(c, S, nm)
        gets = calls(fl, "get")
        present(c, "A35-report", nm, gets, "what a quantum left is not read", fl)
        for r in retvals(fl):
            if r.value is not None and ex(fl, r.value, r) != const(None):
                c.ob("A35-report", nm + ":value", None if frm(fl, r.value, r, gets) else True, "what a quantum left is not read", r)
        missing = lit_edges(fl, lambda l, m: l[0] == "excis" and l[-1] is True and [str(x).rsplit(".", 1)[-1] for x in l[1]] == ["FileNotFoundError"])
        c.ob("A35-report", nm + ":errors", fl.path([(n, "exc") for n in gets], [fl.g.exit], stop_edge=lambda m, lab: (m.id, lab) in missing), "a file that cannot be read is taken for a missing one")
        c.ob("A35-report", nm + ":missing", fl.path(edges_of(fl, missing), [fl.g.exc_exit]) if missing else True, "a quantum without it cannot be scanned")
        got = [(n, lab) for n in gets for _, lab in n.succ if lab != "exc"]
        ok = [r for r in retvals(fl) if r.value is not None and frm(fl, r.value, r, gets)]
        c.ob("A35-report", nm + ":returned", fl.path(got, [fl.g.exit], stop_node=lambda m: m in ok), "what a quantum left is not read")

    # queues: only an empty queue means that there is nothing
    for q in sorted(k for k, C in c.prog.classes.items() if k.startswith(A + "_workers.") and "get" in C.methods and "Queue" in k.rsplit(".", 1)[-1]):
        fl = flow_of(c, c.prog.cls(q), "get")
        gets = [n for n in calls(fl, "get", "get_nowait")]
        nm = q.rsplit(".", 1)[-1]
        if not gets:
            continue
        empty = lit_edges(fl, lambda l, m: l[0] == "excis" and l[-1] is True and [str(x).rsplit(".", 1)[-1] for x in l[1]] == ["Empty"])
        c.ob("A36-queue", nm + ":errors", fl.path([(n, "exc") for n in gets], [fl.g.exit], stop_edge=lambda m, lab: (m.id, lab) in empty), "an error of the queue is taken for an empty queue")
        c.ob("A36-queue", nm + ":empty", fl.path(edges_of(fl, empty), [fl.g.exc_exit]) if empty else True, "an empty queue is taken for an error")

    W = cls(c, "_communicators.ScannerCommunicator")
    fl = flow_of(c, W, "get_compression_dict")
    gets = calls(fl, "get")
    present(c, "A36-queue", "dictionary", gets, "scanners never get the compression dictionary", fl)
    ok = [r for r in retvals(fl) if r.value is not None and mentions(ex(fl, r.value, r), lambda s: at(s, "data"))]
    none = lit_edges(fl, lambda l, m: l[0] == "isnone" and l[2] is True and frm(fl, l[1], m, gets))
    c.ob("A36-queue", "dictionary:returned", fl.path([(n, lab) for n in gets for _, lab in n.succ if lab != "exc"], [fl.g.exit], stop_node=lambda m: m in ok, stop_edge=lambda m, lab: (m.id, lab) in none),
         "a scanner takes the compression dictionary and does not use it")
    fl = flow_of(c, cls(c, "_communicators.WriterCommunicator"), "periodically_check_for_cancel")
    hs = [h for h in iters(fl, False) if fl.derives(h.iterable, h, lambda t, m: t == ("param", "iterable"))]
    ys = [n for n in fl.g.live if n.kind == "yield"]
    present(c, "A36-queue", "periodically", hs, "entries are lost", fl)
    present(c, "A36-queue", "periodically:checked", calls(fl, "check_for_cancel"), "a cancelled writer goes on", fl)
    for h in hs:
        each(c, "A36-queue", "periodically:each", fl, h, ys, "an entry is lost")
    for y in ys:
        v = y.d.get("value")
        c.ob("A36-queue", "periodically:value", None if v is not None and any(frm_elem(fl, v, y, h) for h in hs) else True, "an entry is lost", y)

    I = cls(c, "_ingester.Ingester")
    fl = flow_of(c, I, "n_datasets_pending")
    for r in retvals(fl):
        t = ex(fl, r.value, r, 8)
        c.ob("A37-pending", "count", None if mentions(t, lambda s: at(s, "refs_pending")) or any(mentions(ex(fl, h.iterable, h, 8), lambda s: at(s, "refs_pending")) for h in iters(fl, None)) else True,
             "pending outputs are not counted", r)
    for h in iters(fl, None):
        full(c, "A37-pending", "count:all", fl, h, "pending outputs are not counted")
        if h.d.get("comp"):
            each(c, "A37-pending", "count:each", fl, h, [m for m in fl.g.live if m.kind == "compelt" and m.id in fl.loop_body(h)], "pending outputs are not counted")

    fl = flow_of(c, I, "fetch_already_ingested")
    g = fl.g
    known = lambda lit, m: lit[0] == "in" and at(lit[2], "already_ingested")  # noqa: E731
    outer = [h for h in iters(fl, False) if mentions(ex(fl, h.iterable, h, 4), lambda s: at(s, "refs_pending")) and not any(
        x is not h and h.id in fl.loop_body(x) for x in iters(fl, False) if mentions(ex(fl, x.iterable, x, 4), lambda s: at(s, "refs_pending")))]
    st = [n for n in g.live if n.kind == "substore" and at(ex(fl, n.base, n), "refs_pending")]
    for h in outer:
        inner = [x for x in iters(fl, None) if x is not h and x.id in fl.loop_body(h) and frm_elem(fl, x.iterable, x, h)]
        if st:
            each(c, "A30-known", "refs:stored", fl, h, [n for n in st if n.id in fl.loop_body(h)] or [h], "outputs that were ingested before are ingested again")
        full(c, "A30-known", "refs:all", fl, h, "outputs that were ingested before are ingested again")
        for x in inner:
            full(c, "A30-known", "refs:each", fl, x, "an output is dropped")
            keep = {}
            for n in g.live:
                if n.id in fl.loop_body(x) and (n.kind == "call" and n.name in ("append", "add") and n.recv is not None or n.kind == "compelt"):
                    keep.setdefault(str(_root(fl, n.recv, n)) if n.kind == "call" else str(n.id), []).append(n)
            skip = [n for n in _attrstores(fl, "n_datasets_skipped") if n.id in fl.loop_body(x)]
            if not lit_edges(fl, lambda l, m: known(l, m) and m.id in fl.loop_body(x)):
                if keep and not lit_edges(fl, known):
                    c.fail("A30-known", "refs:kept", "outputs that were ingested before are ingested again", x)
                continue
            for k, ns in keep.items():
                passes(c, "A30-known", "refs:kept", fl, elems(x), ns, [x, g.exit], {"known": known}, lambda known: "never" if known else "must", "an output is dropped, or ingested twice", stop=[x], exc=False)
            present(c, "A30-known", "refs:kept", keep, "outputs are dropped", fl)
            if skip:
                passes(c, "A30-known", "refs:skipped", fl, elems(x), skip, [x, g.exit], {"known": known}, lambda known: "must" if known else "never", "skipped outputs are miscounted", stop=[x], exc=False)
        for n in st:
            if n.id in fl.loop_body(h) and inner:
                r = _root(fl, n.value, n)
                c.ob("A30-known", "refs:value", None if ex(fl, n.value, n)[0] == "comp" or any(m.name in ("append", "add", "extend") and m.recv is not None and _root(fl, m.recv, m) == r for m in g.calls()) else True,
                     "outputs that were ingested before are ingested again", n)
    for n in calls(fl, "subset"):
        r = _root(fl, n.args[0], n)
        adds = [m for m in g.calls() if m.name in ("add", "update") and m.recv is not None and _root(fl, m.recv, m) == r]
        for m in adds:
            if loops_of(fl, m):
                t = ex(fl, m.args[0], m)
                c.ob("A30-known", "records:ids", None if t[0] == "comp" or mentions(t, lambda s: at(s, "id")) or m.name == "update" else True, "datastore records of outputs are dropped", m)
    for m in lit_edges(fl, lambda l, m: l[0] == "isnone" and l[2] is False and mentions(ex(fl, l[1], m, 4), lambda s: s[0] == "call" and s[2] == "subset")) and [0]:
        some = lit_edges(fl, lambda l, m: l[0] == "isnone" and l[2] is False and mentions(ex(fl, l[1], m, 4), lambda s: s[0] == "call" and s[2] == "subset"))
        none = lit_edges(fl, lambda l, m: l[0] == "isnone" and l[2] is True and mentions(ex(fl, l[1], m, 4), lambda s: s[0] == "call" and s[2] == "subset"))
        rst = [n for n in g.live if n.kind == "substore" and at(ex(fl, n.base, n), "records_pending")]
        dl = [n for n in g.live if n.kind == "delsub" and at(ex(fl, n.base, n), "records_pending")] + [n for n in calls(fl, "pop") if at(ex(fl, n.recv, n), "records_pending")]
        ch = [h for h in iters(fl, False) if mentions(ex(fl, h.iterable, h, 8), lambda s: at(s, "records_pending"))]
        if rst and dl:
            c.ob("A30-known", "records:some", fl.path(edges_of(fl, some), ch + [g.exit], stop_node=lambda k: k in rst), "datastore records that were ingested before are ingested again")
            c.ob("A30-known", "records:none", fl.path(edges_of(fl, none), ch + [g.exit], stop_node=lambda k: k in dl), "datastore records that were ingested before are ingested again")

    fl = flow_of(c, I, "update_outputs_pending")
    for h in iters(fl, True):
        full(c, "A31-pending", "all", fl, h, "outputs or their records are dropped")
        subs = calls(fl, "subset")
        body = fl.loop_body(h)
        if any(n.id in body for n in subs):
            ce = [m for m in fl.g.live if m.kind == "compelt" and m.id in body]
            some = lambda l, m: l[0] == "isnone" and mentions(ex(fl, l[1], m, 4), lambda s: s[0] == "call" and s[2] == "subset")  # noqa: E731
            if lit_edges(fl, some):
                passes(c, "A31-pending", "records:some", fl, elems(h), ce, [h], {"none": some}, lambda none: "never" if none else "must", "datastore records are dropped", stop=[h], exc=False)

    fl = flow_of(c, I, "update_output_chain")
    g = fl.g
    out = lambda t: at(t, "output")  # noqa: E731
    reg, pre, ext = calls(fl, "register"), calls(fl, "prepend_chain"), calls(fl, "extend_chain")
    atoms = {"none": lambda l, m: l[0] == "isnone" and out(l[1]), "new": lambda l, m: l[0] == "truth" and mentions(ex(fl, l[1], m, 4), lambda s: s[0] == "call" and s[2] == "register"),
             "inputs": lambda l, m: l[0] == "truth" and at(l[1], "inputs")}
    for nm, ns, spec, msg in (("registered", reg, lambda none, new, inputs: "never" if none else "must", "the output chain is not registered"),
                              ("prepended", pre, lambda none, new, inputs: "never" if none else "must", "the output run is not in the output chain"),
                              ("inputs", ext, lambda none, new, inputs: "must" if not none and new and inputs else "never", "the output chain has not its inputs")):
        present(c, "A38-chain", nm, ns, msg, fl)
        passes(c, "A38-chain", nm, fl, [g.entry], ns, [g.exit], atoms, spec, msg, exc=False)
    for n in reg:
        c.ob("A38-chain", "registered:chain", None if len(n.args) > 1 and _glob(ex(fl, n.args[1], n), "CHAINED") or _glob(ex(fl, arg(n, 1, "type") or const(0), n), "CHAINED") else True, "the output chain is not a chain", n)
    for n in reg + pre + ext:
        c.ob("A38-chain", n.name + ":which", None if n.args and out(ex(fl, n.args[0], n)) else True, "another collection is changed", n)
    for n in pre:
        c.ob("A38-chain", "run", None if len(n.args) > 1 and mentions(ex(fl, n.args[1], n), lambda s: at(s, "output_run")) else True, "the output run is not in the output chain", n)
        c.ob("A38-chain", "run:first", fl.path([n], ext), "the output run is not the first of the output chain", n)
    for n in ext:
        c.ob("A38-chain", "inputs:which", None if len(n.args) > 1 and mentions(ex(fl, n.args[1], n, 6), lambda s: at(s, "inputs")) else True, "the output chain has not its inputs", n)
