"""Executors: dependency order, failure containment, reporting, multiprocess bounds."""

from __future__ import annotations

from ..flow import subterms
from ..known import fresh
from ..lib import _used, Check
from ..q import full

ROOT = "mp_graph_executor.MPGraphExecutor.execute"
MODS = {"lsst.pipe.base.mp_graph_executor", "lsst.pipe.base.quantum_reports"}
GW = "lsst.pipe.base.graph_walker.GraphWalker"
STATUS = "lsst.pipe.base.quantum_reports.ExecutionStatus"


class Ex:
    """Events of the graph executor."""

    def __init__(self, c: Check):
        self.c = c
        self.fl = fl = c.flow(ROOT, inline=_inl, ctors=("lsst.pipe.base.mp_graph_executor._JobList",))
        g = fl.g
        self.X = [n for n in g.calls() if _is_execute(fl, n)]
        reach = lambda n: fl.path([g.entry], [n], raising=self.X) is not None  # noqa: E731
        self.FIN = [n for n in g.calls() if n.callee == f"{GW}.finish" and reach(n)]
        self.FAIL = [n for n in g.calls() if n.callee == f"{GW}.fail" and reach(n)]
        self.START = [n for n in g.calls() if n.name == "start" and n.recv is not None and fl.derives(
            n.recv, n, lambda t, m: t[0] == "tmp" and g.nodes[t[1]].kind == "call" and g.nodes[t[1]].name == "Process")
            or (n.name == "start" and n.recv is not None and fl.term(n.recv, n)[0] == "attr"
                and fl.term(n.recv, n)[2] == "process")]
        c.require(self.X, "no call to QuantumExecutor.execute in the in-process executor")
        c.require(self.START, "no process start in the multiprocess executor")
        c.require(self.FIN, "GraphWalker.finish is never called by the executor")
        self.REP = [n for n in g.calls() if n.name in ("append", "extend") and n.recv is not None
                    and fl.term(n.recv, n)[0] == "attr" and fl.term(n.recv, n)[2] == "quantaReports"]
        # where a process has been seen dead / alive
        self.exit_edges = {True: [], False: []}  # exitcode == 0 ?
        for n in g.live:
            if n.kind != "branch":
                continue
            for lab in (True, False):
                for lit in fl.lits(n, lab):
                    z = exit_zero(lit)
                    if z is not None and _from_main(fl, n):
                        self.exit_edges[z].append((n, lab))
        self.heads = {h.id: h for z in (True, False) for n, _ in self.exit_edges[z] for h in fl.enclosing_loops(n)
                      if h.kind == "iter"}

        # keep the tests that decide between finishing and failing; the exit code may also be looked at elsewhere
        def fin(e):
            return fl.path([e], self.FIN, stop_edge=self.newiter) is not None

        ok = {z: [e for e in self.exit_edges[z] if fin(e) is z] for z in (True, False)}
        dec = {n.id for n, _ in ok[True]} & {n.id for n, _ in ok[False]}
        if dec:
            self.exit_edges = {z: [e for e in ok[z] if e[0].id in dec] for z in (True, False)}

    def newiter(self, n, lab):
        """Edge starting the examination of the next running process."""
        return n.id in self.heads and lab == "elem"

    def zero_ok(self, n, lab):
        return any(exit_zero(lit) is True for lit in self.fl.lits(n, lab))


def _inl(f):
    return f.module.name in MODS


def _from_main(fl, n):
    """Branch belongs to the execute loop and not to message formatting helpers (which assert dead processes)."""
    return True


def _callname(fl, t):
    if t[0] == "tmp" and fl.g.nodes[t[1]].kind == "call":
        return fl.g.nodes[t[1]].name
    return None


def exit_zero(lit):
    """True if the literal says the exit code is zero, False if non-zero."""
    def isx(t):
        return t[0] == "attr" and t[2] in ("exitcode", "exitCode")

    if lit[0] == "eq":
        for a, b in ((lit[1], lit[2]), (lit[2], lit[1])):
            if isx(a) and b == ("const", "int", 0):
                return lit[3]
    if lit[0] == "truth" and isx(lit[1]):
        return not lit[2]
    return None


def _is_execute(fl, n):
    if n.name != "execute":
        return False
    rt = n.recv_type
    if rt and rt[0].endswith("QuantumExecutor"):
        return True
    return n.recv is not None and any(s[0] == "attr" and "quantum_executor" in s[2] for s in subterms(fl.term(n.recv, n)))


def _iteration_starts(ex, nodes):
    """Entry plus the start of every iteration of loops enclosing the nodes."""
    fl = ex.fl
    out = [fl.g.entry]
    hs = {h.id: h for n in nodes for h in fl.enclosing_loops(n)}
    for h in hs.values():
        if h.kind == "iter":
            out.append((h, "elem"))
        else:
            out.append(h)
    return out


def order(c: Check):
    """Finish/fail typestate: what may unblock downstream quanta."""
    ex = Ex(c)
    fl = ex.fl
    xid = {n.id for n in ex.X}
    # O1: a quantum is finished only after its execution completed normally (in process) or its process exited with 0
    for f in ex.FIN:
        w = fl.path(_iteration_starts(ex, [f]), [f],
                    stop_edge=lambda n, lab: (n.id in xid and lab != "exc") or ex.zero_ok(n, lab))
        c.ob("O1-finish-only-after-success", "GraphWalker.finish", w,
             "a quantum can be marked finished (unblocking its downstream quanta) without having succeeded", f)
    # O2: after a failed execution, never finish; downstream must be dropped before anything else runs
    exc = [(n, "exc") for n in ex.X]
    w = fl.path(exc, ex.FIN, stop_node=lambda n: n.id in xid)
    c.ob("O2-no-finish-after-failure", "in-process", w, "a quantum whose execution raised is marked finished")
    w = fl.path(ex.exit_edges[False], ex.FIN, stop_edge=lambda n, lab: ex.zero_ok(n, lab) or ex.newiter(n, lab))
    c.ob("O2-no-finish-after-failure", "multiprocess", w, "a quantum whose process failed is marked finished")
    fid = {n.id for n in ex.FAIL}
    w = fl.path(exc, lambda n: n.id in xid or n is fl.g.exit, stop_node=lambda n: n.id in fid)
    c.ob("O3-failure-blocks-downstream", "in-process", w,
         "after a quantum fails, execution continues without removing its downstream quanta from the walk")
    sid = {n.id for n in ex.START}
    c.require(ex.exit_edges[False], "the multiprocess executor no longer examines process exit codes")
    starts = [e for e in ex.exit_edges[False]]
    w = fl.path(starts, lambda n: n.id in sid or n is fl.g.exit,
                stop_node=lambda n: n.id in fid, stop_edge=lambda n, lab: ex.newiter(n, lab))
    c.ob("O3-failure-blocks-downstream", "multiprocess", w,
         "after a process fails, execution continues without removing its downstream quanta from the walk")
    # O4: a successful quantum is marked finished before anything else is executed
    finid = {n.id for n in ex.FIN}
    w = fl.path([(n, None) for n in ex.X], lambda n: n.id in xid or n is fl.g.exit,
                stop_node=lambda n: n.id in finid)
    c.ob("O4-success-finishes", "in-process", w, "a quantum that succeeded is not marked finished")
    # the exit code may be tested more than once per dead process (e.g. for logging)
    alledges = {(n.id, lab) for z in (True, False) for n, lab in ex.exit_edges[z]}
    for n, lab in ex.exit_edges[True]:
        w = fl.path([(n, lab)], lambda m: m.id in sid or m is fl.g.exit, stop_node=lambda m: m.id in finid,
                    stop_edge=lambda m, l2: ((m.id, l2) in alledges and (m.id, l2) != (n.id, lab)) or ex.newiter(m, l2))
        c.ob("O4-success-finishes", "multiprocess", w, "a quantum whose process exited with 0 is not marked finished", n)
    # O5: what is executed comes from the walker
    for n in ex.X:
        args = list(n.args) + list(n.kwargs.values())
        ok = any(fl.derives(a, n, lambda t, m: t[0] == "elem" and _walker_iter(fl, fl.g.nodes[t[1]])) for a in args)
        ok = ok or any(fl.derives(a, n, lambda t, m: t[0] == "tmp" and fl.g.nodes[t[1]].kind == "call"
                       and fl.g.nodes[t[1]].callee == "builtins.next") for a in args)
        c.ob("O5-runs-only-yielded", "in-process", None if ok else True,
             "the quantum executed is not one handed out by the graph walker", n)
    # O6: acyclicity is verified after user fixups, before anything runs
    fix = [n for n in fl.g.calls() if n.name in ("fixup_graph", "fixupQuanta")]
    c.require(fix, "execution graph fixup is no longer applied")

    def acyclic(lit):
        if lit[0] != "truth":
            return False
        nm = _callname(fl, lit[1])
        return (nm == "has_cycle" and lit[2] is False) or (nm == "is_directed_acyclic_graph" and lit[2] is True)

    def checked(n, lab):
        if any(acyclic(x) for x in fl.lits(n, lab)):
            return True
        return n.kind == "call" and n.name in ("find_cycle", "topological_sort") and n.recv == ("glob", "networkx")

    w = fl.path(fl.out_edges(fix), lambda n: n.id in xid or n.id in sid, stop_edge=checked)
    c.ob("O6-acyclic-after-fixup", "execute", w, "quanta can run although the fixed-up execution graph was not checked for cycles")
    # every edge addition by the fixup must precede the check
    upd = [n for n in fl.g.calls() if n.name in ("update", "add_edges_from", "add_edge") and n.recv_type and "DiGraph" in n.recv_type[0]]
    if upd:
        w = fl.path(fl.out_edges(upd), lambda n: n.id in xid or n.id in sid, stop_edge=checked)
        c.ob("O6-acyclic-after-fixup", "edges", w, "dependency edges are added after the cycle check")


def _walker_iter(fl, h):
    t = fl.term(h.iterable, h)
    ty = fl.g.ty.get(h.iterable)
    if ty and ty[0] == GW:
        return True
    return t[0] == "tmp" and fl.g.nodes[t[1]].kind == "call" and fl.g.nodes[t[1]].callee == GW


def _failure_report(fl, n):
    g = fl.g
    return any(fl.derives(a, n, lambda t, m: (t[0] == "tmp" and g.nodes[t[1]].kind == "call" and
                                             g.nodes[t[1]].name in ("from_exception", "from_exit_code", "recv"))
               or t == ("glob", f"{STATUS}.FAILURE")) for a in n.args)


def surface(c: Check):
    """Failures are reported, the overall status says so, and execute() raises."""
    ex = Ex(c)
    fl = ex.fl
    xid = {n.id for n in ex.X}
    exc = [(n, "exc") for n in ex.X]
    fid = {n.id for n in ex.FAIL}
    sid = {n.id for n in ex.START}
    frep = {n.id for n in ex.REP if _failure_report(fl, n)}
    any_next = lambda n: n.id in xid or n is fl.g.exit or n is fl.g.exc_exit  # noqa: E731
    w = fl.path(exc, any_next, stop_node=lambda n: n.id in frep, raising=ex.X)
    c.ob("S1-failed-quantum-reported", "in-process", w, "a quantum that raised gets no failure report")
    stat = {n.id for n in fl.g.live if n.kind == "attrstore" and n.name == "status" and fl.term(n.value, n) in (
        ("glob", f"{STATUS}.FAILURE"), ("glob", f"{STATUS}.TIMEOUT"))}
    not_success = lambda n, lab: any(  # noqa: E731
        lit[0] == "eq" and any(s[0] == "attr" and s[2] == "status" for s in subterms(lit)) and
        ("glob", f"{STATUS}.SUCCESS") in lit and lit[3] is False for lit in fl.lits(n, lab))
    w = fl.path(exc, any_next, stop_node=lambda n: n.id in stat, stop_edge=not_success, raising=ex.X)
    c.ob("S2-status-not-success", "in-process", w, "a quantum failed but the report's overall status can stay SUCCESS")
    # failures must make execute() raise
    w = fl.path(exc, [fl.g.exit])
    c.ob("S3-failure-raises", "in-process", w, "execute() can return normally although a quantum failed")
    failed_edges = ex.exit_edges[False]
    c.require(failed_edges, "the multiprocess executor no longer examines process exit codes")
    mp_next = lambda n: n.id in sid or n is fl.g.exit or n is fl.g.exc_exit  # noqa: E731
    w = fl.path(failed_edges, mp_next, stop_node=lambda n: n.id in stat,
                stop_edge=lambda n, lab: not_success(n, lab) or ex.newiter(n, lab), raising=False)
    c.ob("S2-status-not-success", "multiprocess", w, "a process failed but the report's overall status can stay SUCCESS")
    mpfail = [n for n in ex.FAIL if fl.path(failed_edges, [n], stop_edge=lambda m, lab: ex.newiter(m, lab))]
    c.require(mpfail, "no failure transition in the multiprocess executor")
    w = fl.path(failed_edges, [fl.g.exit])
    c.ob("S3-failure-raises", "multiprocess", w, "execute() can return normally although a process failed")
    # any internal error is recorded and re-raised
    for n in fl.g.live:
        if n.kind == "branch" and n.atom[0] == "excis" and n.frame.func.qual.endswith("MPGraphExecutor.execute") and n.frame.depth == 0:
            w = fl.path([(n, True)], [fl.g.exit])
            c.ob("S4-errors-propagate", "execute", w, "an error raised during execution is swallowed", n)
            setx = {m.id for m in fl.g.live if (m.kind == "attrstore" and m.name == "exceptionInfo")}
            w = fl.path([(n, True)], [fl.g.exit, fl.g.exc_exit], stop_node=lambda m: m.id in setx, raising=False)
            c.ob("S4b-errors-recorded", "execute", w, "an error raised during execution is not recorded in the report", n)
            w = fl.path([(n, True)], [fl.g.exit, fl.g.exc_exit], stop_node=lambda m: m.id in stat, stop_edge=not_success,
                        raising=False)
            c.ob("S4c-error-status", "execute", w,
                 "execution ended with an error but the report's overall status can stay SUCCESS", n)
    # every dead process contributes a report before its state changes
    repid = {n.id for n in ex.REP}
    tr = {n.id for n in ex.FIN + ex.FAIL}
    w = fl.path([(h, "elem") for h in ex.heads.values()], lambda n: n.id in tr, stop_node=lambda n: n.id in repid)
    c.ob("S5-process-report", "multiprocess", w, "a finished process is accounted for without a quantum report")
    # downstream quanta of a failure are reported as skipped
    for f in ex.FAIL:
        res = ("tmp", f.id)
        heads = [h for h in fl.g.live if h.kind == "iter" and fl.derives(h.iterable, h, lambda t, m: t == res)]
        skipped = {n.id for n in ex.REP if any(fl.derives(a, n, lambda t, m: t == ("glob", f"{STATUS}.SKIPPED")) for a in n.args)
                   or any(fl.derives(a, n, lambda t, m: t == ("glob", f"{STATUS}.SKIPPED")) for p in fl.insert_points(n)
                          for a in ([p.value] if p.kind == "compelt" else []))}
        good = [h for h in heads if any(s in fl.loop_body(h) for s in skipped)]
        none_blocked = lambda n, lab: any(lit[0] == "truth" and lit[2] is False and fl.derives(  # noqa: E731
            lit[1], n, lambda t, m: t == res) for lit in fl.lits(n, lab))
        where = "in-process" if f not in mpfail else "multiprocess"
        if not good:
            bulk = {n.id for n in fl.g.live if n.id in skipped}
            w = fl.path(fl.out_edges([f]), lambda n: n.id in xid or n.id in sid or n is fl.g.exit,
                        stop_node=lambda n: n.id in bulk, stop_edge=none_blocked)
            c.ob("S6-downstream-reported", where, w, "quanta blocked by a failure get no report", f)
            continue
        hid = {h.id for h in good}
        w = fl.path(fl.out_edges([f]), lambda n: n.id in xid or n.id in sid or n is fl.g.exit,
                    stop_edge=lambda n, lab: (n.id in hid and lab == "done") or none_blocked(n, lab))
        c.ob("S6-downstream-reported", where, w, "quanta blocked by a failure get no report", f)
        for h in good:
            w = fl.path([(h, "elem")], lambda n: n is h, stop_node=lambda n: n.id in skipped)
            c.ob("S6b-each-downstream", where, w, "some quantum blocked by a failure gets no report", h)
    # provenance
    wq = {n.id for n in fl.g.calls() if n.name == "write_quantum_provenance"}
    wb = {n.id for n in fl.g.calls() if n.name == "write_blocked_quantum_provenance"}
    nowriter = lambda n, lab: any(lit[0] == "isnone" and lit[2] is True or lit[0] == "truth" and lit[2] is False and  # noqa: E731
                                  _is_writer(fl, lit[1]) for lit in fl.lits(n, lab) if _is_writer(fl, lit[1]))
    w = fl.path(exc + [(n, None) for n in ex.X], lambda n: n.id in xid or n is fl.g.exit,
                stop_node=lambda n: n.id in wq, stop_edge=nowriter)
    c.ob("S7-provenance-per-quantum", "in-process", w, "an executed quantum is missing from the provenance graph")
    for f in ex.FAIL:
        if f in mpfail:
            continue
        heads = [h for h in fl.g.live if h.kind == "iter" and fl.derives(h.iterable, h, lambda t, m: t == ("tmp", f.id))]
        heads = [h for h in heads if any(x in fl.loop_body(h) for x in wb)]
        if not heads:
            w = fl.path(fl.out_edges([f]), lambda n: n.id in xid or n is fl.g.exit, stop_node=lambda n: n.id in wb,
                        stop_edge=nowriter)
            c.ob("S7b-provenance-blocked", "in-process", w, "a blocked quantum is missing from the provenance graph", f)
        for h in heads:
            w = fl.path([(h, "elem")], lambda n: n is h, stop_node=lambda n: n.id in wb, stop_edge=nowriter)
            c.ob("S7b-provenance-blocked", "in-process", w, "a blocked quantum is missing from the provenance graph", h)


    _reports(c, ex)


def _qid(n):
    return n.kwargs.get("quantumId")


def _reports(c, ex):
    """Contents of the quantum reports."""
    fl = ex.fl
    QR = "lsst.pipe.base.quantum_reports.QuantumReport"
    # S8: constructors used for failures say so
    f = c.flow("quantum_reports.QuantumReport.from_exception", opaque=("*",))
    for n in f.g.calls():
        if n.callee == QR:
            st = n.kwargs.get("status")
            src = [t for t, _ in f.sources(st, n)] if st else []
            ok = src and all(t in (("glob", f"{STATUS}.FAILURE"), ("glob", f"{STATUS}.TIMEOUT")) for t in src)
            c.ob("S8-exception-report-is-failure", "from_exception", None if ok else True,
                 "a report built from an exception does not have failure status", n)
    f = c.flow("quantum_reports.QuantumReport.from_exit_code", opaque=("*",))
    for n in f.g.calls():
        if n.callee == QR:
            st = n.kwargs.get("status")
            if st is None:
                c.fail("S8-exit-code-report", "from_exit_code", "the status of the report does not depend on the exit code", n)
                continue
            for t, d in f.sources(st, n):
                if t == ("glob", f"{STATUS}.SUCCESS"):
                    w = f.path([f.g.entry], [d], stop_edge=lambda m, lab: any(
                        lit[0] == "eq" and lit[3] is True and ("const", "int", 0) in lit or
                        lit[0] == "truth" and lit[2] is False and lit[1][0] == "param" for lit in f.lits(m, lab)))
                    c.ob("S8-exit-code-report", "from_exit_code", w, "a non-zero exit code is reported as success", d)
                elif t != ("glob", f"{STATUS}.FAILURE"):
                    c.fail("S8-exit-code-report", "from_exit_code", "the status is not success/failure by exit code", n)
    # S9: every report names the quantum it is about
    for n in fl.g.calls():
        if n.name in ("from_exception", "from_exit_code") or n.callee == QR:
            if n.frame.func.module.name != "lsst.pipe.base.mp_graph_executor":
                continue
            q = _qid(n)
            ok = q is not None and fl.term(q, n)[0] != "const"
            c.ob("S9-report-names-quantum", f"{n.frame.func.name}:{n.name}", None if ok else True,
                 "a quantum report is created without the quantum's ID", n)
    # S10: a process that exited non-zero never leaves a success report
    f = c.flow("mp_graph_executor._Job.report", inline=lambda x: x.module.name in MODS and x.name != "from_exit_code")
    rec = [n for n in f.g.calls() if n.name == "recv"]
    c.require(rec, "_Job.report no longer receives the child's report")
    bad = {n.id for n in f.g.live if n.kind == "attrstore" and n.name == "status" and f.term(n.value, n) in (
        ("glob", f"{STATUS}.FAILURE"), ("glob", f"{STATUS}.TIMEOUT"))}

    def fine(m, lab):
        return any(exit_zero(lit) is True or (lit[0] == "eq" and lit[3] is False and ("glob", f"{STATUS}.SUCCESS") in lit)
                   for lit in f.lits(m, lab))

    w = f.path([(n, None) for n in rec], [f.g.exit], stop_node=lambda m: m.id in bad, stop_edge=fine, raising=False)
    c.ob("S10-exit-code-overrides-report", "report", w,
         "a process that exited with a non-zero code after sending a success report is still reported as successful")


def _is_writer(fl, t):
    return fl.g.ty.get(t, ("",))[0].endswith("ProvenanceQuantumGraphWriter") or (
        t[0] == "var" and any(v[0] == "tmp" and fl.g.nodes[v[1]].kind == "call"
                              and (fl.g.nodes[v[1]].callee or "").endswith("ProvenanceQuantumGraphWriter")
                              for v in (fl.defs[i][1] for i in fl.vdefs.get(t, []))))


def multiproc(c: Check):
    """Process pool discipline."""
    ex = Ex(c)
    fl = ex.fl
    g = fl.g
    sid = {n.id for n in ex.START}

    # M1: bounded concurrency
    def below(lit):
        if lit[0] != "lt":
            return False
        a, b, pol = fl.expand(lit[1]), fl.expand(lit[2]), lit[3]
        nump = lambda t: any(s[0] == "attr" and "num_proc" in s[2] for s in subterms(t))  # noqa: E731
        cnt = lambda t: any(s[0] == "call" and s[2] == "len" for s in subterms(t))  # noqa: E731
        return pol and cnt(a) and nump(b) and b[0] == "attr"

    def below_any(lit):
        if below(lit):
            return True
        # free-slot counters: something derived from num_proc compared/true
        if lit[0] in ("lt", "truth"):
            return any(s[0] == "op" and any(x[0] == "attr" and "num_proc" in x[2] for x in subterms(s))
                       for s in subterms(fl.expand(lit)))
        return False

    w = fl.path([g.entry], ex.START, stop_edge=lambda n, lab: any(below_any(x) for x in fl.lits(n, lab)))
    c.ob("M1-bounded", "first start", w, "a process is started without checking that fewer than the allowed number are running",
         ex.START[0])
    w = fl.path(fl.out_edges(ex.START), ex.START, stop_edge=lambda n, lab: any(below_any(x) for x in fl.lits(n, lab)))
    c.ob("M1-bounded", "next start", w, "processes are started back to back without checking the number running", ex.START[0])
    # the set whose size is compared grows with each start
    cnts = set()
    for n in g.live:
        if n.kind == "branch":
            for lab in (True, False):
                for lit in fl.lits(n, lab):
                    if below(lit):
                        for s in subterms(fl.expand(lit[1])):
                            if s[0] == "call" and s[2] == "len":
                                cnts.add(s[4][0])
    if cnts:
        adds = [n for n in g.calls() if n.name in ("add", "append") and n.recv is not None
                and fl.expand(fl.term(n.recv, n)) in cnts]
        w = fl.path(fl.out_edges(ex.START), ex.START, stop_node=lambda n: n in adds)
        c.ob("M1b-started-is-counted", "start", w, "a started process is not counted as running", ex.START[0])
    # M2: a quantum is started at most once
    def from_walker(val, n):
        return fl.derives(val, n, lambda t, m: (t[0] == "tmp" and g.nodes[t[1]].kind == "call" and (
            g.nodes[t[1]].callee in ("builtins.next", f"{GW}.__next__"))) or
            (t[0] == "elem" and _walker_iter(fl, g.nodes[t[1]])))

    fills = []  # (attribute, value, node): everything put into or stored in a container attribute
    for n in g.live:
        if n.kind == "call" and n.name in ("update", "add", "extend", "append") and n.recv is not None and n.args and \
                fl.term(n.recv, n)[0] == "attr":
            fills.append((fl.term(n.recv, n)[2], n.args[0], n))
        elif n.kind == "attrstore":
            fills.append((n.name, n.value, n))
    direct = lambda v, n: fl.derives(v, n, lambda t, m: t[0] == "tmp" and g.nodes[t[1]].kind == "call" and (  # noqa: E731
        g.nodes[t[1]].callee in ("builtins.next", f"{GW}.__next__")), through_args=True)
    pend = {a for a, v, n in fills if n.frame.func.cls is not None and direct(v, n)
            and n.frame.func.cls.qual.endswith("_JobList") and not _via_attr(fl, v, n)}
    c.require(pend, "cannot identify the pending set of the multiprocess executor")
    src = [n for n in g.calls() if n.name in ("pop", "popleft", "remove", "discard", "difference_update") and n.recv is not None
           and fl.term(n.recv, n)[0] == "attr" and fl.term(n.recv, n)[2] in pend]
    w = fl.must_precede(src, ex.START)
    c.ob("M2-dequeued-before-start", "start", w, "a quantum is started without being taken from the pending set", ex.START[0])
    w = fl.path(fl.out_edges(ex.START), ex.START, stop_node=lambda n: n in src)
    c.ob("M2-dequeued-before-start", "restart", w, "the same quantum can be started twice", ex.START[0])
    # pending only filled from the walker
    for a, val, n in fills:
        if a in pend and fl.term(val, n) not in (("set", ()), ("list", ())):
            ok = from_walker(val, n)
            c.ob("M2b-pending-from-walker", n.frame.func.name, None if ok else True,
                 "quanta become pending without having been handed out by the graph walker", n)
    # M3: only multiprocess-capable tasks
    def is_jobs(h):
        body = fl.loop_body(h)
        return any(m.id in body and m.kind == "branch" and any(
            s[0] == "attr" and s[2] == "canMultiprocess" for lit in fl.lits(m, True) for s in subterms(lit)) for m in g.live)

    def can(lit, h):
        if lit[0] == "truth" and lit[1][0] == "attr" and lit[1][2] == "canMultiprocess":
            return lit[2]
        return None

    res = fl.forall_guard(ex.START, is_jobs, can)
    c.ob("M3-can-multiprocess", "start", res and res[0],
         "a process is started although some task in the graph does not support multiprocessing" +
         (f" ({res[1]})" if res else ""), ex.START[0])
    some = {fl.term(n.recv, n)[2] for n in g.calls() if n.name in ("pop", "popleft", "remove") and n.recv is not None
            and fl.term(n.recv, n)[0] == "attr"}
    for h in [h for h in g.live if h.kind == "iter" and not fl.enclosing_loops(h) and is_jobs(h)]:
        bad = fl.partial(h) or fl.derives(h.iterable, h, lambda t, m: t[0] == "attr" and t[2] in some)
        c.ob("M3-can-multiprocess", "all", True if bad else None, "not all tasks are asked whether they support multiprocessing", h)
    # M4: timeouts
    TERM = [n for n in g.calls() if n.name in ("terminate", "kill")]
    tid = {n.id for n in TERM}

    def over(lit):
        if lit[0] != "lt":
            return None
        a, b, pol = fl.expand(lit[1]), fl.expand(lit[2]), lit[3]
        t = lambda x: any(s[0] == "attr" and s[2] in ("_timeout", "timeout") for s in subterms(x))  # noqa: E731
        st = lambda x: any(s[0] == "attr" and s[2] == "started" for s in subterms(x))  # noqa: E731
        if t(a) and st(b):  # timeout < elapsed
            return pol
        if st(a) and t(b):  # elapsed < timeout
            return not pol
        return None

    ovr = [(n, lab) for n in g.live if n.kind == "branch" for lab in (True, False) if any(over(x) is True for x in fl.lits(n, lab))]
    if not ovr:
        c.fail("M4-timeout-kills", "running job", "running processes are no longer compared with the timeout", func=c.prog.func(ROOT))
    else:
        hs = {h.id for n, _ in ovr for h in fl.enclosing_loops(n)}
        w = fl.path(ovr, lambda n: n.id in hs or n is g.exit, stop_node=lambda n: n.id in tid)
        c.ob("M4-timeout-kills", "running job", w, "a process that exceeded its timeout is left running")
        # every running process is examined: either its exit code or its running time is tested
        seen = {o.id for o, _ in ovr} | {n.id for z in (True, False) for n, _ in ex.exit_edges[z]}
        for h in ex.heads.values():
            w = fl.path([(h, "elem")], lambda m: m is h, stop_node=lambda m: m.id in seen)
            c.ob("M4b-timeout-tested", "running job", w, "a live process may escape the timeout test", h)
    # timeouts kill only on timeout or fail-fast
    ff = lambda n, lab: any(_is_ff(fl, lit) for lit in fl.lits(n, lab))  # noqa: E731
    w = fl.path([g.entry], TERM, stop_edge=lambda n, lab: ff(n, lab) or any(over(x) is True for x in fl.lits(n, lab)))
    c.ob("M4c-kill-needs-reason", "terminate", w, "a process can be killed without timeout or fail-fast")
    # M5: fail fast
    ffterm = ("attr", ("param", "self"), "_fail_fast")
    names = {s[2] for n in g.live if n.kind == "branch" for s in subterms(n.atom) if s[0] == "attr" and "fail_fast" in s[2]}
    ffname = next(iter(sorted(names)), None)
    c.ob("M5-fail-fast-tested", "execute", None if ffname else True, "fail-fast is no longer honoured", func=c.prog.func(ROOT))
    if ffname:
        ffterm = ("attr", ("param", "self"), ffname)
        w = fl.path(ex.exit_edges[False], lambda n: n.id in sid or n is g.exit, init={ffterm: "T"},
                    stop_edge=lambda n, lab: ex.newiter(n, lab))
        c.ob("M5-fail-fast", "multiprocess", w, "with fail-fast, execution continues after a process failed")
        # others are stopped before raising
        loops = [h for h in g.live if h.kind == "iter" and any(t in fl.loop_body(h) for t in tid)
                 and any(fl.path([e], [h], stop_edge=lambda n, lab: ex.newiter(n, lab)) for e in ex.exit_edges[False])]
        hid = {h.id for h in loops}
        if loops:
            fid = {n.id for n in ex.FAIL}
            st = [e for e in fl.out_edges([n for n in ex.FAIL if fl.path(ex.exit_edges[False], [n])])]
            w = fl.path(st, [g.exc_exit], init={ffterm: "T"},
                        stop_edge=lambda n, lab: n.id in hid and lab == "done", raising=False)
            c.ob("M5b-fail-fast-stops-others", "multiprocess", w, "with fail-fast, other running processes are left running")
            for h in loops:
                if h.id in ex.heads:
                    continue
                _full_loop(c, "M5b-fail-fast-stops-others", "all", fl, h, "with fail-fast, other running processes are left running")
                w = fl.path([(h, "elem")], lambda n: n is h, stop_node=lambda n: n.id in tid, stop_edge=lambda n, lab: any(
                    lit[0] == "eq" and lit[3] is True and any(s == ("elem", h.id) or s[0] == "elemof" for s in subterms(fl.expand(lit, 4)))
                    or lit[0] == "isnone" and lit[2] is True for lit in fl.lits(n, lab)), raising=False)
                c.ob("M5b-fail-fast-stops-others", "each", w, "with fail-fast, other running processes are left running", h)
        else:
            c.fail("M5b-fail-fast-stops-others", "multiprocess",
                   "with fail-fast, other running processes are left running", func=c.prog.func(ROOT))
        xid = {n.id for n in ex.X}
        w = fl.path([(n, "exc") for n in ex.X], lambda n: n.id in xid or n is g.exit, init={ffterm: "T"})
        c.ob("M5-fail-fast", "in-process", w, "with fail-fast, execution continues after a quantum failed")
    inv = [(n, True) for n in g.live if n.kind == "branch" and n.atom[0] == "excis" and n.atom[1]
           and any(t.endswith(".InvalidQuantumError") for t in n.atom[1])]
    xid = {n.id for n in ex.X}
    if inv:
        w = fl.path(inv, lambda n: n.id in xid or n is g.exit)
        c.ob("M5c-invalid-quantum-stops", "in-process", w, "execution continues after an invalid-quantum error")
    else:
        c.fail("M5c-invalid-quantum-stops", "in-process", "invalid-quantum errors are not distinguished", func=c.prog.func(ROOT))
    invx = [(n, lab) for n in g.live if n.kind == "branch" for lab in (True, False) for lit in fl.lits(n, lab)
            if lit[0] == "eq" and lit[3] is True and any(s[0] == "glob" and s[1].endswith("InvalidQuantumError.EXIT_CODE")
                                                         for s in subterms(lit))]
    if invx:
        w = fl.path(invx, lambda n: n.id in sid or n is g.exit)
        c.ob("M5c-invalid-quantum-stops", "multiprocess", w, "execution continues after an invalid-quantum exit code")
    else:
        c.fail("M5c-invalid-quantum-stops", "multiprocess", "the invalid-quantum exit code is not distinguished", func=c.prog.func(ROOT))
    # M6: child process
    _child(c, ex)
    # M7: reports of killed processes say TIMEOUT
    f = c.flow("mp_graph_executor._Job.report", inline=fresh)
    tmo = {n.id for n in f.g.live if n.kind == "attrstore" and n.name == "status" and f.term(n.value, n) == ("glob", f"{STATUS}.TIMEOUT")}
    nott = lambda n, lab: any(lit[0] == "truth" and lit[2] is False and any(  # noqa: E731
        s[0] == "attr" and "terminated" in s[2] for s in subterms(lit)) for lit in f.lits(n, lab))
    w = f.path([f.g.entry], [f.g.exit], stop_node=lambda n: n.id in tmo, stop_edge=nott)
    c.ob("M7-timeout-status", "report", w, "killed processes are not reported as timed out")
    for n in [n for n in f.g.live if n.id in tmo]:
        w = f.guarded([n], lambda lit: lit[0] == "truth" and lit[2] is True and any(s[0] == "attr" and "terminated" in s[2] for s in subterms(lit)))
        c.ob("M7-timeout-status", "only", w, "a process that was not killed is reported as timed out", n)


def _via_attr(fl, v, n):
    t = fl.term(v, n)
    return t[0] == "attr"


def _is_ff(fl, lit):
    if lit[0] == "truth" and lit[2] is True and lit[1][0] == "attr" and "fail_fast" in lit[1][2]:
        return True
    if lit[0] == "truth" and lit[2] is True and lit[1][0] == "or":
        return any(s[0] == "attr" and "fail_fast" in s[2] for s in subterms(lit))
    return lit[0] == "eq" and lit[3] is True and any(s[0] == "glob" and s[1].endswith("EXIT_CODE") for s in subterms(lit))


def _child(c, ex):
    fl = ex.fl
    procs = [n for n in fl.g.calls() if n.name == "Process" and ("target" in n.kwargs or n.args)]
    c.require(procs, "multiprocess executor no longer creates processes")
    for p in procs:
        tgt = fl.term(p.kwargs.get("target") or p.args[0], p)
        name = tgt[1] if tgt[0] == "glob" else None
        if name is None and tgt[0] == "attr":
            name = f"lsst.pipe.base.mp_graph_executor._Job.{tgt[2]}"
        f = c.prog.funcs.get(name)
        if f is None:
            f = c.prog.func("mp_graph_executor._Job._executeJob")
        cf = c.flow(f.qual, inline=_inl)
        X = [n for n in cf.g.calls() if n.name == "execute"]
        c.require(X, "child process no longer executes the quantum")
        exc = [(n, "exc") for n in X]
        w = cf.path(exc, [cf.g.exit])
        c.ob("M6-child-failure-exit-code", f.name, w, "a child process whose quantum raised can exit with code 0", X[0])
        send = {n.id for n in cf.g.calls() if n.name == "send"}
        w = cf.path(exc, [cf.g.exit, cf.g.exc_exit], stop_node=lambda n: n.id in send, raising=X)
        c.ob("M6b-child-sends-failure-report", f.name, w, "a child process whose quantum raised sends no report", X[0])
        none_rep = lambda n, lab: any(lit[0] == "isnone" and lit[2] is True or (  # noqa: E731
            lit[0] == "truth" and lit[2] is False) for lit in cf.lits(n, lab) if _from_x(cf, lit[1], X))
        w = cf.path([(n, None) for n in X], [cf.g.exit, cf.g.exc_exit], stop_node=lambda n: n.id in send, stop_edge=none_rep,
                    raising=False)
        c.ob("M6c-child-sends-success-report", f.name, w, "a child process that succeeded sends no report", X[0])
        w = cf.path([(n, None) for n in X], lambda n: n.kind == "raise" and not n.get("is_assert"))
        c.ob("M6d-child-success-exit", f.name, w, "a child process that succeeded can exit with an error", X[0])


def _from_x(cf, t, X):
    xs = {n.id for n in X}
    if any(s[0] == "tmp" and s[1] in xs for s in subterms(t)):
        return True
    if t[0] == "var":
        return any(any(s[0] == "tmp" and s[1] in xs for s in subterms(cf.term(v, d))) for v0, v, d in
                   (cf.defs[i] for i in cf.vdefs.get(t, [])))
    return False


def run(c):
    order(c)
    surface(c)
    multiproc(c)


# ---- whose quantum, and is every one dealt with -----------------------------------------------------------------------


def _ctor_values(fl, e, n):
    return fl.expand(fl.term(e, n), 8)


_full_loop = full


def order2(c: Check):
    ex = Ex(c)
    fl = ex.fl
    g = fl.g
    xid = {n.id for n in ex.X}
    sid = {n.id for n in ex.START}
    # O7: the quantum marked is the one that was executed
    for x in ex.X:
        q = x.kwargs.get("quantum_id")
        if q is None and len(x.args) > 2:
            q = x.args[2]
        elem = None
        if q is None:
            c.fail("O7-own-quantum", "executed", "the ID of the quantum is not passed on to its execution", x)
        else:
            elem = fl.term(q, x)
        ids = set()
        for a in list(x.args) + ([q] if q is not None else []):
            ids |= {s for s in subterms(_ctor_values(fl, a, x)) if s[0] == "elemof" or s[0] == "elem"}
        for n in ex.FIN + ex.FAIL:
            if not fl.path([(x, None), (x, "exc")], [n], stop_node=lambda m: m.id in xid) or elem is None or not n.args:
                continue
            c.ob("O7-own-quantum", n.name, None if fl.term(n.args[0], n) == elem else True,
                 "a quantum other than the one executed is marked finished or failed", n)
        # the task and quantum come from the node of that ID
        if elem is not None:
            for i, k in enumerate(("task_node", "quantum")):
                a = x.kwargs.get(k) or (x.args[i] if i < len(x.args) else None)
                if a is not None:
                    c.ob("O7b-own-node", k, None if fl.derives(a, x, lambda t, m: fl.term(t, m) == elem) else True,
                         "a quantum is executed with another quantum's task or data", x)
    # O8: everything handed out is executed
    for x in ex.X:
        hs = [h for h in fl.enclosing_loops(x) if h.kind == "iter"]
        mine = [h for h in hs if _walker_iter(fl, h) or fl.derives(h.iterable, h, lambda t, m: t[0] == "elem" and _walker_iter(fl, g.nodes[t[1]]))]
        for h in mine:
            inner = [y for y in mine if y is not h and y.id in fl.loop_body(h)]
            _full_loop(c, "O8-all-executed", "in-process", fl, h, "a quantum that was handed out is not executed")
            if not inner:
                w = fl.path([(h, "elem")], lambda n: n is h, stop_node=lambda n: n.id in xid, raising=False)
                c.ob("O8-all-executed", "each", w, "a quantum that was handed out is not executed", h)
    # O9: what a finished quantum unblocks becomes pending
    mpfin = [n for n in ex.FIN if not any(fl.path([(x, None)], [n], stop_node=lambda m: m.id in xid and m is not x) for x in ex.X)]
    nxt = [n for n in g.calls() if n.callee in ("builtins.next", f"{GW}.__next__")]
    fill = [n for n in g.live if (n.kind == "call" and n.name in ("update", "extend", "__ior__") or n.kind == "attrstore") and any(
        fl.derives(a, n, lambda t, m: t[0] == "tmp" and t[1] in {k.id for k in nxt}) for a in (n.args if n.kind == "call" else [n.value]))]
    loops = [h for h in g.live if h.kind == "iter" and fl.derives(h.iterable, h, lambda t, m: t[0] == "tmp" and t[1] in {k.id for k in nxt})]
    fill_ids = {n.id for n in fill} | {h.id for h in loops}
    for n in mpfin:
        w = fl.path(fl.out_edges([n]), lambda m: m.id in sid or m is g.exit, stop_node=lambda m: m.id in fill_ids, raising=False)
        c.ob("O9-unblocked-pending", "multiprocess", w, "quanta unblocked by a finished one never become pending", n)
    # O10: execution ends only when nothing is pending or running
    sets = {}
    for n in fill:
        if n.kind == "call" and n.recv is not None and fl.term(n.recv, n)[0] == "attr":
            sets.setdefault("pending", set()).add(fl.term(n.recv, n)[2])
    runs = {t[2] for h in ex.heads.values() for t in [_top(fl, fl.term(h.iterable, h))] if t[0] == "attr"}
    pend = sets.get("pending", set())
    for what, names in (("pending", pend), ("running", runs)):
        if not names:
            continue
        empty = lambda n, lab: any(_empty(fl, lit, names) for lit in fl.lits(n, lab))  # noqa: E731
        w = fl.path(fl.out_edges(ex.START), [g.exit], stop_edge=empty, raising=False)
        c.ob("O10-all-accounted", what, w, f"execution ends while quanta are still {what}")
        # ... also if a failure is raised at the end; fail-fast and invalid quanta may leave some behind
        ends = [n for n in g.live if n.kind == "raise" and not n.get("is_assert") and n.frame.depth > 0 and (n.exc or "").endswith((
            "MPGraphExecutorError", "MPTimeoutError"))]
        invalid = lambda n, lab: any(lit[0] == "eq" and lit[3] is True and any(  # noqa: E731
            x[0] == "glob" and x[1].endswith("EXIT_CODE") for x in subterms(lit)) for lit in fl.lits(n, lab))
        for t in _ff_terms(g):
            w = fl.path(fl.out_edges(ex.START), ends, init={t: "F"}, stop_edge=lambda n, lab: empty(n, lab) or invalid(n, lab), raising=False)
            c.ob("O10-all-accounted", what + " after failures", w, f"execution ends while quanta are still {what}")
    # O10b: what became pending stays so when more is added
    for n in fill:
        if n.kind == "attrstore" and not n.get("aug") and n.name in runs | pend | {"pending"} and not any(
                fr.func.name == "__init__" for fr in n.frame.chain()):
            ok = fl.derives(n.value, n, lambda t, m: t[0] == "attr" and t[2] == n.name)
            c.ob("O10b-pending-kept", n.frame.func.name, None if ok else True, "quanta that are pending are dropped when others become pending", n)
    # O13: the graph that is looked up after a failure is not the one the walker takes the failed nodes from
    for f in ex.FAIL:
        if f.recv is None:
            continue
        mk = [m for m in g.calls() if m.callee == GW and fl.derives(f.recv, f, lambda t, k: t == ("tmp", m.id))]
        walked = {fl.expand(fl.term(m.args[0], m), 6) for m in mk if m.args}
        if len(mk) != 1 or not walked:
            continue
        bad = None
        for h in [h for h in g.live if h.kind == "iter" and fl.derives(h.iterable, h, lambda t, m: t == ("tmp", f.id))]:
            body = fl.loop_body(h)
            elem = ("elem", h.id)
            for n in g.live:
                if n.id in body and bad is None:
                    for a in _used(n):
                        for x in subterms(fl.expand(fl.term(a, n), 6)):
                            if x[0] == "sub" and x[1][0] == "attr" and x[1][2] == "nodes" and x[1][1] in walked:
                                bad = n
        c.ob("O13-own-graph", f.frame.func.name, True if bad else None,
             "blocked quanta are looked up in the graph the walker has just removed them from", bad or f)
    # O11: all running processes are looked at
    for h in ex.heads.values():
        if _top(fl, fl.term(h.iterable, h))[0] == "attr":
            _full_loop(c, "O11-all-examined", "multiprocess", fl, h, "a running process is never looked at")
    # O12: fixups are applied to the graph that is walked
    fx = [n for n in g.calls() if n.name == "fixup_graph"]
    fq = [n for n in g.calls() if n.name == "fixupQuanta"]
    att = {s for n in fx + fq if n.recv is not None for s in [fl.expand(fl.term(n.recv, n))] if s[0] == "attr"}
    for a in att:
        w = fl.path([g.entry], lambda n: n.id in xid or n.id in sid, init={a: "T"}, stop_node=lambda n: n in fx + fq)
        c.ob("O12-fixup-applied", "called", w, "quanta run without the execution graph fixup having been applied")
    if fq:
        up = [n for n in g.calls() if n.name in ("update", "add_edges_from", "add_edge") and n.args and fl.derives(
            n.args[0], n, lambda t, m: t[0] == "tmp" and t[1] in {k.id for k in fq})]
        w = fl.path(fl.out_edges(fq), lambda n: n.id in xid or n.id in sid, stop_node=lambda n: n in up)
        c.ob("O12-fixup-applied", "edges", w, "the dependencies added by an execution graph fixup are lost")
        for h in [h for h in g.live if h.kind == "iter" and fl.derives(h.iterable, h, lambda t, m: t[0] == "tmp" and t[1] in {k.id for k in fq})]:
            if fl.partial(h):
                c.fail("O12-fixup-applied", "all edges", "the dependencies added by an execution graph fixup are lost", h)


def _ff_terms(g):
    return [("attr", ("param", "self"), x) for x in sorted({s[2] for n in g.live if n.kind == "branch" for s in subterms(
        n.atom) if s[0] == "attr" and "fail_fast" in s[2]})]


def _top(fl, t):
    """What is iterated over or counted, without list(), len() and the like."""
    t = fl.expand(t, 1)
    while t[0] == "call" and t[2] in ("list", "tuple", "set", "frozenset", "sorted", "len", "bool", "copy", "iter") and (t[3] is not None or t[4]):
        t = fl.expand(t[3] if t[3] is not None else t[4][0], 1)
    return t


def _empty(fl, lit, names):
    def has(t):
        t = _top(fl, t)
        if t[0] == "op" and t[1] in ("Add", "BitOr", "|", "+") and len(t) > 2:
            return any(isinstance(x, tuple) and x and has(x) for x in t[2])
        return t[0] == "attr" and t[2] in names

    if lit[0] == "truth":
        return lit[2] is False and has(lit[1])
    if lit[0] == "eq":
        return lit[3] is True and (has(lit[1]) or has(lit[2]))
    return lit[0] == "lt" and (lit[3] is False and lit[1] == ("const", "int", 0) and has(lit[2]) or lit[3] is True and lit[2] == ("const", "int", 1) and has(lit[1]))


def surface2(c: Check):
    ex = Ex(c)
    fl = ex.fl
    g = fl.g
    xid = {n.id for n in ex.X}
    sid = {n.id for n in ex.START}
    # S11: nothing is left out of the quanta blocked by a failure
    for f in ex.FAIL:
        res = ("tmp", f.id)
        for h in [h for h in g.live if h.kind == "iter" and fl.derives(h.iterable, h, lambda t, m: t == res)]:
            _full_loop(c, "S11-all-blocked", h.frame.func.name, fl, h, "a quantum blocked by a failure is left out")
            grow = [n for n in g.calls() if n.name in ("append", "add") and n.id in fl.loop_body(h)]
            if grow:
                w = fl.path([(h, "elem")], lambda m: m is h, stop_node=lambda m: m in grow, raising=False)
                c.ob("S11-all-blocked", h.frame.func.name + " each", w, "a quantum blocked by a failure is left out", h)
    # S12: a quantum that succeeded has its report, too
    repid = {n.id for n in ex.REP}
    none_rep = lambda n, lab: any(lit[0] in ("truth", "isnone") and lit[2] is (lit[0] == "isnone") and fl.derives(  # noqa: E731
        lit[1], n, lambda t, m: t[0] == "tmp" and t[1] in xid) for lit in fl.lits(n, lab))
    w = fl.path([(x, None) for x in ex.X], lambda n: n.id in xid or n is g.exit, stop_node=lambda n: n.id in repid, stop_edge=none_rep, raising=False)
    c.ob("S12-success-reported", "in-process", w, "a quantum that succeeded has no report")
    # S13: what is recorded is what came out of the quantum
    for n in g.calls():
        if n.name == "write_quantum_provenance":
            md, lg = n.kwargs.get("metadata"), n.kwargs.get("logs")
            ok = md is not None and fl.derives(md, n, lambda t, m: t[0] == "tmp" and t[1] in xid)
            c.ob("S13-provenance-contents", "metadata", None if ok else True, "the metadata of a quantum is not recorded in its provenance", n)
            given = [x.kwargs.get("log_records") for x in ex.X]
            ok = lg is not None and all(a is not None and fl.term(a, x) == fl.term(lg, n) or a is not None and fl.derives(
                lg, n, lambda t, m: t == fl.term(a, x)) for a, x in zip(given, ex.X))
            c.ob("S13-provenance-contents", "logs", None if ok else True, "the logs of a quantum are not recorded in its provenance", n)
    # S14: the provenance graph is complete
    par = ("param", "provenance_graph_file")
    mk = [n for n in g.calls() if (n.callee or "").endswith("ProvenanceQuantumGraphWriter")]
    if mk:
        w = fl.path([g.entry], lambda n: n.id in xid or n.id in sid, init={par: "T"}, stop_node=lambda n: n in mk)
        c.ob("S14-provenance-complete", "writer", w, "provenance was asked for but is not written")
        for name in ("write_overall_inputs", "write_packages", "write_init_outputs"):
            ns = [n for n in g.calls() if n.name == name]
            nowriter = lambda n, lab: any((lit[0] == "isnone" and lit[2] is True or lit[0] == "truth" and lit[2] is False) and _is_writer(  # noqa: E731
                fl, lit[1]) for lit in fl.lits(n, lab))
            w = fl.path(fl.out_edges(mk), [g.exit], stop_node=lambda n: n in ns, stop_edge=nowriter, raising=False)
            c.ob("S14-provenance-complete", name, w, "the provenance graph is left incomplete")
            w = fl.path([(x, lab) for x in ex.X for lab in (None, "exc")], [n for n in g.live if n.kind == "raise" and n.frame.depth == 0],
                        stop_node=lambda n: n in ns, stop_edge=nowriter, raising=False) if ns else None
            c.ob("S14-provenance-complete", name + " on failure", w, "the provenance graph is left incomplete when a quantum fails")
        if not any(fl.path(fl.out_edges(ex.START), [n], raising=False) for n in g.calls() if n.name == "write_quantum_provenance"):
            w = fl.path([g.entry], ex.START, init={par: "T"}, raising=False)
            c.ob("S14-provenance-complete", "multiprocess", w, "provenance was asked for but is not written for processes")
    # S15: the exit code reported is the process's own
    f = c.flow("mp_graph_executor._Job.report", inline=lambda x: x.module.name in MODS and x.name != "from_exit_code")
    rec = [n for n in f.g.calls() if n.name == "recv"]
    xc = lambda e, n: f.derives(e, n, lambda t, m: t[0] == "attr" and t[2] == "exitcode")  # noqa: E731
    st = {n.id for n in f.g.live if n.kind == "attrstore" and n.name == "exitCode" and xc(n.value, n)}
    w = f.path([(n, None) for n in rec], [f.g.exit], stop_node=lambda m: m.id in st, raising=False)
    c.ob("S15-exit-code", "report", w, "the exit code in a report is not that of the process")
    for n in f.g.calls():
        if n.name == "from_exit_code":
            a = n.kwargs.get("exitCode") or (n.args[1] if len(n.args) > 1 else None)
            c.ob("S15-exit-code", "from_exit_code", None if a is not None and xc(a, n) else True, "the exit code in a report is not that of the process", n)
    bad = [n for n in f.g.live if n.kind == "attrstore" and n.name == "status" and f.term(n.value, n) == ("glob", f"{STATUS}.FAILURE")]
    for n in bad:
        w = f.guarded([n], lambda lit: exit_zero(lit) is False)
        c.ob("S16-success-kept", "report", w, "a process that succeeded is reported as failed", n)
    # S17: without fail-fast, a failure does not end the execution
    ff = _ff_terms(g)
    stopx = [n for n in g.live if n.kind == "raise" and not n.get("is_assert") and n.frame.depth > 0 and (n.exc or "").endswith((
        "MPGraphExecutorError", "MPTimeoutError"))] + [n for n in g.calls() if n.callee == "sys.exit"]
    special = lambda n, lab: n.kind == "branch" and n.atom[0] == "excis" and lab is True and bool(n.atom[1]) and any(  # noqa: E731
        t.endswith("InvalidQuantumError") for t in n.atom[1]) or any(
        lit[0] == "truth" and lit[2] is True and any(s[0] == "attr" and "pdb" in s[2] for s in subterms(fl.expand(lit[1], 4))) or
        lit[0] == "eq" and lit[3] is True and any(s[0] == "glob" and s[1].endswith("EXIT_CODE") for s in subterms(lit)) for lit in fl.lits(n, lab))
    for t in ff:
        w = fl.path([(x, "exc") for x in ex.X], stopx, init={t: "F"}, stop_edge=lambda n, lab: special(n, lab) or n.kind == "iter" and any(
            x.id in fl.loop_body(n) for x in ex.X), raising=ex.X)
        c.ob("S17-failure-contained", "in-process", w, "without fail-fast, one failed quantum ends the whole execution")
        w = fl.path(ex.exit_edges[False], stopx, init={t: "F"}, stop_edge=lambda n, lab: special(n, lab) or ex.newiter(n, lab) or n.id in ex.heads, raising=False)
        c.ob("S17-failure-contained", "multiprocess", w, "without fail-fast, one failed quantum ends the whole execution")


def multiproc2(c: Check):
    ex = Ex(c)
    fl = ex.fl
    g = fl.g
    # M8: a process that does not end when terminated is killed, and marked as terminated
    f = c.flow("mp_graph_executor._Job.stop", inline=_inl)
    term = [n for n in f.g.calls() if n.name in ("terminate", "kill")]
    kill = {n.id for n in f.g.calls() if n.name == "kill"}
    if not term:
        c.fail("M8-killed", "stop", "stopping a job does not end its process", func=f.g.root)
    else:
        w = f.must_precede(term, [f.g.exit])
        c.ob("M8-killed", "stop", w, "stopping a job does not end its process")
        dead = lambda n, lab: any(lit[0] == "truth" and lit[2] is False and any(s[0] == "call" and s[2] == "is_alive" for s in subterms(  # noqa: E731
            f.expand(lit[1], 4))) or lit[0] == "isnone" and lit[2] is False and any(s[0] == "attr" and s[2] == "exitcode" for s in subterms(lit)) for lit in f.lits(n, lab))
        w = f.path(f.out_edges([n for n in term if n.name == "terminate"]), [f.g.exit], stop_node=lambda n: n.id in kill, stop_edge=dead, raising=False)
        c.ob("M8-killed", "stubborn", w, "a process that does not end when told to is left running")
    flag = [n for n in f.g.live if n.kind == "attrstore" and "terminated" in n.name and f.term(n.value, n) == ("const", "bool", True)]
    w = f.path([f.g.entry], [f.g.exit], stop_node=lambda n: n in flag, raising=False)
    c.ob("M8b-marked", "stop", w, "a process that was killed is not marked as such")
    fname = flag[0].name if flag else None
    tp = c.prog.funcs.get("lsst.pipe.base.mp_graph_executor._Job.terminated")
    if tp is not None and fname and fname != "terminated":
        t = c.flow(tp.qual, inline=_inl)
        for r in [n for n in t.g.live if n.kind == "return" and n.frame.id == 0]:
            v = t.term(r.value, r)
            if v == ("const", "bool", False):
                w = t.path([t.g.entry], [r], stop_edge=lambda n, lab: any(
                    lit[0] == "truth" and lit[2] is False and any(s[0] == "attr" and s[2] == fname for s in subterms(lit)) or
                    lit[0] == "isnone" and lit[2] is True or lit[0] == "lt" for lit in t.lits(n, lab)), raising=False)
                c.ob("M8c-terminated", "false", w, "a process that was killed does not count as terminated", r)
            elif v == ("const", "bool", True):
                w = t.guarded([r], lambda lit: lit[0] == "truth" and lit[2] is True and any(s[0] == "attr" and s[2] == fname for s in subterms(lit)))
                c.ob("M8c-terminated", "true", w, "a process that was not killed counts as terminated", r)
            else:
                e = t.expand(v, 6)
                w = t.guarded([r], lambda lit: lit[0] == "truth" and lit[2] is True and any(s[0] == "attr" and s[2] == fname for s in subterms(lit)))
                if not any(s[0] == "attr" and s[2] == fname for s in subterms(e)):
                    c.ob("M8c-terminated", "value", w, "a process that was not killed counts as terminated", r)
        xcode = lambda x: x[0] == "attr" and x[2] == "exitcode"  # noqa: E731
        seen = [t.expand(t.term(r.value, r), 6) for r in t.g.live if r.kind == "return" and r.frame.id == 0]
        seen += [lit for n in t.g.live if n.kind == "branch" for lit in t.lits(n, True)]
        one = [x for v in seen for x in subterms(v) if (x[0] == "cmp" and x[1] in ("Eq", "NotEq", "In", "NotIn") and any(map(xcode, x[2:]))
               or x[0] in ("eq", "in") and len(x) > 2 and any(isinstance(y, tuple) and y and xcode(y) for y in x[1:3]))
               and ("const", "int", 0) not in x]
        c.ob("M8d-any-signal", "terminated", True if one else None, "a process killed by another signal does not count as terminated", func=tp)
    # M4d: running time counts from the start
    for n in ex.START:
        st = {m.id for m in g.live if m.kind == "attrstore" and m.name == "started" and any(
            s[0] == "call" and s[2] in ("time", "monotonic", "perf_counter") for s in subterms(fl.expand(fl.term(m.value, m), 3)))}
        w1 = fl.path(fl.out_edges([n]), lambda m: m.kind == "branch" and any(s[0] == "attr" and s[2] == "started" for lab in (True, False) for lit in fl.lits(
            m, lab) for s in subterms(fl.expand(lit, 3))), stop_node=lambda m: m.id in st, raising=False)
        w2 = w1 and fl.path([g.entry], [n], stop_node=lambda m: m.id in st, raising=False)
        c.ob("M4d-started", "start", w1 and w2, "the running time of a process is not counted from its start", n)
    # M7b: timed-out and failed are told apart
    TO = "JobState.TIMED_OUT"
    isterm = lambda lit, pol: lit[0] == "truth" and lit[2] is pol and any("terminated" in str(s[2]) for s in subterms(fl.expand(lit[1], 4)) if s[0] in ("attr", "call"))  # noqa: E731
    jt = lambda lit, pol: lit[0] == "eq" and lit[3] is pol and (any(s[0] == "glob" and s[1].endswith(TO) for s in subterms(lit)) or any(  # noqa: E731
        s[0] == "attr" and s[2] == "timed_out" for s in subterms(fl.expand(lit, 4)))) or isterm(lit, pol)
    for n in g.live:
        if n.kind == "raise" and (n.exc or "").endswith("MPTimeoutError"):
            w = fl.path([g.entry], [n], stop_edge=lambda m, lab: any(jt(x, True) for x in fl.lits(m, lab)), raising=False)
            c.ob("M7b-timeout-error", "MPTimeoutError", w, "a failure that is no timeout is raised as one", n)
    for f2 in [n for n in g.live if n.kind == "attrstore" and n.name == "status" and n.frame.func.name != "report" and fl.term(n.value, n) == ("glob", f"{STATUS}.TIMEOUT")]:
        w = fl.path([e for e in ex.exit_edges[False]], [f2], stop_edge=lambda m, lab: any(isterm(x, True) for x in fl.lits(m, lab)), raising=False)
        c.ob("M7c-timeout-status", "overall", w, "a failure that is no timeout is reported as one", f2)
    # M9: an invalid quantum is recognisable by the exit code of its process
    for p in [n for n in g.calls() if n.name == "Process" and ("target" in n.kwargs or n.args)]:
        cf = c.flow("mp_graph_executor._Job._executeJob", inline=_inl)
        inv = [(n, True) for n in cf.g.live if n.kind == "branch" and n.atom[0] == "excis" and n.atom[1] and any(
            t.endswith("InvalidQuantumError") for t in n.atom[1])]
        xs = [n for n in cf.g.calls() if n.callee in ("sys.exit", "os._exit") and n.args and any(
            s[0] == "attr" and s[2] == "EXIT_CODE" or s[0] == "glob" and s[1].endswith("EXIT_CODE") for s in subterms(cf.expand(cf.term(n.args[0], n), 4)))]
        if inv:
            w = cf.path(inv, [cf.g.exit, cf.g.exc_exit], stop_node=lambda n: n in xs, raising=False)
            c.ob("M9-invalid-exit-code", "child", w, "an invalid quantum is not recognisable by the exit code of its process")
        else:
            c.fail("M9-invalid-exit-code", "child", "an invalid quantum is not recognisable by the exit code of its process", func=cf.g.root)
        break
    # M10: fail-fast reaches the child
    for p in [n for n in g.calls() if n.name == "Process"]:
        a = p.kwargs.get("args")
        if a is not None:
            ok = fl.derives(a, p, lambda t, m: t[0] == "attr" and "fail_fast" in t[2])
            c.ob("M10-fail-fast-passed", "child", None if ok else True, "child processes do not know about fail-fast", p)
