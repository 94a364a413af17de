"""Status codes, caveat flags and exit codes: tables that other components and stored files rely on."""

from __future__ import annotations

import ast

from ..flow import subterms
from ..ir import unknown
from ..lib import Check, const, edges, mentions
from ..q import flow_of, full, iters, lit_edges

# Numeric codes that are written to task metadata and provenance files (persisted, so their meaning may not change).
CAVEATS = {"NO_CAVEATS": 0, "ANY_OUTPUTS_MISSING": 1, "ALL_OUTPUTS_MISSING": 2, "NO_WORK": 4, "ADJUST_QUANTUM_RAISED": 8,
           "UPSTREAM_FAILURE_NO_WORK": 16, "UNPROCESSABLE_DATA": 32, "PARTIAL_OUTPUTS_ERROR": 64}
ATTEMPT = {"ABORTED": -4, "UNKNOWN": -3, "ABORTED_SUCCESS": -2, "FAILED": -1, "BLOCKED": 0, "SUCCESSFUL": 1}


def ceval(e, env, auto=None):
    """Evaluate a constant expression; raises ValueError when it is not one."""
    if isinstance(e, ast.Constant):
        return e.value
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
        return -ceval(e.operand, env, auto)
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Invert):
        return ~ceval(e.operand, env, auto)
    if isinstance(e, ast.BinOp):
        a, b = ceval(e.left, env, auto), ceval(e.right, env, auto)
        op = type(e.op).__name__
        return {"BitOr": lambda: a | b, "BitAnd": lambda: a & b, "LShift": lambda: a << b, "Add": lambda: a + b,
                "Sub": lambda: a - b, "Mult": lambda: a * b, "BitXor": lambda: a ^ b, "Pow": lambda: a ** b}[op]()
    if isinstance(e, ast.Call) and ast.unparse(e.func) in ("enum.auto", "auto") and auto is not None:
        return auto()
    if isinstance(e, ast.Attribute):
        if e.attr == "value":
            return ceval(e.value, env, auto)
        if e.attr in env:
            return env[e.attr]
    if isinstance(e, ast.Name) and e.id in env:
        return env[e.id]
    raise ValueError(ast.unparse(e))


def enum_values(cls):
    env = {}
    flag = any("Flag" in ast.unparse(b) for b in cls.node.bases)
    for st in cls.node.body:
        t = v = None
        if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
            t, v = st.targets[0].id, st.value
        elif isinstance(st, ast.AnnAssign) and st.value is not None and isinstance(st.target, ast.Name):
            t, v = st.target.id, st.value
        if t is None or t.startswith("_"):
            continue

        def auto():
            last = list(env.values())
            if not flag:
                return (last[-1] if last else 0) + 1
            hi = max([x for x in last if isinstance(x, int)], default=0)
            return 1 << hi.bit_length()

        env[t] = ceval(v, env, auto)
    return env


def run(c: Check):
    cav = c.prog.cls("_status.QuantumSuccessCaveats")
    att = c.prog.cls("_status.QuantumAttemptStatus")
    for cls, table in ((cav, CAVEATS), (att, ATTEMPT)):
        try:
            vals = enum_values(cls)
        except ValueError as e:
            c.require(False, f"{cls.name}: not a table of constants: {e}")
        for k, v in table.items():
            c.ob("T1-persisted-codes", f"{cls.name}.{k}", None if vals.get(k) == v else f"{k} = {vals.get(k)} (files use {v})",
                 "the code under which a status is stored in existing files changed its meaning", func=None)
        dup = [k for k in vals for j in vals if k < j and vals[k] == vals[j]]
        c.ob("T1b-distinct", cls.name, f"shared values: {dup}" if dup else None, "two statuses share a code")
    vals = enum_values(cav)
    bits = {k: v for k, v in vals.items() if v}
    bad = [k for k, v in bits.items() if v & (v - 1)]
    c.ob("T1c-single-bits", cav.name, f"{bad}" if bad else None, "a caveat is not an independent flag")
    # FLAGS of exceptions
    n = 0
    fl_of = {}
    for q, cl in c.prog.classes.items():
        e = cl.class_assigns.get("FLAGS")
        if e is not None:
            try:
                fl_of[q] = ceval(e, vals)
            except ValueError:
                c.fail("T2-exception-flags", q, "the caveats of an exception class are not a constant")
    NW, PO = vals["NO_WORK"], vals["PARTIAL_OUTPUTS_ERROR"]
    for q, cl in sorted(c.prog.classes.items()):
        bases = c.prog.all_base_quals(q)
        isnw = any(b.endswith("._status.NoWorkFound") for b in bases)
        ispo = any(b.endswith("._status.AnnotatedPartialOutputsError") for b in bases)
        if not (isnw or ispo):
            continue
        v = next((fl_of[k.qual] for k in c.prog.mro(cl) if k.qual in fl_of), None)
        n += 1
        if isnw:
            c.ob("T2-exception-flags", cl.name, None if v is not None and v & NW else f"FLAGS={v}",
                 "an exception that means 'no work' is not recorded as such")
            ext = [b for b in bases if b in ("builtins.Exception", "builtins.RuntimeError")]
            c.ob("T2b-no-work-is-not-an-error", cl.name, f"{ext}" if ext else None,
                 "a no-work signal can be caught as an ordinary exception inside tasks")
        if ispo:
            c.ob("T2-exception-flags", cl.name, None if v is not None and v & PO and not v & NW else f"FLAGS={v}",
                 "partial outputs are not recorded as such")
    c.require(n >= 3, "no-work and partial-output exception classes not found")
    for name, need, what in (("UpstreamFailureNoWorkFound", "UPSTREAM_FAILURE_NO_WORK", "upstream failure"),
                             ("UnprocessableDataError", "UNPROCESSABLE_DATA", "unprocessable data")):
        cl = c.prog.cls("_status." + name)
        v = fl_of.get(cl.qual, 0)
        c.ob("T2c-specific-flags", name, None if v & vals[need] else True, f"{what} is not recorded as such")
    # no work found by adjustQuantum
    f = c.flow("_status.QuantumSuccessCaveats.from_adjust_quantum_no_work")
    got = set()
    for r in f.g.live:
        if r.kind == "return" and r.frame.id == 0:
            for s in subterms(f.expand(f.term(r.value, r))):
                if s[0] == "attr" and s[2] in vals:
                    got.add(s[2])
                elif s[0] == "glob" and s[1].rsplit(".", 1)[-1] in vals:
                    got.add(s[1].rsplit(".", 1)[-1])
    for k in ("NO_WORK", "ADJUST_QUANTUM_RAISED", "ANY_OUTPUTS_MISSING", "ALL_OUTPUTS_MISSING"):
        c.ob("T3-adjust-no-work", k, None if k in got else True, "a quantum without work is not recorded with all of its caveats", func=f.g.root)
    _concise(c, vals)
    failure_notes(c)
    # exit codes
    codes = {}
    for q, cl in c.prog.classes.items():
        e = cl.class_assigns.get("EXIT_CODE")
        if e is not None:
            try:
                codes[cl.name] = ceval(e, {})
            except ValueError:
                codes[cl.name] = None
    c.require("RepeatableQuantumError" in codes and "InvalidQuantumError" in codes, "exit codes not found")
    for k, v in codes.items():
        c.ob("T5-exit-codes", k, None if isinstance(v, int) and 1 < v < 128 else f"{v}",
             "an exit code is not distinguishable from success, a plain failure or a signal")
    c.ob("T5b-exit-codes-distinct", "all", None if len(set(codes.values())) == len(codes) else f"{codes}", "two failures share an exit code")
    # what a status promises
    for name, members in (("has_metadata", {"SUCCESSFUL", "ABORTED_SUCCESS"}), ("has_log", {"SUCCESSFUL", "FAILED"})):
        m = att.methods.get(name)
        c.require(m is not None, f"QuantumAttemptStatus.{name} not found")
        used = {x.attr for x in ast.walk(m.node) if isinstance(x, ast.Attribute) and x.attr in ATTEMPT}
        neg = any(isinstance(x, ast.Not) or isinstance(x, (ast.NotIn, ast.IsNot, ast.NotEq)) for x in ast.walk(m.node))
        want = members if not neg else set(ATTEMPT) - members
        try:
            got = {k for k in ATTEMPT if _holds(m.node.body, k)}
            bad = None if got == members else f"{sorted(got)}"
        except (ValueError, LookupError):
            bad = None if used == want else f"{sorted(used)}"
        c.ob("T6-status-promises", name, bad, "what a status promises about stored logs and metadata changed", func=m)
    # reports
    for meth, pos in (("from_exit_code", None), ("from_exception", "FAILURE")):
        f = c.flow("quantum_reports.QuantumReport." + meth)
        mk = [n for n in f.g.calls() if "status" in n.kwargs]
        if not mk:
            c.fail("T7-report-status", meth, "a report is built without a status", func=f.g.root)
        for n in mk:
            if pos:
                src = {t for t, _ in f.sources(n.kwargs["status"], n)}
                ok = all(mentions(t, lambda s: s[0] == "glob" and s[1].endswith("ExecutionStatus." + pos)) for t in src)
                c.ob("T7-report-status", meth, None if ok else True, "an exception is not reported as a failure", n)
                continue
        if pos is None:
            succ = [n for n in f.g.live if n.kind == "def" and any(val[0] == "glob" and val[1].endswith("ExecutionStatus.SUCCESS") for _, val in n.defs)]
            fails = [n for n in f.g.live if n.kind == "def" and any(val[0] == "glob" and val[1].endswith("ExecutionStatus.FAILURE") for _, val in n.defs)]
            if succ and fails:
                zero = lambda lit, pol: (lit[0] == "eq" and lit[3] is pol and const(0) in lit[1:3] and ("param", "exitCode") in lit[1:3]) or (  # noqa: E731
                    lit[0] == "truth" and lit[1] == ("param", "exitCode") and lit[2] is (not pol))
                w = f.guarded(succ, lambda lit: zero(lit, True))
                c.ob("T7-report-status", "exit code success", w, "a nonzero exit code is reported as success", succ[0])
                w = f.path([(n, lab) for n, lab in edges(f, lambda lit: zero(lit, True))], fails)
                c.ob("T7-report-status", "exit code failure", w, "exit code zero is reported as a failure", fails[0])
            else:
                c.fail("T7-report-status", "from_exit_code", "the status does not depend on the exit code", func=f.g.root)


def _holds(body, member):
    """Truth of a property defined by tests of self against members of the enumeration, for one member."""

    def val(e):
        if isinstance(e, ast.Name) and e.id == "self":
            return member
        if isinstance(e, ast.Attribute) and e.attr in ATTEMPT:
            return e.attr
        if isinstance(e, ast.Attribute) and e.attr == "value" and val(e.value) in ATTEMPT:
            return ATTEMPT[val(e.value)]
        if isinstance(e, ast.Attribute) and e.attr == "name" and val(e.value) in ATTEMPT:
            return val(e.value)
        if isinstance(e, (ast.Set, ast.Tuple, ast.List)):
            return [val(x) for x in e.elts]
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("set", "frozenset", "tuple", "bool") and len(e.args) == 1:
            return val(e.args[0])
        if isinstance(e, ast.Constant):
            return e.value
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return not val(e.operand)
        if isinstance(e, ast.BoolOp):
            vs = [val(x) for x in e.values]
            return all(vs) if isinstance(e.op, ast.And) else any(vs)
        if isinstance(e, ast.IfExp):
            return val(e.body) if val(e.test) else val(e.orelse)
        if isinstance(e, ast.Compare):
            left = val(e.left)
            for op, r in zip(e.ops, e.comparators, strict=True):
                r = val(r)
                a, b = (ATTEMPT.get(left, left), ATTEMPT.get(r, r)) if not isinstance(op, (ast.In, ast.NotIn)) else (left, r)
                t = type(op)
                try:
                    res = {ast.Is: lambda: a == b, ast.Eq: lambda: a == b, ast.IsNot: lambda: a != b, ast.NotEq: lambda: a != b, ast.In: lambda: a in b,
                           ast.NotIn: lambda: a not in b, ast.Lt: lambda: a < b, ast.LtE: lambda: a <= b, ast.Gt: lambda: a > b, ast.GtE: lambda: a >= b}[t]()
                except TypeError:
                    raise ValueError from None
                if not res:
                    return False
                left = r
            return True
        raise ValueError

    for st in body:
        if isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant) or isinstance(st, ast.Pass):
            continue
        if isinstance(st, ast.Return) and st.value is not None:
            return bool(val(st.value))
        if isinstance(st, ast.If):
            try:
                return _holds(st.body if val(st.test) else st.orelse or [], member)
            except LookupError:
                continue
        else:
            raise ValueError
    raise LookupError


def _dict_keys(node):
    out = set()
    for x in ast.walk(node):
        if isinstance(x, ast.Dict):
            out |= {k.value for k in x.keys if isinstance(k, ast.Constant)}
        if isinstance(x, ast.Subscript) and isinstance(x.slice, ast.Constant) and isinstance(x.ctx, ast.Store):
            out.add(x.slice.value)
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("set_dict", "add") and x.args and isinstance(
                x.args[0], ast.Constant):
            out.add(x.args[0].value)
    return out


def _read_keys(node):
    return {x.slice.value for x in ast.walk(node) if isinstance(x, ast.Subscript) and isinstance(x.slice, ast.Constant)
            and isinstance(x.slice.value, str) and isinstance(x.ctx, ast.Load)}


def _with_helpers(c, f):
    """A function and the functions of its module it was split into."""
    return [f] + [x for x in c.prog.funcs.values() if x.module is f.module and x is not f and unknown(x)]


def failure_notes(c):
    """Failure details noted in metadata are found again by the readers, for every annotated output."""
    w = c.prog.func("_status.AnnotatedPartialOutputsError.annotate")
    r = c.prog.func("_status.ExceptionInfo._from_metadata")
    wk, rk = set(), set()
    for fn in _with_helpers(c, w):
        wk |= _dict_keys(fn.node)
    for fn in _with_helpers(c, r):
        rk |= _read_keys(fn.node)
    c.ob("T8-failure-keys", "annotate/_from_metadata", None if rk <= wk else f"read but never written: {sorted(rk - wk)}",
         "failure details in task metadata are written and read under different keys", func=r)
    q = c.prog.func("single_quantum_executor.SingleQuantumExecutor._execute_with_limited_butler")
    mod = q.module.tree
    qk = _dict_keys(mod)
    for rd in ("quantum_provenance_graph", "quantum_graph._provenance"):
        m = c.prog.modules.get("lsst.pipe.base." + rd)
        if m is None:
            continue
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Subscript) and isinstance(x.value.slice, ast.Constant) and isinstance(
                    x.slice, ast.Constant) and x.value.slice.value == "quantum":
                k = x.slice.value
                c.ob("T8b-quantum-keys", f"{rd}:{k}", None if k in qk else f"{k!r} is never written",
                     "execution details in task metadata are written and read under different keys")
            if isinstance(x, ast.Call) and ast.unparse(x.func).endswith("ExceptionInfo._from_metadata") and x.args and isinstance(
                    x.args[0], ast.Subscript) and isinstance(x.args[0].slice, ast.Constant):
                k = x.args[0].slice.value
                c.ob("T8-failure-keys", f"{rd}:{k}", None if k in wk else f"{k!r} is never written",
                     "failure details in task metadata are written and read under different keys")
    f = c.flow(w.qual)
    loops = [h for h in f.loops() if h.kind == "iter" and f.derives(h.iterable, h, lambda t, m: t[0] == "param" and t[1] == "args")]
    # what the error says about itself is noted whenever it says anything
    own = {n.id for n in f.g.live if n.kind == "substore" and f.term(n.d["key"], n) == const("metadata")}
    if own:
        said = lambda t, m: mentions(f.expand(f.term(t, m), 4), lambda s: s[0] == "attr" and s[2] == "metadata" and s[1] == ("param", "error") or s[0] == "call" and s[2] in ("getattr", "hasattr") and const("metadata") in s[4])  # noqa: E731
        wit = f.path([f.g.entry], loops or [f.g.exit], stop_node=lambda m: m.id in own, stop_edge=lambda m, lab: any(
            lit[0] == "truth" and lit[2] is False and said(lit[1], m) or lit[0] == "isnone" and lit[2] is True and said(lit[1], m) or lit[0] == "excis" for lit in f.lits(m, lab)), raising=False)
        c.ob("T9b-own-details", "annotate", wit, "what an error says about itself is not noted")
    g_ = c.flow(r.qual)
    kept = [n for n in g_.g.live if n.kind == "substore" and mentions(g_.expand(g_.term(n.d["base"], n), 4), lambda s: s[0] == "attr" and s[2] == "metadata")]
    for n in kept:
        for b in g_.g.live:
            if b.kind == "branch":
                for lit in g_.lits(b, True):
                    if lit[0] == "isinstance" and lit[2] and any(g_.path([(b, True)], [n], stop_node=lambda m: m.kind == "iter") for _ in (1,)) and g_.path([(b, False)], [n], stop_node=lambda m: m.kind == "iter") is None:
                        have = {y.strip().rsplit(".", 1)[-1] for x in lit[2] for y in str(x).split("|")}
                        c.ob("T8c-details-kept", "types", None if {"float", "int", "str"} <= have else f"only {sorted(have)}", "details of a failure that can be stored are dropped", b)
    c.ob("T9-all-annotated", "loop", None if loops else True, "not all given outputs are annotated", func=w)
    for h in loops:
        ins = {n.id for n in f.g.live if n.id in f.loop_body(h) and (n.kind == "substore" or (n.kind == "call" and n.name in (
            "set_dict", "__setitem__", "update")))}
        wit = f.path([(h, "elem")], lambda m: m is h, stop_node=lambda m: m.id in ins, stop_edge=lambda n, lab: any(
            lit[0] == "isnone" and lit[2] is True and lit[1] == ("elem", h.id) for lit in f.lits(n, lab)))
        c.ob("T9-all-annotated", "item", wit, "an output is not annotated with the failure", h)
        ex = f.path([(h, "elem")], [f.g.exit], stop_node=lambda m: m is h)
        c.ob("T9-all-annotated", "break", ex, "the remaining outputs are not annotated with the failure", h)


def _concise(c, vals):
    f = c.flow("_status.QuantumSuccessCaveats.concise")
    leg = c.prog.func("_status.QuantumSuccessCaveats.legend")
    keys = set()
    for x in ast.walk(leg.node):
        if isinstance(x, ast.Dict):
            keys |= {k.value for k in x.keys if isinstance(k, ast.Constant)}
    letters = {}
    for n in f.g.live:
        if n.kind == "def":
            for _, v in n.defs:
                if v[0] == "const" and v[1] == "str" and len(v[2]) == 1:
                    letters.setdefault(v[2], []).append(n)
        if n.kind in ("call",) and n.name == "append":
            for a in n.args:
                if a[0] == "const" and a[1] == "str" and len(a[2]) == 1:
                    letters.setdefault(a[2], []).append(n)
    if len(letters) < 3:
        return  # written as a table: not decided
    c.ob("T4-legend-complete", "concise", None if set(letters) <= keys else f"{sorted(set(letters) - keys)}",
         "a code in summaries is not explained by the legend", func=leg)
    table = {"*": "ALL_OUTPUTS_MISSING", "+": "ANY_OUTPUTS_MISSING", "A": "ADJUST_QUANTUM_RAISED", "D": "UNPROCESSABLE_DATA",
             "U": "UPSTREAM_FAILURE_NO_WORK", "P": "PARTIAL_OUTPUTS_ERROR", "N": "NO_WORK"}

    def flag(lit, nm, pol):
        return lit[0] == "truth" and lit[2] is pol and mentions(f.expand(lit[1]), lambda s: s[0] in ("glob", "attr") and str(
            s[1] if s[0] == "glob" else s[2]).rsplit(".", 1)[-1] == nm)

    def inlit(lit, nm, pol):
        return lit[0] == "in" and lit[3] is pol and mentions(f.expand(lit[1]), lambda s: s[0] in ("glob", "attr") and str(
            s[1] if s[0] == "glob" else s[2]).rsplit(".", 1)[-1] == nm)

    for ch, nm in table.items():
        ns = letters.get(ch)
        if not ns:
            c.fail("T4b-code-per-caveat", nm, "a caveat has no code in summaries", func=f.g.root)
            continue
        w = f.path([f.g.entry], ns, stop_edge=lambda n, lab: any(flag(x, nm, True) or inlit(x, nm, True) for x in f.lits(n, lab)))
        c.ob("T4b-code-per-caveat", nm, w, "a summary code is shown for quanta without that caveat", ns[0])
    # more specific codes win over the ones they imply
    for ch, over in (("+", ["ALL_OUTPUTS_MISSING"]), ("N", ["ADJUST_QUANTUM_RAISED", "UNPROCESSABLE_DATA", "UPSTREAM_FAILURE_NO_WORK"])):
        for nm in over:
            strong = [k for k, v in table.items() if v == nm][0]
            last = {n.id for n in letters.get(strong, [])}
            w = f.path([f.g.entry], letters.get(ch, []), stop_edge=lambda n, lab: any(
                flag(x, nm, False) or inlit(x, nm, False) for x in f.lits(n, lab)))
            # overwriting later by the stronger code is fine
            if w is not None:
                w = f.path(letters.get(ch, []), [f.g.exit], stop_node=lambda n: n.id in last)
            c.ob("T4c-specific-code-wins", f"{ch}:{nm}", w, "a summary shows a general code although a more specific one applies")


def complete(c: Check):
    """Completeness of summary codes and of failure details."""
    S = c.prog.cls("_status.QuantumSuccessCaveats")
    fl = flow_of(c, S, "legend")
    keys = {t[2] for n in ast.walk(S.methods["legend"].node) if isinstance(n, ast.Dict) for k in n.keys if isinstance(k, ast.Constant)
            for t in [("const", "str", k.value)]}
    used = {x.value for x in ast.walk(S.methods["concise"].node) if isinstance(x, ast.Constant) and isinstance(x.value, str) and len(x.value) == 1}
    if keys and used:
        for k in sorted(keys):
            c.ob("S20-legend-codes-used", k, None if k in used else True, "a code in the legend is never reported", func=S.methods["concise"])
    C = c.prog.cls("_status.AnnotatedPartialOutputsError")
    fl = flow_of(c, C, "annotate")
    g = fl.g
    for h in iters(fl):
        if not mentions(fl.expand(fl.term(h.iterable, h)), lambda s: s == ("param", "args")):
            continue
        full(c, "S21-every-output-annotated", f"{h.line}", fl, h, "some outputs are not annotated with the failure")
        use = {n.id for n in g.live if n.id in fl.loop_body(h) and n.kind in ("call", "substore", "branch") and any(
            mentions(fl.term(e, n), lambda s: s[0] == "attr" and s[2] == "metadata" and mentions(s[1], lambda t: t == ("elem", h.id)))
            for e in [n.d.get("recv"), n.d.get("base")] + list(n.d.get("args") or ()) if isinstance(e, tuple))}
        notnone = lit_edges(fl, lambda lit, n: (lit[0] == "isnone" and lit[2] is False or lit[0] == "truth" and lit[2] is True)
                            and lit[1] == ("elem", h.id))
        w = fl.path([(h, "elem")], lambda n: n.id in use, stop_edge=lambda n, lab: (n.id, lab) in notnone)
        c.ob("S21b-absent-output-ignored", f"{h.line}", w, "an output that does not exist makes the annotation itself fail", h)
    E = c.prog.cls("_status.ExceptionInfo")
    if "_from_metadata" in E.methods:
        fl = flow_of(c, E, "_from_metadata")
        for h in iters(fl):
            full(c, "S22-failure-details-complete", f"{h.line}", fl, h, "some details of the failure are lost")
            keep = [n for n in fl.g.live if n.id in fl.loop_body(h) and n.kind in ("substore", "compelt")]
            w = fl.path([(h, "elem")], lambda n: n is h, stop_node=lambda n: n in keep, stop_edge=lambda n, lab: any(
                lit[0] == "isinstance" and lit[3] is False for lit in fl.lits(n, lab)))
            c.ob("S22-failure-details-complete", f"kept:{h.line}", w, "some details of the failure are lost", h)
            if keep:
                for n in keep:
                    w = fl.path([(h, "elem")], [n], stop_node=lambda m: m is h, stop_edge=lambda m, lab: any(
                        lit[0] == "isinstance" and lit[3] is True for lit in fl.lits(m, lab)))
                    c.ob("S22b-failure-details-serialisable", f"{n.line}", w, "failure details that cannot be serialised are kept, so the report cannot be written", n)
