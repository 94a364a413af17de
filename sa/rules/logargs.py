"""Every logging call's message matches its arguments."""

from __future__ import annotations

import ast
import re

from ..lib import Check

METHODS = {"debug": 0, "info": 0, "warning": 0, "warn": 0, "error": 0, "critical": 0, "fatal": 0, "exception": 0,
           "verbose": 0, "trace": 0, "log": 1}
SPEC = re.compile(r"%(?:\((?P<key>[^)]*)\))?[#0\- +]*(?P<w>\*|\d+)?(?:\.(?P<p>\*|\d+))?[hlL]?(?P<t>[diouxXeEfFgGcrsa%])")


def _text(e, consts):
    """Literal value of a message expression (concatenation of constants), or None."""
    if isinstance(e, ast.Constant):
        return e.value if isinstance(e.value, str) else None
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
        a, b = _text(e.left, consts), _text(e.right, consts)
        return None if a is None or b is None else a + b
    if isinstance(e, ast.Name) and e.id in consts:
        return consts[e.id]
    return None


def placeholders(s):
    """Number of positional arguments wanted; None for mapping style; 'bad' if malformed."""
    n, i, named = 0, 0, False
    while True:
        j = s.find("%", i)
        if j < 0:
            break
        m = SPEC.match(s, j)
        if not m:
            return "bad"
        if m["t"] != "%":
            if m["key"] is not None:
                named = True
            else:
                n += 1 + (m["w"] == "*") + (m["p"] == "*")
        i = m.end()
    return None if named else n


def is_logger(e):
    """Receivers that are loggers by the repository's naming: _LOG, log, logger, self.log, ..."""
    name = e.attr if isinstance(e, ast.Attribute) else e.id if isinstance(e, ast.Name) else None
    if name is None:
        if isinstance(e, ast.Call):
            f = e.func
            return (f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "")) in ("getLogger", "getChild")
        return False
    return name.lower().strip("_") in ("log", "logger", "logging", "periodic", "lg") or name.lower().endswith(("_log", "_logger"))


def run(c: Check):
    n = 0
    for mod in c.prog.modules.values():
        tree = mod.tree
        consts = {}
        for st in tree.body:
            if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) and isinstance(
                    st.value, ast.Constant) and isinstance(st.value.value, str):
                consts[st.targets[0].id] = st.value.value
        for x in ast.walk(tree):
            if not (isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in METHODS and is_logger(x.func.value)):
                continue
            k = METHODS[x.func.attr]
            rec = x.func.value
            # PeriodicLogger.log and the aggregator's protocol log take the message first
            args = x.args
            if any(isinstance(a, ast.Starred) for a in args):
                continue
            if k and args and _text(args[0], consts) is not None:
                k = 0  # e.g. PeriodicLogger.log(msg, *args)
            if len(args) <= k:
                continue
            msg = _text(args[k], consts)
            n += 1
            rest = args[k + 1:]
            inst = f"{mod.name}:{ast.unparse(rec)}.{x.func.attr}({(msg or '<dynamic>')[:50]!r})"
            if msg is None:
                # dynamic message: only safe without arguments
                continue
            want = placeholders(msg)
            if want is None:
                ok = len(rest) == 1
            elif want == "bad":
                ok = not rest
            else:
                ok = len(rest) == want or (not rest)
                # without arguments the message is not formatted: placeholders would be printed literally
                if not rest and want:
                    ok = False
            c.ob("G1-log-arguments", inst, None if ok else f"{mod.relpath}:{x.lineno}: {len(rest)} arguments for {want} placeholders",
                 "a log call's arguments do not match its message, so logging it raises instead of recording the message")
    c.require(n > 100, "fewer logging calls found than expected")
