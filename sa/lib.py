"""Checker context: graph cache, obligations, violations, evidence."""

from __future__ import annotations

import hashlib
import json
import os
import time

from .flow import Flow
from .ir import Graph
from .program import AnalysisError, Program

__all__ = ["AnalysisError", "Check", "Program"]


class Check:
    def __init__(self, prog: Program, pid: str, tier="quick"):
        self.prog = prog
        self.pid = pid
        self.tier = tier
        self.obligations = []  # (rule, instance, ok)
        self.violations = []
        self.flows = {}
        self.sites = 0
        self.functions = set()
        self.extra_nodes = 0

    # graphs -------------------------------------------------------------
    def flow(self, qual, self_cls=None, **kw) -> Flow:
        key = (qual, self_cls, repr(sorted(kw.items(), key=lambda x: x[0])))
        fl = self.flows.get(key)
        if fl is None:
            f = self.prog.func(qual)
            sc = None
            if self_cls is not None:
                sc = self.prog.cls(self_cls).qual
            g = Graph(self.prog, f, self_cls=sc, **kw)
            fl = self.flows[key] = Flow(g)
            self.functions.add(f.qual)
            self.functions |= g.inlined
        return fl

    # results --------------------------------------------------------------
    def ob(self, rule, instance, witness, message, node=None, func=None):
        """Record an obligation; ``witness`` None means discharged."""
        self.sites += 1
        if witness is None or witness is False:
            self.obligations.append((rule, instance, True))
            return True
        self.obligations.append((rule, instance, False))
        lines = witness.lines() if hasattr(witness, "lines") else ([] if witness is True else [str(witness)])
        where = None
        if node is not None:
            where = f"{node.frame.func.file}:{node.line} in {node.frame.func.qual}"
        elif func is not None:
            where = f"{func.loc()} in {func.qual}"
        self.violations.append({"rule": rule, "instance": instance, "message": message, "where": where, "path": lines})
        return False

    def require(self, cond, msg):
        if not cond:
            raise AnalysisError(msg)

    def fail(self, rule, instance, message, node=None, func=None):
        return self.ob(rule, instance, True, message, node, func)

    def ok(self, rule, instance):
        return self.ob(rule, instance, None, "")

    def stats(self):
        d = {"path_queries": 0, "refinements": 0, "inconclusive": 0}
        nodes = edges = 0
        for fl in self.flows.values():
            for k in d:
                d[k] += fl.stats[k]
            nodes += len(fl.g.live)
            edges += sum(len(n.succ) for n in fl.g.live)
        d.update(entry_graphs=len(self.flows), icfg_nodes=nodes, icfg_edges=edges, functions=len(self.functions))
        return d


# ---- term helpers shared by the rules ---------------------------------------
def attr_tail(t):
    """Attribute names of a chain ending at its root: a.b.c -> ('b','c')."""
    out = []
    while t and t[0] == "attr":
        out.append(t[2])
        t = t[1]
    return tuple(reversed(out)), t


def is_self_attr(t, name=None):
    return t[0] == "attr" and t[1][0] in ("param", "var") and t[1][-1] == "self" and (name is None or t[2] == name)


def mentions(t, pred):
    from .flow import subterms

    return any(pred(x) for x in subterms(t))


def calls(fl, *names, callee=None, recv=None):
    """Call nodes by method/function name (and optional receiver-term predicate)."""
    out = []
    for n in fl.g.calls():
        if names and n.name not in names:
            continue
        if callee is not None and n.callee != callee:
            continue
        if recv is not None and (n.recv is None or not recv(fl.term(n.recv, n))):
            continue
        out.append(n)
    return out


def stores(fl, name, value=None):
    """Attribute stores ``x.<name> = value``."""
    return [n for n in fl.g.live if n.kind == "attrstore" and n.name == name
            and (value is None or value(fl.term(n.value, n)))]


def const(v):
    return ("const", type(v).__name__, v)


def from_call(fl, e, n, *names, through_args=True):
    """Whether the value of e at n may derive from the result of a call with one of the names."""
    return fl.derives(e, n, lambda t, m: t[0] == "tmp" and fl.g.nodes[t[1]].kind == "call"
                      and fl.g.nodes[t[1]].name in names, through_args=through_args)


def edges(fl, litp):
    """All (branch, label) edges implying a literal accepted by litp."""
    return [(n, lab) for n in fl.g.live if n.kind == "branch" for lab in (True, False)
            if any(litp(x) for x in fl.lits(n, lab))]


def exc_edges(nodes):
    return [(n, "exc") for n in nodes if any(lab == "exc" for _, lab in n.succ)]


def excis(fl, suffix, pol=True):
    """Edges on which the exception in flight is (not) of a class whose name ends with suffix."""
    return [(n, pol) for n in fl.g.live if n.kind == "branch" and n.atom[0] == "excis" and n.atom[1]
            and any(t.rsplit(".", 1)[-1] == suffix for t in n.atom[1])]


def self_flag(name):
    return ("attr", ("param", "self"), name)


def unbound(c, fl, rule, what, frames=None):
    """No local variable of the analysed functions is read on a path on which it was never assigned."""
    g = fl.g
    byvar = {}
    for n in g.live:
        for e in _used(n):
            for s in _vars(e):
                byvar.setdefault(s, []).append(n)
    bad = 0
    for v, uses in sorted(byvar.items(), key=lambda x: str(x[0])):
        if v[2].startswith("$") or v not in fl.vdefs:
            continue
        dn = {fl.defs[i][2].id for i in fl.vdefs[v]}
        for n in uses:
            if n.id in dn and not any(1 for _ in ()):
                pass
        targets = [n for n in uses if n.frame.id == v[1]]
        if frames is not None:
            targets = [n for n in targets if frames(n)]
        if not targets:
            continue
        entry = [g.entry]
        # a frame's variables exist from its enter node on
        w = fl.path(entry, targets, stop_node=lambda n: n.id in dn)
        if w is not None:
            end = w.steps[-1][0]
            bad += 1
            c.ob(rule, f"{what}:{v[2]}", w, f"local variable {v[2]!r} may be read before it is assigned", end)
    if not bad:
        c.ok(rule, what)


def _used(n):
    d = n.d
    for k in ("value", "base", "key", "iterable", "recv", "cm"):
        x = d.get(k)
        if isinstance(x, tuple):
            yield x
    for k in ("args",):
        for x in d.get(k) or ():
            yield x
    for x in (d.get("kwargs") or {}).values():
        yield x
    if n.kind == "branch":
        for x in n.atom[1:]:
            if isinstance(x, tuple):
                yield x
    if n.kind == "def":
        for _, x in n.defs:
            yield x


def _vars(e):
    if isinstance(e, tuple):
        if e and e[0] == "comp":
            return
        if len(e) == 3 and e[0] == "var" and isinstance(e[1], int):
            yield e
            return
        for x in e:
            if isinstance(x, tuple):
                yield from _vars(x)
