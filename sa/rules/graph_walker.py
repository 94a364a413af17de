"""W: the dependency-order contract of GraphWalker."""

from __future__ import annotations

from ..flow import subterms
from ..lib import Check

CLS = "graph_walker.GraphWalker"


def roles(c: Check):
    """Attribute names playing the 'ready' and 'incomplete' roles."""
    fl = c.flow(f"{CLS}.__next__")
    inc = set()
    raises = [n for n in fl.g.live if n.kind == "raise" and n.exc == "builtins.StopIteration"]
    if not raises:
        c.fail("W4b-stops-when-complete", "__next__", "iteration never ends", func=fl.g.root)
    for n in fl.g.live:
        if n.kind == "branch":
            for lit in fl.lits(n, True) + fl.lits(n, False):
                for s in subterms(fl.expand(lit)):
                    if s[0] == "attr" and s[1] == ("param", "self"):
                        inc.add(s[2])
    ready = set()
    for n in fl.g.live:
        if n.kind == "return" and n.frame.id == 0:
            def p(t, m):
                if t[0] == "attr" and fl.term(t, m)[1:2] == (("param", "self"),):
                    ready.add(t[2])
                return False

            fl.derives(n.value, n, p)
    return ready, inc - ready, fl, raises


def run(c: Check):
    ready, inc, fl, raises = roles(c)
    c.require(len(ready) == 1, f"cannot identify walker state (ready={ready})")
    if not raises:
        return
    if not inc:
        c.fail("W4-stop-only-when-complete", "__next__", "the end of iteration does not depend on the set of incomplete nodes",
               raises[0])
        return
    R = next(iter(ready))
    # -- __next__ ----------------------------------------------------------
    # W4: iteration stops only when nothing is incomplete
    def empty(lit):
        return (lit[0] == "truth" and lit[2] is False and lit[1][0] == "attr" and lit[1][2] in inc) or (
            lit[0] == "eq" and lit[3] is True and any(x[0] == "attr" and x[2] in inc for x in subterms(lit)))

    for r in raises:
        w = fl.guarded([r], empty)
        c.ob("W4-stop-only-when-complete", "__next__", w, "iteration can stop while nodes are still incomplete", r)
    # and it does stop when nothing is incomplete
    w = fl.path([fl.g.entry], [fl.g.exit], stop_edge=lambda n, lab: any(
        lit[0] == "truth" and lit[2] is True and lit[1][0] == "attr" and lit[1][2] in inc for lit in fl.lits(n, lab))
        or any(lit[0] == "eq" and lit[3] is False for lit in fl.lits(n, lab)))
    c.ob("W4b-stops-when-complete", "__next__", w, "iteration continues although every node is complete")
    # W3: yielded nodes leave the ready set
    rets = [n for n in fl.g.live if n.kind == "return" and n.frame.id == 0]
    clears = [n for n in fl.g.live if (n.kind == "call" and n.name in ("clear", "difference_update") and n.recv is not None
                                       and fl.term(n.recv, n) == ("attr", ("param", "self"), R))
              or (n.kind == "attrstore" and n.name == R)
              or (n.kind == "call" and n.name in ("pop", "popleft") and n.recv is not None
                  and fl.term(n.recv, n) == ("attr", ("param", "self"), R))]
    w = fl.must_precede(clears, rets)
    c.ob("W3-yield-once", "__next__", w, "nodes are handed out without being removed from the ready set", rets[0])
    for n in rets:
        t = fl.term(n.value, n)
        stores = [m for m in clears if m.kind == "attrstore"]
        if t == ("attr", ("param", "self"), R) and not stores:
            c.fail("W3b-yield-copy", "__next__", "the live ready set itself is handed out", n)
        else:
            c.ok("W3b-yield-copy", "__next__")
    for m in clears:
        # the value handed out must be taken before the set is emptied
        if m.kind == "call" and m.name == "clear":
            reads = [n for n in fl.g.live if n.kind == "call" and n is not m and any(
                fl.term(a, n) == ("attr", ("param", "self"), R) for a in n.args)]
            w = fl.must_precede(reads, [m])
            c.ob("W3c-copy-before-clear", "__next__", w, "the ready set is emptied before it is copied", m)
    # -- every insertion into ready, anywhere in the class -------------------
    cls = c.prog.cls(CLS)
    nins = 0
    for name, f in sorted(cls.methods.items()):
        if name == "__init__":
            continue
        if _private_helper(c, cls, f):
            continue
        g = c.flow(f.qual)
        adds = [n for n in g.g.live if (n.kind == "call" and n.name in ("add", "update", "append", "extend", "appendleft",
                                                                        "__ior__")
                and n.recv is not None and g.term(n.recv, n) == ("attr", ("param", "self"), R))
                or (n.kind == "attrstore" and n.name == R and n.aug in ("BitOr", "Add"))]
        for a in adds:
            nins += 1
            pts = g.insert_points(a)
            res = g.forall_guard(pts, lambda h: _over_preds(g, h), lambda lit, h: _pred_done(g, lit, inc))
            if res is not None and _set_form(g, pts, inc):
                res = None
            for h in [h for h in g.g.live if h.kind == "iter" and _over_preds(g, h)]:
                of = [x[4][0] for x in subterms(g.expand(g.term(h.iterable, h), 8)) if x[0] == "call" and x[2] in ("predecessors", "in_edges") and x[4]]
                mine = [g.expand(g.term(x, a), 8) for x in a.args] if a.kind == "call" and a.name in ("add", "append") else []
                if of and mine and h.id not in {x.id for x in _outer(g, a)}:
                    c.ob("W1c-own-predecessors", f.name, None if all(x in mine for x in of) else True,
                         "a node becomes ready because of another node's predecessors", a)
            c.ob("W1-ready-needs-all-predecessors", f.qual.rsplit(".", 1)[-1], res and res[0],
                 "a node becomes ready although a predecessor may not be finished" + (f" ({res[1]})" if res else ""), a)
        if adds:
            rem = [n for n in g.g.live if n.kind == "call" and n.name in ("remove", "discard", "difference_update")
                   and n.recv is not None and _is_inc(g.term(n.recv, n), inc)]
            w = g.must_precede(rem, adds)
            c.ob("W2-finish-removes-first", f.name, w,
                 "readiness of successors is decided before the finished node is taken out of the incomplete set", adds[0])
    c.ob("W1-instances", "ready insertions", True if nins == 0 else None,
         "finishing a node never makes any successor ready", func=cls.methods.get("finish"))
    # every successor is examined
    g = c.flow(f"{CLS}.finish")
    succ = [h for h in g.g.live if h.kind == "iter" and any(
        x[0] == "call" and x[2] in ("successors", "neighbors", "out_edges") for x in subterms(g.expand(g.term(h.iterable, h))))
        and not any(x[0] == "call" and x[2] in ("predecessors", "in_edges") for x in subterms(g.expand(g.term(h.iterable, h))))]
    c.require(succ, "GraphWalker.finish no longer iterates over successors")
    ids = {h.id for h in succ if not g.partial(h)}
    w = g.path([g.g.entry], [g.g.exit], stop_edge=lambda n, lab: n.id in ids and lab == "done")
    c.ob("W7-all-successors-examined", "finish", w, "finish can return without looking at every successor")
    # a successor whose predecessors are all finished is added
    adds = [n for n in g.g.live if n.kind == "call" and n.recv is not None and n.name in ("add", "update", "append")
            and g.term(n.recv, n) == ("attr", ("param", "self"), R)]
    for h in succ:
        bad = lambda n, lab: any(_pred_done(g, x, inc) is False or _ready_lit(g, x, inc) is False  # noqa: E731
                                 for x in g.lits(n, lab))
        aid = {p.id for a in adds for p in g.insert_points(a)}
        w = g.path([(h, "elem")], lambda n: n is h, stop_node=lambda n: n.id in aid, stop_edge=bad)
        c.ob("W7b-ready-when-all-done", "finish", w,
             "a successor whose predecessors are all finished may be left out of the ready set", h)
    # -- fail -------------------------------------------------------------------
    g = c.flow(f"{CLS}.fail")
    isdesc = lambda t, n: t[0] == "tmp" and g.g.nodes[t[1]].kind == "call" and g.g.nodes[t[1]].name in (  # noqa: E731
        "descendants", "bfs_tree", "dfs_preorder_nodes", "dfs_tree")
    rets = [n for n in g.g.live if n.kind == "return" and n.frame.id == 0]
    c.require(rets, "GraphWalker.fail no longer returns")
    for n in rets:
        ok = g.derives(n.value, n, isdesc)
        c.ob("W5-fail-returns-descendants", "fail", None if ok else True,
             "the value returned for a failed node is not the set of its downstream nodes", n)
    rem = [n for n in g.g.live if n.kind == "call" and n.name in ("difference_update", "remove", "discard", "__isub__")
           and n.recv is not None and _is_inc(g.term(n.recv, n), inc)]
    remd = [n for n in rem if any(g.derives(a, n, isdesc) for a in n.args)]
    st = [n for n in g.g.live if n.kind == "attrstore" and n.name in inc and g.derives(n.value, n, isdesc)]
    # elements removed one by one in a loop over the descendants
    loops = [h for h in g.g.live if h.kind == "iter" and g.derives(h.iterable, h, isdesc)]
    ok_nodes = [n for n in remd if not any(n.id in g.loop_body(h) for h in loops)] + st
    lids = {h.id for h in loops if any(n.id in g.loop_body(h) for n in remd)}
    oid = {n.id for n in ok_nodes}
    w = g.path([g.g.entry], [g.g.exit], stop_edge=lambda n, lab: (n.id in lids and lab == "done") or (n.id in oid and lab != "exc"))
    c.ob("W5b-descendants-leave-incomplete", "fail", w,
         "downstream nodes of a failed node stay in the incomplete set, so iteration would never end")
    for h in loops:
        if h.id in lids:
            rid = {n.id for n in remd}
            w = g.path([(h, "elem")], lambda n: n is h, stop_edge=lambda n, lab: n.id in rid and lab != "exc")
            c.ob("W5c-each-descendant", "fail", w, "some downstream node is not removed from the incomplete set", h)
    # what failed can never become ready again: it leaves the graph, unless only incomplete nodes become ready
    fin = c.flow(f"{CLS}.finish")
    fadds = [n for n in fin.g.live if n.kind == "call" and n.recv is not None and n.name in ("add", "update", "append")
             and fin.term(n.recv, n) == ("attr", ("param", "self"), R)]
    pts = [p for a in fadds for p in fin.insert_points(a)]
    only_inc = bool(pts) and fin.guarded(pts, lambda lit: lit[0] == "in" and lit[3] is True and _is_inc(lit[2], inc)) is None
    if not only_inc:
        gone = [n for n in g.g.live if n.kind == "call" and n.name in ("remove_node", "remove_nodes_from") and n.recv is not None]
        gd = [n for n in gone if any(g.derives(a, n, isdesc) for a in n.args)]
        gl = {h.id for h in loops if any(n.id in g.loop_body(h) for n in gd)}
        gi = {n.id for n in gd if not any(n.id in g.loop_body(h) for h in loops)}
        w = g.path([g.g.entry], [g.g.exit], stop_edge=lambda n, lab: n.id in gl and lab == "done" or n.id in gi and lab != "exc")
        c.ob("W9-blocked-for-good", "descendants", w, "a node downstream of a failure can become ready later on")
        own = {n.id for n in gone if any(_first_param(g, a, n) or g.derives(a, n, lambda t, m: t[0] == "param" and t[1] != "self", False) for a in n.args)}
        w = g.path([g.g.entry], [g.g.exit], stop_node=lambda n: n.id in own)
        c.ob("W9-blocked-for-good", "node", w, "a failed node can become ready later on")
    for meth in ("finish", "fail"):
        g = c.flow(f"{CLS}.{meth}")
        out = [n for n in g.g.live if n.kind == "call" and n.name in ("remove", "discard", "difference_update")
               and n.recv is not None and g.term(n.recv, n) == ("attr", ("param", "self"), R)
               and any(_first_param(g, a, n) for a in n.args)] + [n for n in g.g.live if n.kind == "attrstore" and n.name == R]
        notin = lambda n, lab: any(x[0] == "in" and x[3] is False and x[2] == ("attr", ("param", "self"), R) for x in g.lits(n, lab))  # noqa: E731
        oi = {n.id for n in out}
        w = g.path([g.g.entry], [g.g.exit], stop_node=lambda n: n.id in oi, stop_edge=notin)
        c.ob("W10-done-not-ready", meth, w, "a node that is done can still be handed out")
        own = [n for n in g.g.live if n.kind == "call" and n.name in ("remove", "discard", "difference_update")
               and n.recv is not None and _is_inc(g.term(n.recv, n), inc)
               and any(("param", "key") in subterms(g.term(a, n)) or _first_param(g, a, n) for a in n.args)]
        w = g.must_precede(own, [g.g.exit])
        c.ob("W6-node-leaves-incomplete", meth, w, "the node itself can remain in the incomplete set")
    # -- construction -------------------------------------------------------------
    g = c.flow(f"{CLS}.__init__")
    for n in [n for n in g.g.live if n.kind == "attrstore" and n.name == R]:
        w = g.derives(n.value, n, lambda t, m: t[0] in ("tmp", "comp", "call", "elem"))
        roots = g.derives(n.value, n, lambda t, m: t[0] == "tmp" and g.g.nodes[t[1]].kind == "call" and g.g.nodes[t[1]].name in (
            "topological_generations", "in_degree", "predecessors", "pred", "in_edges")) or any(m.kind == "call" and m.name in (
                "in_degree", "predecessors", "in_edges", "pred") for m in g.g.live)
        c.ob("W8b-roots-ready", "__init__", None if roots or not w else True, "nodes with predecessors are handed out at the start", n)
    for nm in [R, *sorted(inc)]:
        c.ob("W8-all-nodes-incomplete", nm, g.path([g.g.entry], [g.g.exit], stop_node=lambda n: n.kind == "attrstore" and n.name == nm),
             "the walk does not start with every node")
    for nm in sorted(inc):
        stores = [n for n in g.g.live if n.kind == "attrstore" and n.name == nm]
        for n in stores:
            ok = g.derives(n.value, n, lambda t, m: t[0] == "param" and t[1] != "self" or
                           (t[0] == "attr" and t[2] not in (R, nm) and t[1][-1] == "self"))
            c.ob("W8-all-nodes-incomplete", "__init__", None if ok else True,
                 "the incomplete set does not start as all graph nodes", n)


def _first_param(g, a, n):
    t = g.term(a, n)
    ps = g.g.root.params()[0]
    return any(s == ("param", ps[1]) for s in subterms(t)) if len(ps) > 1 else False


def _outer(g, a):
    return [h for h in g.enclosing_loops(a) if not _over_preds(g, h)]


def _is_inc(t, inc):
    return t[0] == "attr" and t[1] == ("param", "self") and t[2] in inc


def _over_preds(g, h):
    return any(x[0] == "call" and x[2] in ("predecessors", "in_edges", "pred") or (x[0] == "attr" and x[2] in ("pred", "_pred"))
               for x in subterms(g.expand(g.term(h.iterable, h))))


def _pred_done(g, lit, inc):
    """True: the tested node is not incomplete; False: it is; None: unrelated."""
    if lit[0] == "in" and _is_inc(lit[2], inc):
        return not lit[3]
    return None


def _ready_lit(g, lit, inc):
    """`not (set(preds) & incomplete)` / isdisjoint style tests: True = no predecessor incomplete."""
    if lit[0] != "truth":
        return None
    e = g.expand(lit[1])
    has_inc = any(_is_inc(s, inc) for s in subterms(e) if len(s) > 2)
    has_pred = any(s[0] == "call" and s[2] in ("predecessors", "in_edges") for s in subterms(e))
    if not (has_inc and has_pred):
        return None
    names = {s[2] for s in subterms(e) if s[0] == "call"}
    if "isdisjoint" in names:
        return lit[2]
    return not lit[2]


def _set_form(g, pts, inc):
    return g.guarded(pts, lambda lit: _ready_lit(g, lit, inc) is True) is None


def _private_helper(c, cls, f):
    """Private methods are analysed inlined into their callers."""
    if not f.name.startswith("_") or f.name.startswith("__"):
        return False
    return True
