"""Butler wrappers: caching, blocking; delegation completeness."""

from __future__ import annotations

import ast

from ..flow import subterms
from ..lib import Check, calls, const, edges, excis, is_self_attr, mentions, self_flag
from ..q import as_edges, ctor, flow_of, frm, full, iters, lit_edges

WR = "_wrapped"


def _wrapped(fl, name):
    return [n for n in calls(fl, name) if n.recv is not None and is_self_attr(fl.term(n.recv, n), WR)]


def _id_eq(fl, pol=True):
    """Edges on which a cached dataset ID equals the ID of the requested reference."""
    def p(lit):
        if lit[0] != "eq" or lit[3] is not pol:
            return False
        sides = [fl.expand(lit[1]), fl.expand(lit[2])]
        return any(mentions(a, lambda s: s == self_flag("_cache")) and b[0] == "attr" and b[2] == "id" for a, b in (sides, sides[::-1]))
    return edges(fl, p)


def _cache_stores(fl):
    return [n for n in fl.g.live if n.kind == "substore" and fl.term(n.base, n) == self_flag("_cache")]


def _from_wrapped(fl, e, n, name):
    w = {m.id for m in _wrapped(fl, name)}
    return fl.derives(e, n, lambda t, m: t[0] == "tmp" and t[1] in w)


def delegation(c: Check, clsname, special=()):
    """Every method of the wrapper hands its arguments to the same method of the wrapped butler and returns its result."""
    cls = c.prog.cls(clsname)
    for name, f in sorted(cls.methods.items()):
        if name.startswith("__") or (name.startswith("_") and name not in ("_metrics", "_datastore")) or f.node.decorator_list:
            continue
        fl = c.flow(f.qual, inline=lambda f: f.module is cls.module)
        w = _wrapped(fl, name)
        c.ob("B0-delegates", f"{cls.name}.{name}", None if w else True, "an operation is not forwarded to the wrapped butler", func=f)
        params = [p for p in _params(f.node) if p != "self"]
        for n in w:
            if name == "stored_many":
                continue
            missing = []
            vals = [(None, a) for a in n.args] + list(n.kwargs.items())
            for i, p in enumerate(params):
                ok = False
                for j, (k, v) in enumerate(vals):
                    if (k == p or (k is None and j == i)) and fl.derives(v, n, lambda t, m: t == ("param", p)):
                        ok = True
                if not ok:
                    missing.append(p)
            c.ob("B1-arguments-forwarded", f"{cls.name}.{name}", None if not missing else f"not forwarded: {missing}",
                 "an argument is not forwarded to the wrapped butler", n)
        if name in special or not w or f.node.returns is None or ast.unparse(f.node.returns) == "None":
            continue
        bad = [r for r in fl.g.live if r.kind == "return" and r.frame.id == 0 and not _from_wrapped(fl, r.value, r, name)]
        c.ob("B2-result-returned", f"{cls.name}.{name}", True if bad else None, "the wrapped butler's result is not returned",
             bad[0] if bad else None)


def _params(node):
    a = node.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]


def caching(c: Check):
    delegation(c, "caching_limited_butler.CachingLimitedButler", special=("get", "stored_many"))
    cls = c.prog.cls("caching_limited_butler.CachingLimitedButler")
    inl = lambda f: f.module is cls.module  # noqa: E731
    # get
    fl = c.flow(cls.methods["get"].qual, inline=inl)
    g = fl.g
    wg = _wrapped(fl, "get")
    wid = {n.id for n in wg}
    ideq = {(n.id, lab) for n, lab in _id_eq(fl)}
    w = fl.path([g.entry], [g.exit], stop_node=lambda n: n.id in wid, stop_edge=lambda n, lab: (n.id, lab) in ideq)
    c.ob("K1-hit-needs-same-id", "get", w, "a cached dataset is returned for a reference with a different ID")
    st = _cache_stores(fl)
    c.ob("K2-instances", "get", None if st else True, "nothing is ever cached on get", func=cls.methods["get"])
    w = fl.path([g.entry], st, stop_edge=lambda n, lab: n.id in wid and lab != "exc")
    c.ob("K2-cache-after-read", "get", w, "a dataset is cached although reading it failed")
    w = fl.path([g.entry], st, stop_edge=lambda n, lab: any(
        lit[0] == "in" and lit[3] is True and lit[2] == self_flag("_cache_on_get") for lit in fl.lits(n, lab)))
    c.ob("K3-cache-only-requested", "get", w, "a dataset type that was not requested to be cached is cached")
    w = fl.path([g.entry], st, stop_edge=lambda n, lab: any(
        (lit[0] == "truth" and lit[2] is False or lit[0] == "isnone" and lit[2] is True) and lit[1] == ("param", "parameters")
        for lit in fl.lits(n, lab)))
    c.ob("K3b-cache-only-complete", "get", w, "a dataset read with parameters (partial) is cached as the whole dataset")
    for n in st:
        _entry(c, fl, n, "get", wid)
    # what is returned after caching must be a copy made by the handle, not the cached object itself
    raw = [n for n in g.live if n.kind == "return" and n.frame.id == 0 and any(
        t[0] == "tmp" and t[1] in wid for t, _ in fl.sources(n.value, n))]
    w = fl.path(fl.out_edges(st), raw)
    c.ob("K4-no-aliasing", "get", w, "the object placed in the cache is also handed to the caller, who may modify it")
    hg = [n for n in calls(fl, "get") if n.id not in wid and not is_self_attr(fl.term(n.recv, n), "_cache")]
    for n in hg:
        # hits must honour the caller's parameters and storage class
        if fl.path([(x, l2) for x, l2 in _id_eq(fl)], [n], stop_node=lambda m: m.id in wid) is None:
            continue
        for k in ("parameters", "storageClass"):
            v = n.kwargs.get(k)
            ok = v is not None and fl.derives(v, n, lambda t, m: t == ("param", k))
            c.ob("K5-hit-honours-request", k, None if ok else True, f"a cached dataset is returned without applying the requested {k}", n)
    # stored_many
    fl = c.flow(cls.methods["stored_many"].qual, inline=inl)
    g = fl.g
    ideq = {(n.id, lab) for n, lab in _id_eq(fl)}
    ws = _wrapped(fl, "stored_many")
    c.require(ws, "stored_many does not ask the wrapped butler")
    w = fl.must_precede(ws, [g.exit])
    c.ob("K6-existence-asked", "stored_many", w, "existence is reported without asking the wrapped butler")
    pos = [n for n in g.live if n.kind in ("substore",) and fl.term(n.value, n) == const(True)]
    w = fl.path([g.entry], pos, stop_edge=lambda n, lab: (n.id, lab) in ideq)
    c.ob("K6b-known-needs-same-id", "stored_many", w, "a dataset is reported to exist because one with a different ID is cached")
    loops = [h for h in fl.loops() if h.kind == "iter" and fl.derives(h.iterable, h, lambda t, m: t == ("param", "refs"))]
    for h in loops:
        ins = {m.id for m in g.live if m.id in fl.loop_body(h) and (m.kind == "substore" or (m.kind == "call" and m.name in (
            "append", "add")) or m.kind == "compelt")}
        w = fl.path([(h, "elem")], lambda m: m is h, stop_node=lambda m: m.id in ins)
        c.ob("K6c-every-ref-answered", "stored_many", w, "a reference is missing from the existence report", h)
        app = [m for m in g.live if m.id in ins and m.kind == "call"]
        names = {m.recv for m in app}
        ok = all(any(fl.derives(a, x, lambda t, k: t in names or t in {fl.term(v, x) for v in names}) for x in ws for a in x.args) for _ in [0]) if app else True
        c.ob("K6d-unknown-asked", "stored_many", None if ok else True, "references that are not cached are not looked up", h)
    # put
    fl = c.flow(cls.methods["put"].qual, inline=inl)
    g = fl.g
    wp = _wrapped(fl, "put")
    st = _cache_stores(fl)
    c.ob("K7-instances", "put", None if st and wp else True, "nothing is ever cached on put", func=cls.methods["put"])
    ids = {n.id for n in wp}
    w = fl.path([g.entry], st, stop_edge=lambda n, lab: n.id in ids and lab != "exc")
    c.ob("K7-cache-after-write", "put", w, "a dataset is cached (and reported to exist) before its write succeeded")
    w = fl.path([g.entry], st, stop_edge=lambda n, lab: any(
        lit[0] == "in" and lit[3] is True and lit[2] == self_flag("_cache_on_put") for lit in fl.lits(n, lab)))
    c.ob("K3-cache-only-requested", "put", w, "a dataset type that was not requested to be cached is cached")
    for n in st:
        _entry(c, fl, n, "put", None)
    # prune
    fl = c.flow(cls.methods["pruneDatasets"].qual, inline=inl)
    g = fl.g
    wp = _wrapped(fl, "pruneDatasets")
    w = fl.must_precede(wp, [g.exit])
    c.ob("K8-prune-forwarded", "pruneDatasets", w, "pruned datasets are not pruned from the wrapped butler")
    dele = [n for n in g.live if (n.kind == "delsub" and fl.term(n.base, n) == self_flag("_cache"))
            or (n.kind == "call" and n.name in ("pop", "clear") and n.recv is not None and fl.term(n.recv, n) == self_flag("_cache"))
            or (n.kind == "attrstore" and n.name == "_cache")]
    c.ob("K8b-prune-evicts", "pruneDatasets", None if dele else True, "pruned datasets stay in the cache", func=cls.methods["pruneDatasets"])
    did = {n.id for n in dele}
    if dele:
        # every cached entry is considered: the loop that evicts runs over the cache itself, and an entry with a pruned ID goes
        whole = any(n.kind == "attrstore" or (n.kind == "call" and n.name == "clear") for n in dele)
        over = []
        evict, keep = set(did), set()

        def collect(into):
            def p(t, m):
                if t[0] == "comp":
                    into.update(x.id for x in fl.compelts(t))
                elif t[0] == "var":
                    into.update(x.id for x in fl.inserts(t))
                return False
            return p

        for h in fl.loops():
            if h.kind == "iter" and any(d in fl.loop_body(h) for d in did):
                fl.derives(h.iterable, h, collect(evict))
                if fl.derives(h.iterable, h, lambda t, m: is_self_attr(t, "_cache")):
                    over.append(h)
        for n in dele:
            if n.kind == "attrstore":
                fl.derives(n.value, n, collect(keep))
        c.ob("K8c-prune-evicts-components", "pruneDatasets", None if over or whole else True,
             "only entries cached under the pruned dataset type's own name are evicted; a cached component of it survives", dele[0])
        hit = [(n, lab) for n in g.live if n.kind == "branch" for lab in (True, False) if any(
            (lit[0] in ("in", "eq")) and lit[3] is True and any(mentions(fl.expand(x), lambda s: s == self_flag("_cache"))
             for x in lit[1:3]) for lit in fl.lits(n, lab))]
        for n, lab in hit:
            hs = [h for h in fl.enclosing_loops(n) if h.kind == "iter"]
            goal = [min(hs, key=lambda h: len(fl.loop_body(h)))] if hs else [g.exit]
            if hs and any(k in fl.loop_body(goal[0]) for k in keep):
                w = fl.path([(n, lab)], [g.nodes[k] for k in keep], stop_node=lambda m: m is goal[0])
            else:
                w = fl.path([(n, lab)], goal, stop_node=lambda m: m.id in evict)
            c.ob("K8d-match-evicts", "pruneDatasets", w, "a pruned dataset is found in the cache but not evicted", n)
    # an iterator must not be consumed before it is forwarded
    uses = [h for h in fl.loops() if h.kind == "iter" and fl.term(h.iterable, h) == ("param", "refs")]
    fw = [n for n in wp if any(fl.term(a, n) == ("param", "refs") for a in list(n.args) + list(n.kwargs.values()))]
    w = fl.path([(h, "done") for h in uses], fw) if uses and fw else None
    c.ob("K9-iterable-not-consumed", "pruneDatasets", w, "the references are consumed before being forwarded, so nothing is pruned")


def _entry(c, fl, n, where, wid):
    """Cache entries associate a reference's name and ID with that reference's object."""
    v = fl.term(n.value, n)
    e = fl.expand(v)
    ok = e[0] == "tuple" and len(e[1]) >= 2 and e[1][0][0] == "attr" and e[1][0][2] == "id" and fl.derives(
        n.key, n, lambda t, m: t == e[1][0][1] or any(s == e[1][0][1] for s in subterms(t)))
    c.ob("K10-entry-id", where, None if ok else True, "a cache entry is not labelled with the ID of the dataset it holds", n)
    h = [m for m in fl.g.calls() if (m.callee or "").endswith("InMemoryDatasetHandle")]
    for m in h:
        if fl.path(fl.out_edges([m]), [n]) is None:
            continue
        src = (lambda t, k: t[0] == "tmp" and t[1] in wid) if wid is not None else (lambda t, k: t == ("param", "obj"))
        ok = bool(m.args) and fl.derives(m.args[0], m, src)
        c.ob("K10b-entry-object", where, None if ok else True, "the cached object is not the dataset that was read or written", m)
        cp = m.kwargs.get("copy")
        t = fl.expand(fl.term(cp, m)) if cp is not None else None
        ok = t is not None and (
            (t[0] == "cmp" and t[1] == "NotIn" and t[3] == self_flag("_no_copy_on_cache"))
            or (t[0] == "not" and t[1][0] == "cmp" and t[1][1] == "In" and t[1][3] == self_flag("_no_copy_on_cache"))
            or t == const(True))
        if not ok and cp is not None:
            ok = any(lit[0] == "in" and lit[2] == self_flag("_no_copy_on_cache") for b in fl.g.live if b.kind == "branch"
                     for lit in fl.lits(b, True))
        c.ob("K11-copies", where, None if ok else True, "cached datasets are shared with callers although copying was not switched off", m)


def blocking(c: Check):
    delegation(c, "blocking_limited_butler.BlockingLimitedButler", special=("get", "stored_many"))
    cls = c.prog.cls("blocking_limited_butler.BlockingLimitedButler")
    inl = lambda f: f.module is cls.module  # noqa: E731
    fl = c.flow(cls.methods["get"].qual, inline=inl)
    g = fl.g
    wg = _wrapped(fl, "get")
    c.require(wg, "get does not ask the wrapped butler")
    bad = [r for r in g.live if r.kind == "return" and r.frame.id == 0 and not _from_wrapped(fl, r.value, r, "get")]
    c.ob("W1-returns-dataset", "get", True if bad else None, "something other than the dataset is returned", bad[0] if bad else None)
    w = fl.must_precede(wg, [g.exit])
    c.ob("W1-returns-dataset", "read", w, "get returns without having read the dataset")

    _lookup(c, fl, "get")

    tt = lambda t, n: _is_timeout(fl, t, n)  # noqa: E731

    def expired(lit, n):
        return lit[0] == "lt" and any(tt(x, n) for x in lit[1:3]) and _later(fl, lit, n)

    fnf = excis(fl, "FileNotFoundError")
    c.ob("W2-waits", "get", None if fnf else True, "a dataset that does not exist yet is not waited for", func=cls.methods["get"])
    nb = {n.id for n in wg}
    w = fl.path(fnf, [g.exc_exit], stop_node=lambda n: n.id in nb, stop_edge=lambda n, lab: any(expired(x, n) for x in fl.lits(n, lab)),
                raising=False)
    c.ob("W2b-raises-only-after-timeout", "get", w, "waiting for a dataset is given up before its timeout")
    w = fl.path(fnf, [g.exit], stop_node=lambda n: n.id in nb)
    c.ob("W2c-no-silent-none", "get", w, "get returns although the dataset does not exist")
    noto = _edges(fl, lambda lit, n: lit[0] == "isnone" and lit[2] is False and tt(lit[1], n))
    nt = _edges(fl, lambda lit, n: lit[0] == "isnone" and lit[2] is True and tt(lit[1], n))
    c.ob("W3-no-timeout-waits-forever", "get", None if nt else True, "a timeout of None is not handled", func=cls.methods["get"])
    w = fl.path(nt, [g.exc_exit], stop_node=lambda n: n.id in nb, raising=False) if nt else None
    c.ob("W3-no-timeout-waits-forever", "raise", w, "a dataset without timeout is not waited for indefinitely")
    ex = _edges(fl, expired)
    w = fl.path(ex, lambda n: n.id in nb)
    c.ob("W4-timeout-enforced", "get", w, "waiting continues after the timeout expired")
    w = fl.path(noto, lambda n: n.id in nb, stop_edge=lambda n, lab: any(
        lit[0] == "lt" and any(tt(x, n) for x in lit[1:3]) for lit in fl.lits(n, lab)))
    c.ob("W4-timeout-enforced", "tested", w, "waiting continues without testing the timeout")
    _clock(c, fl, "get", wg)
    w = fl.path([(n, "exc") for n in wg], [g.exit], stop_node=lambda n: n.id in nb)
    c.ob("W5-errors-propagate", "get", w, "an error other than a missing dataset is swallowed")
    oth = {(n.id, lab) for n, lab in fnf}
    w = fl.path([(n, "exc") for n in wg], lambda n: n.id in nb, stop_edge=lambda n, lab: (n.id, lab) in oth)
    c.ob("W5-errors-propagate", "retry", w, "an error other than a missing dataset is retried forever")
    # stored_many
    fl = c.flow(cls.methods["stored_many"].qual, inline=inl)
    g = fl.g
    tt = lambda t, n: _is_timeout(fl, t, n)  # noqa: E731
    ws = _wrapped(fl, "stored_many")
    bad = [r for r in g.live if r.kind == "return" and r.frame.id == 0 and not _from_wrapped(fl, r.value, r, "stored_many")]
    c.ob("W6-existence-report", "stored_many", True if bad else None, "the existence report is not the wrapped butler's",
         bad[0] if bad else None)
    _lookup(c, fl, "stored_many")
    first = [n for n in ws if fl.path([g.entry], [n], stop_node=lambda m: m in ws) is not None]
    for n in first:
        ok = any(fl.derives(a, n, lambda t, m: t == ("param", "refs")) for a in n.args)
        c.ob("W6b-all-refs-asked", "stored_many", None if ok else True, "not all references are looked up", n)
    fid = {n.id for n in first}
    for r in g.live:
        if r.kind == "return" and r.frame.id == 0:
            bad = [t for t, _ in fl.sources(r.value, r) if t[0] == "tmp" and t[1] in {n.id for n in ws} - fid]
            c.ob("W6c-report-complete", "stored_many", True if bad else None,
                 "only the datasets that were waited for are reported, not all that were asked for", r)
    # a missing dataset whose timeout has not expired prevents returning
    iters = [h for h in fl.loops() if h.kind == "iter"]
    keep = []
    for h in iters:
        ins = {m.id for m in g.live if m.id in fl.loop_body(h) and ((m.kind == "call" and m.name in ("append", "add"))
               or m.kind in ("compelt", "substore"))}
        test = [n for n in g.live if n.kind == "branch" and n.id in fl.loop_body(h) and any(
            tt(x, n) for lit in fl.lits(n, True) if lit[0] in ("lt", "isnone") for x in lit[1:-1] if isinstance(x, tuple))]
        if not (ins and test):
            continue
        keep.append(h)

        def excused(n, lab):
            for lit in fl.lits(n, lab):
                if lit[0] == "truth" and lit[2] is True and any(s == ("elem", h.id) for s in subterms(lit[1])):
                    return True  # exists
                if lit[0] == "lt" and any(tt(x, n) for x in lit[1:3]) and _later(fl, lit, n):
                    return True  # expired
            return False

        w = fl.path([(h, "elem")], lambda m: m is h, stop_node=lambda m: m.id in ins, stop_edge=excused)
        c.ob("W7-missing-is-waited-for", "stored_many", w, "a missing dataset whose timeout has not expired is not waited for", h)

        def notmissing(n, lab):
            for lit in fl.lits(n, lab):
                if lit[0] == "truth" and lit[2] is False and any(s == ("elem", h.id) for s in subterms(lit[1])):
                    return True
            return False

        w = fl.path([(h, "elem")], lambda m: m.id in ins, stop_edge=notmissing, stop_node=lambda m: m is h)
        c.ob("W7b-existing-not-waited-for", "stored_many", w, "datasets that exist are waited for", h)

        def within(n, lab):
            for lit in fl.lits(n, lab):
                if lit[0] == "isnone" and lit[2] is True and tt(lit[1], n):
                    return True
                if lit[0] == "lt" and any(tt(x, n) for x in lit[1:3]) and not _later(fl, lit, n):
                    return True
            return False

        w = fl.path([(h, "elem")], lambda m: m.id in ins, stop_edge=within, stop_node=lambda m: m is h)
        c.ob("W7c-timeout-enforced", "stored_many", w, "a missing dataset is waited for beyond its timeout", h)
    c.ob("W7-instances", "stored_many", None if keep else True, "missing datasets are not waited for", func=cls.methods["stored_many"])
    for h in keep:
        conts = set()
        for m in g.live:
            if m.id in fl.loop_body(h) and m.kind == "call" and m.name in ("append", "add"):
                conts.add(fl.term(m.recv, m))
                conts.add(m.recv)
        w = fl.path([(h, "done")], [g.exit], stop_edge=lambda n, lab: any(
            lit[0] == "truth" and lit[2] is False and (lit[1] in conts or fl.derives(lit[1], n, lambda t, k: t in conts) or lit[1][0] == "comp")
            for lit in fl.lits(n, lab)))
        c.ob("W8-returns-only-when-settled", "stored_many", w, "existence is reported while datasets are still being waited for", h)
    _clock(c, fl, "stored_many", ws)


def _lookup(c, fl, where):
    """A dataset's timeout is the one of its (parent) dataset type; by default there is no waiting."""
    tl = [n for n in calls(fl, "get") if n.recv is not None and fl.term(n.recv, n) == self_flag("_timeouts")]
    c.ob("W10-timeout-lookup", where + ":used", None if tl or [n for n in fl.g.live if n.kind == "subload"] else True,
         "the timeouts are not looked up", func=fl.g.root)
    for n in tl:
        ok = bool(n.args) and fl.derives(n.args[0], n, lambda t, m: t[0] == "tmp" and fl.g.nodes[t[1]].kind == "call"
                                         and fl.g.nodes[t[1]].name == "nameAndComponent")
        c.ob("W10-timeout-lookup", where + ":parent", None if ok else True,
             "the timeout of a component is not that of its parent dataset type", n)
        d = n.args[1] if len(n.args) > 1 else n.kwargs.get("default")
        t = fl.expand(fl.term(d, n)) if d is not None else const(None)
        c.ob("W10-timeout-lookup", where + ":default", True if t == const(None) else None,
             "dataset types without a timeout are waited for indefinitely", n)


def _is_timeout(fl, t, n):
    return mentions(fl.expand(t), lambda s: s == self_flag("_timeouts")) or fl.derives(t, n, lambda s, m: is_self_attr(s, "_timeouts"))


def _edges(fl, p):
    return [(n, lab) for n in fl.g.live if n.kind == "branch" for lab in (True, False) if any(p(x, n) for x in fl.lits(n, lab))]


def _later(fl, lit, n):
    """For a literal comparing elapsed time with a timeout: whether it says the timeout has passed."""
    a_timeout = _is_timeout(fl, lit[1], n)
    # ('lt', a, b, pol): a < b
    if a_timeout:  # timeout < elapsed
        return lit[3] is True
    return lit[3] is False  # elapsed < timeout


def _clock(c, fl, where, wg):
    """The clock is read again between two attempts."""
    cl = {n.id for n in fl.g.calls() if (n.callee or "") in ("time.time", "time.monotonic", "time.perf_counter")}
    forever = lambda n, lab: any(lit[0] == "isnone" and lit[2] is True and _is_timeout(fl, lit[1], n)  # noqa: E731
                                for lit in fl.lits(n, lab))
    w = fl.path(fl.out_edges(wg, normal=False), wg, stop_node=lambda n: n.id in cl, stop_edge=forever) if wg else None
    c.ob("W9-clock-advances", where, w, "the time already waited is not updated between attempts")
    # the moment from which time is counted does not move with each attempt
    for n in fl.g.live:
        es = [v for _, v in n.d.get("defs", ())] + [x for k in ("args",) for x in n.d.get(k, ()) if isinstance(x, tuple)]
        if n.kind == "branch":
            es += [x for x in n.d["atom"][1:] if isinstance(x, tuple)]
        for e in es:
            for t in subterms(e):
                if t[0] != "op" or t[1] not in ("Sub", "Add"):
                    continue
                since = t[2][1:] if t[1] == "Sub" else t[2]
                if t[1] == "Add" and not any(_is_timeout(fl, x, n) for x in t[2]):
                    continue
                for x in since:
                    for s, m in fl.sources(x, n):
                        if s[0] == "tmp" and s[1] in cl:
                            k = fl.g.nodes[s[1]]
                            c.ob("W9b-clock-origin", f"{where}:{k.line}", fl.path(wg, [k]),
                                 "the time is counted anew with every attempt, so a missing dataset is waited for beyond its timeout", k)
    for n in fl.g.calls():
        if (n.callee or "") == "time.sleep" and n.args:
            t = fl.expand(fl.term(n.args[0], n), 6)
            long = t[0] == "const" and isinstance(t[2], (int, float)) and t[2] > 5
            far = t[0] != "const" and not mentions(t, lambda s: s[0] == "call" and s[2] == "min") and fl.derives(n.args[0], n, lambda s, m: is_self_attr(s, "_timeouts") or s[0] == "var" and s[2] == "timeouts", through_args=True)
            c.ob("W11-pause", where, True if long or far else None, "an attempt is delayed far beyond the moment at which the dataset or its timeout is due", n)



def run(c: Check):
    caching(c)
    blocking(c)


def caching2(c: Check):
    cls = c.prog.cls("caching_limited_butler.CachingLimitedButler")
    for name in ("stored_many", "pruneDatasets"):
        fl = flow_of(c, cls, name)
        for h in iters(fl):
            full(c, "K12-every-reference", f"{name}:{h.line}", fl, h, "some references or cache entries are not looked at")
        if name == "stored_many":
            for n in [m for m in fl.g.live if m.kind == "substore"]:
                t = fl.expand(fl.term(n.value, n))
                c.ob("K6e-cached-exists", f"{n.line}", True if t in (const(False), const(None)) else None, "a cached dataset is reported not to exist", n)


    for name in ("get", "put"):
        fl = flow_of(c, cls, name)
        for n in ctor(fl, "InMemoryDatasetHandle"):
            v = n.kwargs.get("storageClass")
            ok = v is not None and fl.derives(v, n, lambda t, m: t[0] == "attr" and t[2] == "storageClass")
            if ok and name == "get":
                rd = [m.kwargs.get("storageClass") for m in _wrapped(fl, "get")]
                ok = all(r is not None and fl.term(r, m) == fl.term(v, n) for r, m in zip(rd, _wrapped(fl, "get"), strict=True))
            c.ob("K10c-entry-storage-class", name, None if ok else True, "a dataset is cached without the storage class it was read or written with", n)


def blocking2(c: Check):
    cls = c.prog.cls("blocking_limited_butler.BlockingLimitedButler")
    fl = flow_of(c, cls, "stored_many")
    g = fl.g
    for h in iters(fl):
        full(c, "W11-every-reference", f"{h.line}", fl, h, "some references are not waited for")
    for n in _wrapped(fl, "stored_many"):
        if fl.path(fl.out_edges([n]), [n]) is None:
            continue  # the first inquiry
        mg = {m.id for m in g.live if m.kind == "call" and m.name == "update" and m.args and frm(fl, m.args[0], m, [n])}
        mg |= {m.id for m in g.live if m.kind == "substore" and (frm(fl, m.value, m, [n]) or any(
            h.kind == "iter" and frm(fl, h.iterable, h, [n]) for h in fl.enclosing_loops(m)))}
        mg |= {m.id for m in g.live if m.kind == "iter" and frm(fl, m.iterable, m, [n])}
        mg |= {m.id for m in g.live if m.kind == "def" and any(val[0] == "op" and val[1] == "BitOr" for _, val in m.defs)}
        w = fl.path(fl.out_edges([n]), [g.exit, n], stop_node=lambda m: m.id in mg)
        c.ob("W12-later-answers-used", f"{n.line}", w, "what a later inquiry found is not reported", n)
    again = [n for n in _wrapped(fl, "stored_many") if fl.path(fl.out_edges([n]), [n]) is not None]
    c.ob("W12b-asked-again", "stored_many", None if again else True, "missing datasets are not looked for again while waiting", func=cls.methods["stored_many"])
    none = lit_edges(fl, lambda lit, n: lit[0] == "isnone" and _is_timeout(fl, lit[1], n))
    if not none:
        cmps = lit_edges(fl, lambda lit, n: lit[0] == "lt" and any(_is_timeout(fl, t, n) for t in lit[1:3]))
        inf = mentions_inf(fl)
        c.ob("W3-no-timeout-waits-forever", "stored_many", True if cmps and not inf else None, "a timeout of None is not handled", func=cls.methods["stored_many"])
    for n, lab in as_edges(fl, {e for e in none if any(lit[0] == "isnone" and lit[2] is True for lit in fl.lits(fl.g.nodes[e[0]], e[1]))}):
        hs = [h for h in fl.enclosing_loops(n) if h.kind == "iter"]
        if not hs:
            continue
        h = min(hs, key=lambda x: len(fl.loop_body(x)))
        ins = {m.id for m in g.live if m.id in fl.loop_body(h) and (m.kind == "call" and m.name in ("append", "add") or m.kind in ("compelt", "substore"))}
        if ins:
            exists = lit_edges(fl, lambda lit, m: lit[0] == "truth" and lit[2] is True and mentions(fl.expand(lit[1]), lambda s: s[0] == "elem" or s[0] == "elemof"))
            w = fl.path([(n, lab)], lambda m: m is h, stop_node=lambda m: m.id in ins, stop_edge=lambda m, b: (m.id, b) in exists)
            c.ob("W3-no-timeout-waits-forever", f"stored_many:{n.line}", w, "a dataset without timeout is not waited for indefinitely", n)


def mentions_inf(fl):
    return any(mentions(t, lambda s: s[0] == "glob" and s[1].endswith("inf") or s == ("const", "str", "inf"))
               for n in fl.g.live for t in (list(n.d.get("args") or ()) + [x for _, x in (n.d.get("defs") or ())]) if isinstance(t, tuple))
