"""Quantum graph generation: every node's data ID is expanded to its own dimension records, and all records are kept."""

from __future__ import annotations

from ..lib import Check
from ..q import (arg, bycall, calls, each, ex, flow_of, frm, full, guard, iters, lit_edges, loops_of, loops_over, mentions, present, retvals, tail)
from .qgprune import SK, P, record_updates


def _zip(z):
    return z[0] == "call" and z[2] == "zip" and len(z[4]) == 2


def run(c: Check):
    S = c.prog.cls(SK)
    fl = flow_of(c, S, "attach_dimension_records")
    g = fl.g
    lost = "dimension records of the graph are lost"
    ru = record_updates(fl)
    mk = [n for n in calls(fl, "DimensionDataAttacher")]
    present(c, "D1-attacher", "call", mk, "data IDs are not expanded", fl)
    # records that were given, and those attached to data IDs already, are kept and used
    for nm, hs in (("given", [h for h in iters(fl, comp=False) if fl.derives(h.iterable, h, P("dimension_records"))]),
                   ("attached", [h for h in iters(fl, comp=False) if mentions(ex(fl, h.iterable, h), lambda s: tail(s) == "records")])):
        for h in hs:
            each(c, "D2-records-kept", nm, fl, h, ru, lost)
            full(c, "D2-records-kept", nm + ":all", fl, h, lost)
        if hs:
            w = fl.path([g.entry], mk, stop_node=lambda m: m in hs)
            c.ob("D2-records-kept", nm + ":first", w, "data IDs are expanded without records that are known")
        elif nm == "given":
            present(c, "D2-records-kept", nm, [n for n in ru if any(fl.derives(a, n, P("dimension_records")) for a in n.args)], lost, fl)
    for n in ru:
        hs = loops_of(fl, n)
        if n.kind == "call" and n.args and hs:
            ok = any(fl.derives(n.args[0], n, lambda t, m: t == ("elem", h.id)) for h in hs)
            c.ob("D2-records-kept", "own", None if ok else True, lost, n)
    for n in mk:
        r = arg(n, 0, "records")
        if r is not None:
            c.ob("D1-attacher", "records", None if fl.derives(r, n, lambda t, m: tail(t) == "_dimension_data") else True, "data IDs are expanded without records that are known", n)
    # every node with a data ID is either expanded already or noted to be expanded
    up = [n for n in calls(fl, "update", "update_homogeneous") if n.recv is not None and ex(fl, n.recv, n)[:1] == ("call",)
          and ex(fl, n.recv, n)[2] in ("from_dimension_group", "DimensionDataExtractor")]
    note = [n for n in calls(fl, "append", "add", "extend") if n.recv is not None and n.args]
    has = lambda pol: lambda lit, n: lit[0] == "truth" and lit[2] is pol and bycall(fl, lit[1], n, "hasRecords")  # noqa: E731
    sd = calls(fl, "set_data_id")
    hs = {h.id: h for n in up for h in loops_of(fl, n)}.values()
    nodata = lambda lit, n: (lit[0] == "truth" and lit[2] is False or lit[0] == "isnone" and lit[2] is True) and not bycall(fl, lit[1], n, "hasRecords")  # noqa: E731
    for h in hs:
        mine = [n for n in note if n.id in fl.loop_body(h)]
        each(c, "D3-nodes", "every", fl, h, up + mine, "a node is left without dimension records", unless=nodata)
        full(c, "D3-nodes", "all", fl, h, "a node is left without dimension records")
        guard(c, "D3-nodes", "unexpanded", fl, up, has(True), "a data ID without records is taken as expanded", starts=[(h, "elem")])
        for n in mine:
            ok = fl.derives(n.args[0], n, lambda t, m: t == ("elem", h.id))
            c.ob("D3-nodes", "noted", None if ok else True, "another node is expanded", n)
    present(c, "D3-nodes", "records", up, lost, fl)
    # what is to be expanded is expanded, and goes back to the nodes it came from
    at = calls(fl, "attach")
    present(c, "D4-expanded", "attach", at, "data IDs are not expanded", fl)
    present(c, "D4-expanded", "set", sd, "expanded data IDs are dropped", fl)
    for n in at:
        for h in loops_of(fl, n):
            each(c, "D4-expanded", "groups", fl, h, at, "data IDs of some dimensions are not expanded")
            full(c, "D4-expanded", "groups:all", fl, h, "data IDs of some dimensions are not expanded")
            ids = arg(n, 1, "data_ids")
            if ids is not None:
                c.ob("D4-expanded", "own data IDs", None if fl.derives(ids, n, lambda t, m: t == ("elem", h.id)) else True, "other data IDs are expanded", n)
    for n in sd:
        a, b = arg(n, 0, "key"), arg(n, 1, "data_id")
        hs = loops_of(fl, n)
        inner = hs[-1] if hs else None
        c.ob("D5-own-nodes", "expanded", None if frm(fl, b, n, at) else True, "a node gets another data ID than its expanded one", n)
        if inner is not None and not _zip(ex(fl, inner.iterable, inner)):
            c.ob("D5-own-nodes", "key", None if fl.term(a, n) == ("elem", inner.id) else True, "a node is left without dimension records", n)
        elif inner is not None:
            c.ob("D5-own-nodes", "key", True if ex(fl, a, n)[0] == "sub" else None, "a node is left without dimension records", n)
        for h in hs:
            if not any(m.id in fl.loop_body(h) for m in at):
                full(c, "D5-own-nodes", "all", fl, h, "a node is left without dimension records")
                each(c, "D5-own-nodes", "every", fl, h, sd, "a node is left without dimension records")
            z = ex(fl, h.iterable, h)
            if _zip(z):
                for m in calls(fl, "zip"):
                    plain = {t for t, k in fl.sources(m.args[0], m)} if fl.sources(m.args[0], m) else set()
                    ok = all(t[0] == "tmp" and g.nodes[t[1]] in at for t in plain) if plain else True
                    c.ob("D5-own-nodes", "aligned", None if ok else True, "expanded data IDs are handed to nodes in another order", m)
                    keys, vals = arg(at[0], 1, "data_ids") if at else None, ex(fl, m.args[1], m)
                    if keys is not None:
                        kt = ex(fl, keys, at[0])
                        same = lambda t: t[3] if t[0] == "call" and t[2] in ("keys", "values") else t  # noqa: E731
                        ok = not (kt[0] == "call" and kt[2] == "keys" and vals[0] == "call") or vals[2] == "values" and same(kt) == same(vals)
                        c.ob("D5-own-nodes", "pairs", None if ok else True, "expanded data IDs are handed to other nodes", m)
    # the records the attacher had to look up are kept too
    st = [n for n in g.live if n.kind == "attrstore" and n.name == "_dimension_data" and mentions(ex(fl, n.value, n), lambda s: tail(s) == "records")]
    w = fl.path([m for m in at] or [g.entry], [g.exit], stop_node=lambda m: m in st)
    c.ob("D6-looked-up", "stored", w, lost)
    for s in st:
        c.ob("D6-looked-up", "last", fl.path([s], at), lost, s)
    fl = flow_of(c, S, "get_dimension_data")
    for r in retvals(fl):
        ok = fl.derives(r.value, r, lambda t, m: tail(t) == "_dimension_data", through_args=True) and not mentions(ex(fl, r.value, r), lambda s: s[0] == "slice")
        c.ob("D7-returned", "all", None if ok else True, lost, r)
    for h in iters(fl):
        full(c, "D7-returned", "every", fl, h, lost)
        c.ob("D7-returned", "unfiltered", None if not lit_edges(fl, lambda lit, n: True) else True, lost, h)
