"""Field transfer: what a constructor, a record or a reconstruction is given, and from which fields of the source."""

from __future__ import annotations

from ..lib import const
from ..q import arg, kws


def got(fl, v, n, wanted):
    """Those of the wanted sources ("x": attribute, method or key x; "$x": parameter x; "=c": the constant) the value may come from."""
    out = set()
    for w in wanted:
        if w.startswith("$"):
            p = lambda t, m, w=w: t == ("param", w[1:])  # noqa: E731
        elif w.startswith("="):
            p = lambda t, m, w=w: t == const({"True": True, "False": False, "None": None}[w[1:]])  # noqa: E731
        else:
            p = lambda t, m, w=w: t[0] == "attr" and t[2] == w or t == const(w) or t[0] == "tmp" and fl.g.nodes[t[1]].kind == "call" and fl.g.nodes[t[1]].name == w or (  # noqa: E731
                t[0] == "call" and t[2] == w)
        if fl.derives(v, n, p):
            out.add(w)
    return out


def carry(c, rule, inst, fl, n, table, msg, order=(), also=(), pairs=None, required=True):
    """Constructor call n (or the mapping ``pairs``) gets each field from its own source.

    table: field -> source or sources (all needed); "" accepts anything.  ``also``: further sources fields must not be mixed up with.
    """
    given = pairs if pairs is not None else kws(n)
    dyn = pairs is None and ("**" in n.kwargs or any(a[0] == "starred" for a in n.args))
    alls = {s for w in table.values() for s in ([w] if isinstance(w, str) else w) if s and not s.startswith("=")} | set(also)
    for k, want in table.items():
        want = {want} - {""} if isinstance(want, str) else set(want)
        v = given.get(k)
        if v is None and pairs is None and k in order:
            v = arg(n, order.index(k))
        if v is None:
            if not dyn and required:
                c.fail(rule, f"{inst}:{k}", f"{msg} ({k} is lost)", n)
            continue
        g = got(fl, v, n, alls | want)
        ok = want <= g and not (g - want)
        c.ob(rule, f"{inst}:{k}", None if ok else True, f"{msg} ({k} is not what it was)", n)


def dict_pairs(fl, e, n):
    """Key -> value of a mapping built by dict(k=...) or a display, as far as they are constant; None if unknown."""
    t = fl.term(e, n)
    m = n
    if t[0] == "var":
        ds = fl.sources(e, n)
        if len(ds) != 1:
            return None
        t, m = ds[0]
    if t[0] == "tmp":
        m = fl.g.nodes[t[1]]
        if m.kind == "call" and m.name == "dict" and not m.args and "**" not in m.kwargs:
            return dict(m.kwargs), m
        return None
    if t[0] == "dict":
        out = {}
        for k, v in t[1]:
            if k == ("const", "str", "**"):
                return None
            if k[0] == "const":
                out[k[2]] = v
        return out, m
    return None
