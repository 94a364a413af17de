"""Multi-block files: what is written is what is read back, at the recorded address; damage is detected."""

from __future__ import annotations

from .. import q
from ..flow import subterms
from ..known import fresh
from ..lib import Check, calls, const, edges, is_self_attr, mentions, self_flag
from ..poly import padd, pconst, pmul, poly, seq

M = "quantum_graph._multiblock."
INV = "InvalidQuantumGraphFileError"
ORDERED_KEYS = {"int", "bytes", "hex"}


def ex(fl, e, n):
    return fl.expand(fl.term(e, n))


def arg(n, i, *names):
    if i is not None and i < len(n.args):
        return n.args[i]
    for k in names:
        if k in n.kwargs:
            return n.kwargs[k]
    return None


def _len(t):
    return ("call", "builtins.len", "len", None, (t,), ())


def pieces(t):
    """Split the argument of write() into (size polynomial, value term, kind)."""
    if t[0] == "op" and t[1] == "Add":
        return [p for x in t[2] for p in pieces(x)]
    if t[0] == "call" and t[2] == "to_bytes":
        kw = dict(t[5])
        size = t[4][0] if t[4] else kw.get("length", const(1))
        bo = t[4][1] if len(t[4]) > 1 else kw.get("byteorder", const("big"))
        return [(poly(size), t[3], ("int", bo, kw.get("signed", const(False))))]
    if t[0] == "attr" and t[2] == "bytes":
        return [(pconst(16), t[1], "uuid")]
    return [({(_len(t),): 1}, t, "raw")]


def writes(fl, nodes=None):
    """(loops, size, value, kind, node) of everything written to a byte stream, in order."""
    out = []
    for loops, n in seq(fl, [n for n in (nodes or calls(fl, "write")) if n.args and n.recv is not None]):
        for size, val, kind in pieces(ex(fl, n.args[0], n)):
            out.append((loops, size, val, kind, n))
    return out


def reads(fl, keep=lambda n: True):
    return [(loops, poly(ex(fl, n.args[0], n)) if n.args else None, n) for loops, n in seq(
        fl, [n for n in calls(fl, "read") if n.recv is not None and keep(n)])]


def uses(fl, rd, e, n):
    """Whether value e at n is (a decoding of) what call node rd read."""
    return fl.derives(e, n, lambda t, m: t == ("tmp", rd.id))


def ctor(fl, name):
    return [n for n in fl.g.calls() if (n.callee or "").rsplit(".", 1)[-1] == name or (
        n.name == "cls" and fl.g.root.cls is not None and fl.g.root.cls.name == name)]


def _plain(t):
    """An iterable, without list() or tuple() around it."""
    while t[0] == "call" and t[2] in ("list", "tuple", "iter") and len(t[4]) == 1:
        t = t[4][0]
    return t


def retvals(fl):
    return [n for n in fl.g.live if n.kind == "return" and n.frame.id == 0]


def run(c: Check):
    inl = lambda f: f.module.name.endswith("._multiblock")  # noqa: E731
    rows(c, inl)
    header(c, inl)
    paging(c, inl)
    lookup(c, inl)
    blocks(c, inl)
    names(c, inl)
    codec(c, inl)


def _sig(items):
    """Layout as comparable structure: nesting depth and size, loop identity normalised."""
    ids = {}
    out = []
    for loops, size in items:
        out.append((tuple(ids.setdefault(x, len(ids)) for x in loops), size))
    return out


def rows(c, inl):
    w = c.flow(M + "AddressRow.write", inline=inl)
    r = c.flow(M + "AddressRow.read", inline=inl)
    W, R = writes(w), reads(r)
    c.require(W, "row writer not understood")
    if not R or any(k == "raw" for _, _, _, k, _ in W) or any(s is None for _, s, _ in R):
        return
    ws = _sig([(x[0], x[1]) for x in W])
    rs = _sig([(x[0], x[1]) for x in R])
    c.ob("M1-row-layout", "sizes", None if ws == rs else f"written {_fmt(ws)}, read {_fmt(rs)}",
         "address rows are not read with the field sizes and nesting with which they are written", R[0][2])
    if ws == rs and len(W) == 4:
        want = ["key", "index", "offset", "size"]
        got = [x[2][2] if x[2][0] == "attr" else None for x in W]
        # what each field read is used for
        dest = {}
        for n in ctor(r, "AddressRow"):
            for i, k in ((0, "key"), (1, "index")):
                a = arg(n, i, k)
                if a is not None:
                    dest[k] = (a, n)
        for n in ctor(r, "Address"):
            for i, k in ((0, "offset"), (1, "size")):
                a = arg(n, i, k)
                if a is not None:
                    dest[k] = (a, n)
        for (loops, size, n), g in zip(R, got):
            if g is None or g not in dest:
                c.fail("M1b-row-fields", str(g), "a field of an address row is not restored", n)
                continue
            e, at = dest[g]
            c.ob("M1b-row-fields", g, None if uses(r, n, e, at) and not any(
                uses(r, m, e, at) for _, _, m in R if m is not n) else True, "the fields of an address row are read back in a different order", n)
        c.ob("M1b-row-fields", "all", None if sorted(x for x in got if x) == sorted(want) else f"{got}",
             "not every field of an address row is written", W[0][4])
        # loops: every address of the row is written, n_addresses are read
        h = [r.g.nodes[i] for i in R[-1][0]]
        for x in h:
            t = _plain(r.expand(r.term(x.iterable, x))) if x.kind == "iter" else ("?",)
            ok = t[0] == "call" and t[2] == "range" and len(t[4]) == 1 and t[4][0] == ("param", "n_addresses")
            c.ob("M1c-address-count", "read", None if ok or t[0] == "?" else f"{t}", "not all addresses of a row are read", x)
        for x in [w.g.nodes[i] for i in W[-1][0]]:
            if x.kind == "iter":
                c.ob("M1c-address-count", "write", None if _plain(w.expand(w.term(x.iterable, x))) == self_flag("addresses") else True,
                     "not all addresses of a row are written", x)
        n = ("param", "n_addresses")
        total = {}
        for loops, size, _ in R:
            total = padd(total, pmul(size, {(n,): 1}) if loops else size)
        _formula(c, "M2-row-size", M + "AddressReader.compute_row_size", total, inl)
    rets = retvals(r)
    ap = [n for n in calls(r, "append") if n.recv is not None and r.term(n.recv, n)[0] == "attr" and r.term(n.recv, n)[2] == "addresses"]
    if ap:
        for x in [r.g.nodes[i] for i in R[-1][0]]:
            wit = r.path([(x, "elem")], lambda m: m is x, stop_node=lambda m: m in ap)
            c.ob("M1d-addresses-kept", "read", wit, "an address that was read is dropped", x)
    c.ob("M1e-row-returned", "read", None if rets else True, "no row is returned", func=r.g.root)


def _fmt(s):
    def one(p):
        return "+".join(f"{k}*{'*'.join(str(a[-1]) for a in m) or '1'}" for m, k in p.items())
    return [("loop " if lo else "") + one(p) for lo, p in s]


def _formula(c, rule, qual, want, inl):
    f = c.flow(qual, inline=inl)
    for n in retvals(f):
        got = poly(ex(f, n.value, n))
        c.ob(rule, qual.rsplit(".", 1)[-1], None if got == want else f"computes {_fmt([((), got)])}, layout has {_fmt([((), want)])}",
             "the computed size differs from the number of bytes in the layout", n)


def header(c, inl):
    w = c.flow(M + "AddressWriter.write", inline=inl)
    r = c.flow(M + "AddressReader.from_stream", inline=inl)
    W = writes(w)
    H = [x for x in W if not x[0]]
    first = [n for n in calls(r, "read") if n.recv is not None and r.term(n.recv, n) == ("param", "stream")]
    R = [x for x in reads(r, keep=lambda n: n not in first or True)]
    rest = [x for x in R if x[2] not in first] or R[0:]
    c.require(H and R, "address file header not understood")
    if any(k == "raw" for _, _, _, k, _ in H) or any(x[1] is None for x in rest):
        return
    hs, rs = [x[1] for x in H], [x[1] for x in rest]
    c.ob("M3-header-layout", "sizes", None if hs == rs else f"{_fmt([((), x) for x in hs])} / {_fmt([((), x) for x in rs])}",
         "the header of an address file is not read with the field sizes with which it is written", rest[0][2])
    total = {}
    for s in hs:
        total = padd(total, s)
    _formula(c, "M3b-header-size", M + "AddressReader.compute_header_size", total, inl)
    for n in first:
        if len(rest) < len(R):
            c.ob("M3b-header-size", "read", None if poly(ex(r, n.args[0], n)) == total else True, "the header is not read completely", n)
    if hs == rs and len(hs) == 3:
        for i, (what, test) in enumerate((("int_size", True), ("n_rows", False), ("n_addresses", True))):
            n = rest[i][2]
            if test:
                es = [(b, lab) for b in r.g.live if b.kind == "branch" for lab in (True, False) if any(
                    lit[0] == "eq" and lit[3] is True and ("param", what) in lit[1:3] and any(uses(r, n, x, b) for x in lit[1:3])
                    for lit in r.lits(b, lab))]
                wit = r.path([r.g.entry], [r.g.exit], stop_edge=lambda b, lab: (b, lab) in es)
                c.ob("M3c-header-checked", what, wit, f"a file whose {what} differs from the expected one is read anyway", n)
            else:
                mk = [m for m in ctor(r, "AddressReader")]
                for m in mk:
                    a = arg(m, 2, "n_rows")
                    c.ob("M3d-row-count", what, None if a is not None and uses(r, n, a, m) else True,
                         "the number of rows is not the one stored in the file", m)
        v = [x[2] for x in H]
        ok0 = v[0] == ("param", "int_size")
        ok2 = v[2] == _len(self_flag("addresses"))
        c.ob("M3e-header-values", "write", None if ok0 and ok2 else f"{v}", "the header of an address file does not describe its rows", H[0][4])
    # short header
    short = [(b, lab) for b in r.g.live if b.kind == "branch" for lab in (True, False) if any(
        ((lit[0] == "lt" and lit[3] is False) or (lit[0] == "eq" and lit[3] is True)) and mentions(r.expand(lit[1]), lambda s: s[0] == "call" and s[2] == "len")
        for lit in r.lits(b, lab))]
    if len(rest) < len(R):
        wit = r.path([r.g.entry], [r.g.exit], stop_edge=lambda b, lab: (b, lab) in short)
        c.ob("M5-truncation-detected", "header", wit, "a truncated address file is read anyway")
    # rows: sorted, numbered, one address per file
    loops = [h for h in w.loops() if h.kind == "iter" and not h.d.get("comp") and any(h.id in x[0] for x in W if x[0])]
    outer = [h for h in loops if not any(h is not k and h.id in w.loop_body(k) for k in loops)]
    for h in outer:
        t = w.expand(w.term(h.iterable, h), depth=8)
        srt = [s for s in subterms(t) if s[0] == "call" and s[2] == "sorted"]
        srt += [("call", "", "sorted", None, tuple(ex(w, a, n) for a in n.args) or (("?",),), tuple(sorted((k, ex(w, v, n)) for k, v in n.kwargs.items())))
                for n in calls(w, "sorted", "sort") if w.derives(h.iterable, h, lambda s, m: s == ("tmp", n.id) or (
                    n.recv is not None and s == n.recv))]
        ok = False
        for s in srt:
            kw = dict(s[5])
            rev = kw.get("reverse", const(False)) == const(False)
            k = kw.get("key")
            kok = k is None or _keyok(c, w, k)
            ok = ok or (rev and kok)
        c.ob("M4-rows-sorted", "write", None if ok else True, "address rows are not written in increasing key order, which lookups rely on", h)
        en = [s for s in subterms(t) if s[0] == "call" and s[2] == "enumerate"]
        for n in ctor(w, "AddressRow"):
            a = arg(n, 1, "index")
            if a is None:
                continue
            e = ex(w, a, n)
            if e[0] == "enumidx":
                c.ob("M4b-row-index", "write", None if e[2] == const(0) and e[1] == h.id else f"{e}", "a row's index is not its position", n)
            elif en:
                good = len(en[0][4]) == 1 and not dict(en[0][5]) or const(0) in en[0][4][1:] or dict(en[0][5]).get("start") == const(0)
                pos = e[0] == "item" and e[2] == 0 or e[0] == "sub" and e[2] == const(0)
                c.ob("M4b-row-index", "write", None if good and pos else f"{e}", "a row's index is not its position", n)
            ad = arg(n, 2, "addresses")
            if ad is not None:
                t2 = w.term(ad, n)
                if t2[0] == "comp":
                    hh = [w.g.nodes[i] for i in t2[3]]
                    ok = len(hh) == 1 and w.term(hh[0].iterable, hh[0]) == self_flag("addresses")
                    nofilter = w.path([(hh[0], "elem")], lambda m: m is hh[0], stop_node=lambda m: m.kind == "compelt" and m.id in w.loop_body(hh[0])) is None
                    c.ob("M4c-address-per-file", "write", None if ok and nofilter else True, "a row does not have one address per file", n)
                    for m in w.compelts(t2):
                        v = w.expand(w.term(m.value, m))
                        if v[0] == "call" and v[2] == "get":
                            dflt = v[4][1] if len(v[4]) > 1 else None
                            ok = dflt is not None and dflt[0] == "call" and dflt[2] == "Address" and not dflt[4] and not dflt[5]
                            c.ob("M4d-absent-is-empty", "write", None if ok else True, "a missing block does not get the empty address", m)
        rw = [n for n in w.g.live if n.kind in ("call", "enter") and n.name == "write" and n.id in w.loop_body(h)]
        wit = w.path([(h, "elem")], lambda m: m is h, stop_node=lambda m: m in rw)
        c.ob("M4e-every-row-written", "write", wit, "a row is counted in the header but not written", h)
    ids = c.flow(M + "AddressWriter.get_all_ids", inline=inl)
    up = [n for n in calls(ids, "update", "add", "union")] + [n for n in ids.g.live if n.kind in ("compelt",)]
    for h in ids.loops():
        if h.kind == "iter" and ids.term(h.iterable, h) == self_flag("addresses"):
            ups = [n.id for n in up if n.id in ids.loop_body(h)]
            aug = [n.id for n in ids.g.live if n.kind == "def" and n.id in ids.loop_body(h) and any(v[0] == "op" and v[1] in (
                "AugBitOr", "BitOr") for _, v in n.defs)]
            wit = ids.path([(h, "elem")], lambda m: m is h, stop_node=lambda m: m.id in ups or m.id in aug)
            c.ob("M4f-all-ids", "get_all_ids", wit, "the keys of one of the files are missing from the address rows", h)
    z = c.flow(M + "AddressWriter.write_to_zip", inline=fresh)
    for n in calls(z, "write"):
        a = arg(n, 2, "all_ids")
        ok = a is None or z.derives(a, n, lambda t, m: t[0] == "tmp" and z.g.nodes[t[1]].kind == "call" and z.g.nodes[t[1]].name == "get_all_ids")
        c.ob("M4f-all-ids", "write_to_zip", None if ok else True, "only part of the keys is written", n)
        b = arg(n, 1, "int_size")
        c.ob("M4g-int-size", "write_to_zip", None if b is not None and z.term(b, n) == ("param", "int_size") else True,
             "the address file uses another integer size than requested", n)


def _keyok(c, fl, k):
    if k[0] == "call" and k[2] == "attrgetter" and k[4] and k[4][0][0] == "const" and k[4][0][2] in ORDERED_KEYS:
        return True
    if k[0] == "glob" and k[1] in ("builtins.str", "builtins.int"):
        return True
    return k[0] in ("lambda", "func", "closure")  # not decided


def paging(c, inl):
    r = c.flow(M + "AddressReader.from_stream", inline=inl)
    g = r.g
    mk = [n for n in ctor(r, "AddressPage")]
    c.require(mk, "address pages not found")
    rs = _retpoly(c, M + "AddressReader.compute_row_size", inl)
    hs = _retpoly(c, M + "AddressReader.compute_header_size", inl)
    for n in mk:
        fo, be, nr = arg(n, 0, "file_offset"), arg(n, 1, "begin"), arg(n, 2, "n_rows")
        if fo is None or be is None or nr is None or rs is None or hs is None:
            continue
        loops = [h for h in r.enclosing_loops(n)]
        body = set()
        for h in loops:
            body |= r.loop_body(h)
        F, B = _induct(r, fo, n, body), _induct(r, be, n, body)
        if F is None or B is None:
            continue
        (f0, fd), (b0, bd) = F, B
        c.ob("M6-page-offset", "first", None if padd(f0, pmul(b0, rs), -1) == hs else _fmt([((), f0)]),
             "the first page does not start right after the header", n)
        c.ob("M6-page-offset", "step", None if fd == pmul(bd, rs) else f"{_fmt([((), fd)])}", "a page's offset does not match the rows before it", n)
        npp = poly(ex(r, nr, n))
        if npp == bd:  # full pages, the last one trimmed afterwards
            trims = [m for m in g.live if m.kind == "attrstore" and m.name == "n_rows"]
            eq = [(b, lab) for b in g.live if b.kind == "branch" and b.id not in body for lab in (True, False) if any(
                lit[0] == "eq" and lit[3] is True and any(mentions(x, lambda s: s == r.term(be, b) or s == be) for x in lit[1:3])
                for lit in r.lits(b, lab))]
            wit = r.path(r.out_edges([n]), [g.exit], stop_node=lambda m: m in trims, stop_edge=lambda b, lab: (b, lab) in eq)
            c.ob("M6b-last-page", "trimmed", wit, "the last page claims rows beyond the end of the file", n)
            nn = [(arg(k, 2, "n_rows"), k) for k in ctor(r, "AddressReader")]
            want_n = poly(ex(r, *nn[0])) if nn and nn[0][0] is not None else None
            for m in trims:
                v = poly(ex(r, m.value, m))
                b = poly(ex(r, be, m))
                ok = m.d.get("aug") == "Sub" and all(v.get(k) == x for k, x in b.items()) and (
                    want_n is None or padd(b, v, -1) == want_n)
                if m.d.get("aug") is None:
                    t = ex(r, m.value, m)
                    if want_n is None:
                        continue
                    ism = lambda t: t[0] == "op" and t[1] == "Mod" and poly(t[2][0]) == want_n and poly(t[2][1]) == bd  # noqa: E731
                    mod = ism(t)
                    known = set(want_n) | set(b) | set(bd) | {()}
                    if not mod and not all(k in known or len(k) == 1 and ism(k[0]) for k in v):
                        continue
                    ok = mod or v == padd(padd(want_n, b, -1), bd)
                c.ob("M6b-last-page", "amount", None if ok else f"{_fmt([((), v)])}", "the last page has the wrong number of rows", m)
    for n in ctor(r, "AddressReader"):
        a = arg(n, 4, "rows_per_page")
        if a is not None:
            t = ex(r, a, n)
            ok = t[0] != "op" and (t[0] != "call" or t[2] != "max" or any(x[0] == "const" and isinstance(x[2], int) and x[2] >= 1 for x in t[4]))
            c.ob("M6c-page-progress", "rows_per_page", None if ok else f"{t[:2]}", "pages of zero rows: setting up the pages never ends", n)


def _retpoly(c, q, inl):
    f = c.flow(q, inline=inl)
    rv = retvals(f)
    if len(rv) != 1:
        return None
    return poly(ex(f, rv[0].value, rv[0]))


def _induct(r, e, n, body):
    """(initial value, increment per iteration) of a loop variable as polynomials; None when not of that form."""
    t = r.term(e, n)
    x = r.expand(t)
    el = [s for s in subterms(x) if s[0] == "elemof"]
    if t[0] == "var":
        ds = r.reaching(t, n)
        out = [d for d in ds if d[2].id not in body]
        ins = [d for d in ds if d[2].id in body]
        if len(out) != 1 or len(ins) != 1:
            return None
        init = poly(ex(r, out[0][1], out[0][2]))
        p = poly(ex(r, ins[0][1], ins[0][2]))
        self_ = (t,)
        if p.get(self_) != 1:
            return None
        return init, padd(p, {self_: 1}, -1)
    if len(set(el)) == 1 and el[0][1][0] == "call" and el[0][1][2] == "range":
        a = el[0][1][4]
        start, step = (const(0), const(1)) if len(a) == 1 else (a[0], a[2] if len(a) > 2 else const(1))
        p = poly(x)
        k = {m: cf for m, cf in p.items() if el[0] in m}
        co = {}
        for m, cf in k.items():
            mm = list(m)
            mm.remove(el[0])
            if el[0] in mm:
                return None
            co[tuple(mm)] = cf
        base = {m: cf for m, cf in p.items() if el[0] not in m}
        return padd(base, pmul(co, poly(start))), pmul(co, poly(step))
    return None


def lookup(c, inl):
    f = c.flow(M + "AddressReader.find", inline=inl)
    g = f.g
    got = lambda t, m: t[0] == "tmp" and g.nodes[t[1]].kind == "call" and g.nodes[t[1]].name in ("get",) and is_self_attr(  # noqa: E731
        f.term(g.nodes[t[1]].recv, g.nodes[t[1]]), "rows")
    for n in retvals(f):
        t = f.term(n.value, n)
        key = f.derives(n.value, n, lambda s, m: s == ("param", "key")) or mentions(t, lambda s: s == ("param", "key"))
        c.ob("M7-find-returns-row", "key", None if key and (f.derives(n.value, n, got) or mentions(t, lambda s: s == self_flag("rows"))) else True,
             "find returns something other than the row of the key", n)
        w = f.path([g.entry], [n], stop_edge=lambda b, lab: any(
            (lit[0] == "isnone" and lit[2] is False or lit[0] == "truth" and lit[2] is True) and f.derives(lit[1], b, got)
            or (lit[0] == "in" and lit[3] is True and lit[2] == self_flag("rows")) for lit in f.lits(b, lab)))
        c.ob("M7-find-returns-row", "found", w, "find returns although the key was not found", n)
    w = f.path([g.entry], [g.exit], stop_node=lambda n: n.kind == "return" and n.frame.id == 0)
    c.ob("M7b-find-raises", "missing", w, "a missing key is not reported by a LookupError")
    beg = lambda t: t[0] == "attr" and t[2] == "uuid_int_begin"  # noqa: E731
    end = lambda t: t[0] == "attr" and t[2] == "uuid_int_end"  # noqa: E731
    tests = [n for n in g.live if n.kind == "branch" and n.atom[0] == "lt" and any(mentions(f.expand(f.term(x, n)), lambda s: beg(s) or end(s)) for x in n.atom[1:])]
    if not tests:
        return  # another search strategy: only the rules above are decided
    # is the stored end inclusive or exclusive?
    p = c.flow(M + "AddressReader._read_page", inline=inl)
    off = set()
    for n in ctor(p, "PageBounds"):
        a = arg(n, 2, "uuid_int_end")
        b = arg(n, 1, "uuid_int_begin")
        if a is not None:
            off.add(poly(ex(p, a, n)).get((), 0))
        if b is not None:
            off2 = poly(ex(p, b, n)).get((), 0)
            c.ob("M8-page-bounds", "begin", None if off2 == 0 else True, "the recorded lower bound of a page is not its first key", n)
    excl = None
    if off == {1}:
        excl = True
    elif off == {0}:
        excl = False
    c.ob("M8-page-bounds", "end", None if excl is not None else f"{off}", "the recorded upper bound of a page is neither its last key nor one past it",
         func=p.g.root)

    def keylit(lit):
        """('below'|'above'|'within'...) facts about the key relative to the page bounds."""
        if lit[0] != "lt":
            return None
        a, b, pol = lit[1], lit[2], lit[3]
        ea, eb = f.expand(a), f.expand(b)
        if mentions(ea, lambda s: s == ("param", "key")) and beg(eb):
            return "below" if pol else "ge_begin"
        if mentions(ea, lambda s: s == ("param", "key")) and end(eb):
            return "lt_end" if pol else "ge_end"
        if end(ea) and mentions(eb, lambda s: s == ("param", "key")):
            return "gt_end" if pol else "le_end"
        if beg(ea) and mentions(eb, lambda s: s == ("param", "key")):
            return "gt_begin" if pol else "le_begin"
        return None

    lastinc = {"lt_end", "below"} if excl else {"le_end", "lt_end", "below"}  # facts that put the key at or before the page's last key
    raises = [n for n in g.live if n.kind == "raise" and n.frame.id == 0]
    loops = [h for h in f.loops() if any(t.id in f.loop_body(h) for t in tests)]
    inner = [n for n in raises if any(f.path([(t, lab)], [n], stop_node=lambda m: m in loops) is not None for t in tests for lab in (True, False))]
    facts = {}
    for t in tests:
        for lab in (True, False):
            facts[(t.id, lab)] = {keylit(x) for x in f.lits(t, lab)}
    rp = [n for n in g.live if n.kind in ("enter", "call") and n.name == "_read_page"]
    for n in inner:
        w = f.path(rp, [n], stop_node=lambda m: m in loops, stop_edge=lambda b, lab: bool(facts.get((b.id, lab), set()) & lastinc))
        c.ob("M7c-absent-only-within-page", "after", w,
             "a key after the last key of a page is reported missing without searching the later pages", n)
        below = {"ge_begin", "gt_begin", "ge_end", "gt_end"}
        w = f.path(rp, [n], stop_node=lambda m: m in loops, stop_edge=lambda b, lab: bool(facts.get((b.id, lab), set()) & below))
        c.ob("M7c-absent-only-within-page", "before", w,
             "a key before the first key of a page is reported missing without searching the earlier pages", n)
    # the search interval shrinks by the page just examined and excludes nothing else
    for n in rp:
        if not n.args:
            continue
        mid = n.args[0]
        for h in loops:
            ups = [m for m in g.live if m.kind == "def" and m.frame.id == 0 and m.id in f.loop_body(h) and any(
                mentions(f.term(v, m), lambda s: s == mid or s == f.term(mid, m)) for _, v in m.defs) and any(
                    f.path([(t, lab)], [m], stop_node=lambda x: x is h) is not None for t in tests for lab in (True, False))]
            for m in ups:
                for v, val in m.defs:
                    p2 = padd(poly(f.expand(f.term(val, m))), poly(f.expand(f.term(mid, m))), -1)
                    k = p2.get((), 0) if set(p2) <= {()} else None
                    if k is None:
                        continue
                    if k == -1:
                        w = f.path([n], [m],
                                   stop_node=lambda x: x is h, stop_edge=lambda b, lab: "below" in facts.get((b.id, lab), ()))
                        c.ob("M7d-bisect", "lower half", w, "the search continues in the lower half for a key that is not below the page", m)
                    elif k == 1:
                        above = {"ge_end", "gt_end"} if excl else {"gt_end"}
                        w = f.path([n], [m],
                                   stop_node=lambda x: x is h, stop_edge=lambda b, lab: bool(set(facts.get((b.id, lab), ())) & above))
                        c.ob("M7d-bisect", "upper half", w, "the search continues in the upper half for a key that is not above the page", m)
                    else:
                        c.fail("M7d-bisect", "shrinks", "the search interval does not shrink past the examined page, so the search may not end", m)
            # loop guard admits the single remaining page
            br = [b for b in g.live if b.kind == "branch" and b.frame.id == 0 and b.id in f.loop_body(h) and b.atom[0] in ("lt", "eq")
                  and b not in tests and f.path([h], [b], stop_node=lambda x: x.kind in ("enter", "call")) is not None]
            for b in br:
                upv = {v for m in ups for v, _ in m.defs}
                lits = [lit for lab in (True, False) if f.path([(b, lab)], [n], stop_node=lambda x: x is h) is not None for lit in f.lits(b, lab)]
                for lit in lits:
                    if lit[0] == "lt" and lit[3] is True and lit[1] in upv and lit[2] in upv:
                        c.fail("M7e-last-candidate", "loop", "the search stops while one page is still to be examined", b)
                    elif lit[0] == "lt" and lit[1] in upv and lit[2] in upv:
                        c.ok("M7e-last-candidate", "loop")
    # reading a page
    g = p.g
    seek = [n for n in calls(p, "seek")]
    rd = [n for n in calls(p, "read") if n.recv is not None and is_self_attr(p.term(n.recv, n), "stream")]
    for n in rd:
        w = p.must_precede(seek, [n])
        c.ob("M8b-page-read", "seek", w, "a page is read from wherever the stream happens to be", n)
        if n.args:
            t = poly(ex(p, n.args[0], n))
            rs = _retpoly(c, M + "AddressReader.compute_row_size", inl)
            nr = [s for m in t for s in m if s[0] == "attr" and s[2] == "n_rows"]
            sub = {("param", "int_size"): self_flag("int_size"), ("param", "n_addresses"): self_flag("n_addresses")}
            want = pmul(_sub(rs, sub), {(nr[0],): 1}) if nr and rs else None
            c.ob("M8b-page-read", "length", None if want is None and not nr or t == want else f"{_fmt([((), t)])}",
                 "the bytes read for a page do not cover its rows", n)
    for n in seek:
        t = ex(p, n.args[0], n)
        c.ob("M8b-page-read", "offset", None if t[0] == "attr" and t[2] == "file_offset" else f"{t}", "a page is read from the wrong place", n)
    st = [n for n in g.live if n.kind == "attrstore" and n.name == "read" and p.term(n.value, n) == const(True)]
    rrow = [n for n in g.live if n.kind in ("enter", "call") and n.name == "_read_row"]
    if st and rrow:
        w = p.must_precede(rrow, st)
        c.ob("M8c-marked-after-reading", "read", w, "a page is marked as read before it was read")
        w = p.path(st, rrow)
        c.ob("M8c-marked-after-reading", "all rows", w, "a page is marked as read before all of its rows were read")
        bs = [n for n in g.live if n.kind == "substore" and is_self_attr(p.term(n.base, n), "page_bounds")]
        for s in bs:
            ok = p.term(s.key, s) == ("param", "page_index")
            c.ob("M8d-bounds-of-page", "index", None if ok else True, "the bounds of a page are stored for another page", s)
        w = p.path(fl_out(p, rrow), [g.exit], stop_node=lambda m: m in bs) if bs else None
        c.ob("M8d-bounds-of-page", "stored", w, "the bounds of a page that was read are not stored")
        # number of rows read: one per row of the page
        cnt = {}
        okc = True
        for lo, n in seq(p, rrow):
            h = [p.g.nodes[i] for i in lo]
            if not h:
                cnt = padd(cnt, pconst(1))
                continue
            t = p.expand(p.term(h[-1].iterable, h[-1])) if h[-1].kind == "iter" else ("?",)
            if t[0] == "call" and t[2] == "range" and len(h) == 1:
                a = t[4]
                cnt = padd(cnt, poly(a[0]) if len(a) == 1 else padd(poly(a[1]), poly(a[0]), -1))
            else:
                okc = False
        if okc:
            ok = len(cnt) == 1 and list(cnt.values()) == [1] and list(cnt)[0] and list(cnt)[0][0][0] == "attr" and list(cnt)[0][0][2] == "n_rows"
            c.ob("M8e-rows-of-page", "count", None if ok else f"{_fmt([((), cnt)])}", "not exactly the rows of the page are read", rrow[0])
    rr = c.flow(M + "AddressReader._read_row", inline=fresh)
    for n in rr.g.live:
        if n.kind == "substore":
            k, v = rr.term(n.key, n), rr.term(n.value, n)
            c.ob("M8f-row-stored", "key", None if k == ("attr", v, "key") and is_self_attr(rr.term(n.base, n), "rows") else True,
                 "a row is stored under another key", n)
    for n in calls(rr, "read"):
        ok = [rr.term(a, n) for a in list(n.args[1:]) + list(n.kwargs.values())] == [self_flag("n_addresses"), self_flag("int_size")] or (
            n.kwargs and {k: rr.term(v, n) for k, v in n.kwargs.items()}.items() <= {"n_addresses": self_flag("n_addresses"), "int_size": self_flag("int_size")}.items() | set())
        if len(n.args) == 3:
            c.ob("M8g-row-format", "read", None if ok else True, "rows are read with another format than the file's", n)
    w = rr.must_precede([n for n in rr.g.live if n.kind == "substore"], [rr.g.exit])
    c.ob("M8f-row-stored", "always", w, "a row that was read is not remembered")
    # read_all
    a = c.flow(M + "AddressReader.read_all", inline=lambda f: f.name not in ("_read_row",) and inl(f))
    g = a.g
    enough = [(b, lab) for b in g.live if b.kind == "branch" for lab in (True, False) if any(
        (lit[0] == "lt" and lit[3] is False and mentions(a.expand(lit[1]), lambda s: s == self_flag("rows")) and lit[2] == self_flag("n_rows"))
        or (lit[0] == "eq" and lit[3] is True and self_flag("n_rows") in lit[1:3]) for lit in a.lits(b, lab))]
    allp = [h for h in a.loops() if h.kind == "iter" and is_self_attr(a.term(h.iterable, h), "pages") or h.kind == "iter" and (
        lambda t: t[0] == "call" and t[2] in ("list", "tuple", "iter") and self_flag("pages") in t[4])(a.expand(a.term(h.iterable, h)))]
    w = a.path([g.entry], [g.exit], stop_edge=lambda b, lab: (b, lab) in enough or (b in allp and lab == "done"))
    c.ob("M9-read-all", "complete", w, "read_all returns before every row was read")
    for n in calls(a, "seek"):
        un = [(b, lab) for b in g.live if b.kind == "branch" for lab in (True, False) if any(
            lit[0] == "truth" and lit[2] is False and lit[1][0] == "attr" and lit[1][2] == "read" for lit in a.lits(b, lab))]
        if un:
            w = a.path([g.entry], [n], stop_edge=lambda b, lab: (b, lab) in un or (b in allp and lab == "done"))
            c.ob("M9-read-all", "first unread", w, "reading starts after pages that were never read", n)
            for b, lab in un:
                w = a.path([(b, lab)], lambda m: m in allp, stop_node=lambda m: m is n)
                c.ob("M9-read-all", "stops at first", w, "reading starts at the last unread page, skipping earlier ones", b)
    for n in retvals(a):
        c.ob("M9-read-all", "rows", None if is_self_attr(a.term(n.value, n), "rows") or a.derives(n.value, n, lambda t, m: is_self_attr(t, "rows")) else True,
             "read_all does not return the rows", n)


def fl_out(fl, nodes):
    return fl.out_edges(nodes, normal=True)


def _sub(p, m):
    out = {}
    for k, v in p.items():
        out[tuple(sorted((m.get(x, x) for x in k), key=repr))] = v
    return out


def blocks(c, inl):
    w = c.flow(M + "MultiblockWriter.write_bytes", inline=inl)
    g = w.g
    W = [x for x in writes(w) if is_self_attr(w.term(x[4].recv, x[4]), "stream")]
    c.require(W, "block writer not understood")
    total = {}
    for loops, size, val, kind, n in W:
        total = padd(total, size)
    data = _len(("param", "data"))
    pre = W[0]
    ok = pre[3] != "raw" and pre[3] != "uuid" and pre[2] == data and pre[1] == poly(self_flag("int_size")) and W[-1][2] == ("param", "data") and len(W) == 2
    c.ob("M10-block-layout", "prefix", None if ok else True, "a block is not written as its size followed by its bytes", pre[4])
    mk = ctor(w, "Address")
    for n in mk:
        o, s = arg(n, 0, "offset"), arg(n, 1, "size")
        c.ob("M10b-block-address", "size", None if s is not None and poly(ex(w, s, n)) == total else True, "the recorded size of a block is not its size in the file", n)
        ok = o is not None and w.expand(w.term(o, n)) == self_flag("file_size")
        fs = [m for m in g.live if m.kind == "attrstore" and m.name == "file_size"]
        if ok:
            # the value read must be the one from before this block was accounted for
            src = [m for m in g.live if m.kind == "def" and any(val == ("attr", ("var", 0, "self"), "file_size") for _, val in m.defs)]
            at = [n] if o[0] == "attr" else [m for m in src if any(v == o for v, _ in m.defs)] or [n]
            wit = w.path(fl_out(w, fs), at)
            c.ob("M10b-block-address", "offset", wit, "the recorded offset of a block is where it ends, not where it starts", n)
        else:
            c.fail("M10b-block-address", "offset", "the recorded offset of a block is not the position at which it was written", n)
        if not fs:
            c.fail("M10c-file-size", "advance", "the position for the next block is never advanced", func=w.g.root)
        for m in fs:
            v = poly(ex(w, m.value, m))
            if m.d.get("aug") == "Add":
                okv = v == total
            else:
                okv = padd(v, {(self_flag("file_size"),): 1}, -1) == total
            c.ob("M10c-file-size", "amount", None if okv else f"{_fmt([((), v)])}", "the position for the next block is not where this one ends", m)
        wit = w.path([g.entry], [g.exit], stop_node=lambda m: m in fs)
        c.ob("M10c-file-size", "always", wit, "the position for the next block is not advanced")
    st = [m for m in g.live if m.kind == "substore" and is_self_attr(w.term(m.base, m), "addresses")]
    wit = w.path([g.entry], [g.exit], stop_node=lambda m: m in st)
    c.ob("M10d-address-recorded", "always", wit, "a block is written but its address is not recorded")
    for m in st:
        c.ob("M10d-address-recorded", "id", None if w.term(m.key, m) == ("param", "id") and any(
            w.derives(m.value, m, lambda t, k: t == ("tmp", n.id)) for n in mk) else True, "a block's address is recorded under another ID", m)
    wn = [x[4] for x in W]
    for x in wn:
        wit = w.path([g.entry], st, stop_edge=lambda b, lab: b is x and lab != "exc")
        c.ob("M10e-recorded-after-write", "write", wit, "the address of a block is recorded although it was not completely written", x)
    dup = edges(w, lambda lit: lit[0] == "in" and lit[3] is False and lit[1] == ("param", "id") and lit[2] == self_flag("addresses"))
    wit = w.path([g.entry], wn, stop_edge=lambda b, lab: (b, lab) in dup)
    c.ob("M10f-no-duplicates", "write", wit, "a second block can be written under the same ID, making the first unreachable")
    # reading
    r = c.flow(M + "MultiblockReader.read_bytes", inline=inl)
    g = r.g
    sk, rd = calls(r, "seek"), [n for n in calls(r, "read") if n.recv is not None and is_self_attr(r.term(n.recv, n), "stream")]
    c.require(rd, "block reader not understood")
    for n in rd[:1]:
        wit = r.must_precede(sk, [n])
        c.ob("M11-block-read", "seek", wit, "a block is read without moving to its offset", n)
    for n in sk:
        c.ob("M11-block-read", "offset", None if ex(r, n.args[0], n) == ("attr", ("param", "address"), "offset") else True, "a block is not read from its recorded offset", n)
    tot = {}
    for loops, size, n in reads(r):
        tot = padd(tot, size or {})
    if len(rd) == 1:
        c.ob("M11-block-read", "size", None if tot == poly(("attr", ("param", "address"), "size")) else True, "a block is not read with its recorded size", rd[0])
    empty = edges(r, lambda lit: (lit[0] == "truth" and lit[2] is False and lit[1] == ("attr", ("param", "address"), "size")) or (
        lit[0] == "eq" and lit[3] is True and const(0) in lit[1:3] and ("attr", ("param", "address"), "size") in lit[1:3]))
    c.ob("M11b-absent-block", "test", None if empty else True, "an absent block is not recognised", func=g.root)
    none = [n for n in retvals(r) if r.term(n.value, n) == const(None)]
    wit = r.path([g.entry], none, stop_edge=lambda b, lab: (b, lab) in empty)
    c.ob("M11b-absent-block", "only empty", wit, "a block that exists is reported absent")
    wit = r.path(empty, rd) if empty else None
    c.ob("M11b-absent-block", "not read", wit, "an absent block is read as if it were at the start of the file")
    good = [(b, lab) for b in g.live if b.kind == "branch" for lab in (True, False) if any(
        lit[0] == "eq" and lit[3] is True and any(_is_len(r, x) for x in lit[1:3]) and any(
            r.derives(x, b, lambda t, m: t[0] == "tmp" and g.nodes[t[1]].kind == "call" and g.nodes[t[1]].name == "from_bytes") for x in lit[1:3])
        for lit in r.lits(b, lab))]
    oks = [n for n in retvals(r) if n not in none]
    wit = r.path([g.entry], oks, stop_edge=lambda b, lab: (b, lab) in good)
    c.ob("M11c-damage-detected", "size", wit, "a damaged or truncated block is returned without checking its stored size")
    for n in oks:
        t = r.expand(r.term(n.value, n))
        if t[0] == "sub" and t[2][0] == "slice":
            lo = t[2][1][0]
            c.ob("M11d-payload", "slice", None if lo == self_flag("int_size") and t[2][1][1] == const(None) else True, "the returned bytes are not exactly the payload", n)
    for b, lab in good:
        for lit in r.lits(b, lab):
            if lit[0] != "eq":
                continue
            for x in lit[1:3]:
                e = r.expand(x)
                if e[0] == "call" and e[2] == "len" and e[4][0][0] == "sub":
                    sl = e[4][0][2]
                    c.ob("M11c-damage-detected", "payload", None if sl[0] == "slice" and sl[1][0] == self_flag("int_size") else True,
                         "the size check is not about the payload", b)
    # sequential reading
    s = c.flow(M + "MultiblockReader.read_all_bytes_in_zip", inline=inl)
    R = reads(s)
    ys = [n for n in s.g.live if n.kind == "yield"]
    c.require(ys, "sequential block reader not understood")
    pref = [n for _, size, n in R if size == poly(("param", "int_size"))]
    pay = [n for _, size, n in R if size != poly(("param", "int_size"))]
    for n in pay:
        ok = n.args and s.derives(n.args[0], n, lambda t, m: t[0] == "tmp" and g_call(s, t, "from_bytes"))
        c.ob("M12-sequential", "payload size", None if ok else True, "blocks are not read with their stored size", n)
        wit = s.path([s.g.entry], [n], stop_node=lambda m: m in pref)
        c.ob("M12-sequential", "prefix first", wit, "a block is read without its size prefix", n)
        wit = s.path(fl_out(s, [n]), [n], stop_node=lambda m: m in pref)
        c.ob("M12-sequential", "prefix each", wit, "the next block is read without its size prefix", n)
        wit = s.path(fl_out(s, [n]), lambda m: m in pref, stop_node=lambda m: m in ys)
        c.ob("M12-sequential", "yielded", wit, "a block is skipped", n)
    wit = s.path([s.g.entry], [s.g.exit], stop_edge=lambda b, lab: any(
        (lit[0] == "truth" and lit[2] is False or lit[0] == "lt" or lit[0] == "eq") and s.derives(lit[1], b, lambda t, m: t[0] == "tmp" and t[1] in {x.id for x in pref})
        for lit in s.lits(b, lab)))
    c.ob("M12-sequential", "until end", wit, "sequential reading stops before the end of the file")


def g_call(fl, t, *names):
    return fl.g.nodes[t[1]].kind == "call" and fl.g.nodes[t[1]].name in names


def _is_len(fl, t):
    e = fl.expand(t)
    return e[0] == "call" and e[2] == "len"


def _fname(fl, n, i=0):
    t = ex(fl, n.args[i], n) if len(n.args) > i else ("?",)
    if t[0] == "call" and t[2] == "ZipInfo":
        t = t[4][0]
    if t[0] == "fstr":
        return tuple(x[2] if x[0] == "const" else "*" if x == ("param", "name") else "?" for x in t[1])
    if t[0] == "op" and t[1] == "Add":
        return tuple(x[2] if x[0] == "const" else "*" if x == ("param", "name") else "?" for x in t[2])
    return ("?", repr(t)[:60])


def names(c, inl):
    got = {}
    for q in ("AddressWriter.write_to_zip", "AddressReader.open_in_zip", "MultiblockWriter.open_in_zip", "MultiblockReader.open_in_zip",
              "MultiblockReader.read_all_bytes_in_zip"):
        f = c.flow(M + q, inline=inl)
        s = set()
        for n in calls(f, "open"):
            if n.recv is not None and f.term(n.recv, n) == ("param", "zf"):
                s.add(_fname(f, n))
        for n in calls(f, "write"):
            if n.recv is not None and f.term(n.recv, n) == ("param", "zf"):
                s.add(_fname(f, n, 1) if len(n.args) > 1 else ("none",))
        got[q] = s
    for kind, qs in (("address", ("AddressWriter.write_to_zip", "AddressReader.open_in_zip")),
                     ("block", ("MultiblockWriter.open_in_zip", "MultiblockReader.open_in_zip", "MultiblockReader.read_all_bytes_in_zip"))):
        allv = set().union(*(got[q] for q in qs))
        und = any("?" in x for x in allv)
        c.ob("M13-file-names", kind, None if len(allv) == 1 or und else f"{got}", "files are written and read under different names",
             func=c.prog.func(M + qs[0]))
    a, b = got["AddressWriter.write_to_zip"], got["MultiblockWriter.open_in_zip"]
    c.ob("M13-file-names", "distinct", None if not (a & b) else True, "address and block files share a name")
    f = c.flow(M + "MultiblockWriter.open_in_zip", inline=inl)
    g = f.g
    tmp = [n for n in f.g.calls() if (n.callee or "").startswith("tempfile.")]
    zw = [n for n in calls(f, "write") if f.term(n.recv, n) == ("param", "zf")]
    ys = [n for n in g.live if n.kind == "yield"]
    if tmp:
        ty = [y for y in ys if f.path(fl_out(f, tmp), [y]) is not None]
        wit = f.path(fl_out(f, ty), [g.exit], stop_node=lambda n: n in zw)
        c.ob("M13b-tempfile-stored", "written", wit, "blocks written to a temporary file never reach the archive")
        fls = [n for n in calls(f, "flush", "close")]
        wit = f.path(fl_out(f, ty), zw, stop_node=lambda n: n in fls)
        c.ob("M13b-tempfile-stored", "flushed", wit, "blocks still in the buffer of the temporary file never reach the archive")
    for y in ys:
        for n in ctor(f, "MultiblockWriter"):
            a = arg(n, 1, "int_size")
            c.ob("M13c-int-size", "writer", None if a is not None and f.term(a, n) == ("param", "int_size") else True, "blocks are written with another integer size", n)


def codec(c, inl):
    # one byte order everywhere
    orders = {}
    for q, fn in c.prog.funcs.items():
        if not fn.module.name.endswith("._multiblock") or fn.parent is not None:
            continue
        f = c.flow(fn.qual, inline=fresh)
        for n in calls(f, "to_bytes", "from_bytes"):
            t = n.args[1] if len(n.args) > 1 else n.kwargs.get("byteorder")
            bo = f.term(t, n) if t is not None else const("big")
            sg = n.kwargs.get("signed")
            orders.setdefault((bo, f.term(sg, n) if sg is not None else const(False)), []).append(n)
    c.ob("M15-byte-order", "all", None if len(orders) <= 1 else f"{[(k[0][2], k[1][2]) for k in orders]}",
         "integers are written and read with different byte order or sign", next(iter(orders.values()))[0] if orders else None)
    w = c.flow(M + "MultiblockWriter.write_model", inline=fresh)
    for n in calls(w, "write_bytes"):
        comp = n.args[1] if len(n.args) > 1 else n.kwargs.get("data")
        ok = comp is not None and w.derives(comp, n, lambda t, m: t[0] == "tmp" and g_call(w, t, "compress"))
        c.ob("M14-models", "compressed", None if ok else True, "a model is stored uncompressed, but read as compressed data", n)
        ok = comp is not None and w.derives(comp, n, lambda t, m: t[0] == "tmp" and g_call(w, t, "model_dump_json"))
        c.ob("M14-models", "json", None if ok else True, "a model is not stored as JSON", n)
        kw = [m for m in calls(w, "model_dump_json") if any(k.startswith("exclude") or k in ("include", "by_alias") for k in m.kwargs)]
        c.ob("M14-models", "whole model", True if kw else None, "only part of a model is stored", n)
        i = n.args[0] if n.args else n.kwargs.get("id")
        c.ob("M14-models", "id", None if i is not None and w.term(i, n) == ("param", "id") else True, "a model is stored under another ID", n)
    for q in ("MultiblockReader.read_model", "MultiblockReader.read_all_models_in_zip"):
        r = c.flow(M + q, inline=fresh)
        for n in calls(r, "model_validate_json"):
            ok = n.args and r.derives(n.args[0], n, lambda t, m: t[0] == "tmp" and g_call(r, t, "decompress"))
            c.ob("M14-models", q + ":decompressed", None if ok else True, "a model is read without decompressing it", n)
            ok = n.recv is not None and r.term(n.recv, n) == ("param", "model_type")
            c.ob("M14-models", q + ":type", None if ok else True, "a model is read as another type", n)
    r = c.flow(M + "MultiblockReader.read_model", inline=fresh)
    rb = [n for n in calls(r, "read_bytes")]
    isn = [(b, lab) for b in r.g.live if b.kind == "branch" for lab in (True, False) if any(
        lit[0] == "isnone" and lit[2] is True and r.derives(lit[1], b, lambda t, m: t[0] == "tmp" and t[1] in {n.id for n in rb}) for lit in r.lits(b, lab))]
    none = [n for n in retvals(r) if r.term(n.value, n) == const(None)]
    wit = r.path([r.g.entry], none, stop_edge=lambda b, lab: (b, lab) in isn)
    c.ob("M14b-absent-model", "none", wit, "a model that exists is reported absent")
    wit = r.path(isn, calls(r, "decompress")) if isn else None
    c.ob("M14b-absent-model", "decompress", wit, "an absent model is decompressed")


def complete(c: Check):
    """Nothing is left out of a file or of what is read from it."""
    inl = lambda f: f.module.name.endswith("._multiblock")  # noqa: E731
    no = lambda f: False  # noqa: E731
    w = c.flow(M + "AddressRow.write", inline=inl)
    for h in q.over(w, lambda t: mentions(t, lambda s: s == self_flag("addresses"))):
        q.full(c, "M15-nothing-left-out", "row addresses written", w, h, "only some of a row's addresses are written")
    r = c.flow(M + "AddressRow.read", inline=inl)
    for h in q.over(r, lambda t: mentions(t, lambda s: s == ("param", "n_addresses")), comp=False):
        q.full(c, "M15-nothing-left-out", "row addresses read", r, h, "only some of a row's addresses are read")
    # the address file
    w = c.flow(M + "AddressWriter.write", inline=lambda f: inl(f) and f.name not in ("write", "get_all_ids"))
    rw = [n for n in calls(w, "write") if len(n.args) == 2 or "int_size" in n.kwargs]
    mk = ctor(w, "AddressRow")
    heads = q.over(w, lambda t: mentions(t, lambda s: s[0] == "call" and s[2] == "sorted"), comp=False)
    for h in heads:
        q.full(c, "M15-nothing-left-out", "rows written", w, h, "only some of the address rows are written, although all are counted")
        if rw:
            q.each(c, "M15-nothing-left-out", "each row", w, h, rw, "an address row is counted in the header but not written")
    for n in mk:
        k = arg(n, 0, "key")
        idx = [s for s in subterms(ex(w, k, n)) if s[0] == "enumidx"] if k is not None else ["x"]
        c.ob("M15b-row-key", "write", True if idx else None, "an address row is not keyed by its ID", n)
        for s in rw:
            b = arg(s, 1, "int_size")
            c.ob("M15b-row-key", "int_size", None if b is not None and w.term(b, s) == ("param", "int_size") else True,
                 "rows are written with another integer size than the header", s)
    # only the caller's IDs, or all of them
    ga = calls(w, "get_all_ids")
    if ga:
        isn = q.lit_edges(w, lambda lit, n: lit[0] == "isnone" and lit[2] is True and lit[1][0] in ("param", "var") and lit[1][-1] == "all_ids")
        if isn:
            wit = w.path(q.as_edges(w, isn), heads, stop_node=lambda m: m in ga)
            c.ob("M15c-all-ids", "default", wit, "without given IDs, the rows are not those of all IDs")
    ids = c.flow(M + "AddressWriter.get_all_ids", inline=inl)
    over = [h for h in q.iters(ids) if mentions(ids.expand(ids.term(h.iterable, h)), lambda s: s == self_flag("addresses"))]
    for h in over:
        q.full(c, "M15c-all-ids", "every file", ids, h, "the IDs of one of the files are left out of the address rows")
    vals = [n for n in ids.g.calls() if n.name in ("values", "items") and n.recv is not None]
    c.ob("M15c-all-ids", "keys", True if vals else None, "the IDs of the rows are not the keys of the address maps", func=ids.g.root)
    if not over:
        t = [n for n in retvals(ids) if ids.derives(n.value, n, lambda t, m: t == self_flag("addresses"), through_args=True)]
        c.ob("M15c-all-ids", "source", None if t else True, "the IDs of the rows are not collected from the address maps", func=ids.g.root)
    z = c.flow(M + "AddressWriter.write_to_zip", inline=lambda f: inl(f) and f.name not in ("write", "get_all_ids"))
    ww = [n for n in calls(z, "write")]
    c.ob("M15d-zip-entry", "rows", z.path([z.g.entry], [z.g.exit], stop_node=lambda m: m in ww), "the address file is left empty")
    op = [n for n in calls(z, "open")]
    fs = [n for n in z.g.live if n.kind == "attrstore" and n.name == "file_size"]
    for n in op:
        forced = n.kwargs.get("force_zip64")
        if forced is not None and z.term(forced, n) == const(True):
            continue
        c.ob("M15e-large-files", "addresses", z.must_precede(fs, [n]),
             "the address file is opened without its size: writing fails (after all the work) once it is larger than 2 GiB", n)
    for n in fs:
        rs, hs = (_retpoly(c, M + "AddressReader." + k, inl) for k in ("compute_row_size", "compute_header_size"))
        if rs is None or hs is None:
            continue
        got = poly(ex(z, n.value, n))
        rows = _sub(rs, {("param", "n_addresses"): _len(self_flag("addresses"))})
        diff = padd(got, hs, -1)
        cnt = {s for m in diff for s in m if s[0] == "call" and s[2] == "len" and s != _len(self_flag("addresses"))}
        ok = len(cnt) == 1 and diff == pmul(rows, {(next(iter(cnt)),): 1})
        c.ob("M15e-large-files", "declared size", None if ok or not cnt else _fmt([((), got)]), "the declared size of the address file is not its size", n)
    m = c.flow(M + "MultiblockWriter.open_in_zip", inline=inl)
    for n in calls(m, "open"):
        if n.recv is None or m.term(n.recv, n) != ("param", "zf"):
            continue
        fz = n.kwargs.get("force_zip64")
        c.ob("M15e-large-files", "blocks", None if fz is not None and m.term(fz, n) == const(True) else True,
             "a multi-block file of unknown size is opened without zip64: writing fails once it is larger than 2 GiB", n)
    # pages
    r = c.flow(M + "AddressReader.from_stream", inline=inl)
    ap = [n for n in calls(r, "append") if n.recv is not None and mentions(ex(r, n.recv, n), lambda s: s[0] == "attr" and s[2] == "pages")]
    mk = ctor(r, "AddressPage")
    for n in mk:
        for h in [h for h in r.enclosing_loops(n)]:
            wit = r.path(r.out_edges([n]), lambda x: x is h, stop_node=lambda x: x in ap) if ap else None
            c.ob("M15f-pages", "kept", wit, "a page of the address file is not remembered, so its rows are never found", n)
            body = r.loop_body(h)
            for nm, i in (("file_offset", 0), ("begin", 1)):
                e = arg(n, i, nm)
                if e is None:
                    c.fail("M15f-pages", nm, "a page is set up without its position", n)
                    continue
                t = r.term(e, n)
                moves = any(s[0] in ("var", "elem", "elemof", "enumidx", "tmp") for s in subterms(r.expand(t, 8)))
                if t[0] == "var":
                    moves = any(d[2].id in body for d in r.reaching(t, n))
                c.ob("M15f-pages", nm, None if moves else True, "the position of a page does not move on from one page to the next", n)
            # the loop runs while rows are left
            if h.kind != "iter":
                be = arg(n, 1, "begin")
                for b in [b for b in r.g.live if b.kind == "branch" and b.atom[0] == "lt" and b.id in body]:
                    for lab in (True, False):
                        if r.path([(b, lab)], [n], stop_node=lambda x: x is b) is None:
                            continue
                        for lit in r.lits(b, lab):
                            if lit[0] == "lt" and be is not None and lit[1] == r.term(be, b):
                                c.ob("M15f-pages", "while rows are left", None if lit[3] else True, "pages are set up beyond the last row", b)
                            elif lit[0] == "lt" and be is not None and lit[2] == r.term(be, b) and lit[3] is False:
                                c.fail("M15f-pages", "while rows are left", "an empty page is set up after the last row", b)
    p = c.flow(M + "AddressReader._read_page", inline=inl)
    for h in q.iters(p, comp=False):
        if mentions(p.expand(p.term(h.iterable, h)), lambda s: s[0] == "attr" and s[2] == "n_rows"):
            q.full(c, "M15-nothing-left-out", "rows of a page", p, h, "only some of the rows of a page are read, although it counts as read")
    for n in ctor(p, "PageBounds"):
        for k, i in (("page_index", 0), ("uuid_int_begin", 1), ("uuid_int_end", 2)):
            c.ob("M15g-bounds", k, None if arg(n, i, k) is not None else True, "the bounds of a page are incomplete", n)
    f = c.flow(M + "AddressReader.find", inline=lambda f: inl(f) and f.name != "_read_page")
    usesb = [b for b in f.g.live if b.kind == "branch" and mentions(f.expand(b.atom, 8), lambda s: s == self_flag("page_bounds"))]
    usesb = usesb or [b for b in f.g.live if b.kind == "branch" and any(mentions(f.expand(x, 8), lambda s: s == self_flag("page_bounds"))
                                                                        for lit in f.lits(b, True) for x in lit[1:] if isinstance(x, tuple))]
    if usesb:
        bs = [n for n in p.g.live if n.kind == "substore" and is_self_attr(p.term(n.base, n), "page_bounds")] + [
            n for n in calls(p, "update", "setdefault") if n.recv is not None and is_self_attr(p.term(n.recv, n), "page_bounds")]
        c.ob("M15g-bounds", "stored", None if bs else True, "lookups use page bounds that are never recorded", func=p.g.root)
        c.ob("M15g-bounds", "read", None if calls(f, "_read_page") else True, "lookups use the bounds of pages that were never read", func=f.g.root)
    rp = calls(f, "_read_page")
    look = [n for n in calls(f, "get") if n.recv is not None and is_self_attr(f.term(n.recv, n), "rows")]
    inrows = q.lit_edges(f, lambda lit, n: lit[0] == "in" and lit[2] == self_flag("rows"))
    for n in rp:
        loops = f.enclosing_loops(n)
        ls = {x.id for x in look} | {i for i, _ in inrows}
        wit = f.path(f.out_edges([n]), lambda x: x in loops or x in (f.g.exit, f.g.exc_exit) or x.kind == "raise", stop_node=lambda x: x.id in ls) if ls else None
        c.ob("M15h-page-searched", "rows", wit, "a page is read but the key is not looked for in it", n)
        if loops:
            wit = f.path(list(loops), usesb, stop_node=lambda x: x is n) if usesb else None
            c.ob("M15h-page-searched", "read first", wit, "the bounds of a page are used before the page is read", n)
        mid = f.term(n.args[0], n) if n.args else ("?",)
        for h in loops:  # the first candidates are all pages
            body = f.loop_body(h)
            mv = {s for s in subterms(f.expand(mid, 8)) if s[0] == "var"}
            if h.kind != "iter":
                ups = {m.id for m in f.g.live if m.kind == "def" and m.id in body and any(v in mv for v, _ in m.defs)}
                wit = f.path(f.out_edges([n]), lambda x: x is h, stop_node=lambda x: x.id in ups)
                c.ob("M15h-page-searched", "progress", wit, "the search for a key never ends", n)
            for v in mv:
                ini = [(val, d) for _, val, d in f.reaching(v, h) if d.id not in body and val != v]
                if len(ini) == 1:
                    t = poly(f.expand(f.term(*ini[0]), 8))
                    if not t or set(t) <= {()}:
                        c.ob("M15h-page-searched", "from the first", None if not t or t == pconst(0) else f"{t}", "the first pages are never searched", n)
                    else:
                        d = padd(t, {(_len(self_flag("pages")),): 1}, -1)
                        if set(d) <= {()}:
                            c.ob("M15h-page-searched", "to the last", None if d.get((), 0) >= -1 else f"{d}", "the last pages are never searched", n)
    first = {x.id for x in look} | {i for i, _ in inrows}
    if first:
        wit = f.path([f.g.entry], [n for n in f.g.live if n.kind == "raise" and n.frame.id == 0], stop_node=lambda x: x.id in first)
        c.ob("M15h-page-searched", "already read", wit, "a key whose row was already read is reported missing")
    k = c.flow(M + "AddressReader.from_stream", inline=inl)
    for n in ctor(k, "AddressReader"):
        for i, nm in ((0, "stream"), (1, "int_size"), (3, "n_addresses")):
            e = arg(n, i, nm)
            if e is not None:
                t = ex(k, e, n)
                c.ob("M15j-reader", nm, None if t == ("param", nm) or t[0] not in ("param",) and not mentions(t, lambda s: s[0] == "param" and s[1] in (
                    {"stream", "int_size", "n_addresses"} - {nm})) or uses_stream(t) else f"{t}", "the reader is set up with another layout than requested", n)
    a = c.flow(M + "AddressReader.read_all", inline=lambda f: f.name not in ("_read_row",) and inl(f))
    for n in calls(a, "read"):
        if n.recv is not None and is_self_attr(a.term(n.recv, n), "stream"):
            c.ob("M15k-read-all", "seek", a.must_precede(calls(a, "seek"), [n]), "the remaining rows are read from wherever the stream happens to be", n)
    for h in q.over(a, lambda t: mentions(t, lambda s: s == self_flag("pages")), comp=False):
        if any(n.name == "_read_page" for n in a.g.live if n.kind in ("call", "enter") and n.id in a.loop_body(h)):
            continue
        isread = q.lit_edges(a, lambda lit, n: lit[0] == "truth" and lit[2] is True and lit[1][0] == "attr" and lit[1][2] == "read")
        wit = a.path([(h, "elem")], lambda m: m is h, stop_edge=lambda b, lab: (b.id, lab) in isread)
        c.ob("M15k-read-all", "unread pages", wit, "a page that was not read is passed over", h)
    # whole files
    a = c.flow(M + "MultiblockReader.read_all_models_in_zip", inline=no)
    y = [n for n in a.g.live if n.kind == "yield"]
    src = q.over(a, lambda t: mentions(t, lambda s: s[0] == "call" and s[2] == "read_all_bytes_in_zip"))
    for h in src:
        q.full(c, "M15-nothing-left-out", "models of a file", a, h, "only some of the models in a file are read")
        if y and not h.d.get("comp"):
            q.each(c, "M15-nothing-left-out", "each model", a, h, y, "a model in a file is skipped", breaks=False)
    r = c.flow(M + "MultiblockReader.read_model", inline=no)
    rb = calls(r, "read_bytes")
    notn = q.lit_edges(r, lambda lit, n: (lit[0] == "isnone" and lit[2] is False or lit[0] == "truth" and lit[2] is True) and q.frm(r, lit[1], n, rb, False))
    wit = r.path([r.g.entry], calls(r, "decompress"), stop_edge=lambda b, lab: (b.id, lab) in notn)
    c.ob("M15i-absent-model", "test", wit, "an ID without a block makes reading fail instead of being reported absent")


def uses_stream(t):
    return mentions(t, lambda s: s[0] == "call")
