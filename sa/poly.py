"""Polynomial normal form of integer terms, and extraction of byte-stream layouts."""

from __future__ import annotations


def poly(t, subst=None):
    """Normal form of an (expanded) arithmetic term: {sorted tuple of atoms: coefficient}; never fails (opaque terms are atoms)."""
    subst = subst or {}
    if t in subst:
        return poly(subst[t], {k: v for k, v in subst.items() if k != t})
    if t[0] == "const" and t[1] == "int":
        return {(): t[2]} if t[2] else {}
    if t[0] == "op" and t[1] in ("Add", "AugAdd", "Sub", "AugSub", "Mult", "AugMult") and len(t[2]) == 2:
        a, b = poly(t[2][0], subst), poly(t[2][1], subst)
        op = t[1].replace("Aug", "")
        if op == "Mult":
            return pmul(a, b)
        return padd(a, b, -1 if op == "Sub" else 1)
    if t[0] == "op" and t[1] in ("USub",) and len(t[2]) == 1:
        return padd({}, poly(t[2][0], subst), -1)
    if t[0] == "op" and t[1] == "LShift" and t[2][1][0] == "const":
        return pmul(poly(t[2][0], subst), {(): 1 << t[2][1][2]})
    return {(t,): 1}


def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + k * c
        if not r[m]:
            del r[m]
    return r


def pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            x = tuple(sorted(m + n, key=repr))
            r[x] = r.get(x, 0) + c * d
    return {m: c for m, c in r.items() if c}


def pconst(v):
    return {(): v} if v else {}


def order(fl):
    """Reverse postorder over normal edges."""
    seen, out = set(), []
    st = [(fl.g.entry, iter([s for s, lab in fl.g.entry.succ if lab != "exc"]))]
    seen.add(fl.g.entry.id)
    while st:
        n, it = st[-1]
        for s in it:
            if s.id not in seen:
                seen.add(s.id)
                # visit loop bodies last, so that they come first in the reversed order
                succ = [x for x, lab in s.succ if lab != "exc"]
                if s.kind == "iter":
                    succ.sort(key=lambda x: 0 if any(y is x and lab == "done" for y, lab in s.succ) else 1)
                st.append((s, iter(succ)))
                break
        else:
            out.append(n)
            st.pop()
    out.reverse()
    return {n.id: i for i, n in enumerate(out)}


def seq(fl, nodes):
    """Nodes in execution order, each with the loops (outermost first) around it."""
    o = order(fl)
    out = []
    for n in sorted((n for n in nodes if n.id in o), key=lambda n: o[n.id]):
        loops = sorted((h for h in fl.enclosing_loops(n)), key=lambda h: -len(fl.loop_body(h)))
        out.append((tuple(h.id for h in loops), n))
    return out
