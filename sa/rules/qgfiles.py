"""Predicted quantum graph files: every component written is read back under the same name; incomplete graphs are refused."""

from __future__ import annotations

import ast

from ..ir import unknown
from .. import q as Q
from ..known import fresh
from ..lib import Check, is_self_attr, self_flag
from ..q import (arg, bycall, calls, const, ctor, each, ex, follows, guard, iters, kws, lit_edges, mentions, over, retvals, subterms,
                 tail)

CM = "quantum_graph._common."
PR = "quantum_graph._predicted."


def run(c: Check):
    container(c)
    header_keys(c)
    write(c)
    read(c)
    models(c)
    construct(c)


def _same_module(cls):
    return lambda f: f.module is cls.module


def _str(t):
    return t[2] if t is not None and t[0] == "const" and isinstance(t[2], str) else None


def container(c):
    """The common container: block naming, compression dictionary, address file, graph type."""
    W = c.prog.cls(CM + "BaseQuantumGraphWriter")
    R = c.prog.cls(CM + "BaseQuantumGraphReader")
    # naming and codec of single blocks
    forms = {}
    wb = c.flow(W.methods["write_single_block"].qual, inline=_same_module(W))
    for n in calls(wb, "writestr"):
        forms.setdefault("write", set()).add(ex(wb, n.args[0], n))
        ok = bycall(wb, n.args[1], n, "compress") and wb.derives(n.args[1], n, lambda t, m: t == ("param", "json_data"))
        c.ob("F1-block-compressed", "write", None if ok else True, "a block is stored without compressing its data", n)
    c.ob("F1-block-stored", "write_single_block", None if calls(wb, "writestr") else True, "blocks are not stored", func=wb.g.root)
    w = wb.must_precede(calls(wb, "writestr"), [wb.g.exit])
    c.ob("F1-block-stored", "paths", w, "a block may silently not be stored")
    for nm in ("_read_single_block_static", "_read_single_block_raw", "_read_single_block"):
        if nm not in R.methods:
            continue
        rb = c.flow(R.methods[nm].qual, inline=_same_module(R))
        rd = [n for n in calls(rb, "read", "read_bytes", "open")]
        for n in rd:
            if n.args:
                forms.setdefault("read " + nm, set()).add(ex(rb, n.args[0], n))
        for r in retvals(rb):
            ok = bycall(rb, r.value, r, "decompress") and any(bycall(rb, r.value, r, x) for x in ("read", "read_bytes"))
            c.ob("F1b-block-decompressed", nm, None if ok else True, "a block is returned without decompressing what was stored", r)
    wf = forms.pop("write", set())
    for k, f in sorted(forms.items()):
        c.ob("F1c-block-names", k, None if f == wf else f"written as {_short(wf)}, read as {_short(f)}",
             "blocks are looked up under a different name than they are stored under", func=R.methods[k.split()[1]])
    wm = c.flow(W.methods["write_single_model"].qual, inline=fresh)
    for n in calls(wm, "write_single_block"):
        a = arg(n, 0, "name")
        c.ob("F1d-model-name", "write_single_model", None if a is not None and wm.term(a, n) == ("param", "name") else True,
             "a model is stored under another name", n)
        ok = arg(n, 1, "json_data") is not None and wm.derives(arg(n, 1, "json_data"), n, lambda t, m: t == ("param", "model"))
        c.ob("F1d-model-name", "data", None if ok else True, "the block does not contain the model", n)
    for n in calls(wm, "model_dump_json", "model_dump"):
        bad = set(n.kwargs) & {"include", "exclude", "exclude_unset", "exclude_none"}
        c.ob("F1e-whole-model", "write_single_model", f"{sorted(bad)}" if bad else None, "fields are left out when a model is saved", n)
    # writer container
    wo = c.flow(W.methods["open"].qual, inline=fresh)
    g = wo.g
    ys = [n for n in g.live if n.kind == "yield"]
    c.require(ys, "writer context manager not understood")
    dictname = set()
    cd = ("param", "cdict_data")
    dw = [n for n in calls(wo, "writestr", "write_single_block") if len(n.args) > 1 and wo.derives(n.args[1], n, lambda t, m: t == cd)]
    for n in dw:
        dictname.add(ex(wo, n.args[0], n))
    comp = [n for n in calls(wo, "ZstdCompressor")]
    usesdict = [n for n in comp if any(wo.derives(v, n, lambda t, m: t == cd) for v in list(n.args) + list(n.kwargs.values()))]
    if usesdict:
        nod = lit_edges(wo, lambda lit, n: lit[0] == "isnone" and lit[2] is True and lit[1] == cd or lit[0] == "truth" and lit[2] is False
                        and lit[1] == cd)
        dwi = {n.id for n in dw}
        w = wo.path([g.entry], [g.exit], stop_node=lambda m: m.id in dwi, stop_edge=lambda n, lab: (n.id, lab) in nod)
        c.ob("F2-dictionary-stored", "write", w, "data are compressed with a dictionary that is not stored in the file")
        bad = [n for n in calls(wo, "writestr") if n in dw and bycall(wo, n.args[1], n, "compress")]
        c.ob("F2b-dictionary-raw", "write", True if bad else None, "the dictionary is itself stored compressed", bad[0] if bad else None)
    wz = [n for n in calls(wo, "write_to_zip", "write") if any(wo.derives(v, n, lambda t, m: t == ("param", "address_filename"))
                                                            for v in list(n.args) + list(n.kwargs.values()))]
    c.ob("F3-addresses-written", "instances", None if wz else True, "the address file is never written", func=g.root)
    zi = {n.id for n in wz}
    w = wo.path([(n, lab) for n in ys for _, lab in n.succ if lab != "exc"], [g.exit], stop_node=lambda m: m.id in zi)
    c.ob("F3-addresses-written", "normal", w, "the address file is not written when the body has finished")
    w = wo.path([(n, "exc") for n in ys], lambda m: m.id in zi)
    c.ob("F3b-damage-visible", "error", w, "a file whose writing failed gets an address file, so that it looks complete")
    w = wo.path([g.entry], lambda m: m.id in zi, stop_node=lambda m: m in ys)
    c.ob("F3c-addresses-last", "before", w, "the address file is written before the blocks it describes")
    hs = ("attr", ("param", "header"), "int_size")
    for n in wz:
        a = arg(n, 2, "int_size")
        if a is not None:
            ok = _int_size(wo, a, n, hs)
            c.ob("F4-int-size", "addresses", None if ok else True, "the address file's integer size is not the one in the header", n)
    for n in ctor(wo, "BaseQuantumGraphWriter"):
        a = arg(n, 3, "int_size")
        if a is not None:
            c.ob("F4-int-size", "writer", None if ex(wo, a, n) == hs else True, "the writer's integer size is not the one in the header", n)
    written = {}
    for n in calls(wo, "write_single_model"):
        written[_str(ex(wo, n.args[0], n))] = n
    # the header is written before the caller may change it; both standard blocks exist on every path
    for k in ("header", "pipeline_graph"):
        n = written.get(k)
        if n is None:
            c.fail("F5-standard-blocks", k, f"the {k} block is not written", func=g.root)
            continue
        w = wo.must_precede([n], [g.exit])
        c.ob("F5-standard-blocks", k, w, f"the {k} block may be missing from a finished file", n)
        ok = len(n.args) > 1 and wo.derives(n.args[1], n, lambda t, m: t == ("param", k))
        c.ob("F5b-standard-contents", k, None if ok else True, f"the {k} block does not hold the {k}", n)
    # reader container
    ro = c.flow(R.methods["_open"].qual, inline=fresh)
    g = ro.g
    ry = [n for n in g.live if n.kind == "yield"]
    read = {}
    for n in calls(ro, "_read_single_block_static", "_read_single_block"):
        read[_str(ex(ro, n.args[0], n))] = n
    c.ob("F5c-blocks-read", "names", None if set(read) <= set(written) else f"{sorted(map(str, set(read) - set(written)))}",
         "a block is read that is not written", func=g.root)
    gt = ("param", "graph_type")
    guard(c, "F6-graph-type", "_open", ro, ry, lambda lit, n: lit[0] == "eq" and lit[3] is True and gt in lit[1:3] and any(
        tail(x) == "graph_type" for x in lit[1:3]), "a file of another graph type is opened without an error")
    if usesdict and dictname:
        rd = [n for n in calls(ro, "Path", "read", "read_bytes", "open") if any(ex(ro, a, n) in dictname for a in n.args)]
        c.ob("F2c-dictionary-read", "name", None if rd else True, "the compression dictionary is looked up under another name", func=g.root)
        de = calls(ro, "ZstdDecompressor")
        for n in de:
            vals = list(n.args) + list(n.kwargs.values())
            ok = any(bycall(ro, v, n, "ZstdCompressionDict") for v in vals)
            c.ob("F2d-dictionary-used", "decompressor", None if ok else True, "data compressed with a dictionary are decompressed without it", n)
        # a dictionary that exists must be loaded before the decompressor is made
        exist = lit_edges(ro, lambda lit, n: lit[0] == "truth" and lit[2] is True and mentions(
            ro.expand(lit[1]), lambda s: s[0] == "call" and s[2] == "exists"))
        zd = {n.id for n in calls(ro, "ZstdCompressionDict")}
        st = [(g.nodes[i], lab) for i, lab in exist]
        w = ro.path(st, de, stop_node=lambda m: m.id in zd) if st else None
        c.ob("F2e-dictionary-loaded", "decompressor", w, "an existing dictionary is not loaded")
    for n in calls(ro, "open_in_zip"):
        for i, k in ((None, "int_size"),):
            a = arg(n, i, k)
            ok = a is not None and tail(ro.term(a, n)) == "int_size" and (bycall(ro, a, n, "_read_single_block_static") or mentions(
                ro.expand(ro.term(a, n)), lambda s: s[0] == "call" and "read_single" in s[2]))
            c.ob("F4b-int-size", "reader", None if ok else True, "the address file is not read with the integer size in the header", n)
        a = arg(n, 1, "name")
        c.ob("F3d-address-file-name", "reader", None if a is not None and ro.term(a, n) == ("param", "address_filename") else True,
             "another address file is read", n)
        a = arg(n, None, "n_addresses")
        c.ob("F3e-address-count", "reader", None if a is not None and ro.term(a, n) == ("param", "n_addresses") else True,
             "the number of addresses is not the expected one", n)
    for n in ctor(ro, "BaseQuantumGraphReader"):
        for k, src in (("header", "header"), ("pipeline_graph", "pipeline_graph")):
            a = n.kwargs.get(k)
            if a is None or src not in read:
                continue
            ok = ro.derives(a, n, lambda t, m: t == ("tmp", read[src].id))
            c.ob("F5d-restored", k, None if ok else True, f"the {k} of the reader is not the one in the file", n)
    return written


def _int_size(fl, a, n, hs):
    t = ex(fl, a, n)
    if t == hs:
        return True
    # through the writer object constructed in this function
    if tail(t) == "int_size":
        return True
    return fl.derives(a, n, lambda s, m: s == hs)


def _short(s):
    return "/".join("".join(str(x[2]) if x[0] == "const" else "{}" for x in (t[1] if t[0] == "fstr" else (t,))) for t in s)


def header_keys(c):
    """Old-style metadata keys map to the same header fields in both directions."""
    H = c.prog.cls(CM + "HeaderModel")
    f = c.flow(H.methods["from_old_quantum_graph"].qual, inline=_same_module(H))
    t = c.flow(H.methods["to_old_metadata"].qual, inline=_same_module(H))
    to = {}
    for n in t.g.live:
        if n.kind == "substore":
            k = _str(ex(t, n.key, n))
            at = {s[2] for s in subterms(ex(t, n.value, n)) if is_self_attr(s)}
            if k and len(at) == 1:
                to[k] = (at.pop(), n)
        elif n.kind == "call" and n.name == "update":
            for k, v in n.kwargs.items():
                at = {s[2] for s in subterms(ex(t, v, n)) if is_self_attr(s)}
                if k and len(at) == 1:
                    to[k] = (at.pop(), n)
    fr = {}
    pops = {}
    for n in calls(f, "pop", "get"):
        if n.args:
            k = _str(ex(f, n.args[0], n))
            if k:
                pops[n.id] = k
    for n in ctor(f, "HeaderModel"):
        for k, v in n.kwargs.items():
            if k == "inputs":
                c.ob("F7-old-header", "order", True if mentions(ex(f, v, n, 8), lambda s: s[0] == "call" and s[2] in ("sorted", "set", "frozenset", "reversed") or s[0] == "sub" and s[2][0] == "slice") else None,
                     "input collections change order, so datasets are searched for in another one", n)
            if k == "timestamp":
                c.ob("F7-old-header", "time", True if mentions(ex(f, v, n, 8), lambda s: s[0] == "sub" and s[2][0] == "slice") or f.derives(v, n, lambda t, m: t[0] == "sub" and t[2][0] == "slice", through_args=True) else None, "the time at which a graph was made is cut off", n)
            if k is None or k == "metadata":
                continue
            keys = {kk for i, kk in pops.items() if f.derives(v, n, lambda s, m: s == ("tmp", i))}
            for kk in keys:
                fr[kk] = (k, n)
    for k in sorted(set(to) & set(fr)):
        c.ob("F7-metadata-keys", k, None if to[k][0] == fr[k][0] else f"{to[k][0]} / {fr[k][0]}",
             "an entry of old-style metadata is restored into a different header field", fr[k][1])
    for k in sorted(set(fr) - set(to)):
        c.fail("F7-metadata-keys", k, "a header field restored from old-style metadata is not saved there", fr[k][1])
    for k in sorted(set(to) - set(fr)):
        c.fail("F7-metadata-keys", k, "a header field saved in old-style metadata is not restored", to[k][1])
    bad = {k for k, n in ((k, n) for k, (_, n) in fr.items()) if False}
    c.ob("F7b-metadata-instances", "header", None if to and fr and not bad else True, "header metadata conversion is missing", func=t.g.root)


QD = "quantum_datasets"


def _self_qd(t):
    return mentions(t, lambda s: is_self_attr(s, QD) or (tail(s) == QD and tail(s[1]) == "components"))


def write(c):
    P = c.prog.cls(PR + "PredictedQuantumGraphComponents")
    f = P.methods["write"]
    fl = c.flow(f.qual, inline=_same_module(P))
    g = fl.g
    op = [n for n in g.calls() if n.name == "open" and "address_filename" in n.kwargs]
    c.require(op, "the graph writer is not opened")
    old = calls(fl, "saveUri")

    def thin(lit, n):
        if lit[0] != "eq" or lit[3] is not True:
            return False
        a = [fl.expand(x) for x in lit[1:3]]
        return any(mentions(x, lambda s: tail(s) == "n_task_quanta") for x in a) and any(
            _mention_comp(fl, x, lambda s: tail(s) == "quanta") and all(
                y[0] != "comp" or mentions(fl.expand(y[2]) if not isinstance(y[2][0], tuple) else ("tuple", tuple(fl.expand(z) for z in y[2])), lambda z: z[0] == "call" and z[2] in ("len", "sum"))
                for y in subterms(fl.expand(x))) for x in lit[1:3])

    guard(c, "F8-partial-refused", "thin graph", fl, op + old, thin,
          "a graph whose thin graph disagrees with its header (partial read) is written")

    def full(lit, n):
        if lit[0] != "eq" or lit[3] is not True:
            return False
        a = [fl.expand(x) for x in lit[1:3]]
        return any(tail(x) == "n_quanta" for x in a) and any(
            x[0] == "call" and x[2] == "len" and is_self_attr(x[4][0], QD) for x in a)

    guard(c, "F8-partial-refused", "quanta", fl, op + old, full, "a graph of which only some quanta were read is written as if complete")
    guard(c, "F8b-extension", ".qg", fl, op, lambda lit, n: lit[0] == "eq" and lit[3] is True and const(".qg") in lit[1:3],
          "the new format is written to a file with another extension")
    # version
    vs = [n for n in g.live if n.kind == "attrstore" and n.name == "version" and tail(fl.term(n.base, n)) == "header"]
    w = fl.must_precede(vs, op)
    c.ob("F8c-version", "recorded", w, "the format version in the header is not the one being written")
    for n in vs:
        v = fl.term(n.value, n)
        c.ob("F8c-version", "value", None if v[0] == "glob" and v[1].endswith("FORMAT_VERSION") or v[0] == "const" else True,
             "the format version in the header is not the one being written", n)
    W = {}
    for n in calls(fl, "write_single_model"):
        k = _str(ex(fl, n.args[0], n))
        W[k] = n
        w = fl.path(fl.out_edges(op), [g.exit], stop_node=lambda m: m is n)
        c.ob("F9-all-blocks-written", str(k), w, f"the {k} block may be missing from a finished file", n)
    for o in op:
        for k in ("header", "pipeline_graph"):
            a = o.kwargs.get(k)
            c.ob("F9b-header-written", k, None if a is not None and fl.term(a, o) == self_flag(k) else True, f"another {k} is written", o)
    # quanta
    mb = [n for n in calls(fl, "open_in_zip")]
    wr = calls(fl, "write_bytes", "write_model")
    loops = [h for h in over(fl, lambda t: _self_qd(t), comp=False) if any(n.id in fl.loop_body(h) for n in wr)]
    c.ob("F10-quanta-written", "instances", None if loops else True, "quanta are not written", func=f)
    for h in loops:
        t = ex(fl, h.iterable, h, 8)
        whole = not mentions(t, lambda s: s[0] == "call" and s[2] in ("islice", "filter")) and not mentions(t, lambda s: s[0] == "slice")
        c.ob("F10b-all-quanta", "loop", None if whole else True, "only part of the quanta is written", h)
        each(c, "F10-quanta-written", "every", fl, h, [n for n in wr if n.id in fl.loop_body(h)], "a quantum is not written")
    cached = [n for n in fl.g.live if n.kind == "compelt"]
    for n in wr:
        i, d = arg(n, 0, "id"), arg(n, 1, "data", "model")
        it = ex(fl, i, n) if i is not None else ("?",)
        ok = mentions(it, lambda s: s[0] in ("elem", "elemof"))
        c.ob("F10c-block-id", n.name, None if ok and (tail(it) == "quantum_id" or it[0] in ("item", "sub")) else f"{it[:2]}",
             "a quantum's block is not stored under the quantum's ID", n)
        ok = d is not None and fl.derives(d, n, lambda s, m: s[0] == "elem" and s[1] in {h.id for h in loops} or is_self_attr(s, QD))
        c.ob("F10d-block-data", n.name, None if ok else True, "the block of a quantum does not hold its datasets", n)
        if n.name == "write_bytes":
            c.ob("F10e-block-compressed", n.name, None if bycall(fl, d, n, "compress") else True, "a block is stored uncompressed", n)
            # data looked up in a cache must be looked up by this quantum's ID
            for s in subterms(ex(fl, d, n, 8)):
                key = None
                if s[0] == "call" and s[2] == "get" and s[4]:
                    key = s[4][0]
                elif s[0] == "sub":
                    key = s[2]
                if key is not None:
                    c.ob("F10f-cache-key", "lookup", None if key == it else True, "the data of another quantum are written", n)
    for n in cached:
        if fl.derives(n.value, n, lambda s, m: s[0] == "tmp" and fl.g.nodes[s[1]].kind == "call"
                      and fl.g.nodes[s[1]].name == "model_dump_json"):
            k = ex(fl, n.value, n)
            if k[0] == "tuple" and len(k[1]) == 2:
                c.ob("F10f-cache-key", "store", None if tail(k[1][0]) == "quantum_id" else True,
                     "serialized quanta are cached under a wrong key", n)
    # addresses of the finished multi-block file
    ap = [n for n in calls(fl, "append") if n.recv is not None and tail(fl.term(n.recv, n)) == "addresses"]
    w = fl.path(fl.out_edges(mb), [g.exit], stop_node=lambda m: m in ap) if mb else None
    c.ob("F11-addresses-recorded", "write", w, "the addresses of the quanta are not recorded in the address file")
    inloop = [n for n in ap if fl.enclosing_loops(n)]
    if not inloop:
        ro = c.flow(PR + "PredictedQuantumGraphReader.open", inline=fresh)
        for n in calls(ro, "_open"):
            a = n.kwargs.get("n_addresses")
            v = ex(ro, a, n) if a is not None else None
            if v is not None and v[0] == "const":
                c.ob("F11b-address-count", "open", None if v[2] == len(ap) else f"{v[2]} expected, {len(ap)} written",
                     "the reader expects another number of addresses per quantum than are written", n)
            a1, a2 = n.kwargs.get("address_filename"), op[0].kwargs.get("address_filename")
            x, y = ex(ro, a1, n), ex(fl, a2, op[0])
            c.ob("F11c-address-file", "open", None if x == y else f"{x}/{y}", "the address file is read under another name", n)
            gt = n.kwargs.get("graph_type")
            st = [m for m in c.flow(P.methods["__post_init__"].qual, inline=fresh).g.live if m.kind == "attrstore" and m.name == "graph_type"]
            if gt is not None and st:
                pf = c.flow(P.methods["__post_init__"].qual, inline=fresh)
                c.ob("F6b-graph-type", "written", None if ex(pf, st[0].value, st[0]) == ex(ro, gt, n) else True,
                     "the graph type in the header is not the one the reader expects", st[0])
    # names of the multi-block files
    R = c.prog.cls(PR + "PredictedQuantumGraphReader")
    wn = {_str(ex(fl, arg(n, 1, "name"), n)) for n in mb if arg(n, 1, "name") is not None}
    for nm, m in sorted((k, v) for k, v in R.methods.items() if not unknown(v)):
        rf = c.flow(m.qual, inline=fresh)
        for n in calls(rf, "open_in_zip", "read_all_models_in_zip", "read_all_bytes_in_zip"):
            a = arg(n, 1, "name")
            if a is not None:
                k = _str(ex(rf, a, n))
                c.ob("F11d-block-file", nm, None if k in wn else f"{k}", "quanta are read from another file than they are written to", n)
            z = arg(n, None, "int_size")
            if z is not None:
                c.ob("F4c-int-size", nm, None if tail(ex(rf, z, n)) == "int_size" and mentions(ex(rf, z, n), lambda s: tail(s) == "header") else True,
                     "quanta are not read with the integer size in the header", n)
    for n in mb:
        z = arg(n, 2, "int_size")
        if z is not None:
            c.ob("F4c-int-size", "write", None if tail(ex(fl, z, n)) == "int_size" else True,
                 "quanta are not written with the integer size in the header", n)
    # reader's blocks agree with the writer's
    for nm, m in sorted((k, v) for k, v in R.methods.items() if not unknown(v)):
        rf = c.flow(m.qual, inline=_same_module(R))
        for n in calls(rf, "_read_single_block"):
            k = _str(ex(rf, n.args[0], n))
            wn_ = W.get(k)
            c.ob("F12-block-names", f"{nm}:{k}", None if wn_ is not None else True, "a block is read that is not written", n)
            if wn_ is None:
                continue
            dest = [s for s in rf.g.live if s.kind == "attrstore" and rf.derives(s.value, s, lambda t, mm: t == ("tmp", n.id))
                    and tail(rf.term(s.base, s)) == "components"]
            src = ex(fl, wn_.args[1], wn_)
            at = {s[2] for s in subterms(src) if is_self_attr(s)}
            for s in dest:
                c.ob("F12b-block-destination", f"{nm}:{k}", None if not at or s.name in at else f"written from {sorted(at)}, read into {s.name}",
                     "a component is restored from the block of another one", s)
            c.ob("F12c-block-used", f"{nm}:{k}", None if dest else True, "a block that was read is not used", n)
            # a component is skipped only if it is already loaded
            model = rf.term(n.args[1], n) if len(n.args) > 1 else None
            if model is not None and at and model[0] == "glob":
                ann = _annotations(P).get(sorted(at)[0])
                mname = model[1].rsplit(".", 1)[-1]
                if ann and "Model" in mname and not mname.startswith("_"):
                    c.ob("F12d-block-model", f"{nm}:{k}", None if mname in ann else f"{mname} / {ann}",
                         "a block is decoded with another model than it is written with", n)


def _mention_comp(fl, t, p):
    """Whether the term (or the loops of a comprehension in it) mentions something accepted by p."""
    t = fl.expand(t)
    if mentions(t, p):
        return True
    for s in subterms(t):
        if s[0] == "comp":
            for i in s[3]:
                h = fl.g.nodes[i]
                if mentions(fl.expand(fl.term(h.iterable, h)), p):
                    return True
    return False


def _annotations(cls):
    out = {}
    for st in cls.node.body:
        if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
            out[st.target.id] = ast.unparse(st.annotation)
    return out


def read(c):
    R = c.prog.cls(PR + "PredictedQuantumGraphReader")
    inl = _same_module(R)
    f = R.methods["read_quantum_datasets"]
    fl = c.flow(f.qual, inline=inl)
    g = fl.g
    q = ("param", "quantum_ids")
    alls = [n for n in calls(fl, "read_all_models_in_zip")]
    none = [(g.nodes[i], lab) for i, lab in lit_edges(fl, lambda lit, n: lit[0] == "isnone" and lit[2] is True and lit[1] == q)]
    count = lit_edges(fl, lambda lit, n: lit[0] == "eq" and lit[3] is True and any(tail(x) == "n_quanta" for x in lit[1:3]) and any(
        mentions(fl.expand(x), lambda s: s[0] == "call" and s[2] == "len") for x in lit[1:3]))
    ai = {n.id for n in alls}
    w = fl.path(none, [g.exit], stop_node=lambda m: m.id in ai, stop_edge=lambda n, lab: (n.id, lab) in count) if none and alls else None
    c.ob("F13-read-all", "read_quantum_datasets", w, "reading all quanta stops although not all of them have been read")
    if alls:
        n = lit_edges(fl, lambda lit, n: lit[0] == "isnone" and lit[2] is False and lit[1] == q)
        w = fl.path([g.entry], alls, stop_edge=lambda b, lab: (b.id, lab) in {(x.id, y) for x, y in none}) if none else None
        c.ob("F13b-read-requested", "read_quantum_datasets", w, "all quanta are read although only some were requested")
        for h in iters(fl):
            if fl.derives(h.iterable, h, lambda t, m: t[0] == "tmp" and t[1] in ai):
                ins = [m for m in g.live if m.id in fl.loop_body(h) and (m.kind == "substore" or m.kind == "compelt" or (
                    m.kind == "call" and m.name in ("setdefault", "update", "append")))]
                each(c, "F13c-all-kept", "read_quantum_datasets", fl, h, ins, "a quantum that was read is dropped",
                     unless=lambda lit, n: lit[0] == "in" and lit[3] is True)
                for m in ins:
                    k = m.key if m.kind in ("substore", "compelt") else (m.args[0] if m.args else None)
                    if k is not None and m.kind in ("substore", "call"):
                        c.ob("F13d-keyed-by-id", "all", None if tail(ex(fl, k, m)) == "quantum_id" else True,
                             "a quantum is stored under another quantum's ID", m)
    loops = [h for h in iters(fl, comp=False) if fl.derives(h.iterable, h, lambda t, m: t == q)]
    fi = calls(fl, "find")
    rd = calls(fl, "read_model", "read_bytes")
    for h in loops:
        body = fl.loop_body(h)
        ins = [m for m in g.live if m.id in body and m.kind == "substore" and _self_qd(fl.expand(fl.term(m.base, m)))]
        if not ins:
            continue
        each(c, "F13e-requested-read", "read_quantum_datasets", fl, h, ins, "a requested quantum is not read",
             unless=lambda lit, n: (lit[0] == "in" and lit[3] is True and _self_qd(fl.expand(lit[2]))) or (
                 lit[0] == "isnone" and lit[2] is True and fl.derives(lit[1], n, lambda t, m: t[0] == "tmp" and fl.g.nodes[t[1]] in rd)))
        for m in ins:
            k = ex(fl, m.key, m)
            ok = mentions(k, lambda s: s[0] in ("elem", "elemof") or (s[0] == "call" and s[2] == "find")) or tail(k) == "quantum_id"
            c.ob("F13d-keyed-by-id", "some", None if ok else True, "a quantum is stored under another quantum's ID", m)
    for n in fi:
        ok = bool(n.args) and any(fl.derives(n.args[0], n, lambda t, m: t == ("elem", h.id)) for h in loops)
        c.ob("F13f-address-of-quantum", "find", None if ok or not loops else True, "the address of another quantum is looked up", n)
    for n in rd:
        a = arg(n, 0, "address")
        t = ex(fl, a, n, 8)
        ok = t[0] in ("sub", "item") and t[2] in (const(0), 0) and tail(t[1]) == "addresses"
        c.ob("F13g-address-index", "read", None if ok or t[0] not in ("sub", "item") else f"{t[2]}", "the wrong address of a row is used", n)
    # the composite readers
    for nm, need in (("read_execution_quanta", ("read_init_quanta", "read_dimension_data", "read_quantum_datasets")),
                     ("read_all", ("read_thin_graph", "read_execution_quanta"))):
        x = c.flow(R.methods[nm].qual, inline=fresh)
        for k in need:
            w = x.must_precede(calls(x, k), [x.g.exit])
            c.ob("F14-components-read", f"{nm}:{k}", w, f"{nm} does not read everything it promises")
        for n in calls(x, "read_quantum_datasets"):
            ok = any(x.term(v, n) == q for v in list(n.args) + list(n.kwargs.values()))
            c.ob("F14b-request-forwarded", nm, None if ok else True, "the requested quantum IDs are not passed on", n)
    # each component is read unless it is already there
    for nm, at in (("read_thin_graph", "thin_graph"), ("read_init_quanta", "init_quanta"), ("read_dimension_data", "dimension_data")):
        x = c.flow(R.methods[nm].qual, inline=inl)
        r = {n.id for n in calls(x, "_read_single_block", "_read_single_block_static")}
        have = lit_edges(x, lambda lit, n: (lit[0] == "truth" and lit[2] is True or lit[0] == "isnone" and lit[2] is False) and mentions(
            x.expand(lit[1]), lambda s: tail(s) == at))
        w = x.path([x.g.entry], [x.g.exit], stop_node=lambda m: m.id in r, stop_edge=lambda n, lab: (n.id, lab) in have)
        c.ob("F14c-component-read", nm, w, f"{nm} returns without having read the component")
    # versions of the thin graph
    x = c.flow(R.methods["read_thin_graph"].qual, inline=fresh)
    for n in calls(x, "_read_single_block"):
        model = x.term(n.args[1], n) if len(n.args) > 1 else ("?",)
        v0 = model[0] == "glob" and model[1].endswith("V0")

        def new(lit, m):
            # version > 0
            if lit[0] == "lt" and tail(lit[2]) == "version" and lit[1] == const(0):
                return lit[3]
            if lit[0] == "lt" and tail(lit[1]) == "version" and lit[2] == const(1):
                return not lit[3]
            if lit[0] == "eq" and any(tail(z) == "version" for z in lit[1:3]) and const(0) in lit[1:3]:
                return not lit[3]
            return None
        want = (lambda lit, m: new(lit, m) is False) if v0 else (lambda lit, m: new(lit, m) is True)
        guard(c, "F15-versions", "v0" if v0 else "v1", x, [n], want, "a thin graph is decoded with the model of another format version")
        if v0:
            ra = calls(x, "read_all")
            w = x.must_precede(ra, calls(x, "_upgraded"))
            c.ob("F15b-upgrade", "addresses", w, "an old thin graph is converted before all quantum IDs are known")
    u = c.flow(PR + "_PredictedThinGraphModelV0._upgraded", inline=fresh)
    for n in u.g.live:
        if n.kind == "compelt":
            t = ex(u, n.value, n)
            if t[0] == "tuple" and len(t[1]) == 2 and all(s[0] == "sub" for s in t[1]):
                a, b = t[1][0][2], t[1][1][2]
                ok = a[0] in ("item", "sub") and b[0] in ("item", "sub") and a[1] == b[1] and a[2] in (0, const(0)) and b[2] in (1, const(1))
                c.ob("F15c-upgrade-edges", "order", None if ok else f"{a} {b}", "edges of an old thin graph change direction", n)


def models(c):
    """What a quantum or dataset model records about the object it is made from."""
    D = c.prog.cls(PR + "PredictedDatasetModel")
    fl = c.flow(D.methods["from_dataset_ref"].qual, inline=_same_module(D))
    ref = ("param", "ref")
    for n in ctor(fl, "PredictedDatasetModel"):
        k = kws(n)
        for name, want in (("dataset_id", ("attr", ref, "id")), ("run", ("attr", ref, "run"))):
            if name in k:
                c.ob("F16-dataset-model", name, None if ex(fl, k[name], n) == want else True, f"a dataset's {name} is not recorded", n)
            else:
                c.fail("F16-dataset-model", name, f"a dataset's {name} is not recorded", n)
        if "data_coordinate" in k:
            t = ex(fl, k["data_coordinate"], n)
            c.ob("F16-dataset-model", "data_coordinate", None if mentions(t, lambda s: tail(s) == "full_values") else True,
                 "only part of a dataset's data ID is recorded", n)
        if "dataset_type_name" in k:
            t = ex(fl, k["dataset_type_name"], n)
            ok = t[0] in ("item", "sub") and t[2] in (0, const(0)) or mentions(t, lambda s: s[0] == "call" and s[2] in (
                "nameAndComponent", "makeCompositeDatasetType"))
            c.ob("F16-dataset-model", "dataset_type_name", None if ok else True, "a component's parent dataset type is not what is recorded", n)
    Q = c.prog.cls(PR + "PredictedQuantumDatasetsModel")
    for nm in ("from_execution_quantum",):
        fl = c.flow(Q.methods[nm].qual, inline=fresh)
        for side, it in (("inputs", "iter_all_inputs"), ("outputs", "iter_all_outputs")):
            st = [n for n in fl.g.live if n.kind == "substore" and tail(fl.term(n.base, n)) == side]
            loops = over(fl, lambda t: mentions(t, lambda s: s[0] == "call" and s[2] == it), comp=False)
            c.ob("F17-quantum-model", f"{nm}:{side}", None if st or [n for n in fl.g.live if n.kind == "attrstore" and n.name == side]
                 or any(side in n.kwargs for n in ctor(fl, "PredictedQuantumDatasetsModel")) else True, f"{side} are not recorded", func=fl.g.root)
            for h in loops:
                each(c, "F17b-every-connection", f"{nm}:{side}", fl, h, [m for m in st if m.id in fl.loop_body(h)],
                     "the datasets of a connection are not recorded")
            for m in st:
                k = ex(fl, m.key, m)
                ok = tail(k) == "connection_name" and mentions(k, lambda s: s[0] == "call" and s[2] == it)
                c.ob("F17c-connection-key", f"{nm}:{side}", None if ok or tail(k) != "connection_name" else True,
                     f"{side} are recorded under the connection of the other side", m)
                # all refs of the dataset type
                t = fl.term(m.value, m)
                if t[0] == "comp":
                    hh = fl.g.nodes[t[3][-1]]
                    w = fl.path([(hh, "elem")], lambda z: z is hh, stop_node=lambda z: z.kind == "compelt" and z.id in fl.loop_body(hh))
                    c.ob("F17d-every-dataset", f"{nm}:{side}", w, "a dataset of a quantum is not recorded", m)
                    x = ex(fl, hh.iterable, hh, 8)
                    other = "outputs" if side == "inputs" else "inputs"
                    bad = any(s[0] == "sub" and tail(s[1]) == other for s in subterms(x))
                    c.ob("F17e-right-side", f"{nm}:{side}", True if bad else None, f"{other} are recorded as {side}", m)


def construct(c):
    """model_construct does not validate: every required field must be given."""
    prog = c.prog
    req = {}
    for q, k in prog.classes.items():
        if not any(b.rsplit(".", 1)[-1] in ("BaseModel", "RootModel") for b in prog.all_base_quals(q)):
            continue
        need = set()
        for st in k.node.body:
            if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is None and not st.target.id.startswith("_") \
                    and "ClassVar" not in ast.unparse(st.annotation):
                need.add(st.target.id)
        req[q] = need
    for q, f in sorted(prog.funcs.items()):
        for x in ast.walk(f.node):
            if not (isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "model_construct"):
                continue
            r = x.func.value
            name = None
            if isinstance(r, ast.Name) and r.id == "cls" and f.cls is not None:
                name = f.cls.name
                cands = [k for k in req if k == f.cls.qual]
            elif isinstance(r, ast.Name):
                name = r.id
                cands = [k for k in req if k.rsplit(".", 1)[-1] == name and k.rsplit(".", 1)[0] == f.module.name] or [
                    k for k in req if k.rsplit(".", 1)[-1] == name]
            else:
                continue
            if len(cands) != 1 or any(kw.arg is None for kw in x.keywords):
                continue
            need = set()
            for b in [cands[0], *prog.all_base_quals(cands[0])]:
                need |= req.get(b, set())
            later = {t.attr for st in ast.walk(f.node) if isinstance(st, (ast.Assign, ast.AnnAssign)) for t in (
                st.targets if isinstance(st, ast.Assign) else [st.target]) if isinstance(t, ast.Attribute)}
            miss = need - {kw.arg for kw in x.keywords} - later
            c.ob("F18-required-fields", f"{f.qual.rsplit('.', 2)[-2]}.{f.name}:{name}", f"missing {sorted(miss)} at line {x.lineno}" if miss else None,
                 "a model is constructed without a required field (no validation happens there)", func=f)


def complete(c: Check):
    """Whole collections are written and read."""
    for cls, names in (("PredictedQuantumGraphReader", ("read_quantum_datasets", "read_dimension_data", "read_thin_graph", "read_init_quanta")),
                       ("PredictedQuantumGraphComponents", ("write",)),
                       ("PredictedQuantumDatasetsModel", ("from_execution_quantum",)),
                       ("PredictedInitQuantaModel", ("update_from_old_quantum_graph",)),
                       ("_PredictedThinGraphModelV0", ("_upgraded",))):
        K = c.prog.cls(PR + cls)
        for nm in names:
            if nm in K.methods:
                fl = Q.flow_of(c, K, nm)
                sample = lambda h: mentions(ex(fl, h.iterable, h, 8), lambda s: s[0] == "call" and s[2] == "islice")  # noqa: B023,E731
                Q.allfull(c, "F19-whole-collection", f"{cls}.{nm}", fl, "only part of a collection is written or read", skip=sample)
    K = c.prog.cls(PR + "PredictedQuantumGraphReader")
    fl = Q.flow_of(c, K, "read_quantum_datasets")
    ra, rm = calls(fl, "read_all_models_in_zip"), calls(fl, "read_model")
    c.ob("F20-quanta-read", "all", None if ra or rm else True, "quanta are not read", func=fl.g.root)
    c.ob("F20-quanta-read", "requested", None if rm or calls(fl, "read_bytes") else True, "requested quanta are not read", func=fl.g.root)
    f = Q.flow_of(c, K, "read_dimension_data")
    for n in [x for x in f.g.calls() if (x.callee or x.name).rsplit(".", 1)[-1] == "DimensionDataAttacher"]:
        d = n.kwargs.get("deserializers")
        ok = d is not None and (f.derives(d, n, lambda t, m: tail(t) == "root", through_args=True) or f.term(d, n)[0] == "comp" and all(
            mentions(ex(f, f.g.nodes[i].iterable, f.g.nodes[i], 8), lambda s: tail(s) == "root" or s[0] == "call" and s[2] == "_read_single_block")
            for i in f.term(d, n)[3]))
        c.ob("F21-dimension-data", "records", None if ok or None in n.kwargs or n.args else True, "the dimension records in the file are not used", n)
    for n in f.g.calls():
        if n.name == "group_by_dimensions":
            a = Q.arg(n, 0, "prerequisites")
            c.ob("F21-dimension-data", "prerequisites", None if a is not None and f.term(a, n) == const(True) else True,
                 "the dimensions of prerequisite inputs are left out, so their data IDs cannot be expanded", n)
