"""Pipeline definitions: the values that are read, carried over, filled in and handed to the graph."""

from __future__ import annotations

import re

from ..lib import Check, const
from ..q import arg, calls, ctor, ex, flow_of, frm, iters, lit_edges, loops_of, mentions, present, retvals, subterms
from .boolval import cut_edges
from .fields import carry
from .pipedef import B, IR, _attrstores, _isnone, _raises, _true, at, elems, must, self_


def run(c: Check):
    P, K = c.prog.cls(IR + "PipelineIR"), c.prog.cls(B + "pipeline.Pipeline")
    duplicates(c)
    subset_read(c)
    formatted(c)
    verified(c, P)
    read(c, P)
    imported(c, P)
    merged(c, P)
    named(c, P)
    written(c, P)
    edits(c, K)
    graph(c, K)
    overriding(c)
    parsing(c)


def _num(l, v, is_count, fl, m):
    """Whether comparison literal l holds for count v; None if it is about something else."""
    if l[0] == "eq":
        a, b = l[1:3]
        if b[0] != "const":
            a, b = b, a
        if b[0] == "const" and b[1] == "int" and is_count(ex(fl, a, m)):
            return (v == b[2]) is l[3]
    if l[0] == "lt":
        a, b = l[1:3]
        if a[0] == "const" and a[1] == "int" and is_count(ex(fl, b, m)):
            return (a[2] < v) is l[3]
        if b[0] == "const" and b[1] == "int" and is_count(ex(fl, a, m)):
            return (v < b[2]) is l[3]
    return None


def duplicates(c):
    """A key that appears twice or more is a duplicate, one that appears once is not."""
    fl = flow_of(c, c.prog.cls(IR + "PipelineYamlLoader"), "construct_mapping")
    for h in iters(fl):
        t = ex(fl, h.iterable, h, 8)
        if not mentions(t, lambda s: s[0] == "call" and s[2] == "Counter"):
            continue
        def cnt(t, h=h):
            return t[0] in ("item", "elem", "elemof", "sub") or mentions(t, lambda s: s == ("elem", h.id))
        outs = [n for n in fl.g.live if n.kind == "compelt" and h.id in n.d["compterm"][3]] + [n for n in calls(fl, "add", "append") if h in loops_of(fl, n)] + [n for n in _raises(fl) if n.id in fl.loop_body(h)]
        br = lit_edges(fl, lambda l, m: m.id in fl.loop_body(h) and _num(l, 1, cnt, fl, m) is not None)
        if not outs or not br:
            continue
        for v in (1, 2, 3, 4):
            cut = lit_edges(fl, lambda l, m: _num(l, v, cnt, fl, m) is False)
            p = fl.path(elems(h), outs, stop_node=lambda m: m is h, stop_edge=lambda m, lab: (m.id, lab) in cut)
            c.ob("K40-duplicates", f"count {v}", (None if p else True) if v > 1 else p, "duplicate keys of a file are accepted" if v > 1 else "a file without duplicate keys is rejected", h)


def subset_read(c):
    fl = flow_of(c, c.prog.cls(IR + "LabeledSubset"), "from_primitives")
    mk = ctor(fl, "LabeledSubset")
    order = ("label", "subset", "description")
    for n in mk:
        carry(c, "K41-subset", "read", fl, n, {"label": "$label", "description": "description"}, "part of a subset is lost when it is read", order=order)
        v = arg(n, 1, "subset")
        c.ob("K41-subset", "read:subset", None if v is not None and (fl.derives(v, n, lambda t, m: t == const("subset"), True) or fl.derives(v, n, lambda t, m: t == ("param", "value"), True)) else True,
             "part of a subset is lost when it is read", n)


def formatted(c):
    fl = flow_of(c, c.prog.cls(IR + "ConfigIR"), "formatted")
    g = fl.g
    # the original is left alone
    for n in g.live:
        if n.kind in ("substore", "attrstore", "delsub") or n.kind == "call" and n.name in ("update", "pop", "clear", "setdefault"):
            b = n.recv if n.kind == "call" else n.d.get("base")
            if b is None:
                continue
            t = ex(fl, b, n, 8)
            root = t
            while root[0] == "attr":
                root = root[1]
            shallow = root[0] == "call" and root[2] == "copy" and root[3] is None or root[0] == "call" and root[2] in ("copy.copy", "replace") or root[0] == "call" and (root[1] or "").endswith("copy.copy")
            bad = root == ("param", "self") or shallow and t != root and not any(m.name in ("rest",) and m is not n for m in _attrstores(fl, "rest"))
            c.ob("K42-parameters", "original", True if bad else None, "filling in parameters changes the pipeline itself", n)
    # the parameter that is named
    pats = [n for n in g.calls() if n.name in ("match", "fullmatch") and n.args and fl.term(n.args[0], n)[0] == "const"]
    for n in pats:
        pat = fl.term(n.args[0], n)[2]
        f = re.match if n.name == "match" else re.fullmatch
        for s in ("a", "abc", "a_b1", "long.name", "with space"):
            try:
                r = f(pat, "parameters." + s)
                ok = r is not None and s in (list(r.groups()) + list(r.groupdict().values()) if r.groups() else [s])
            except re.error:
                ok = False
            c.ob("K42-parameters", f"pattern:{s}", None if ok else True, "a parameter is not recognised", n)
        for s in ("parametersa", "parameter.a", "x.parameters.a", "abc"):
            c.ob("K42-parameters", f"pattern:not {s}", None if not f(pat, s) else True, "a value that names no parameter is taken for one", n)
    st = [n for n in g.live if n.kind == "substore" and mentions(ex(fl, n.base, n, 8), lambda s: at(s, "rest"))]
    for n in st:
        k = ex(fl, n.key, n)
        hs = loops_of(fl, n)
        c.ob("K42-parameters", "key", None if not hs or mentions(fl.term(n.key, n), lambda s: s[0] == "elem") or k[0] in ("item", "elem", "elemof", "var") else True, "a parameter is filled into another setting", n)
        c.ob("K42-parameters", "value", None if mentions(ex(fl, n.value, n, 8), lambda s: s == ("param", "parameters")) or fl.derives(n.value, n, lambda t, m: t == ("param", "parameters"), True) else True,
             "a parameter is not filled in", n)


def verified(c, P):
    fl = flow_of(c, P, "_verify_labeled_subsets")
    hs = [h for h in iters(fl, False) if mentions(ex(fl, h.iterable, h), lambda s: at(s, "labeled_subsets"))]
    for n in calls(fl, "isdisjoint", "intersection"):
        if any(n.id in fl.loop_body(h) for h in hs) and not mentions(ex(fl, n.recv, n), lambda s: at(s, "labeled_subsets") and False):
            ok = bool(calls(fl, "issubset", "issuperset")) or any(l[0] in ("lt", "eq") for m in fl.g.live if m.kind == "branch" for l in fl.lits(m, True))
            c.ob("K43-verify", "every member", None if ok else True, "a subset with some unknown tasks is accepted", n)


def read(c, P):
    fl = flow_of(c, P, "_read_contracts")
    g = fl.g
    popped = [n for n in calls(fl, "pop", "get") if n.args and n.args[0] == const("contracts")]
    for h in iters(fl, False):
        if not popped or not loops_of(fl, h) == []:
            continue
        # whatever the file has under contracts, also a single string, is gone through
        src = fl.sources(h.iterable, h)
        for t, m in src:
            c.ob("K44-read", "contracts", None if frm(fl, t, m, popped) else True, "a single contract of a definition is lost", m)
    fl = flow_of(c, P, "_read_tasks")
    files = [n for n in calls(fl, "pop", "get") if n.args and n.args[0] == const("file")]
    for n in ctor(fl, "ConfigIR"):
        v = n.kwargs.get("file")
        if v is None or not files:
            continue
        for t, m in fl.sources(v, n):
            t = fl.term(t, m)
            if t == ("list", ()) or t[0] == "tmp" and g.nodes and fl.g.nodes[t[1]].kind == "call" and fl.g.nodes[t[1]].name == "list" and not fl.g.nodes[t[1]].args:
                e = lit_edges(fl, lambda l, k: (l[0] == "isnone" and l[2] is True or l[0] == "truth" and l[2] is False) and frm(fl, l[1], k, files))
                c.ob("K44-read", "file", fl.path([fl.g.entry], [m], stop_edge=lambda k, lab: (k.id, lab) in e), "a configuration file is lost", m)
    # a step that is declared twice, even in the same way, is an error
    fl = flow_of(c, P, "_read_step_declaration")
    for n in fl.g.live:
        if n.kind == "branch" and n.d.get("atom", ("",))[0] == "eq" and any(frm(fl, x, n, calls(fl, "setdefault")) and fl.term(x, n)[0] == "tmp" for x in n.d["atom"][1:3]):
            c.fail("K44-read", "step twice", "a step that is declared twice is accepted", n)
        elif n.kind == "branch" and n.d.get("atom", ("",))[0] == "is":
            c.ok("K44-read", "step twice")


def imported(c, P):
    fl = flow_of(c, P, "_read_imports")
    for mode in ("DROP", "EDIT"):
        other = "EDIT" if mode == "DROP" else "DROP"
        A = {mode: lambda lit, m: lit[0] == "eq" and const(mode) in lit[1:3], other: lambda lit, m: lit[0] == "eq" and const(other) in lit[1:3]}
        wrong = [n for n in fl.g.live if n.kind == "substore" and n.key == const("labeledSubsetModifyMode") and fl.term(n.value, n)[0] in ("glob", "attr") and str(fl.term(n.value, n)[-1]).endswith(other)]
        right = [n for n in fl.g.live if n.kind == "substore" and n.key == const("labeledSubsetModifyMode") and fl.term(n.value, n)[0] in ("glob", "attr") and str(fl.term(n.value, n)[-1]).endswith(mode)]
        e = lit_edges(fl, lambda l, m: A[mode](l, m) and l[3] is True)
        if not e or not (right or wrong):
            continue
        starts = [(fl.g.nodes[i], lab) for i, lab in e]
        c.ob("K45-import-mode", mode, fl.path(starts, wrong, stop_node=lambda m: m in right), "subsets of an import are not treated as asked")
        c.ob("K45-import-mode", mode + ":set", None if right else True, "subsets of an import are not treated as asked", func=fl.g.root)
    for k in ("include", "exclude"):
        for n in fl.g.live:
            if n.kind == "substore" and n.key == const(k):
                c.ob("K45-import-mode", k, None if fl.derives(n.value, n, lambda t, m: mentions(t, lambda s: s == const(k)), True) else True, "a selection given as a single label is lost", n)


def merged(c, P):
    fl = flow_of(c, P, "merge_pipelines")
    # contracts are added to those already there
    for n in _attrstores(fl, "contracts"):
        if ex(fl, n.base, n) == ("param", "self"):
            c.ob("K46-contracts", "kept", None if n.d.get("aug") or mentions(ex(fl, n.value, n, 8), lambda s: s == self_("contracts")) or fl.derives(n.value, n, lambda t, m: t == self_("contracts"), True) else True,
                 "contracts are lost when pipelines are merged", n)
    ext = [n for n in calls(fl, "extend", "append") if n.recv is not None and ex(fl, n.recv, n) == self_("contracts")]
    for n in ext:
        c.ob("K46-contracts", "whose", None if mentions(ex(fl, n.args[0], n, 8), lambda s: at(s, "contracts")) or n.name == "append" else True, "contracts are lost when pipelines are merged", n)


def named(c, P):
    """The contracts that go with a task are those that name it, not those that name one whose label only ends or starts like it."""
    fl = flow_of(c, P, "_remove_contracts")
    for n in calls(fl, "search", "match"):
        if len(n.args) < 2:
            continue
        t = ex(fl, n.args[0], n, 8)
        parts = t[1] if t[0] == "fstr" else (t,)
        txt = ""
        for p in parts:
            if p[0] == "const" and p[1] == "str":
                txt += p[2]
            elif p == ("param", "label") or p[0] == "call" and p[2] == "escape" and p[4] == (("param", "label"),):
                txt += "tsk"
            else:
                txt = None
                break
        if txt is None:
            continue
        f = re.search if n.name == "search" else re.match
        try:
            for s, want in (("tsk.a == 1", True), ("b.x == tsk.a", True), ("(tsk.a > 2)", True), ("x.a==tsk.b.c", True), ("atsk.a == 1", False), ("tsk2.a == 1", False), ("a_tsk.a == 1", False), ("other.a == 1", False)):
                c.ob("K17-contracts", f"pattern:{s}", None if bool(f(txt, s)) is want else True, "contracts of removed tasks remain" if want else "contracts of other tasks are removed", n)
        except re.error:
            c.fail("K17-contracts", "pattern", "contracts cannot be searched", n)


def written(c, P):
    fl = flow_of(c, P, "to_primitives")
    for n in fl.g.live:
        for e in [n.d.get("value")] + [v for _, v in n.d.get("defs", ())]:
            if not isinstance(e, tuple) or not e or not isinstance(e[0], str):
                continue
            for s in subterms(fl.term(e, n)):
                if s[0] == "dict" and {k[2] for k, _ in s[1] if k[0] == "const"} >= {"label", "dimensions"}:
                    for k, v in s[1]:
                        if k[0] == "const" and k[2] in ("label", "dimensions"):
                            c.ob("K47-steps", k[2], None if mentions(ex(fl, v, n, 8), lambda x: at(x, k[2])) else True, f"the {k[2]} of a step is lost when a pipeline is saved", n)


def edits(c, K):
    fl = flow_of(c, K, "subsetFromLabels")
    for n in _attrstores(fl, "contracts"):
        t = ex(fl, n.base, n, 8)
        c.ob("K48-range", "original", None if not mentions(t, lambda s: s == ("param", "self")) or mentions(t, lambda s: s[0] == "call" and s[2] == "deepcopy") else True,
             "taking a range of tasks changes the pipeline itself", n)
    fl = flow_of(c, K, "addLabeledSubset")
    for n in ctor(fl, "LabeledSubset"):
        carry(c, "K49-edit", "addLabeledSubset", fl, n, {"label": "$label", "subset": "$taskLabels", "description": "$description"}, "a subset is not added as described", order=("label", "subset", "description"))
    fl = flow_of(c, K, "_parse_file_specifier")
    for n in ctor(fl, "LabelSpecifier"):
        pass
    fl = flow_of(c, K, "removeTask")
    rm = [n for n in calls(fl, "pop") if at(ex(fl, n.recv, n), "tasks")] + [n for n in fl.g.live if n.kind == "delsub" and at(ex(fl, n.base, n), "tasks")]
    present(c, "K49-edit", "removeTask", rm, "a task is not removed", fl)
    for n in rm:
        k = n.args[0] if n.kind == "call" else n.key
        c.ob("K49-edit", "removeTask:which", None if ex(fl, k, n) == ("param", "label") else True, "another task is removed", n)


def graph(c, K):
    fl = flow_of(c, K, "to_graph")
    g = fl.g
    msg = "the graph of a pipeline is incomplete"
    # contracts see the configuration of every task
    for n in calls(fl, "eval"):
        ns = n.args[2] if len(n.args) > 2 else n.kwargs.get("locals")
        if ns is None:
            continue
        for t, m in fl.sources(ns, n):
            t = fl.term(t, m)
            if t[0] != "comp":
                continue
            for i in t[3]:
                h = g.nodes[i]
                el = [e for e in g.live if e.kind == "compelt" and i in e.d["compterm"][3]]
                must(c, "K50-contracts", "every task", fl, elems(h), el, [h], "a contract cannot be checked, or is checked against something else")
                c.ob("K50-contracts", "tasks", None if mentions(ex(fl, h.iterable, h, 8), lambda s: at(s, "tasks")) else True, "a contract cannot be checked, or is checked against something else", h)
                for e in el:
                    kv = e.d.get("value")
                    if isinstance(kv, tuple):
                        c.ob("K50-contracts", "config", None if mentions(ex(fl, kv, e, 8), lambda s: at(s, "config")) else True, "a contract is checked against something else", e)
    ap = [n for n in calls(fl, "append") if n.recv is not None and at(ex(fl, n.recv, n), "steps")]
    for n in ap:
        for i, a in ((0, "label"), (1, "dimensions")):
            v = arg(n, i, a)
            c.ob("K51-graph", "step:" + a, None if v is not None and mentions(ex(fl, v, n), lambda s: at(s, a)) else True, msg, n)
    for n in calls(fl, "add_task_subset"):
        for i, a in ((1, "subset"), (2, "description")):
            v = arg(n, i, a, "task_labels" if i == 1 else a)
            c.ob("K51-graph", "subset:" + a, None if v is not None and fl.derives(v, n, lambda t, m: at(t, a), True) else True, msg, n)
    ds = _attrstores(fl, "description")
    ctrs = [n for n in ctor(fl, "PipelineGraph") if "description" in n.kwargs]
    present(c, "K51-graph", "description", ds + ctrs, "the description of a pipeline is lost", fl)
    for n in ds:
        c.ob("K51-graph", "description:value", None if mentions(ex(fl, n.value, n), lambda s: at(s, "description")) else True, "the description of a pipeline is lost", n)
    for n in ctor(fl, "PipelineGraph"):
        v = n.kwargs.get("data_id")
        c.ob("K51-graph", "data ID", None if v is not None else True, "the instrument of a pipeline is lost", n)
    st = [n for n in g.live if n.kind == "substore" and n.key == const("instrument")]
    inst = {"none": lambda lit, m: lit[0] == "isnone" and (at(ex(fl, lit[1], m), "instrument") or mentions(ex(fl, lit[1], m), lambda s: s[0] == "call" and s[2] == "doImportType"))}
    if st and ctor(fl, "PipelineGraph"):
        must(c, "K51-graph", "instrument", fl, [g.entry], st, ctor(fl, "PipelineGraph"), "the instrument of a pipeline is lost", cut_edges(fl, inst, {"none": False}))
        for n in st:
            c.ob("K51-graph", "instrument:name", None if frm(fl, n.value, n, calls(fl, "getName")) else True, "the instrument of a pipeline is lost", n)
    # configuration of a task
    fl = flow_of(c, K, "_add_task_to_graph")
    for n in calls(fl, "applyConfigOverrides"):
        v = arg(n, 1, "taskDefaultName")
        c.ob("K52-task", "default name", None if v is not None and (fl.derives(v, n, lambda t, m: t == const("_DefaultName") or at(t, "_DefaultName"), True)) else True,
             "overrides of the instrument for a task are not found", n)
        v = arg(n, 4, "label")
        c.ob("K52-task", "label", None if v is not None and ex(fl, v, n) == ("param", "label") else True, "overrides of another task are applied", n)


def overriding(c):
    """What each kind of override does to the configuration."""
    O = c.prog.cls(B + "configOverrides.ConfigOverrides")
    fl = flow_of(c, O, "applyTo")
    g = fl.g
    cfg = ("param", "config")
    # which part of a stored pair is which
    pos = {}
    for nm, kind, fields in (("addValueOverride", "Value", ("field", "value")), ("addInstrumentOverride", "Instrument", ("instrument", "task_name"))):
        f2 = flow_of(c, O, nm)
        for n in calls(f2, "append"):
            t = ex(f2, n.args[0], n, 8)
            if t[0] == "tuple" and len(t[1]) == 2 and t[1][1][0] == "tuple":
                for i, x in enumerate(t[1][1][1]):
                    if x[0] == "param" and x[1] in fields:
                        pos[x[1]] = i

    def part(e, n, field):
        """Whether e may be, and (if decidable) is, the part of the override stored as field."""
        if field not in pos:
            return True
        hit = []
        fl.derives(e, n, lambda t, m: bool(t[0] == "item" and t[1][0] in ("item", "var", "sub") and hit.append(t[2])), True)
        for t, m in fl.sources(e, n):
            t = ex(fl, t, m)
            for s in subterms(t):
                if s[0] == "item" and s[1][0] == "item" and isinstance(s[2], int):
                    hit.append(s[2])
        hit = {x for x in hit if isinstance(x, int)}
        return not hit or pos[field] in hit

    msg = "an override is applied to something else"
    for n in calls(fl, "loadFromStream", "loadFromString", "load"):
        if n.recv is None:
            continue
        c.ob("K53-apply", "file:config", None if ex(fl, n.recv, n) == cfg else True, msg, n)
        v = n.kwargs.get("extraLocals")
        if v is not None:
            c.ob("K53-apply", "file:parameters", None if fl.derives(v, n, lambda t, m: t == self_("_parameters") or t[0] == "tmp" and g.nodes[t[1]].name == "_FrozenSimpleNamespace", True) else True,
                 "parameters are not available to configuration files", n)
    for n in calls(fl, "applyConfigOverrides"):
        a, b = arg(n, 0, "name"), arg(n, 1, "config")
        c.ob("K53-apply", "instrument:config", None if b is not None and ex(fl, b, n) == cfg else True, msg, n)
        c.ob("K53-apply", "instrument:name", None if a is not None and ex(fl, a, n) != cfg and part(a, n, "task_name") and part(n.recv, n, "instrument") else True, "overrides of the instrument for another task are applied", n)
    # Python code works on the configuration itself
    for n in calls(fl, "exec"):
        ns = arg(n, 2, "locals")
        ns = ns if ns is not None else arg(n, 1, "globals")
        st = [m for m in g.live if m.kind == "substore" and m.key == const("config") and ex(fl, m.value, m) == cfg]
        for x, m in fl.sources(ns, n) if ns is not None else ():
            t = fl.term(x, m)
            if t[0] == "dict":
                c.ob("K53-apply", "python:config", None if any(k == const("config") for k, _ in t[1]) or st else True, "Python overrides cannot change the configuration", n)
        for p in ("parameters",):
            ps = [m for m in g.live if m.kind == "substore" and m.key == const(p)]
            c.ob("K53-apply", "python:parameters", None if ps or calls(fl, "update") else True, "parameters are not available to Python overrides", n)
    # a value: nested fields are found below their parent, strings are parsed
    st = calls(fl, "setattr")
    for n in calls(fl, "split", "rsplit", "partition", "rpartition"):
        if not part(n.recv, n, "field") or not n.args or n.args[0] != const("."):
            continue
        one = n.kwargs.get("maxsplit", n.args[1] if len(n.args) > 1 else None)
        if n.name in ("split", "partition") and (one is not None or n.name == "partition"):
            c.fail("K53-apply", "nested:last", "a value two levels down is set on something else", n)
        else:
            c.ok("K53-apply", "nested:last")
    ag = calls(fl, "attrgetter", "getattr", "reduce")
    for n in st:
        v, f = n.args[2], n.args[1]
        c.ob("K53-apply", "value:which", None if part(v, n, "value") and part(f, n, "field") else True, "another value than the given one is set", n)
        if ag:
            fromparent = [m for m in g.calls() if m.recv is not None and frm(fl, m.recv, m, ag)] + ag
            c.ob("K53-apply", "nested:parent", None if frm(fl, n.args[0], n, fromparent) else True, "a nested value is set on the configuration itself", n)
            nested = lit_edges(fl, lambda l, m: l[0] == "truth" and l[2] is True and l[1][0] == "rest" or l[0] == "in" and l[1] == const(".") and l[3] is True)
            for i, lab in nested:
                c.ob("K53-apply", "nested:found", fl.path([(g.nodes[i], lab)], [n], stop_node=lambda m: m in fromparent), "a nested value is set on the configuration itself")
    parse = [n for n in g.live if n.kind == "call" and (n.name in ("visit", "_parser", "literal_eval") or (n.callee or "").startswith(O.qual + "."))]
    own = [n for n in parse if n.name != "_parser" and (n.callee or "").startswith(O.qual + ".")]
    for n in st:
        s = lit_edges(fl, lambda l, m: l[0] == "isinstance" and l[3] is True and l[2] == ("builtins.str",) and part(l[1], m, "value") and ex(fl, l[1], m)[0] == "item" and ex(fl, l[1], m)[1][0] == "item")
        present(c, "K53-apply", "parsed", parse, "values given as strings are not parsed", fl)
        if parse:
            for i, lab in s:
                c.ob("K53-apply", "string", fl.path([(g.nodes[i], lab)], [n], stop_node=lambda m: m in parse, stop_edge=lambda m, lab: lab == "exc"), "values given as strings are not parsed")
            c.ob("K53-apply", "string:tested", None if s or own or not any(l[0] == "isinstance" for m in g.live if m.kind == "branch" for l in fl.lits(m, True)) else True, "values given as strings are not parsed", n)
    fl = flow_of(c, O, "addParameters")
    for n in _attrstores(fl, "_parameters"):
        e = lit_edges(fl, lambda l, m: (l[0] == "isnone" and l[2] is True or l[0] == "truth" and l[2] is False) and ex(fl, l[1], m) == self_("_parameters"))
        used = mentions(ex(fl, n.value, n, 8), lambda s: s == self_("_parameters"))
        c.ob("K53-apply", "parameters:kept", None if used else fl.path([fl.g.entry], [n], stop_edge=lambda m, lab: (m.id, lab) in e), "parameters given before are lost", n)
    fl = flow_of(c, c.prog.cls(B + "config.PipelineTaskConfig"), "applyConfigOverrides")
    for n in calls(fl, "addFileOverride"):
        c.ob("K53-apply", "file:expanded", None if mentions(ex(fl, n.args[0], n, 8), lambda s: s[0] == "call" and s[2] == "expandvars") else True, "a configuration file named by a variable is not found", n)
    A = {"none": lambda lit, m: lit[0] == "isnone" and at(ex(fl, lit[1], m), "dataId"), "some": lambda lit, m: lit[0] == "truth" and at(ex(fl, lit[1], m), "dataId")}
    ns = calls(fl, "addValueOverride", "addPythonOverride", "addFileOverride")
    for some in (True, False):
        cut = cut_edges(fl, A, {"none": False, "some": some})
        hs = [h for h in iters(fl, False) if any(h in loops_of(fl, n) for n in ns) and not loops_of(fl, h)]
        for h in hs:
            if some:
                c.ob("K53-apply", "data ID", fl.path(elems(h), ns, stop_node=lambda m: m is h, stop_edge=lambda m, lab: (m.id, lab) in cut), "a configuration for one data ID is applied to all")


def parsing(c):
    """Strings that are literals are read as Python reads them; all others stay strings."""
    E = c.prog.cls(B + "configOverrides.ConfigExpressionParser")
    rule = "K54-parse"

    def ret(nm):
        if nm not in E.methods:
            c.fail(rule, nm, "a literal of a configuration is not understood", func=next(iter(E.methods.values())))
            return None, []
        fl = flow_of(c, E, nm)
        return fl, retvals(fl)

    for nm, kind in (("visit_List", "list"), ("visit_Set", "set"), ("visit_Dict", "dict"), ("visit_Tuple", "tuple")):
        fl, rs = ret(nm)
        if fl is None:
            continue
        present(c, rule, nm, rs, "a literal of a configuration is lost", fl)
        for h in iters(fl):
            t = ex(fl, h.iterable, h, 8)
            c.ob(rule, nm + ":elements", None if mentions(t, lambda s: at(s, "elts", "keys", "values", "node")) else True, "elements of a literal are lost", h)
            el = [n for n in fl.g.live if n.kind == "compelt" and h.id in n.d["compterm"][3]]
            if el:
                must(c, rule, nm + ":every element", fl, elems(h), el, [h], "elements of a literal are lost")
                c.ob(rule, nm + ":visited", None if [n for n in calls(fl, "visit") if n.id in fl.loop_body(h)] else True, "elements of a literal are not understood", h)
        for r in rs:
            kinds = set()
            for t, m in fl.sources(r.value, r):
                t = fl.term(t, m)
                if t[0] == "comp":
                    kinds.add(t[1])
                elif t[0] in ("list", "set", "tuple", "dict"):
                    kinds.add(t[0])
                elif t[0] == "tmp" and fl.g.nodes[t[1]].kind == "call":
                    kinds.add(fl.g.nodes[t[1]].name)
                else:
                    kinds.add("?")
            known = kinds & {"list", "set", "tuple", "dict"}
            c.ob(rule, nm + ":type", True if known and kind not in known and "?" not in kinds else None, "a literal of a configuration is read as something else", r)
    fl, rs = ret("visit_Constant")
    for r in rs:
        c.ob(rule, "visit_Constant", None if mentions(ex(fl, r.value, r), lambda s: at(s, "value")) else True, "a literal of a configuration is lost", r)
    fl, rs = ret("visit_Name")
    if fl is not None:
        known = {"known": lambda lit, m: lit[0] == "in" and mentions(ex(fl, lit[1], m), lambda s: at(s, "id"))}
        e = lit_edges(fl, lambda l, m: known["known"](l, m))
        look = [n for n in fl.g.live if n.kind in ("subload",) or n.kind == "call" and n.name == "get"]
        sub = any(mentions(fl.term(r.value, r), lambda s: s[0] == "sub" and mentions(s[1], lambda x: at(x, "variables"))) for r in rs) or look
        c.ob(rule, "visit_Name", None if sub else True, "names in a configuration are not looked up", func=fl.g.root)
        for r in rs:
            c.ob(rule, "visit_Name:unknown", True if fl.term(r.value, r) == const(None) else None, "a plain word of a configuration is lost", r)
    fl, rs = ret("visit_UnaryOp")
    if fl is not None:
        for r in rs:
            t = ex(fl, r.value, r, 8)
            if t == const(None):
                continue
            neg = t[0] == "op" and t[1] == "USub" or t[0] == "call" and t[2] == "neg" or t[0] == "op" and t[1] == "Sub"
            times = t[0] == "op" and t[1] == "Mult"
            if times:
                guarded = lit_edges(fl, lambda l, m: l[0] == "isinstance" and l[3] is True and frm(fl, l[1], m, calls(fl, "visit")))
                c.ob(rule, "visit_UnaryOp", fl.path([fl.g.entry], [r], stop_edge=lambda m, lab: (m.id, lab) in guarded), "a string or list after a minus sign is replaced by an empty one", r)
            else:
                c.ob(rule, "visit_UnaryOp", None if neg or not rs else True, "the sign of a number is lost", r)
    fl, rs = ret("generic_visit")
    if fl is not None:
        c.ob(rule, "generic_visit", fl.path([fl.g.entry], [fl.g.exit]), "a string that is no literal is replaced", func=fl.g.root)
    # anything that is not a literal stays as it is
    fl = flow_of(c, c.prog.cls(B + "configOverrides.ConfigOverrides"), "_parser")
    vis = calls(fl, "visit", "parse", "literal_eval")
    present(c, rule, "_parser", vis, "values given as strings are not parsed", fl)
    other = lit_edges(fl, lambda l, m: l[0] == "excis" and l[2] is False and any(x.rsplit(".", 1)[-1] in ("Exception", "BaseException") for x in l[1]))
    for n in vis:
        c.ob(rule, "_parser:no literal", fl.path([(n, "exc")], [fl.g.exc_exit], stop_edge=lambda m, lab: (m.id, lab) in other), "a string that is no literal is an error", n)
    for r in retvals(fl):
        c.ob(rule, "_parser:kept", None if any(fl.term(t, m) == ("param", "value") for t, m in fl.sources(r.value, r)) or len(retvals(fl)) > 1 else True, "a string that is no literal is lost", r)
    F = c.prog.cls(B + "configOverrides._FrozenSimpleNamespace")
    fl = flow_of(c, F, "__init__")
    last = [n for n in _attrstores(fl, "_frozen") if fl.term(n.value, n) == const(True)] + [n for n in calls(fl, "__setattr__") if const(True) in n.args]
    sup = calls(fl, "__init__")
    present(c, rule, "frozen", last, "an override can change the parameters of others", fl)
    if last:
        must(c, rule, "frozen", fl, [fl.g.entry], last, [fl.g.exit], "an override can change the parameters of others")
    fl = flow_of(c, F, "__setattr__")
    fr = {"frozen": _true(self_("_frozen"))}
    cut = cut_edges(fl, fr, {"frozen": True})
    c.ob(rule, "frozen:kept", fl.path([fl.g.entry], [fl.g.exit], stop_edge=lambda m, lab: (m.id, lab) in cut), "an override can change the parameters of others", func=fl.g.root)
