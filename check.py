#!/usr/bin/env python3
"""Decide one property (or all of them) by static analysis of /repo's working tree.

    python3 check.py --property P01 [--tier quick|thorough] [--repo /repo]

Exit 0: every obligation discharged (known findings are listed).  Exit 1 and a VIOLATION line: an obligation failed.
Exit 2: the analysis itself could not be carried out (an anchor vanished, a file does not parse).
"""
from __future__ import annotations

import argparse
import hashlib
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(10000)

from sa.lib import AnalysisError, Check, Program  # noqa: E402
from sa.props import PROPS  # noqa: E402


def known_findings():
    """Lines ``known: property=<id> rule=<rule> instance=<instance> | <what fails>``."""
    out = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            line = line.strip()
            if line.startswith("known:"):
                head, _, what = line[len("known:"):].partition("|")
                kv = dict(x.split("=", 1) for x in head.split())
                out.append((kv["property"], kv["rule"], kv["instance"], what.strip()))
    return out


def run_property(prog, pid, tier):
    t0 = time.time()
    p = PROPS[pid]
    c = Check(prog, pid, tier)
    errors = []
    for spec in p["rules"]:
        mod, fn = spec.split(":")
        try:
            getattr(importlib.import_module(f"sa.rules.{mod}"), fn)(c)
        except AnalysisError as e:
            errors.append(f"{spec}: {e}")
        except RecursionError:
            errors.append(f"{spec}: recursion limit")
        except Exception:
            errors.append(f"{spec}: {traceback.format_exc()}")
    expected = p.get("min_obligations", 1)
    if not errors and not c.violations and len(c.obligations) < expected:
        errors.append(f"only {len(c.obligations)} rule instances found, expected at least {expected}")
    return c, errors, time.time() - t0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", action="append")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    pids = a.property or sorted(PROPS)
    try:
        prog = Program(a.repo)
    except (AnalysisError, SyntaxError, OSError) as e:
        print(f"ANALYSIS-ERROR: {e}")
        return 2
    rc = 0
    known = known_findings()
    for pid in pids:
        c, errors, wall = run_property(prog, pid, a.tier)
        new = []
        for v in c.violations:
            k = next((x for x in known if x[0] == pid and x[1] == v["rule"] and x[2] == v["instance"]), None)
            if k:
                print(f"KNOWN-FINDING: property={pid} {k[3]}")
            else:
                new.append(v)
        st = c.stats()
        n_ok = sum(1 for o in c.obligations if o[2])
        print(f"{pid}: {len(c.obligations)} obligations, {n_ok} discharged; {st['functions']} functions analysed, "
              f"{st['icfg_nodes']} flow-graph nodes, {st['path_queries']} path queries ({st['inconclusive']} inconclusive), "
              f"{wall:.1f}s")
        if not a.no_evidence:
            write_evidence(prog, pid, a.tier, c, errors, wall, st, len(new))
        if new:
            rc = max(rc, 1) if rc != 2 else 1
            os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
            rp = os.path.join(HERE, "evidence", f"{pid}.violation.json")
            if a.no_evidence:
                rp = "(not written)"
            else:
                with open(rp, "w") as f:
                    json.dump(new, f, indent=1)
            for v in new:
                print(f"  {v['rule']} [{v['instance']}] {v['where'] or ''}: {v['message']}")
                for line in v["path"]:
                    print(f"      {line}")
            print(f"VIOLATION property={pid} replay={rp}")
        for e in errors:
            print(f"ANALYSIS-ERROR: property={pid} {e}")
        if errors and not new and rc == 0:
            rc = 2
    return rc


def write_evidence(prog, pid, tier, c, errors, wall, st, nviol):
    p = PROPS[pid]
    rules = {}
    for rule, inst, ok in c.obligations:
        rules.setdefault(rule, []).append(f"{inst}: {'holds' if ok else 'VIOLATED'}")
    digest = hashlib.sha256()
    files = sorted({prog.funcs[q].file for q in c.functions if q in prog.funcs})
    for f in files:
        with open(os.path.join(prog.repo, f), "rb") as fh:
            digest.update(fh.read())
    ev = {
        "property": pid,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other",
        "coverage": {
            "explanation": p["technique"] + ". " + p["level_note"],
            "obligations": len(c.obligations),
            "discharged": sum(1 for o in c.obligations if o[2]),
            "distinct_rules": len(rules),
            "functions_analysed": st["functions"],
            "entry_graphs": st["entry_graphs"],
            "icfg_nodes": st["icfg_nodes"],
            "icfg_edges": st["icfg_edges"],
            "path_queries": st["path_queries"],
            "refinements": st["refinements"],
            "inconclusive": st["inconclusive"],
            "program_modules_parsed": len(prog.modules),
            "files": files,
            "files_sha256": digest.hexdigest(),
            "rules": rules,
            "analysis_errors": errors,
        },
        "assumptions": p.get("assumptions", []),
        "wall_s": round(wall, 3),
        "violations": nviol,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)


if __name__ == "__main__":
    sys.exit(main())
