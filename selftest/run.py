"""Self-test of the checkers: every 'bad' source edit must be reported, every 'ok' edit must stay quiet.

Edits are applied to an in-memory overlay of /repo's sources; nothing is written or executed.
Usage: python3 selftest/run.py [module ...]
"""
import importlib.util
import os
import sys
import traceback
from concurrent.futures import ProcessPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
REPO = os.environ.get("VERIF_REPO", "/repo")
BASE = "python/lsst/pipe/base/"


def load(mod):
    spec = importlib.util.spec_from_file_location("cases_" + mod, os.path.join(HERE, f"cases_{mod}.py"))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def one(args):
    mod, name, edits, expect, rule_mods = args
    from sa.lib import AnalysisError, Check, Program

    try:
        overlay = {}
        for rel, old, new in edits:
            p = BASE + rel
            src = overlay.get(p) or open(os.path.join(REPO, p)).read()
            if src.count(old) < 1:
                return (mod, name, expect, "EDIT-NOT-APPLICABLE", rel)
            overlay[p] = src.replace(old, new, 1)
        for p, src in overlay.items():
            compile(src, p, "exec")
        prog = Program(REPO, overlay=overlay)
        got = []
        for rm in rule_mods:
            c = Check(prog, rm)
            importlib.import_module("sa.rules." + rm).run(c)
            got += [f"{v['rule']}:{v['message'][:80]}" for v in c.violations]
        res = "bad" if got else "ok"
        return (mod, name, expect, res, got)
    except AnalysisError as e:
        return (mod, name, expect, "error", str(e))
    except Exception:
        return (mod, name, expect, "CRASH", traceback.format_exc()[-600:])


def main():
    mods = sys.argv[1:] or sorted(f[6:-3] for f in os.listdir(HERE) if f.startswith("cases_"))
    jobs = []
    for mod in mods:
        m = load(mod)
        rms = getattr(m, "RULES", [mod])
        jobs.append((mod, "unchanged", [], "ok", rms))
        for case in m.CASES:
            name, expect, edits = case[0], case[1], case[2]
            if isinstance(edits, tuple):
                edits = [edits]
            jobs.append((mod, name, edits, expect, rms))
    nbad = 0
    with ProcessPoolExecutor(8) as ex:
        for mod, name, expect, res, info in ex.map(one, jobs):
            good = res == expect
            if not good:
                nbad += 1
            if not good or "-v" in os.environ.get("ST", ""):
                print(("ok  " if good else "FAIL"), mod, name, "expected", expect, "got", res, info)
    print(f"{len(jobs)} cases, {nbad} mismatches")
    return 1 if nbad else 0


if __name__ == "__main__":
    import importlib

    sys.exit(main())
