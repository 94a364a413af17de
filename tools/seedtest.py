"""Developer tool: validate planted bugs in scratch copies of /repo (never in /repo itself).

usage: seedtest.py [--no-tests] ID...
For each seeded/<ID>: demo passes unpatched, patch applies, stable tests pass patched, demo fails patched, and which
checks report it.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def sh(cmd, cwd, env=None, timeout=1200):
    p = subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr


def one(sid, tests=True):
    from sa.props import PROPS

    d = f"{V}/seeded/{sid}"
    meta = json.load(open(f"{d}/meta.json"))
    work = tempfile.mkdtemp(prefix="seed-")
    out = [sid, meta["property"]]
    try:
        shutil.copytree("/repo", f"{work}/r", symlinks=True)
        r = f"{work}/r"
        env = dict(os.environ, PYTHONPATH=f"{r}/python", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", TMPDIR=work,
                   PATH="/opt/venv/bin:/usr/local/bin:/usr/bin:/bin")
        rc, o = sh(["bash", f"{d}/demo.sh"], r, env)
        if rc:
            return out + [f"DEMO FAILS UNPATCHED rc={rc} {o[-600:]}"]
        rc, o = sh(["git", "apply", f"{d}/patch.diff"], r)
        if rc:
            return out + ["PATCH DOES NOT APPLY " + o]
        rc, o = sh(["bash", f"{d}/demo.sh"], r, env)
        if rc == 0:
            return out + ["DEMO PASSES PATCHED"]
        out.append("demo ok: " + " ".join(o.strip().splitlines()[-1:])[:150])
        if tests:
            x = f"{work}/j.xml"
            sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-n", "3", "--timeout=300",
                "-o", "junit_family=xunit2", f"--junitxml={x}", "tests"], r, env)
            sh(["/usr/bin/python3", "/opt/vp/results.py", f"{work}/o.json", f"junit:{x}"], r)
            res = json.load(open(f"{work}/o.json"))
            miss = sorted(STABLE - set(res["passed"]))
            out.append("tests pass" if not miss else f"TESTS BROKEN {miss[:4]}")
        hits = []
        for pid in PROPS:
            rc, o = sh(["python3", f"{V}/check.py", "--property", pid, "--repo", r, "--no-evidence"], V)
            if rc == 1:
                hits.append(pid)
            elif rc:
                hits.append(f"{pid}:rc{rc}")
        out.append("caught by " + ",".join(hits) if meta["property"] in hits else "MISSED " + ",".join(hits))
    finally:
        shutil.rmtree(work)
    return out


if __name__ == "__main__":
    a = sys.argv[1:]
    tests = "--no-tests" not in a
    ids = [x for x in a if not x.startswith("-")] or sorted(os.listdir(f"{V}/seeded"))
    rp = f"{V}/tools/seed_results.json"
    with ThreadPoolExecutor(3 if tests else 6) as ex:
        for r in ex.map(lambda s: one(s, tests), ids):
            print(" | ".join(map(str, r)), flush=True)
            res = json.load(open(rp)) if os.path.exists(rp) else {}
            res[r[0]] = r[-1].lower() if r[-1].startswith(("caught", "MISSED")) else "invalid"
            json.dump(res, open(rp, "w"), indent=0, sort_keys=True)
