"""Developer tool: tries planted changes on scratch copies of /repo.

try_seed.py [--tests] [--check] [--scale X] ID... : for each seeded/ID, applies
patch.diff to a copy under /tmp/w, optionally runs the repository's tests there,
the demo with and without the change, and the property's check against the copy.
"""

import argparse
import json
import os
import pathlib
import shutil
import subprocess
import sys
import time
import xml.etree.ElementTree as ET

V = pathlib.Path(__file__).resolve().parent.parent
SEEDED = V / "seeded"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, **kw)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--tests", action="store_true")
    ap.add_argument("--check", action="store_true")
    ap.add_argument("--only", help="property to check instead of the one in meta.json")
    ap.add_argument("--scale", default="1")
    ap.add_argument("--jobs", default="8")
    ap.add_argument("ids", nargs="*")
    a = ap.parse_args()
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    for i in a.ids or sorted(p.name for p in SEEDED.iterdir()):
        d = SEEDED / i
        meta = json.load(open(d / "meta.json"))
        w = pathlib.Path("/tmp/w") / i
        shutil.rmtree(w, ignore_errors=True)
        w.parent.mkdir(exist_ok=True)
        shutil.copytree("/repo", w, ignore=shutil.ignore_patterns(".git", "__pycache__", ".ruff_cache"))
        env = {**os.environ, "PYTHONPATH": str(w), "PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg", "MPLCONFIGDIR": "/opt/venv/mpl", "PYTHONHASHSEED": "0"}
        out = [i, meta["property"]]
        ok = sh(["bash", str(d / "demo.sh")], cwd=w, env=env)
        out.append("demo-clean:%s" % ("ok" if ok.returncode == 0 else "FAILS " + ok.stderr[-300:]))
        p = sh(["git", "apply", str(d / "patch.diff")], cwd=w)
        if p.returncode:
            print(i, "does not apply", p.stderr)
            continue
        bad = sh(["bash", str(d / "demo.sh")], cwd=w, env=env)
        out.append("demo-patched:%s" % ("fails" if bad.returncode else "PASSES"))
        if a.tests:
            x = w / "out.xml"
            sh(["timeout", "800", "/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "--continue-on-collection-errors", "-o", "junit_family=xunit2", "-n", "8", "--no-cov", f"--junitxml={x}"], cwd=w, env=env)
            r = w / "r"
            r.mkdir()
            shutil.move(x, r / "suite.xml")
            sh(["timeout", "150", "/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-o", "junit_family=xunit2", "-o", "addopts=", "--benchmark-disable", f"--junitxml={r}/benchmarks.xml", "tests/benchmarks"], cwd=w, env=env)
            sh(["/opt/venv/bin/python", "/opt/vp/results.py", str(w / "res.json"), f"junit:{r}/*.xml"])
            res = json.load(open(w / "res.json"))
            good = set(res["passed"]) if "passed" in res else {k for k, v in res.items() if v in ("passed", "pass", True)}
            lost = sorted(stable - good)
            out.append("tests:%s" % ("ok" if not lost else f"LOST {len(lost)} {lost[:3]}"))
        if a.check:
            t = time.time()
            c = sh([str(V / "check.sh"), a.only or meta["property"], "--no-evidence", "--scale", a.scale, "--jobs", a.jobs], env={**os.environ, "PBT_REPO": str(w)})
            v = [line for line in c.stdout.splitlines() if line.startswith("---") or line.startswith("VIOLATION")]
            out.append("check:%s %.0fs %s" % ({0: "MISSED", 1: "caught"}.get(c.returncode, f"?? {c.returncode} {c.stdout[-500:]}{c.stderr[-500:]}"), time.time() - t, (v or [""])[0][:60]))
        print(" | ".join(out), flush=True)
        shutil.rmtree(w, ignore_errors=True)


main()
