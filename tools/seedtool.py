#!/usr/bin/env python3
"""Seeded changes: seedtool.py pack ID | verify ID... | check ID...

pack lays the rig beside demo.py and writes demo.sh; verify runs the demonstration on a scratch copy of the
repository without and with the patch; check applies the patch to /repo, builds, runs the stable tests and
the property's check, and undoes the patch."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
SH = '''#!/bin/bash
# cwd: the repository, after build.sh
D="$(cd "$(dirname "$0")" && pwd)"
exec /opt/acados-env/venv/bin/python -B "$D/demo.py"
'''


def pack(i):
    d = os.path.join(S, i)
    shutil.rmtree(os.path.join(d, "rig"), ignore_errors=True)
    shutil.copytree(os.path.join(V, "rig"), os.path.join(d, "rig"), ignore=shutil.ignore_patterns("__pycache__"))
    shutil.copy(os.path.join(V, "tools", "demo_head.py"), d)
    dd = os.path.join(d, "drivers")
    shutil.rmtree(dd, ignore_errors=True)
    os.makedirs(dd)
    src = open(os.path.join(d, "demo.py")).read()
    open(os.path.join(dd, "__init__.py"), "w").close()
    for f in os.listdir(os.path.join(V, "drivers")):
        if f.endswith(".py") and (f[:-3] in src or f == "common.py"):
            shutil.copy(os.path.join(V, "drivers", f), dd)
    with open(os.path.join(d, "demo.sh"), "w") as f:
        f.write(SH)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)


def verify(i):
    d = os.path.join(S, i)
    t = tempfile.mkdtemp(prefix="seed_")
    try:
        r = os.path.join(t, "repo")
        subprocess.run(["git", "clone", "-q", "--shared", "/repo", r], check=True)
        a = subprocess.run([os.path.join(d, "demo.sh")], cwd=r, capture_output=True, text=True)
        ap = subprocess.run(["git", "apply", os.path.join(d, "patch.diff")], cwd=r, capture_output=True, text=True)
        if ap.returncode:
            print(i, "DOES NOT APPLY", ap.stderr)
            return False
        b = subprocess.run([os.path.join(d, "demo.sh")], cwd=r, capture_output=True, text=True)
        ok = a.returncode == 0 and b.returncode != 0
        print(i, "ok" if ok else "BAD", "clean:", a.returncode, "patched:", b.returncode)
        if not ok:
            print(a.stdout[-1500:], a.stderr[-1500:])
        print("   patched says:", (b.stdout + b.stderr).strip().splitlines()[-1:] )
        return ok
    finally:
        shutil.rmtree(t, ignore_errors=True)


def check(i, tests=True):
    d = os.path.join(S, i)
    meta = json.load(open(os.path.join(d, "meta.json")))
    subprocess.run(["git", "-C", "/repo", "apply", os.path.join(d, "patch.diff")], check=True)
    try:
        if tests:
            b = subprocess.run(["bash", "/opt/vp/build.sh"], capture_output=True, text=True)
            o = os.path.join(tempfile.gettempdir(), "seed_test.json")
            subprocess.run(["bash", "/opt/vp/test.sh", o], capture_output=True)
            res = json.load(open(o))
            base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
            passed = json.dumps(res)
            print(i, "build", b.returncode, "tests", {k: v for k, v in res.items() if k != "x"} if len(passed) < 1500 else passed[:300])
        c = subprocess.run([os.path.join(V, "run_check.py"), meta["property"], "--tier", "quick"], capture_output=True, text=True)
        v = [x for x in c.stdout.splitlines() if x.startswith("VIOLATION")]
        print(i, "CAUGHT" if c.returncode == 1 and v else "MISSED rc=%d" % c.returncode, meta["property"])
        if not (c.returncode == 1 and v):
            print(c.stdout[-1200:], c.stderr[-1200:])
        else:
            print("   ", [x for x in c.stdout.splitlines() if x.startswith("  ")][:1])
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "--", "."], check=True)
        if tests:
            subprocess.run(["bash", "/opt/vp/build.sh"], capture_output=True, text=True)


if __name__ == "__main__":
    cmd, ids = sys.argv[1], sys.argv[2:] or sorted(os.listdir(S))
    for i in ids:
        if cmd == "quick":
            check(i, False)
        else:
            {"pack": pack, "verify": verify, "check": check}[cmd](i)
