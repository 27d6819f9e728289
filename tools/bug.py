#!/usr/bin/env python3
"""Develop planted bugs: bug.py make SPEC.py  /  bug.py verify ID... [--no-tests]

make: writes seeded/<id>/ from a spec (list BUGS of dicts id, prop, edits, needs, breaks, demo).
verify: in a scratch copy of /repo under /tmp, checks that the patch applies, the demo passes
without and fails with it, the stable tests pass, and whether the property's check catches it.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(ROOT, "seeded")
DEMO = """#!/bin/bash
# exit 0 when the property holds in this demonstration, nonzero otherwise
HERE=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 CUDA_VISIBLE_DEVICES=
exec timeout 250 /opt/venv/bin/python -B "$HERE/demo.py"
"""


def sh(cmd, **k):
    return subprocess.run(cmd, shell=isinstance(cmd, str), **k)


def make(spec):
    for b in runpy.run_path(spec)["BUGS"]:
        d = os.path.join(SEEDED, b["id"])
        os.makedirs(d, exist_ok=True)
        w = tempfile.mkdtemp(prefix="bugmk-")
        sh(["git", "-C", "/repo", "worktree", "prune"])
        sh(["git", "clone", "-q", "--shared", "/repo", w + "/r"], check=True)
        for f, old, new in b["edits"]:
            p = os.path.join(w, "r", f)
            s = open(p).read()
            assert s.count(old) == 1, (b["id"], f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", w + "/r", "diff"], text=True)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.py"), "w").write(b["demo"].lstrip("\n"))
        open(os.path.join(d, "demo.sh"), "w").write(DEMO)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]),
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        shutil.rmtree(w)
        print("made", b["id"])


def verify(ids, tests=True):
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    for i in ids:
        d = os.path.join(SEEDED, i)
        prop = json.load(open(d + "/meta.json"))["property"]
        w = tempfile.mkdtemp(prefix="bugv-")
        try:
            r = w + "/r"
            sh(["cp", "-a", "/repo", r], check=True)
            clean = sh(["bash", d + "/demo.sh"], cwd=r, capture_output=True).returncode
            ap = sh(["git", "-C", r, "apply", d + "/patch.diff"]).returncode
            dm = sh(["bash", d + "/demo.sh"], cwd=r, capture_output=True, text=True)
            env = dict(os.environ, PFRL_REPO=r, VERIF_SEED="1")
            c = sh([ROOT + "/check", prop], env=env, capture_output=True, text=True)
            viol = "VIOLATION property=%s" % prop in c.stdout
            missing = "skipped"
            if tests and dm.returncode and not clean and not ap:
                t = open("/opt/vp/test.sh").read().replace("/repo", r)
                open(w + "/test.sh", "w").write(t)
                sh(["bash", w + "/test.sh", w + "/out.json"], capture_output=True)
                got = json.load(open(w + "/out.json"))["passed"]
                missing = sorted(stable - set(got))
                missing = "%d %s" % (len(missing), missing[:3]) if missing else "ok"
            print("%-28s %s apply=%d demo clean=%d bug=%d tests=%s check=%s" % (
                i, prop, ap, clean, dm.returncode, missing,
                "CAUGHT" if c.returncode == 1 and viol else "MISSED rc=%d" % c.returncode))
            if not dm.returncode or clean:
                print(dm.stdout[-500:], dm.stderr[-800:])
            elif not (c.returncode == 1 and viol):
                print(c.stdout[-600:], c.stderr[-300:])
            sys.stdout.flush()
        finally:
            shutil.rmtree(w, ignore_errors=True)


if sys.argv[1] == "make":
    make(sys.argv[2])
else:
    verify([a for a in sys.argv[2:] if not a.startswith("--")], "--no-tests" not in sys.argv)
