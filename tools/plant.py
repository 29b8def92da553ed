#!/usr/bin/env python3
"""Plants bugs in scratch copies and confirms them.

usage: plant.py SPEC.py [ID ...]     SPEC defines BUGS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo=PYTHON)]
For every bug: copy /repo, apply, build, run the stable tests, run the demo with and without the
change (in a private mount namespace where the copy lies at /repo), then run the property's quick check.
Confirmed bugs are written to seeded/ID.
"""
import importlib.util
import json
import os
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = """#!/bin/bash
# exit 0: the property holds on this input; 1: it does not
D=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH=/repo/_build/pkg LD_LIBRARY_PATH=/repo/_build/pkg/awkward PYTHONDONTWRITEBYTECODE=1
exec timeout 250 /opt/vp/venv/bin/python -W ignore "$D/demo.py"
"""


def ns(copy, cmd, **kw):
    return subprocess.run(["unshare", "-Urm", "bash", "-c", "mount --bind %s /repo && cd /repo && %s" % (copy, cmd)],
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def one(b, tests=True):
    bid = b["id"]
    copy = "/tmp/plant_" + bid
    shutil.rmtree(copy, ignore_errors=True)
    subprocess.check_call(["cp", "-a", "/repo", copy])
    subprocess.check_call(["git", "-C", copy, "checkout", "-q", "--", "."])
    out = {"id": bid}
    try:
        for f, old, new in b["edits"]:
            p = os.path.join(copy, f)
            s = open(p).read()
            if s.count(old) != 1:
                return dict(out, status="edit matches %d times in %s" % (s.count(old), f))
            open(p, "w").write(s.replace(old, new))
        patch = subprocess.check_output(["git", "-C", copy, "diff"], text=True)
        d = "/tmp/plantd_" + bid
        os.makedirs(d, exist_ok=True)
        open(d + "/demo.py", "w").write(b["demo"])
        open(d + "/demo.sh", "w").write(DEMO)
        os.chmod(d + "/demo.sh", 0o755)
        r = subprocess.run(["bash", d + "/demo.sh"], cwd="/repo", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            return dict(out, status="demo fails on the unchanged tree", log=r.stdout[-1500:])
        r = ns(copy, "bash /opt/vp/build.sh")
        if r.returncode:
            return dict(out, status="build failed", log=r.stdout[-2500:])
        r = ns(copy, "bash %s/demo.sh" % d)
        if r.returncode == 0:
            return dict(out, status="demo passes with the change", log=r.stdout[-1500:])
        out["demo"] = r.stdout[-300:]
        r = ns(copy, "cd %s && VERIF_TIER=quick %s check.py %s" % (V, "/opt/vp/venv/bin/python", b["property"]))
        out["check"] = {0: "MISSED", 1: "caught"}.get(r.returncode, "rc %d" % r.returncode)
        out["checklog"] = "\n".join(x[:200] for x in r.stdout.splitlines() if "quick" in x or "VIOL" in x)[-300:]
        if tests:
            r = ns(copy, "bash /opt/vp/test.sh %s/out.json" % d)
            o = json.load(open(d + "/out.json"))
            miss = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - set(o["passed"])
            if miss:
                return dict(out, status="stable tests fail: %d %s" % (len(miss), sorted(miss)[:4]))
        dst = os.path.join(V, "seeded", bid)
        os.makedirs(dst, exist_ok=True)
        open(dst + "/patch.diff", "w").write(patch)
        shutil.copy(d + "/demo.py", dst)
        shutil.copy(d + "/demo.sh", dst)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(dst + "/meta.json", "w"), indent=1)
        return dict(out, status="kept" if tests else "kept (tests not run)")
    finally:
        shutil.rmtree(copy, ignore_errors=True)
        shutil.rmtree("/tmp/plantd_" + bid, ignore_errors=True)


if __name__ == "__main__":
    spec = importlib.util.spec_from_file_location("spec", sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    want = [a for a in sys.argv[2:] if not a.startswith("--")]
    for b in m.BUGS:
        if want and b["id"] not in want:
            continue
        r = one(b, tests="--notests" not in sys.argv)
        print(r["id"], b["property"], r["status"], r.get("check"), flush=True)
        for k in ("log", "checklog"):
            if r.get(k):
                print("   ", r[k].replace("\n", "\n    "), flush=True)
