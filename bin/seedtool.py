#!/usr/bin/env python3
"""Tries planted bugs: seedtool.py ID... applies each patch to /repo, runs the
build, the stable tests, the demonstration and the check of its property (or
the checks given with -c), and undoes the patch.  -d: demonstration only."""
import argparse
import json
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("ids", nargs="*")
    ap.add_argument("-c", "--checks")
    ap.add_argument("-t", "--tests", action="store_true", help="also run the stable tests")
    ap.add_argument("-d", "--demo-only", action="store_true")
    ap.add_argument("-n", "--no-demo", action="store_true")
    a = ap.parse_args()
    ids = a.ids or sorted(os.listdir(os.path.join(VERIF, "seeded")))
    assert run(["git", "-C", "/repo", "status", "--short"]).stdout == "", "/repo is not clean"
    for i in ids:
        d = os.path.join(VERIF, "seeded", i)
        meta = json.load(open(os.path.join(d, "meta.json")))
        res = [i, meta["property"]]
        demo = os.path.join(d, "demo.sh")
        if not a.no_demo:
            r = run(["bash", demo], cwd="/repo")
            res.append("demo-clean " + ("ok" if r.returncode == 0 else f"BAD({r.returncode}) {r.stdout[-300:]} {r.stderr[-500:]}"))
        r = run(["git", "-C", "/repo", "apply", os.path.join(d, "patch.diff")])
        if r.returncode:
            print(*res, "PATCH DOES NOT APPLY", r.stderr)
            continue
        try:
            r = run(["bash", "/opt/vp/build.sh"])
            res.append("build " + ("ok" if r.returncode == 0 else "BAD " + r.stderr))
            if a.tests:
                out = "/tmp/seedtool-tests.json"
                r = run(["bash", "/opt/vp/test.sh", out])
                base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
                passed = json.load(open(out))["passed"]
                os.remove(out)
                missing = [t for t in base if t not in passed]
                res.append("tests " + ("ok" if not missing else f"BAD {missing}"))
            if not a.no_demo:
                r = run(["bash", demo], cwd="/repo")
                res.append("demo-bug " + ("ok" if r.returncode != 0 else "BAD(exit 0)"))
            if not a.demo_only:
                for c in (a.checks or meta["property"]).split(","):
                    r = run([sys.executable, "bin/check.py", c], cwd=VERIF)
                    res.append(f"{c}:" + {0: "missed", 1: "CAUGHT"}.get(r.returncode, f"error {r.returncode} {r.stderr[-600:]}"))
        finally:
            run(["git", "-C", "/repo", "checkout", "--", "."])
        print(*res, sep=" | ", flush=True)


main()
