#!/usr/bin/env python3
"""mkseed.py SPEC.py [ID…]: makes /verif/seeded/<id> out of the planted bugs of a specification
(SEEDS: list of dict(id, prop, edits=[(file, old, new)], cases=[…], needs, breaks)), confirms each
in /repo (stable tests, demonstration with and without), restores /repo and runs the property's check."""
import importlib.util
import json
import os
import re
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
BASE = "91726de"


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def main():
    spec = importlib.util.spec_from_file_location("spec", sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    only = sys.argv[2:]
    assert not sh("git", "-C", R, "status", "--short").stdout, "/repo is not clean"
    for s in m.SEEDS:
        if only and s["id"] not in only:
            continue
        print("==", s["id"], flush=True)
        try:
            one(s)
        finally:
            sh("git", "-C", R, "checkout", "--", ".")


def one(s):
    d = os.path.join(V, "seeded", s["id"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for f, old, new in s["edits"]:
        p = os.path.join(R, f)
        t = open(p, encoding="utf-8").read()
        if t.count(old) != 1:
            print("   EDIT DOES NOT APPLY", f, t.count(old), repr(old[:60]))
            shutil.rmtree(d)
            return
        open(p, "w", encoding="utf-8").write(t.replace(old, new))
    diff = sh("git", "-C", R, "diff").stdout
    open(os.path.join(d, "patch.diff"), "w", encoding="utf-8").write(diff)
    # every removed line has to be the original repository's
    sh("git", "-C", R, "checkout", "--", ".")
    for f in {e[0] for e in s["edits"]}:
        blame = sh("git", "-C", R, "blame", "-s", "-l", f).stdout.splitlines()
        cur = None
        for ln in diff.splitlines():
            if ln.startswith("+++ "):
                cur = ln[6:]
            elif ln.startswith("@@"):
                n = int(re.match(r"@@ -(\d+)", ln)[1])
            elif cur == f and ln.startswith("-") and not ln.startswith("---"):
                if not blame[n - 1].lstrip("^").startswith(BASE):
                    print("   NOT AN ORIGINAL LINE:", ln)
                n += 1
            elif ln.startswith(" "):
                n += 1
    shutil.copy(os.path.join(V, "tools", "demo.py"), d)
    json.dump(s["cases"], open(os.path.join(d, "cases.json"), "w", encoding="utf-8"), ensure_ascii=False, indent=1)
    open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nexec python3 "$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
              open(os.path.join(d, "meta.json"), "w", encoding="utf-8"), ensure_ascii=False, indent=1)
    r = sh("python3", os.path.join(d, "demo.py"), "--record")
    print(r.stdout[:1500], r.stderr[:500])
    assert sh("bash", os.path.join(d, "demo.sh"), cwd=R).returncode == 0, "the demonstration fails unpatched"
    assert sh("git", "-C", R, "apply", os.path.join(d, "patch.diff")).returncode == 0
    sh("bash", "/opt/vp/build.sh")
    t = sh("bash", "/opt/vp/test.sh", "/tmp/seed_out.json")
    st = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    ok = set(json.load(open("/tmp/seed_out.json")).get("passed", []))
    missing = sorted(set(st) - ok)
    r = sh("bash", os.path.join(d, "demo.sh"), cwd=R)
    print("   patched demo:", r.returncode, r.stdout[:700])
    env = dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick")
    env.pop("AMV_SO", None)
    c = sh("python3", os.path.join(V, "run.py"), s["prop"], env=env, cwd=V)
    verdict = "CAUGHT" if c.returncode == 1 and "VIOLATION property=" + s["prop"] in c.stdout else f"MISSED ({c.returncode})"
    print("   TESTS", "ok" if not missing else missing, "| DEMO", "ok" if r.returncode else "PASSES PATCHED", "|", s["prop"], verdict)
    print((c.stdout + c.stderr)[-600:] if "MISSED" in verdict else c.stdout[-900:], flush=True)


main()
