#!/usr/bin/env python3
"""Plants a bug in a scratch copy, confirms it (builds, stable tests pass, demo fails with it and passes without it) and
stores it under seeded/ID.   plant.py SPEC.py [--check]     (SPEC defines id, prop, needs, breaks, edits, demo)
Development tool; no registered check uses it."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = """#!/bin/bash
# run with cwd = the repository; compiles the demonstration against src/ and runs it
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++17 -O1 -w -pthread -Isrc -I/usr/include/eigen3 "$here/demo.cpp" -o "$tmp/demo" || exit 3
timeout 120 "$tmp/demo"
"""

def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    w = "/tmp/plant_" + ns["id"]
    shutil.rmtree(w, ignore_errors=True)
    sh("cp -a /repo %s" % w)
    try:
        for f, old, new in ns["edits"]:
            p = os.path.join(w, "src/MathUtils", f)
            s = open(p).read()
            if s.count(old) != 1:
                sys.exit("edit does not match once (%d): %s\n%s" % (s.count(old), f, old))
            open(p, "w").write(s.replace(old, new))
        d = os.path.join(V, "seeded", ns["id"])
        os.makedirs(d, exist_ok=True)
        open(d + "/demo.cpp", "w").write(ns["demo"])
        open(d + "/demo.sh", "w").write(DEMO)
        os.chmod(d + "/demo.sh", 0o755)
        open(d + "/patch.diff", "w").write(sh("git -C %s diff -- src" % w).stdout)
        json.dump({"property": ns["prop"], "needs": ns["needs"], "what_it_breaks": ns["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        a = sh("bash %s/demo.sh" % d, cwd="/repo")
        b = sh("bash %s/demo.sh" % d, cwd=w)
        print("%s: demo unchanged -> %d, planted -> %d" % (ns["id"], a.returncode, b.returncode))
        if a.returncode or not b.returncode or b.returncode == 3:
            print(a.stdout[-1500:], b.stdout[-1500:])
            sys.exit(1)
        if "--notest" not in sys.argv:
            # the suite: same configuration as build.sh, in the scratch copy
            bs = open("/opt/vp/build.sh").read().replace("/repo", w)
            sh("rm -rf %s/_build" % w)
            open(w + "/b.sh", "w").write(bs)
            r = sh("bash %s/b.sh" % w)
            if r.returncode:
                sys.exit("does not build: " + r.stdout[-2000:])
            r = sh("ctest --test-dir %s/_build -j8 --timeout 300" % w)
            print([l for l in r.stdout.splitlines() if "tests passed" in l or "Failed" in l or "***" in l])
        if "--check" in sys.argv:
            for p in ns.get("checks", [ns["prop"]]):
                r = sh("VERIF_REPO=%s python3 check.py %s" % (w, p), cwd=V)
                print("\n".join(r.stdout.splitlines()[-7:])[:1500])
                print("   check %s exit %d: %s" % (p, r.returncode, "CAUGHT" if r.returncode == 1 else "MISSED"))
    finally:
        shutil.rmtree(w, ignore_errors=True)
main()
