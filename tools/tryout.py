#!/usr/bin/env python3
"""Development tool: applies each change of a list to a scratch copy and runs the named checks.
   tryout.py LIST.py [name...]     LIST defines items = [(name, "bug"|"same", "C01 C06", [(file, old, new), ...]), ...]
   A bug should be caught by (one of) its checks; a behaviour-preserving change ("same") must leave all of them quiet."""
import os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
for name, kind, checks, edits in ns["items"]:
    if only and name not in only:
        continue
    w = "/tmp/try_" + name
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    shutil.copytree("/repo/src", w + "/src")
    bad = False
    for f, old, new in edits:
        p = os.path.join(w, "src/MathUtils", f)
        s = open(p).read()
        if s.count(old) < 1:
            print(name, "EDIT DOES NOT MATCH", f, old[:80])
            bad = True
            break
        open(p, "w").write(s.replace(old, new))
    if bad:
        continue
    for p in checks.split():
        r = subprocess.run(["python3", V + "/check.py", p], env=dict(os.environ, VERIF_REPO=w), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        ok = r.returncode == (1 if kind == "bug" else 0)
        why = ""
        if kind == "bug" and r.returncode == 1 or not ok:
            ls = [l for l in r.stdout.splitlines() if l.strip() and "KNOWN" not in l]
            why = " | ".join(ls[:1])[:200] if r.returncode == 1 else r.stdout[-700:]
        print("%s %s %s: exit %d %s %s" % ("ok  " if ok else "BAD ", kind, name, r.returncode, p, why), flush=True)
    shutil.rmtree(w, ignore_errors=True)
