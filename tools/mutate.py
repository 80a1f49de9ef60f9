#!/usr/bin/env python3
"""tools/mutate.py <file> [ids]: the file sets L to a Python list of (check ids, source file, old text, new text); each is tried against the quick checks on a scratch copy of /repo (checks are told by DV_REPO)."""
import os, re, shutil, subprocess, sys, tempfile
T = tempfile.mkdtemp(prefix="mut"); R = T + "/repo"
subprocess.run(["cp", "-a", "/repo", R])
try:
    ns = {}; exec(open(sys.argv[1]).read(), ns)
    for n, m in enumerate(ns["L"]):
        ids, f, a, b = m
        if len(sys.argv) > 2 and not any(i in sys.argv[2:] for i in [str(n)] + ids.split()): continue
        p = os.path.join(R, f); s = open(p).read()
        if s.count(a) < 1: print("==", n, "NOT FOUND", a[:80]); continue
        open(p, "w").write(s.replace(a, b, 1))
        print("==", n, f, "|", " ".join(a.split())[:70], "->", " ".join(b.split())[:80]); sys.stdout.flush()
        for i in ids.split():
            o = subprocess.run(["bin/check", i, "quick"], cwd="/verif", env=dict(os.environ, DV_REPO=R), capture_output=True, text=True, errors="replace")
            l = [x for x in (o.stdout + o.stderr).splitlines() if re.match(r"OK|VIOLATION|  \S.*times\)|.*[Ee]rror|KNOWN", x) and "deprec" not in x]
            print("  ", i, "CAUGHT" if "VIOLATION" in o.stdout else "missed" if o.returncode == 0 else "BROKEN", "|", " ; ".join(x.strip()[:90] for x in l[:3])); sys.stdout.flush()
        open(p, "w").write(s)
finally: shutil.rmtree(T)
