#!/usr/bin/env python3
"""mkseed.py FILE [ids]: FILE defines SEEDS, a list of (id, property, [(src, old, new)], needs, breaks, demo code). Confirms each in a scratch copy and writes seeded/<id>/."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KIT = os.path.join(V, "tools", "seedkit")
ns = {}; exec(open(sys.argv[1]).read(), ns)
ids = sys.argv[2:]
def sh(cmd, cwd=None, t=600):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t)
T = tempfile.mkdtemp(prefix="seed")
R = os.path.join(T, "repo")
sh("cp -a /repo %s" % R); shutil.rmtree(R + "/_build", ignore_errors=True)
for s in ("build.sh", "test.sh"):
    x = open("/opt/vp/" + s).read().replace("/repo", R).replace("/opt/vp/build.sh", T + "/build.sh"); open(os.path.join(T, s), "w").write(x)
base = json.load(open("/opt/vp/BASELINE.json"))
want = set(base["stable"])
assert len(want) == 38, base.keys()
try:
    for sid, prop, edits, needs, breaks, demo in ns["SEEDS"]:
        if ids and sid not in ids: continue
        out = os.path.join(V, "seeded", sid); tmp = os.path.join(T, sid); os.makedirs(tmp)
        for f in os.listdir(KIT):
            if f.endswith((".py", ".c")): shutil.copy(os.path.join(KIT, f), tmp)
        open(tmp + "/demo.py", "w").write("from kit import *\n" + ("from rpmfile import *\n" if "Pkg(" in demo else "") + demo)
        open(tmp + "/demo.sh", "w").write('#!/bin/bash\n# exit 0: the property holds\nexec python3 -B "$(dirname "$(realpath "$0")")/demo.py"\n'); os.chmod(tmp + "/demo.sh", 0o755)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(tmp + "/meta.json", "w"), indent=1)
        sh("git checkout -q -- .", R)
        a = sh("bash %s/demo.sh" % tmp, R, 300)
        if a.returncode: print(sid, "DEMO FAILS ON UNCHANGED:", a.stdout[-500:], a.stderr[-800:]); continue
        bad = False
        for f, o, n in edits:
            p = os.path.join(R, f); s = open(p).read()
            if s.count(o) != 1: print(sid, "pattern occurs %d times: %r" % (s.count(o), o)); bad = True; break
            open(p, "w").write(s.replace(o, n))
        if bad: sh("git checkout -q -- .", R); continue
        d = sh("git diff", R).stdout; open(tmp + "/patch.diff", "w").write(d)
        t = sh("bash %s/test.sh %s/res.json" % (T, T))
        res = json.load(open(T + "/res.json")); lost = want - set(res["passed"])
        if lost: print(sid, "TESTS NOTICE:", sorted(lost)[:4]); continue
        b = sh("bash %s/demo.sh" % tmp, R, 300)
        if b.returncode == 0: print(sid, "DEMO PASSES WITH PATCH"); continue
        shutil.rmtree(out, ignore_errors=True); shutil.copytree(tmp, out)
        print(sid, "ok:", (b.stdout + b.stderr)[-200:].strip())
finally: shutil.rmtree(T)
