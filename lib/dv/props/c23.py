"""C23: deltas made with a print of the installed files and a patch (Patches.tla, over Archive.tla)."""
import os, random, stat, subprocess
from .. import deltafile as D, gen, installed, recon, seqid
from ..rpmfile import F, Pkg
from ..rpml import L

UNPATCHED = 1 << 10
def lists(rng, root, fs, situ):
    """fs: files of the package; situ: path -> Patches.tla class -> (print, patch files for an rpm, patch list)"""
    pf, pu, ff, uu, rpmfiles = [], [], [], [], []
    for f in fs:
        c = situ.get(f.path)
        n = rng.choice(["", "./"]) + f.path[1:]; plain = f.path[1:]
        body = f.content if f.kind == "reg" else f.linkto.encode() if f.kind == "sym" else b""
        other = f.content + b"!" if rng.random() < .5 or not f.content else f.content[:-1] + bytes([f.content[-1] ^ 1])
        s = c["inprint"] if c else rng.choice(["same", "absent"])
        if s == "same": pf.append((n, f.mode, body))
        elif s == "other": pf.append((n, f.mode, other))
        elif s == "none": pf.append((n, rng.choice([0, f.mode]), b""))
        elif s == "listed first": pu.append(plain); pf.append((n, f.mode, body))
        elif s == "twice": x = [(n, f.mode, body), (n, f.mode, other)]; rng.shuffle(x); pf += x
        w = c["inpatch"] if c else rng.choice(["absent", "file"])
        if "unpatched" in w and w != "file+unpatched": uu.append(plain)
        # within one list the unpatched files come first; file+unpatched is a name that is not quite the listed one
        if w == "file+unpatched": uu.append(plain + "x")
        if w == "unpatched+file": uu.append(plain + rng.choice(["", "0"]))
        if "file" in w: ff.append((n, f.mode, rng.choice([body, other])))
        if w != "absent": rpmfiles.append(gen.clone(f, flags=f.flags | (UNPATCHED if "unpatched" in w else 0), in_payload=False))
    rng.shuffle(pf) if rng.random() < .3 else None
    return pf, pu, ff, uu, rpmfiles

def case(ck):
    def run(d, c):
        rng = random.Random("%d-%s" % (ck.seed, c["k"]))
        dr = ck.dir(); P = lambda n: os.path.join(dr, n)
        os.mkdir(P("s")); site = installed.Site(P("s")); root = site.root
        problems, ev = [], [{"e": "case", "id": c["k"]}]
        fs, situ = [], {}
        for i, x in enumerate(c["cls"]):
            path = "%s/%s%d" % (root, rng.choice(["a/f", "a/fl", "b/long/name", "f"]), i)
            k = x["kind"]
            if k in ("reg", "hard", "config"): f = F(path, content=gen.data(rng, rng.choice([1, 5, 300, 3000]), "rand"))
            elif k == "empty": f = F(path, content=b"")
            elif k == "sym": f = F(path, "sym", linkto="target%d" % i)
            else: f = F(path, "dir", mode=0o755)
            if k == "config": f.flags = 1
            situ[path] = x; fs.append(f)
            if k == "hard":
                g = gen.clone(f, path=path + "l", nlink=2, ino=900 + i); f.nlink, f.ino, f.payload_content = 2, 900 + i, b""
                situ[g.path] = x; fs.append(g)
        for i in range(rng.randint(1, 3)): fs.insert(rng.randint(0, len(fs)), F("%s/bg/%d" % (root, i), content=gen.data(rng, rng.randint(1, 900), "rand")))
        nf = [gen.clone(f, content=gen.edit(rng, f.content, "append")) if f.kind == "reg" and f.nlink < 2 and rng.random() < .4 else f for f in fs]
        algo = 1 if rng.random() < .85 else 8
        kw = dict(name="pat", comp="gzip", level=1, algo=algo)
        old = Pkg(version="1", files=fs, order=gen.order(rng, len(fs), rng.choice(["same", "shuffled"])), **kw)
        new = Pkg(version="2", files=nf, **kw)
        pf, pu, ff, uu, rf = lists(rng, root, fs, situ)
        evr = "1-1"
        own = dict(long_names=rng.random() < .2, owner=rng.choice([(b"", b""), (b"daemon", b""), (b"", b"wheel"), (b"ab", b"cdefghij"[:8])]), wide=rng.random() < .3)
        pev, qev = ("1-2", evr) if c.get("nevr") == "print" else (evr, "2-1") if c.get("nevr") == "patch" else (evr, evr)
        pr = L("pat", pev, pf + ([("dev/z", 0o20600, b"")] if rng.random() < .3 else []), ["older"] if pu else [], pu, **own)
        pa = L("pat", qev, ff, ["patch-%d" % i for i in range(rng.randint(1, 3))] if uu or rng.random() < .5 else [], uu, **own)
        open(P("print"), "wb").write(pr.bytes())
        if c["rpm"]:
            pp = Pkg(version=qev.split("-")[0], files=rf, **kw); pp.write(P("patch"))
            plist = [(f.path[1:], bool(f.flags & UNPATCHED), "") for f in pp.hfiles()]
        else: open(P("patch"), "wb").write(pa.bytes()); plist = pa.entries()
        tolist = lambda x: [{"name": n, "unpatched": u, "sum": s} for n, u, s in x]
        base = {"print": {"state": "ok", "nevr": "pat-" + pev, "list": tolist(pr.entries())}, "patch": {"state": "ok", "nevr": "pat-" + qev, "list": tolist(plist)}, "src": old.nevr}
        raws = {n: open(P(n), "rb").read() for n in ("print", "patch")}
        old.write(P("old")); new.write(P("new")); site.package("old", P("old"), old); site.install(old)
        if c.get("bad"):
            which, how = c["bad"]; b = raws[which]
            if how == "missing": os.unlink(P(which))
            else:
                b = {"cut": b[:c["at"] * len(b) // 1000], "magic": b"RPMX" + b[4:], "junk": rng.randbytes(400), "empty": b""}.get(how, b)
                if how == "flip": i = c["at"] * len(b) // 1000; b = b[:i] + bytes([b[i] ^ (1 << rng.randrange(8))]) + b[i + 1:]
                if how == "ones": i = c["at"] * len(b) // 1000; b = b[:i] + b"\xff" * rng.choice([1, 2, 4]) + b[i + 1:]
                if how == "isrpm": b = open(P("old"), "rb").read()
                open(P(which), "wb").write(b)
            base[which] = dict(base[which], state="missing" if how == "missing" else "bad")
        idn = [e for e in recon.entries(old)]
        ents = [dict(e, name=f.path[1:], sum=f.md5(algo) if f.kind == "reg" else "") for f, e in idn]
        colors = bool(old.colors)
        versions = [1, 2, 3] if ck.thorough else [rng.choice([1, 2]), 3]
        home = site.home(["old"]); ops = [["setenv", "HOME", home], ["umask", 0o22]]; plan = []
        op = lambda *a: ops.append(list(a)) or len(ops) - 1
        for v in versions:
            self_ = rng.random() < .15; comp, lv = rng.choice([("gzip", 1), ("none", 0), ("bzip2", 1)])
            for o in gen.opt_ops(0, "standard", v, comp, lv, rng.choice([("gzip", 1), None])): ops.append(o)
            op("opatches", 0, P("print"), P("patch"))
            a = op("make", None if self_ else P("old"), P("old" if self_ else "new"), P("d%d" % v), 0)
            u = [op("apply", P("old"), P("d%d" % v), P("r%d" % v)), op("check", P("d%d" % v), 1), op("apply", None, P("d%d" % v), P("i%d" % v))]
            op("odestroy", 0); plan.append((v, self_, a, u))
        # an rpm-only delta has no use for them
        ops += gen.opt_ops(0, "rpmonly", 3); op("opatches", 0, P("print"), P("patch")); ro = op("make", P("old"), P("new"), P("dr"), 0)
        op("odestroy", 0); ops += gen.opt_ops(0, "rpmonly", 3); ro2 = op("make", P("old"), P("new"), P("dr2"), 0)
        # what is on disk: files that may differ do
        def left_out(e):
            def at(l): return next((x for x in l if x["name"] == e["name"]), None)
            q, p = at(base["patch"]["list"]), at(base["print"]["list"])
            return e["kind"] == "reg" and bool(q and q["unpatched"]) and not (p and p["sum"] == e["sum"])
        changed = []
        if not c.get("bad"):
            outs = [f for f, e in idn if f.kind == "reg" and left_out(dict(e, name=f.path[1:], sum=f.md5(algo)))]
            rest = [f for f, e in idn if f.kind == "reg" and f not in outs and f.content]
            ch = outs if c["touch"] != "needed" else outs + rng.sample(rest, min(1, len(rest)))
            for f in ch:
                if f.kind != "reg" or not f.content: continue
                with open(f.path, "r+b") as g: g.write(bytes(x ^ 0x55 for x in f.content[:rng.choice([1, 10 ** 6])]))
                changed.append(f.path[1:])
        r = d.session(ops)
        if r.crash: return [("crash-%s" % (c.get("bad") or ["make"])[0], "%s\n%s" % (r.crash, r.stderr[-1500:]))], ev
        def exact(p, q): return os.path.exists(p) and open(p, "rb").read() == open(q, "rb").read()
        for v, self_, a, u in plan:
            tp = P("old" if self_ else "new")
            e = dict(base, e="make", rc=r.rc(a), version=v, ents=ents, colors=colors, count=len(old.hfiles()), nibbles=[], adj=[], len=0)
            if r.rc(a) == "OK":
                try: x = D.parse(open(P("d%d" % v), "rb").read())
                except D.BadDelta as ex: problems.append(("malformed", str(ex))); continue
                e.update(nibbles=seqid.unpack(x.sequence[16:]), adj=[list(t) for t in x.offadj], len=x.ext_data_len)
                kept = [f for (f, _), t in zip(idn, ents) if seqid.usable(f, old.colors) and not left_out(t)]
                if not (c.get("bad") and c["bad"][1] in ("flip", "ones")) and x.sequence[:16] != seqid.digest(kept, algo): problems.append(("digest", "metadata digest of the sequence"))
            if c.get("bad") and c["bad"][1] in ("flip", "ones"): e = {"e": "any"}
            ev.append(e)
            if r.rc(a) != "OK" or e["e"] == "any": continue
            z = dict(base, e="use", ents=ents, colors=colors)
            ev.append(dict(z, op="apply", changed=[], rc=r.rc(u[0]), exact=exact(P("r%d" % v), tp)))
            ev.append(dict(z, op="check", changed=changed, rc=r.rc(u[1]), exact=True))
            ev.append(dict(z, op="apply", changed=changed, rc=r.rc(u[2]), exact=exact(P("i%d" % v), tp)))
        ev.append(dict(base, e="use", ents=ents, colors=colors, op="apply", changed=[], rc=r.rc(ro), exact=r.rc(ro2) == "OK" and exact(P("dr"), P("dr2"))))
        # the reference makes the same of them
        if algo == 1 and not c.get("bad") and c["ref"] and ev[1]["rc"] in ("OK", "ARGS"):
            t = subprocess.run(["makedeltarpm", "-z", "gzip,gzip", "-p", P("print"), P("patch"), "-s", P("rseq"), P("old"), P("new"), P("rd")], capture_output=True, text=True)
            if (t.returncode == 0) != (ev[1]["rc"] == "OK"): problems.append(("reference-verdict", "makedeltarpm: %s %s, drpm %s" % (t.returncode, t.stderr[-300:], ev[1]["rc"])))
            elif t.returncode == 0:
                mine = D.parse(open(P("d3"), "rb").read()).sequence.hex()
                if not plan[-1][1] and open(P("rseq")).read().strip().split("-")[-1] != mine: problems.append(("reference-sequence", "makedeltarpm %s drpm %s" % (open(P("rseq")).read().strip(), mine)))
        return problems, ev
    return run

def run(ck):
    rng = random.Random(ck.seed)
    cfg = 'SPECIFICATION Spec\nCONSTANTS\n Names = {%s}\n MaxList = %d\n'
    ck.tlc("Patches", cfg % ('"a"' if not ck.thorough else '"a","b"', 2) + "INVARIANTS Safe Sparing\n", workers=6)
    r = ck.tlc("Patches", cfg % ('"a"', 0) + "CONSTRAINT EmitClass\n")
    cls = r.printed(); cls.sort(key=str); ck.notes["situations"] = len(cls)
    cases = []
    for rep in range(ck.q(3, 20)):
        for rpm in (True, False):
            mine = [c for c in cls if c["rpm"] == rpm]; rng.shuffle(mine); i = 0
            while i < len(mine):
                n = rng.randint(1, 6); cases.append({"k": "cls-%s-%d-%d" % (rpm, rep, i), "cls": mine[i:i + n], "rpm": rpm, "touch": rng.choice(["left", "left", "needed"]), "ref": True}); i += n
    pick = lambda rpm, n: rng.sample([c for c in cls if c["rpm"] == rpm], n)
    for i in range(ck.q(6, 30)):
        for w in ("print", "patch"): rpm = rng.random() < .5; cases.append({"k": "nevr-%s-%d" % (w, i), "cls": pick(rpm, 3), "rpm": rpm, "nevr": w, "touch": "left", "ref": True})
    for i in range(ck.q(300, 4000)):
        w = rng.choice(["print", "patch"]); how = rng.choice(["cut"] * 4 + ["flip", "flip", "ones", "ones", "magic", "junk", "missing", "empty"] + (["isrpm"] if w == "print" else []))
        cases.append({"k": "bad-%d" % i, "cls": pick(False, rng.randint(1, 5)), "rpm": False, "bad": (w, how), "at": rng.randrange(1000), "touch": "left", "ref": False})
    cases.append({"k": "many", "cls": [rng.choice([c for c in cls if not c["rpm"]]) for _ in range(120)], "rpm": False, "touch": "left", "ref": True})
    cases.append({"k": "manyrpm", "cls": [rng.choice([c for c in cls if c["rpm"]]) for _ in range(120)], "rpm": True, "touch": "left", "ref": True})
    pool = ck.pool("asan")
    ck.run_traced(pool, cases, case(ck), "PatchesTrace", 'CONSTANTS\n MaxEntries = 0\n Mode = "walk"\n', key=lambda c: c["k"], budget=ck.q(200, 2000), sig=lambda e: "%s-%s" % (e["e"], e.get("rc")))
    for c in cases[:3]: ck.sample(c)
    return ck.finish("model_checking", "every situation of a file in print and patch (Patches.tla), in packages of several, with lists and patch packages written in all forms; deltas made, decided by PatchesTrace.tla, compared with makedeltarpm's, and used on systems where the files left out differ; damaged lists under AddressSanitizer")
