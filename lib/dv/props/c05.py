"""C05: check verdicts follow the installed state (Installed.tla): every state replayed, histories validated."""
import hashlib, os, random
from .. import gen, installed, seqid, worlds
from ..rpmfile import F, Pkg

CONSTS = "CONSTANTS\n Needed = {}\n Unneeded = {}\n Versions = {\"src\"}\n Depth = 0\n"
NEED, UNNEED = ["n1", "n2"], ["u1"]

def packages(rng, root, style):
    """source package with files n1, n2 (needed), u1 (not needed) and others the states do not touch"""
    def content(n): return gen.data(rng, n, rng.choice(["rand", "text", "mixed"]))
    sz = rng.choice([(1, 40), (50, 4097), (4095, 9000), (8192, 70), (1000, 20000)])
    fs = [F(root + "/a/n1", content=content(sz[0])), F(root + "/n2", content=content(sz[1]))]
    if style == "elf":
        fs[0].content = installed.elf(rng, rng.choice(["plain", "badtype", "badoff", "badlen", "short", "badidx", "badsize", "hugeoff"]))
        fs[1].content = installed.elf(rng, rng.choice(["plain", "badtype", "badoff", "badlen", "short", "badidx", "badsize", "hugeoff"]))
    u = F(root + "/etc/u1", content=content(rng.choice([10, 5000])))
    un = rng.choice(["config", "missingok", "nomd5", "nosize", "nopayload", "hdrsize", "color"])
    if un == "config": u.flags = 1
    elif un == "missingok": u.flags = 8
    elif un == "nomd5": u.verify = 0xffffffff & ~1
    elif un == "nosize": u.verify = 0xffffffff & ~2
    elif un == "nopayload": u.in_payload = False
    elif un == "hdrsize": u.header_size = len(u.content) + 4
    elif un == "color": u.color = 1; u.path = root + "/usr/bin/u1"
    extra = [F(root + "/s", "sym", linkto="n2"), F(root + "/e", content=b""), F(root + "/d", "dir"), F(root + "/g", content=b"ghost", flags=64)]
    files = fs + [u] + rng.sample(extra, rng.randint(0, 4))
    rng.shuffle(files)
    order = gen.order(rng, len(files), rng.choice(["same", "shuffled"]))
    colors = un == "color" or rng.random() < .3
    algo = rng.choice([1, 8])
    kw = dict(algo=algo, colors=colors)
    new = []
    for f in files:
        if f.kind == "reg" and not f.flags & 64:
            c = gen.edit(rng, f.content, rng.choice(["edit", "insert", "append"])) if f.content else b"x"
            new.append(gen.clone(f, content=c, header_size=None if f.header_size is None else len(c) + 4))
        else: new.append(f)
    nv = gen.nevr(rng)
    old = Pkg(**nv, files=files, order=order, comp=rng.choice(["gzip", "xz", "zstd", "bzip2"]), level=3, epoch=rng.choice([None, None, 0, 3]), **kw)
    newp = Pkg(name=nv["name"], version=nv["version"] + "2", files=new, comp=rng.choice(["gzip", "bzip2", "xz"]), level=6, **kw)
    other = Pkg(**dict(nv, release=nv["release"] + "2"), files=[F(root + "/a/n1", content=b"other"), F(root + "/zz", content=b"1")], **kw)
    return old, newp, other, {"n1": fs[0], "n2": fs[1], "u1": u}

def case(ck):
    def run(d, c):
        rng = random.Random("%d-%s" % (ck.seed, c["k"]))
        dr = ck.dir(); site = installed.Site(dr)
        old, new, other, fm = packages(rng, site.root, c["style"])
        P = {}
        for n, p in (("src", old), ("new", new), ("other", other)):
            P[n] = os.path.join(dr, n + ".rpm"); p.write(P[n]); site.package(n, P[n], p)
        assert all(seqid.usable(fm[f], old.colors) for f in NEED) and not seqid.usable(fm["u1"], old.colors), "needed/unneeded"
        nb = new.bytes(); tgt = hashlib.sha1(nb).hexdigest()[:12]
        delta, out = os.path.join(dr, "d.drpm"), os.path.join(dr, "out.rpm")
        problems = []
        ver = rng.choice([1, 2, 3, 3])
        r = d.session(gen.opt_ops(0, "standard", ver, rng.choice(["gzip", "zstd", None]), 0) + [["make", P["src"], P["new"], delta, 0]])
        if r.crash or r.rc() != "OK": return [("make", "make failed: %s %s" % (r.crash, r.ops and r.rc()))], []
        ev = []
        db = {"src"}; fs = {f: "ok" for f in NEED + UNNEED}
        site.install(old)
        def start(): ev.append({"e": "case", "id": c["k"], "needed": NEED, "files": NEED + UNNEED, "db": sorted(db), "tgt": tgt, "style": c["style"]})
        start()
        def observe(what):
            home = site.home(db - {"prelink"})
            ops = [["setenv", "DV_PRELINK", "1" if "prelink" in db else ""], ["setenv", "HOME", home], ["umask", 0o22]]
            if rng.random() < .3: ops.append(["limits"] + rng.choice([[64, 2, 1], [512, 3, 2], [8192, 1, 1]]))
            bad = [fm[f].path for f in fs if fs[f] == "unreadable"]
            for p in bad: ops.append(["watch", p])
            if bad: ops.append(["fault", 1, "err", rng.choice(["opened", "read"]), 10 ** 6])
            base = len(ops)
            for w in what: ops.append(["check", delta, 1] if w == "full" else ["check", delta, 2] if w == "sizes" else ["apply", None, delta, out])
            s0 = installed.snapshot(site.root); dbf = os.path.join(home, "db", "rpmdb.sqlite"); b0 = open(dbf, "rb").read() if os.path.exists(dbf) else b""
            if os.path.exists(out): os.unlink(out)
            r = d.session(ops)
            if r.crash: problems.append(("crash-check", "%s in state %s %s (%s)\n%s" % (r.crash, sorted(db), fs, what, r.stderr[-1200:])))
            same = s0 == installed.snapshot(site.root) and (b0 == (open(dbf, "rb").read() if os.path.exists(dbf) else b""))
            for i, w in enumerate(what):
                if base + i >= len(r.ops) or r.ops[base + i]["rc"] < 0: break
                e = {"e": w, "rc": r.rc(base + i), "untouched": same}
                if w == "apply":
                    e["out"] = "absent"
                    if os.path.exists(out): e["out"] = hashlib.sha1(open(out, "rb").read()).hexdigest()[:12]
                ev.append(e)
        def change(f, s): site.state(rng, fm[f], s); fs[f] = s; ev.append({"e": "change", "f": f, "s": s})
        if "states" in c:
            for st in c["states"]:
                for v in sorted({"src", "other", "prelink"}):
                    if v in st["db"] and v not in db: db.add(v); ev.append({"e": "install", "v": v}); (v == "src") and reset(site, fm, fs)
                    if v not in st["db"] and v in db: db.discard(v); ev.append({"e": "erase", "v": v}); (v == "src") and [fs.update({f: "gone"}) or site.clear(fm[f].path) for f in fs]
                for f in NEED + UNNEED:
                    if fs[f] != st["fs"][f]: change(f, st["fs"][f])
                observe(["full", "sizes", "apply"])
        else:
            for a in c["hist"]:
                if a[0] == "change": change(a[1], a[2])
                elif a[0] == "install": db.add(a[1]); ev.append({"e": "install", "v": a[1]}); a[1] == "src" and reset(site, fm, fs)
                elif a[0] in ("erase", "upgrade"):
                    v = a[1] if a[0] == "erase" else "src"
                    db.discard(v); ev.append({"e": "erase", "v": v})
                    if v == "src":
                        for f in fs: fs[f] = "gone"; site.clear(fm[f].path)
                    if a[0] == "upgrade": db.add(a[1]); ev.append({"e": "install", "v": a[1]})
                else:
                    observe(rng.choice([[a[0]], ["apply", "full", "sizes"], ["full", "full", "apply"], ["sizes", "apply"]])); continue
                if rng.random() < .4: observe(rng.sample(["full", "sizes", "apply"], rng.randint(1, 3)))
        return problems, ev
    return run
def reset(site, fm, fs):
    for f in fs: site.put(fm[f]); fs[f] = "ok"

def run(ck):
    rng = random.Random(ck.seed)
    mc = 'SPECIFICATION Spec\nCONSTANTS\n Needed = {"n1","n2"}\n Unneeded = {"u1"}\n Versions = {"src","other","prelink"}\n Depth = %d\n'
    r = ck.tlc("InstalledMC", mc % 0 + "VIEW view\nINVARIANTS Predicts Exact Clean EmitState\nPROPERTIES Observing Unneeded_\n", workers=1)
    states = r.printed()
    ck.notes["model_states_enumerated"] = len(states)
    # without u1 every state; with it a sample
    main = [s for s in states if s["fs"]["u1"] == "ok"]
    rest = [s for s in states if s["fs"]["u1"] != "ok"]
    if not ck.thorough:
        full = [s for s in main if sorted(s["db"]) == ["prelink", "src"]] + rng.sample([s for s in main if sorted(s["db"]) == ["src"]], 60)
        sel = full + rng.sample([s for s in main if sorted(s["db"]) not in (["src"], ["prelink", "src"])], 60) + rng.sample(rest, 140)
    else: sel = main * 3 + rest
    rng.shuffle(sel)
    cases = []
    n = 10
    for i in range(0, len(sel), n): cases.append({"k": "st%d" % i, "style": rng.choice(["plain", "plain", "elf"]), "states": sel[i:i + n]})
    h = ck.tlc("InstalledMC", mc % 14 + "CONSTRAINT Bound\nINVARIANTS EmitHist\n", simulate=ck.q(20, 200), depth=15, seed=ck.seed).printed()
    hs = rng.sample(h, min(len(h), ck.q(40, 600)))
    for i, x in enumerate(hs): cases.append({"k": "h%d" % i, "style": rng.choice(["plain", "plain", "elf"]), "hist": x})
    for st in ("plain", "elf"):
        for i in range(ck.q(8, 40)): cases.append({"k": "x%s%d" % (st, i), "style": st, "states": [{"db": ["prelink", "src"], "fs": {"n1": s, "n2": rng.choice(["ok", "prelinked"]), "u1": "ok"}} for s in ("ok", "grown", "prelinked", "rewritten", "edited", "shrunk")]})
    pool = ck.pool("asan")
    ck.run_traced(pool, cases, case(ck), "InstalledTrace", CONSTS, key=lambda c: c["k"], budget=ck.q(150, 1200))
    ck.distinct = {str(s) for s in sel}
    for s in sel[:4]: ck.sample(s)
    return ck.finish("model_checking", "distinct states (installed versions x file states) of Installed.tla set up on disk with a full check, a size check and an application each, plus random histories; decided by InstalledTrace.tla")
