"""C02: a standard delta rebuilds the package from the installed files (Scenario.tla packages, Installed.tla states)."""
import hashlib, os, random
from .. import gen, installed, seqid, worlds
from ..rpmfile import F, Pkg, GHOST, cpio_entry

CONSTS = "CONSTANTS\n Needed = {}\n Unneeded = {}\n Versions = {\"src\"}\n Depth = 0\n"
LIMITS = [(8192, 5000, 50)] * 3 + [(64, 3, 2), (64, 1, 1), (512, 2, 1), (4096, 7, 3), (200, 2, 5), (8192, 1, 1)]

def case(ck):
    def run(d, c):
        rng = random.Random("%d-%s" % (ck.seed, c["k"]))
        dr = ck.dir(); site = installed.Site(dr)
        old, new = c["mk"](rng, site.root) if "mk" in c else gen.pair(rng, c["sc"], root=site.root, name="in")
        po, pn = os.path.join(dr, "old.rpm"), os.path.join(dr, "new.rpm")
        old.write(po); new.write(pn); site.package("src", po, old)
        nb = open(pn, "rb").read(); tgt = hashlib.sha1(nb).hexdigest()[:12]
        site.install(old)
        home = site.home({"src"})
        needed = [f for f in old.hfiles() if f.kind == "reg" and f.content and seqid.usable(f, old.colors)]
        nset = {f.path for f in needed}
        others = [f for f in old.hfiles() if f.kind == "reg" and f.path not in nset]
        name = {f.path: "f%d" % i for i, f in enumerate(old.hfiles())}
        ev = [{"e": "case", "id": c["k"], "needed": [name[f.path] for f in needed], "files": [name[f.path] for f in old.hfiles()], "db": ["src", "prelink"], "tgt": tgt}]
        problems = []
        for f in needed:
            if rng.random() < c.get("prelink", 0): site.state(rng, f, "prelinked"); ev.append({"e": "change", "f": name[f.path], "s": "prelinked"})
            elif rng.random() < .3:
                s = rng.choice(["touched", "moved", "grown", "prelinked", "prelinked"])
                site.state(rng, f, s); ev.append({"e": "change", "f": name[f.path], "s": s})
        for f in others:
            if rng.random() < .6:
                s = rng.choice(["gone", "dir", "dangling", "rewritten", "edited"] if f.content else ["gone", "dir", "dangling"])
                site.state(rng, f, s); ev.append({"e": "change", "f": name[f.path], "s": s})
        ops = [["setenv", "HOME", home], ["setenv", "DV_PRELINK", "1"]]
        plan = []
        for j, ver in enumerate(c["versions"]):
            comp, level, ab = worlds.rand_options(rng)
            pd, out = os.path.join(dr, "d%d" % j), os.path.join(dr, "o%d" % j)
            ops += [["limits", 8192, 5000, 50]] + gen.opt_ops(0, "standard", ver, comp, level, ab) + [["make", po, pn, pd, 0]]
            m = len(ops) - 1
            for bs, cb, of in c.get("limits") or rng.sample(LIMITS, 2):
                ops += [["limits", bs, cb, of], ["apply", None, pd, out + "-%d" % len(plan)]]
                plan.append((m, len(ops) - 1, out + "-%d" % len(plan), (ver, comp, level, ab, bs, cb, of)))
            ops += [["check", pd, 1]]; plan.append((m, len(ops) - 1, None, ver))
            ops.append(["odestroy", 0])
        s0 = installed.snapshot(site.root)
        r = d.session(ops, timeout=200)
        same = s0 == installed.snapshot(site.root)
        if r.crash: problems.append(("crash", "%s at %s\n%s" % (r.crash, ops[min(len(r.ops), len(ops)) - 1], r.stderr[-1500:])))
        for m, a, out, o in plan:
            if m < len(r.ops) and r.rc(m) != "OK": problems.append(("make-" + r.rc(m), "make: %s %s" % (r.rc(m), o)))
            if a >= len(r.ops) or r.ops[a]["rc"] < 0: continue
            if out is None: ev.append({"e": "full", "rc": r.rc(a), "untouched": same}); continue
            ev.append({"e": "apply", "rc": r.rc(a), "out": hashlib.sha1(open(out, "rb").read()).hexdigest()[:12] if os.path.exists(out) else "absent", "untouched": same, "opts": str(o)})
        return problems, ev
    return run

def many(rng, root, n, sizes, usedshare=1.0):
    """n files, the new package referring to their contents in another order"""
    fs = [F("%s/m/%03d" % (root, i), content=gen.data(rng, rng.choice(sizes), "rand")) for i in range(n)]
    for f in fs:
        if rng.random() > usedshare: f.flags = 1
    nf = [gen.clone(f) for f in fs]
    pieces = [f.content for f in fs]; rng.shuffle(pieces)
    big = b"".join(p[len(p) // 4:] for p in pieces)
    back = b"".join(reversed(pieces))
    nf += [F(root + "/m/big", content=big), F(root + "/m/back", content=back), F(root + "/m/again", content=big[::-1][:50] + big)]
    rng.shuffle(nf)
    o = list(range(n)); rng.shuffle(o)
    return (Pkg(name="in", version="1", files=fs, order=o, comp="gzip", level=1), Pkg(name="in", version="2", files=nf, comp="gzip", level=1))

def mixed(rng, root, n):
    """files, long symbolic links, directories and empty files in any order; the new package holds pieces of the old archive itself
    (heads and link targets included) in any order, so that every part of it is read"""
    fs = []
    for i in range(n):
        k = rng.choice(["reg", "reg", "reg", "sym", "sym", "dir", "empty", "tiny", "unused"])
        p = "%s/x/%02d%s" % (root, i, "n" * rng.choice([0, 0, 3, 90]))
        if k == "sym": fs.append(F(p, "sym", linkto="".join(rng.choice("abcd/") for _ in range(rng.choice([1, 30, 70, 200, 400])))))
        elif k == "dir": fs.append(F(p, "dir"))
        else: fs.append(F(p, content=b"" if k == "empty" else rng.randbytes(rng.randint(1, 3) if k == "tiny" else rng.choice([60, 64, 300, 900, 2500])), flags=1 if k == "unused" else 0))
    o = list(range(n)); rng.shuffle(o)
    arch = b""
    for i in o:
        f = fs[i]
        if f.kind == "reg" and f.flags: continue
        d = f.content if f.kind == "reg" else f.linkto.encode() if f.kind == "sym" else b""
        arch += cpio_entry("." + f.path, f.mode, 1, len(d), d, ino=0, mtime=0)
    cut = sorted({0, len(arch)} | {rng.randrange(len(arch)) for _ in range(rng.choice([2, 6, 12]))})
    ps = [arch[a:b] for a, b in zip(cut, cut[1:])]
    if rng.random() < .7: rng.shuffle(ps)
    nf = [F(root + "/x/new", content=b"".join(ps) + arch[:len(arch) // 2])]
    return (Pkg(name="in", version="1", files=fs, order=o, comp="gzip", level=1), Pkg(name="in", version="2", files=nf, comp="gzip", level=1))

def aligned(rng, root, bs, n):
    """files whose ends, paddings, heads and starts lie on multiples of bs in the old archive; all of it is read, in pieces"""
    fs, arch = [], b""
    for i in range(n):
        p = "%s/y/%02d%s" % (root, i, "n" * rng.choice([0, 1, 2, 3, 30]))
        h = 110 + len(p) + 2; h += -h % 4
        at = len(arch) + h
        e = rng.choice([-3, -2, -1, 0, 1, 2, 3, -4, -5, -60, -110, -h, -h - 1, -h - 3, -h - 4, None])
        size = rng.randint(1, 40) if e is None else max(1, (-at % bs) + rng.choice([0, 1, 1, 2]) * bs + e)
        if rng.random() < .15: f = F(p, "sym", linkto="".join(rng.choice("abcd/") for _ in range(min(size, 3000))))
        else: f = F(p, content=rng.randbytes(size))
        fs.append(f); d = f.content if f.kind == "reg" else f.linkto.encode()
        arch += cpio_entry("." + f.path, f.mode, 1, len(d), d, ino=0, mtime=0)
    # reading pieces in turn; short ones at the multiples
    cut = {0, len(arch)} | {rng.randrange(len(arch)) for _ in range(rng.choice([0, 3]))}
    if rng.random() < .5: cut |= {min(len(arch), k) for k in range(0, len(arch), bs)}
    cut = sorted(cut); ps = [arch[a:b] for a, b in zip(cut, cut[1:])]
    if rng.random() < .5: rng.shuffle(ps)
    nf = [F(root + "/y/new", content=b"".join(ps))]
    return (Pkg(name="in", version="1", files=fs, comp="gzip", level=1), Pkg(name="in", version="2", files=nf, comp="gzip", level=1))

def run(ck):
    rng = random.Random(ck.seed)
    mc = 'SPECIFICATION Spec\nCONSTANTS\n Needed = {"n1","n2"}\n Unneeded = {"u1"}\n Versions = {"src","other","prelink"}\n Depth = 0\nVIEW view\nINVARIANTS Predicts Exact Clean\nPROPERTIES Observing Unneeded_\n'
    ck.tlc("InstalledMC", mc)
    scs = gen.scenarios(ck, rng, ck.q(150, None), ck.q(50, 500))
    cases = []
    for n, sz, share, lim in ((60, [300, 700], 1, [(8192, 5000, 50), (512, 4, 5)]), (130, [200, 1200], .9, [(8192, 5000, 50), (256, 2, 50)]), (52, [9000, 20], 1, [(8192, 5000, 50), (8192, 2, 3)]),
                              (51, [100], 1, [(8192, 5000, 50), (64, 1, 1)]), (50, [8192], 1, [(8192, 5000, 50), (8192, 3, 49)]), (9, [60000], .7, [(8192, 5000, 50), (4096, 2, 1)]), (200, [3000, 50], .5, [(8192, 5000, 50), (1000, 3, 7)])):
        for rep in range(ck.q(1, 4)):
            cases.append({"k": "many%d-%d" % (n, rep), "mk": lambda r, root, n=n, sz=sz, share=share: many(r, root, n, sz, share), "versions": [3] if not ck.thorough else [1, 2, 3], "limits": lim})
    for rep in range(ck.q(1, 3)):
        for i, sc in enumerate(scs): cases.append({"k": "sc%d-%d" % (i, rep), "sc": sc, "versions": [rng.choice([1, 2, 3])] if not ck.thorough else [1, 2, 3]})
    for i in range(ck.q(60, 600)):
        cases.append({"k": "mixed%d" % i, "mk": lambda r, root, i=i: mixed(r, root, 3 + i % 14), "versions": [rng.choice([1, 2, 3])], "prelink": rng.choice([0, .5, .9]),
                      "limits": [(64, 5000, 50), (rng.choice([64, 200, 512]), rng.choice([1, 2, 3]), rng.choice([1, 2, 50])), (8192, 5000, 50)]})
    for i in range(ck.q(60, 600)):
        bs = rng.choice([8192, 8192, 512, 200, 256])
        cases.append({"k": "aligned%d" % i, "mk": lambda r, root, i=i, bs=bs: aligned(r, root, bs, 2 + i % 9), "versions": [rng.choice([1, 2, 3])], "prelink": rng.choice([0, .5, 1]),
                      "limits": [(bs, 5000, 50), (bs, rng.choice([1, 2, 3]), rng.choice([1, 2, 50]))]})
    pool = ck.pool("asan")
    ck.run_traced(pool, cases, case(ck), "InstalledTrace", CONSTS, key=lambda c: str(c.get("sc", c["k"])), budget=ck.q(150, 1500))
    for c in cases[-3:]: ck.sample(c)
    return ck.finish("model_checking", "distinct package scenarios (Scenario.tla) installed, used files touched/moved/appended to, unused ones removed or rewritten, the delta applied from the file system under several memory and open-file limits; decided by InstalledTrace.tla")
