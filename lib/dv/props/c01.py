"""C01: make then apply gives back the new package (Scenario.tla, World.tla)."""
import os, random
from .. import gen, worlds
from ..worlds import World
from ..rpmfile import F, Pkg, STYLES, LOSSY

CONSTS = "CONSTANTS\n Pkgs = {}\n Sources = {}\n Targets = {}\n Dbs = {}\n Versions = {}\n NSlots = 0\n Envs = {}\n"

def case(ck):
    def run(d, c):
        rng = random.Random("%d-%s" % (ck.seed, c["k"]))
        w = World(ck, d, c["k"])
        old, new = c["mk"](rng) if "mk" in c else gen.pair(rng, c["sc"])
        po, pn = w.add("old", old), w.add("new", new)
        ops, plan = [], []
        for j, (ty, ver) in enumerate(c["types"]):
            comp, level, ab = c.get("opts") or worlds.rand_options(rng)
            pd, out = w.path("d%d" % j), w.path("o%d" % j)
            ops += gen.opt_ops(0, ty, ver, comp, level, ab)
            if rng.random() < 0.5: open(out, "wb").write(rng.randbytes(rng.choice([10, 200000])))     # apply replaces what is there
            if rng.random() < 0.5: open(pd, "wb").write(rng.randbytes(rng.choice([10, 200000])))
            bs, cb, of = c.get("limits") or rng.choice([(8192, 5000, 50)] * 3 + [(64, 3, 2), (512, 2, 1), (4096, 7, 3)])
            ops.append(["limits", 8192, 5000, 50])
            ops.append(["make", po, pn, pd, 0]); m = len(ops) - 1
            ops.append(["limits", bs, cb, of])
            ops.append(["apply", po, pd, out]); ops.append(["odestroy", 0])
            plan.append((m, m + 2, ty, ver, pd, out, "%s/%s/%s" % (comp, level, ab)))
        r = w.session(ops, timeout=300)
        for j, (m, a, ty, ver, pd, out, o) in enumerate(plan):
            if m < len(r.ops): w.log_make(j, ty, ver, "old", "new", r.rc(m), pd, o)
            if a < len(r.ops) and r.ops[a]["rc"] >= 0 and r.rc(m) == "OK": w.log_apply(j, "old", r.rc(a), out)
        if c.get("level0"):
            for e in w.ev:
                if e["e"] == "apply": e["e0"] = "level0-" + c["level0"]
        return w.result()
    return run
def sig(e): return "apply-%s-%s" % (e["e0"], e["rc"]) if "e0" in e else "%s-%s" % (e["e"], e.get("rc", ""))

ALL = [("standard", 1), ("standard", 2), ("standard", 3), ("rpmonly", 3)]

def r3(i): return 1 + i % 3
def special(ck, rng):
    """packages outside the slot scheme"""
    out = []
    def add(name, mk, **kw): out.append(dict(k="special-" + name, mk=mk, types=kw.pop("types", ALL), **kw))
    one = lambda n, **kw: Pkg(name="p", version="1", files=[F("/a/f%d" % i, content=gen.data(random.Random(i), 50 * i)) for i in range(n)], **kw)
    two = lambda n, **kw: Pkg(name="p", version="2", files=[F("/a/f%d" % i, content=gen.data(random.Random(i + (i % 7 == 0)), 50 * i)) for i in range(n)], **kw)
    add("nofiles", lambda r: (one(0), two(0)))
    add("nofiles-old", lambda r: (one(0), two(3)))
    add("nofiles-new", lambda r: (one(3), two(0)))
    add("same", lambda r: (one(4), one(4)))
    add("samebytes-otherlevel", lambda r: (one(4, level=1), one(4, level=9)))
    add("manyfiles", lambda r: (one(120), two(120)))
    add("manyfiles-shuffled", lambda r: (one(90, order=r.sample(range(90), 90)), two(90, order=r.sample(range(90), 90))))
    add("noprefix", lambda r: (one(5, prefix=""), two(5, prefix="")))
    add("nosig-md5-new", lambda r: (one(5), two(5, sig_md5=False)))
    add("srcrpm", lambda r: (one(5, srcrpm=""), two(5, srcrpm="")))
    add("reversedversions", lambda r: (two(6), one(6)))
    for c in ("gzip", "bzip2", "xz", "lzma", "zstd"):
        for lv in gen.LEVELS[c]:
            add("enc-%s-%s" % (c, lv), lambda r, c=c, lv=lv: (one(6, comp="gzip"), two(6, comp=c, level=lv)))
    for c, lv in (("xz", 0), ("lzma", 0), ("gzip", 0), ("xz", None), ("zstd", None), ("lzma", None), ("gzip", None), ("bzip2", None)):
        add("level0-%s-%s" % (c, lv), lambda r, c=c, lv=lv: (one(6, comp="gzip"), two(6, comp=c, level=lv)), level0=c)
    def shifted(r, n):
        a = gen.data(r, n, "rand"); k = n // 3
        return (Pkg(name="p", version="1", files=[F("/a/x", content=a), F("/a/y", content=a[:k])]),
                Pkg(name="p", version="2", files=[F("/a/x", content=a[k:] + a[:k]), F("/a/y", content=a[k:2 * k] + b"!" + a[:k])]))
    for n in (30000, 300000) + ((3000000,) if ck.thorough else ()): add("shifted-%d" % n, lambda r, n=n: shifted(r, n))
    def sparse(r, n):
        a = bytearray(gen.data(r, n, "mixed")); b = bytearray(a)
        for i in range(0, n, 97): b[i] ^= 1
        return Pkg(name="p", version="1", files=[F("/a/x", content=bytes(a))]), Pkg(name="p", version="2", files=[F("/a/x", content=bytes(b))])
    add("sparse", lambda r: sparse(r, 60000))
    def blocks(r):
        a = [r.randbytes(1000) for _ in range(40)]; o = list(range(40)); r.shuffle(o)
        return (Pkg(name="p", version="1", files=[F("/a/x%02d" % i, content=a[i]) for i in range(40)]),
                Pkg(name="p", version="2", files=[F("/a/x%02d" % i, content=a[o[i]]) for i in range(40)]))
    add("permuted", blocks)
    # headers that are put together otherwise; those librpm does not give back as they are cannot be targets
    for st in STYLES + LOSSY:
        for f in ("headstyle", "sigstyle"):
            add("%s-%s-new" % (f, st), lambda r, f=f, st=st: (one(5), two(5, **{f: st})))
            add("%s-%s-old" % (f, st), lambda r, f=f, st=st: (one(5, **{f: st}), two(5)))
    # old packages other encoders have written: nothing depends on how the old package is compressed
    def oddly(r, c, i):
        a = r.choice([b"z" * 400000, gen.data(r, 300000, "text"), gen.data(r, 60000, "mixed"), b"ab" * 50000 + gen.data(r, 90000, "rand")])
        return (Pkg(name="p", version="1", files=[F("/a/x", content=a)], comp=c, level=("odd", "%d-%d" % (ck.seed, i))),
                Pkg(name="p", version="2", files=[F("/a/x", content=gen.edit(r, a, "edit"))]))
    for c in ("gzip", "bzip2", "xz", "lzma", "zstd"):
        for i in range(ck.q(8 if c == "zstd" else 2, 40)): add("odd-%s-%d" % (c, i), lambda r, c=c, i=i: oddly(r, c, i), types=[("standard", r3(i)), ("rpmonly", 3)])
    def pads(r):
        return (Pkg(name="p", version="1", files=[F("/a/" + "n" * i, content=gen.data(r, i)) for i in range(1, 18)]),
                Pkg(name="p", version="2", files=[F("/a/" + "n" * i, content=gen.data(r, i + 1)) for i in range(1, 18)]))
    add("paddings", pads)
    # archives of many small things, so that every kind of piece comes to lie across the blocks the old archive is read in
    def crumbs(r):
        import string
        def thing(i):
            p = "/a/%s%03d" % (r.choice(["", "d/", "long/er/" + "e" * r.randrange(60)]), i); k = r.random()
            if k < .5: return F(p, "sym", linkto="".join(r.choice(string.ascii_letters + "/.") for _ in range(r.choice([1, 5, 40, 200, 255]))))
            if k < .6: return F(p, "dir", mode=0o755)
            if k < .65: return F(p, r.choice(["chr", "fifo"]))
            return F(p, content=r.randbytes(r.choice([0, 1, 3, 50, 300, 700])))
        fs = [thing(i) for i in range(r.choice([40, 120, 250]))]
        nf = [f if r.random() < .8 else clone_(r, f) for f in fs]
        return (Pkg(name="p", version="1", files=fs, order=gen.order(r, len(fs), r.choice(["same", "shuffled"]))),
                Pkg(name="p", version="2", files=nf, order=gen.order(r, len(nf), r.choice(["same", "shuffled"]))))
    def clone_(r, f):
        if f.kind == "reg": return gen.clone(f, content=gen.edit(r, f.content, "append"))
        return gen.clone(f, linkto=f.linkto + "x") if f.kind == "sym" else f
    for i in range(ck.q(24, 150)): add("crumbs-%d" % i, crumbs, types=[("standard", r3(i)), ("rpmonly", 3)] if i % 2 else [("standard", 3)] * 2, limits=[None, (8192, 5000, 50), (64, 3, 2), (8192, 2, 1)][i % 4])
    return out

def run(ck):
    rng = random.Random(ck.seed)
    worlds.model(ck)
    pool = ck.pool("asan")
    scs = gen.scenarios(ck, rng, ck.q(180, None), ck.q(60, 900))
    cases = special(ck, rng)
    for i, sc in enumerate(scs):
        types = ALL if ck.thorough else [("standard", rng.choice([1, 2, 3])), ("rpmonly", 3)]
        cases.append(dict(k="sc%d" % i, sc=sc, types=types))
    if not ck.thorough:
        for c in cases:
            if c["k"].startswith("special-enc"): c["types"] = [("standard", rng.choice([1, 2, 3])), ("rpmonly", 3)]
    else:
        for rep in range(3):
            for i, sc in enumerate(scs): cases.append(dict(k="r%d-%d" % (rep, i), sc=sc, types=ALL))
    ck.run_traced(pool, cases, case(ck), "WorldTrace", CONSTS, key=lambda c: c["k"] if "sc" not in c else str(c["sc"]), budget=ck.q(90, 1500), sig=sig)
    for c in cases[-3:]: ck.sample({"scenario": c.get("sc"), "types": c["types"]})
    return ck.finish("model_checking", "distinct old/new package scenarios (file kind x change x attribute classes from TLC, plus mixes), each made and applied; sessions decided by World.tla")
