"""C07: reading reports what is stored (DeltaFile.tla, DeltaTrace.tla)."""
import os, random, subprocess
from .. import deltaev, deltafile as D, gen
from ..rpmfile import F, Pkg

CONSTS = "CONSTANTS\n DigestLen = 16\n LeadMin = 112\n"
B32 = [0, 1, 2, 127, 128, 255, 256, 65535, 65536, (1 << 31) - 1, 1 << 31, (1 << 31) + 1, (1 << 32) - 2, (1 << 32) - 1]
SG = [0, 1, -1, 127, -128, 65535, -65536, (1 << 31) - 1, -((1 << 31) - 1)]
CL = {"none": [0], "gzip": [1, 6, 9], "bzip2": [1, 5, 9], "xz": [0, 1, 2], "lzma": [0, 1, 2], "lzip": [(65536, 16)], "zstd": [1, 3, 19]}
def u32(rng): return rng.choice([rng.choice(B32), rng.randrange(1 << 32), rng.randrange(5000)])
def sg(rng): return rng.choice([rng.choice(SG), rng.randrange(-(1 << 31) + 1, 1 << 31)])
def target(rng, n=1):
    c = rng.choice(["gzip", "bzip2", "xz", "lzma", "zstd"])
    return Pkg(name=rng.choice(["t", "tgt-pkg", "lib+x"]), version=rng.choice(["2", "1.2.3"]), release="1", epoch=rng.choice([None, None, 0, 3]), files=[F("/t/f%d" % i, content=rng.randbytes(10)) for i in range(n)], comp=c, level=rng.choice(gen.LEVELS[c]))

def synthetic(rng, ty, ver, comp):
    x = D.Delta(type=ty, version=ver, comp=comp, level=rng.choice(CL[comp]) if comp in CL else 0)
    x.src_nevr = rng.choice(["a-1-1", "", "name-with-dashes-1:2.0-3.fc40", "n" * rng.randint(1, 300), "päckage-1-1"])
    x.sequence = rng.randbytes(16 if ty == "rpmonly" else rng.choice([16, 17, 18, 40, 16 + rng.randrange(300)]))
    x.tgt_md5 = rng.choice([bytes(16), b"\xff" * 16, rng.randbytes(16)])
    x.tgt_size = u32(rng)
    x.raw["tgt_comp"] = rng.randrange(8) | rng.randrange(23) << 8
    x.tgt_comp_param = rng.randbytes(rng.choice([0, 0, 1, 2, 16, 200]))
    x.tgt_header_len = max(1 if ty == "rpmonly" else 0, u32(rng))
    x.offadj = [(u32(rng), sg(rng)) for _ in range(rng.choice([0, 1, 2, rng.randrange(40)]))]
    x.leadsig = rng.randbytes(rng.choice([112, 113, 120, 400]))
    x.payload_fmt_off = u32(rng)
    n = rng.choice([0, 0, 1, 2, rng.randrange(30)])
    big = (1 << 31) if ver < 3 else rng.choice([1 << 33, 1 << 40, 1 << 45])
    lim = rng.choice([100, 70000, (1 << 31) - 1, (1 << 32) - 1] + ([1 << 33, 1 << 40, (1 << 45) - 1, (1 << 63), (1 << 64) - 1] if ver == 3 else []))
    at, ext = 0, []
    room = min(lim, 1 << 45)
    for _ in range(n):
        lo, hi = max(-at, -((1 << 31) - 1)), min(room - 1 - at, (1 << 31) - 1)
        if hi < lo: break
        o = rng.choice([lo, hi, min(max(0, lo), hi), rng.randint(lo, hi), rng.randint(max(lo, -50), min(hi, 50)) if max(lo, -50) <= min(hi, 50) else lo])
        at += o
        ml = min(room - at, (1 << 32) - 1)
        l = rng.choice([1, ml, rng.randint(1, ml), rng.randint(1, min(ml, 300))])
        at += l; ext.append((o, l))
    x.ext_copies, x.ext_data_len = ext, lim
    m = rng.choice([0, 1, 2, rng.randrange(20)])
    if ext and m == 0: m = 1
    left, ints, tot = len(ext), [], 0
    for k in range(m):
        a = left if k == m - 1 else rng.randint(0, left); left -= a
        b = rng.choice([0, 1, rng.randrange(60)]); tot += b
        ints.append((a, b))
    x.int_copies, x.int_data = ints, rng.randbytes(tot)
    x.add = rng.randbytes(rng.choice([0, 1, 7, 8, rng.randrange(200)]))
    if ty == "standard": x.tgt_pkg = target(rng); x.tgt_nevr = x.tgt_pkg.nevr
    else: x.tgt_nevr = rng.choice(["b-2-1", "", "t" * rng.randint(1, 200)])
    return x

def pkgcomp(x): return D.COMPS.index(x.tgt_pkg.comp) if x.type == "standard" else 0

def case(ck):
    def run(d, c):
        rng = random.Random("%d-%s" % (ck.seed, c["k"]))
        dr = ck.dir(); problems, ev = [], [{"e": "case", "id": c["k"]}]
        made = []       # (path, Delta, body, pkgcomp)
        if c["how"] == "made":
            old, new = gen.pair(rng, c["sc"], bg=1)
            po, pn = os.path.join(dr, "o"), os.path.join(dr, "n"); old.write(po); new.write(pn)
            ops, at = [], []
            for k in range(4):
                ty = rng.choice(["standard", "rpmonly"]); v = 3 if ty == "rpmonly" else rng.choice([1, 2, 3])
                comp = rng.choice(["none", "gzip", "bzip2", "xz", "lzma", "lzip", "zstd", None])
                p = os.path.join(dr, "d%d" % k)
                ops += gen.opt_ops(0, ty, v, comp, rng.choice([1, 2]) if comp not in (None, "none") else 0, rng.choice([None, ("bzip2", 0), ("gzip", 1)])) + [["make", po, pn, p, 0], ["odestroy", 0]]
                at.append((len(ops) - 2, p))
            r = d.session(ops, 100)
            if r.crash: return [("crash-make", str(r.crash))], ev
            for i, p in at:
                if r.rc(i) != "OK": return [("make-" + r.rc(i), "")], ev
                try: x = D.parse(open(p, "rb").read())
                except D.BadDelta as e: return [("malformed", str(e))], ev
                if len(x.rawbody) > 9000: continue
                made.append((p, x, x.rawbody, D.COMPS.index(new.comp), x.head if x.type == "rpmonly" else None))
        elif c["how"] == "tool":
            old, new = gen.pair(rng, c["sc"], bg=1)
            new.comp, new.level = rng.choice([("bzip2", 9), ("xz", 6), ("lzma", 6)])
            po, pn = os.path.join(dr, "o"), os.path.join(dr, "n"); old.write(po); new.write(pn)
            for k, args in enumerate((["-V", "1"], ["-V", "2"], ["-V", "3"], ["-r"], ["-z", "gzip"], ["-r", "-z", "xz,off"])):
                p = os.path.join(dr, "t%d" % k)
                t = subprocess.run(["makedeltarpm"] + args + [po, pn, p], capture_output=True)
                if t.returncode or not os.path.exists(p): ck.notes["tool_failures"] = ck.notes.get("tool_failures", 0) + 1; continue
                try: x = D.parse(open(p, "rb").read())
                except D.BadDelta as e: problems.append(("oracle", "tool's delta: %s %s" % (args, e))); continue
                if len(x.rawbody) > 9000: continue
                made.append((p, x, x.rawbody, D.COMPS.index(new.comp), x.head if x.type == "rpmonly" else None))
        else:
            todo = []
            if c["how"] == "model":
                x = D.Delta(type=c["b"]["type"], version=c["b"]["version"], comp=c["comp"], add=b"")
                x.level = rng.choice(CL[x.comp])
                if x.type == "standard": x.tgt_pkg = target(rng); x.tgt_nevr = x.tgt_pkg.nevr
                todo.append((x, bytes(c["b"]["body"])))
            else:
                for _ in range(6):
                    ty, v = rng.choice([("standard", 1), ("standard", 2), ("standard", 3), ("rpmonly", 3)])
                    x = synthetic(rng, ty, v, rng.choice(D.COMPS)); todo.append((x, x.body()))
            for k, (x, b) in enumerate(todo):
                p = os.path.join(dr, rng.choice(["d%d", "name with space %d", "x" * 100 + "%d"]) % k)
                with open(p, "wb") as f: f.write(x.encode(b, trailing=rng.choice([b"", b""]) if x.comp != "none" else rng.choice([b"", b"trailing"])))
                made.append((p, x, b, pkgcomp(x), None))
        ops = []
        for p, *_ in made: ops += deltaev.ops(1, p)
        r = d.session(ops, 60)
        n = deltaev.NOPS
        for k, (p, x, b, pc, head) in enumerate(made):
            o = r.ops[k * n:(k + 1) * n]
            if len(o) < n: problems.append(("crash", "%s on %s" % (r.crash, str(x.__dict__)[:300]))); break
            ev.append(deltaev.event(x, p, b, o, head=head, pkgcomp=pc))
        return problems, ev
    return run

def run(ck):
    rng = random.Random(ck.seed)
    ck.tlc("DeltaFile", "SPECIFICATION Spec\nCONSTANTS\n DigestLen = 2\n LeadMin = 3\nINVARIANTS ReadsBack CutRefused ExtraIgnored\n", workers=6)
    r = ck.tlc("DeltaFile", "SPECIFICATION Spec\n" + CONSTS + "CONSTRAINT Emit\n")
    model = r.printed(); ck.notes["model_deltas"] = len(model)
    cases = []
    for i, b in enumerate(model):
        for cp in ([rng.choice(D.COMPS)] if not ck.thorough else D.COMPS): cases.append({"k": "m%d-%s" % (i, cp), "how": "model", "b": b, "comp": cp})
    for i in range(ck.q(700, 9000)): cases.append({"k": "s%d" % i, "how": "synthetic"})
    scs = gen.scenarios(ck, rng, ck.q(60, None), ck.q(20, 300))
    for i, sc in enumerate(scs): cases.append({"k": "l%d" % i, "how": "made", "sc": sc})
    for i, sc in enumerate(rng.sample(scs, ck.q(24, 300))): cases.append({"k": "t%d" % i, "how": "tool", "sc": sc})
    pool = ck.pool("asan")
    ck.run_traced(pool, cases, case(ck), "DeltaTrace", CONSTS, chunk=300, key=lambda c: c["k"], budget=ck.q(250, 2500), sig=lambda e: "read-%s%s-%s" % (e.get("type"), len(e.get("body", [])) > 3 and e["body"][3] - 48, e.get("rc")))
    for c in cases[-3:] + cases[:2]: ck.sample({"k": c["k"], "how": c["how"]})
    return ck.finish("model_checking", "deltas enumerated by DeltaFile.tla (written by the specification itself), random deltas with boundary values in every item, deltas made by the library and by the reference tool; every item reported for them decided by DeltaTrace.tla from the stored bytes")
