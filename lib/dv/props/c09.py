"""C09: the instructions of a delta rebuild the target stream (Copies.tla)."""
import os, random
from .. import comp as C, deltafile as D, gen, recon
from ..rpmfile import F, Pkg

def alphabet(rng, n, k): return bytes(rng.choice(b"abcdefghijklmnopqrstuvwxyz"[:k]) for _ in range(n))
def pieces(rng, src, n):
    """a target assembled from pieces of the source, some of them changed, and new bytes"""
    out = b""
    while len(out) < n:
        k = rng.random()
        if k < .55 and src:
            a = rng.randrange(len(src)); l = min(rng.choice([1, 7, 15, 16, 17, 31, 32, 33, 63, 64, 100, 500, 5000]), len(src) - a)
            b = bytearray(src[a:a + l])
            if rng.random() < .5:
                for _ in range(rng.choice([1, 1, 2, 3, max(1, l // 10), max(1, l // 2)])): b[rng.randrange(l)] ^= rng.randrange(1, 256)
            out += bytes(b)
        else: out += rng.randbytes(rng.choice([1, 1, 2, 5, 30, 200]))
    return out

def contents(rng, shape):
    """-> (old contents, new contents)"""
    n = rng.choice([0, 1, 15, 16, 17, 31, 32, 33, 47, 48, 100, 1000, 4095, 4096, 4097, 8191, 8192, 8193, 20000])
    if shape == "tiny": n = rng.choice([0, 1, 3, 15, 16, 17, 31, 32, 33, 48, 64]); o = alphabet(rng, n, rng.choice([1, 2, 3, 26])); return o, pieces(rng, o, rng.choice([0, 1, 16, 40, 100]))
    if shape == "alphabet": o = alphabet(rng, n, rng.choice([1, 2, 3])); return o, alphabet(rng, rng.randint(0, 2 * n + 2), 2)
    if shape == "pieces": o = gen.data(rng, n); return o, pieces(rng, o, rng.randint(0, 2 * n + 50))
    if shape == "period":
        p = rng.randbytes(rng.choice([1, 2, 3, 7, 16, 17, 32, 255])); o = (p * (n // len(p) + 1))[:n]
        x = bytearray((p * (n // len(p) + 3))[rng.randrange(len(p)):][:n + rng.randint(-min(n, 9), 9)])
        for _ in range(rng.randint(0, 4)):
            if x: x[rng.randrange(len(x))] ^= 1 << rng.randrange(8)
        return o, bytes(x)
    if shape == "swap": o = gen.data(rng, n, "rand"); k = rng.randint(0, n); return o, o[k:] + o[:k]
    if shape == "reverse":
        b = [rng.randbytes(rng.randint(1, 100)) for _ in range(n // 50 + 1)]; return b"".join(b), b"".join(reversed(b))
    if shape == "offbyone": o = gen.data(rng, n, "rand"); return o, bytes((x + 1) & 255 for x in o)
    if shape == "sparse": o = gen.data(rng, n, "rand"); return o, bytes(x if i % rng.choice([2, 3, 5, 17]) else x ^ 0x55 for i, x in enumerate(o))
    if shape == "unrelated": return gen.data(rng, n, "rand"), gen.data(rng, rng.randint(0, n + 1), "rand")
    if shape == "grow": o = gen.data(rng, n); return o, o * rng.randint(1, 5) + b"x"
    return gen.data(rng, n), b""
SHAPES = ["tiny", "alphabet", "pieces", "period", "swap", "reverse", "offbyone", "sparse", "unrelated", "grow", "emptied"]

def case(ck):
    def run(d, c):
        rng = random.Random("%d-%s" % (ck.seed, c["k"]))
        ev, problems = [{"e": "case", "id": c["k"]}], []
        if "sc" in c: old, new = gen.pair(rng, c["sc"])
        elif "huge" in c:
            o = gen.data(rng, c["huge"], "text"); n = bytearray(o)
            for _ in range(300):
                a, l = rng.randrange(len(n) + 1), rng.choice([1, 10, 1000, len(o) // 60])
                if rng.random() < .5: del n[a:a + l]
                else: n[a:a] = rng.randbytes(min(l, 5000))
            old, new = [Pkg(name="c", version=str(v), files=[F("/c/huge", content=bytes(x))], comp="gzip", level=1) for v, x in ((1, o), (2, n))]
        else:
            fo, fn = [], []
            for i, s in enumerate(c["shapes"]):
                a, b = contents(rng, s)
                fo.append(F("/c/%s%d" % ("f" * rng.randint(1, 4), i), content=a)); fn.append(gen.clone(fo[-1], content=b))
            if rng.random() < .3: fn = fn[::-1]
            if rng.random() < .2: fn = fn[1:]
            old, new = Pkg(name="c", version="1", files=fo, comp="gzip", level=1), Pkg(name="c", version="2", files=fn, comp=rng.choice(["gzip", "bzip2"]), level=1)
        dr = ck.dir(); P = lambda n: os.path.join(dr, n)
        old.write(P("old")); new.write(P("new")); ob, nb = old.bytes(), new.bytes()
        ops, plan = [["chunk", max(c["chunk"], len(new.cpio()) // 2000) if "chunk" in c else 0]], []
        combos = [("standard", 3), ("rpmonly", 3), ("standard", rng.choice([1, 2]))]
        for j, (ty, v) in enumerate(combos):
            for ab in ([("none", 0), None] if not ck.thorough else [("none", 0), ("bzip2", 9), None]):
                if ab and rng.random() < .5: ab = rng.choice([("gzip", 1), ("zstd", 1), ("bzip2", 1), ("xz", 1), ("none", 0)])
                n = len(plan); ops += gen.opt_ops(0, ty, v, "none", 0, ab) + [["make", P("old"), P("new"), P("d%d" % n), 0], ["odestroy", 0]]
                if "chunk" in c: ops.append(["apply", P("old"), P("d%d" % n), P("n%d" % n)])
                plan.append((len(ops) - 2 - ("chunk" in c), ty, v, ab))
        r = d.session(ops, 200)
        if r.crash: return [("crash", str(r.crash) + r.stderr[-1500:])], ev
        for n, (i, ty, v, ab) in enumerate(plan):
            if r.rc(i) != "OK": problems.append(("make-%s" % r.rc(i), str(c)[:300])); continue
            if "chunk" in c:
                if r.rc(i + 2) != "OK": problems.append(("divided-apply-%s" % r.rc(i + 2), str(c)[:300]))
                elif open(P("n%d" % n), "rb").read() != nb: problems.append(("divided-apply-wrong", str(c)[:300]))
            try: x = D.parse(open(P("d%d" % n), "rb").read())
            except D.BadDelta as e: problems.append(("malformed", str(e))); continue
            src, tgt = recon.ends(x, old, ob, nb)
            if ab is None and x.add: problems.append(("add-forbidden", "add block of %d bytes" % len(x.add)))
            ac = C.detect(x.add) if x.add else None
            if x.add and ac != ab[0]: problems.append(("add-compression", "%s instead of %s" % (ac, ab[0])))
            try: add = C.decompress(x.add, ac) if x.add else None
            except Exception as e: problems.append(("add-corrupt", str(e))); continue
            e = recon.event(x, add, src, tgt, 2600 if not ck.thorough else 6000); e["ty"] = "%s%d" % (ty, v)
            ev.append(e)
        return problems, ev
    return run

def run(ck):
    rng = random.Random(ck.seed)
    ck.tlc("Copies", "SPECIFICATION Spec\nCONSTANTS\n Byte = 2\n MaxSrc = %d\n MaxTgt = %d\n Most = 9\nINVARIANTS Reconstructs AddExact Fits FitsInt\n" % ck.q((3, 4), (3, 6)), workers=6, timeout=850)
    ck.tlc("Copies", "SPECIFICATION Spec\nCONSTANTS\n Byte = 3\n MaxSrc = 2\n MaxTgt = 3\n Most = 9\nINVARIANTS Reconstructs AddExact Fits FitsInt\n", workers=6)
    for most in (1, 2):
        ck.tlc("Copies", "SPECIFICATION Spec\nCONSTANTS\n Byte = 2\n MaxSrc = %d\n MaxTgt = %d\n Most = %d\nINVARIANTS Reconstructs AddExact Fits FitsInt\n" % (ck.q((3, 3), (4, 4)) + (most,)), workers=6, timeout=850)
    cases = []
    for s in SHAPES:
        for i in range(ck.q(22, 300)): cases.append({"k": "%s-%d" % (s, i), "shapes": [s]})
    for i in range(ck.q(80, 1500)): cases.append({"k": "mix-%d" % i, "shapes": [rng.choice(SHAPES) for _ in range(rng.randint(2, 6))]})
    for i, sc in enumerate(gen.scenarios(ck, rng, ck.q(100, None), ck.q(40, 400))): cases.append({"k": "sc%d" % i, "sc": sc})
    # numbers that have to be divided among instructions: as if an instruction could hold only so much
    for i in range(ck.q(150, 2000)): cases.append({"k": "divided-%d" % i, "shapes": [rng.choice(SHAPES) for _ in range(rng.randint(1, 4))], "chunk": rng.choice([1, 2, 3, 7, 16, 31, 32, 100, 500, 1000, 4000, 10000])})
    for n in ck.q([300000], [300000, 3000000, 20000000]): cases.append({"k": "huge%d" % n, "huge": n})
    pool = ck.pool("asan")
    cases.reverse()
    ck.run_traced(pool, cases, case(ck), "CopiesTrace", "CONSTANTS\n Byte = 256\n MaxSrc = 0\n MaxTgt = 0\n Most = 2147483647\n", chunk=150, key=lambda c: c["k"], budget=ck.q(250, 2500), sig=lambda e: "delta-%s" % e.get("ty"))
    for c in cases[-3:]: ck.sample(c)
    return ck.finish("model_checking", "pairs of packages whose contents are assembled to stress matching (alphabets, periods, moved and altered pieces, boundary sizes) and Scenario.tla packages; each made in six ways; every recorded instruction list executed by Copies.tla, small ones byte for byte in TLC")
