"""C20: compression methods and levels in every role (Compression.tla, CompressionTrace.tla)."""
import os, random
from .. import comp as C, deltafile as D, gen
from ..driver import errname
from ..rpmfile import F, Pkg

def text(rng, n):
    """levels of a compressor make a difference on it"""
    words = [bytes(rng.choice(b"abcdefghijklmnopqrstuvwxyz") for _ in range(rng.randint(2, 9))) for _ in range(300)]
    out = bytearray()
    while len(out) < n:
        if out and rng.random() < .2: a = rng.randrange(len(out)); out += out[a:a + rng.randint(5, 200)]
        else: out += rng.choice(words[:rng.choice([10, 60, 300])]) + rng.choice([b" ", b" ", b", ", b".\n"])
    return bytes(out[:n])

def packages(rng, tgt, big):
    n = 40000 if big else rng.choice([2500, 6000])
    t = text(rng, n); ed = bytearray(t)
    for _ in range(n // rng.choice([30, 60, 100])): ed[rng.randrange(n)] ^= rng.choice([1, 2, 3, 64])
    fo = [F("/c/a", content=t), F("/c/b", content=b"same" * 20), F("/c/gone", content=gen.data(rng, 500))]
    fn = [F("/c/a", content=bytes(ed)), F("/c/b", content=b"same" * 20), F("/c/new", content=text(rng, n))]
    oc = rng.choice([("gzip", 9), ("bzip2", 9), ("xz", 2), ("zstd", 3), ("lzma", 2), ("none", 0), ("lzip", 2)])
    return Pkg(name="c", version="1", files=fo, comp=oc[0], level=oc[1]), Pkg(name="c", version="2", files=fn, comp=tgt["m"], level=tgt["l"])

def matches(body, m, z, cand):
    if m == "none": return [0]
    return [l for l in sorted(set(cand)) if (m == "zstd" or l <= 9) and C.compress(body, m, l) == z]
CHOICE = {"none": 0, "gzip": 9, "bzip2": 9, "lzma": 2, "xz": 3, "zstd": 19, "lzip": 0}

def case(ck):
    def run(d, c):
        rng = random.Random("%d-%s" % (ck.seed, c["k"]))
        ev, problems = [{"e": "case", "id": c["k"]}], []
        dr = ck.dir(); P = lambda n: os.path.join(dr, n)
        if "set" in c:
            ops = [["oinit", 0]]
            for m, l in c["set"]: ops += [["ocomp", 0, m, l], ["oaddblk", 0, m, l]]
            r = d.session(ops)
            if r.crash: return [("crash-set", str(r.crash))], ev
            return problems, ev + [{"e": "set", "role": o[0], "m": o[2], "l": o[3], "rc": r.rc(i)} for i, o in enumerate(ops) if o[0] != "oinit"]
        old, new = packages(rng, c["tgt"], c.get("big", False))
        old.write(P("old")); new.write(P("new")); nb = open(P("new"), "rb").read()
        ops, plan = [], []
        for n, q in enumerate(c["reqs"]):
            b, a = q["body"], q["add"]
            ops += gen.opt_ops(0, q["kind"]["type"], q["kind"]["version"], None if b["m"] == "package" else b["m"], b["l"], None if a["m"] == "forbidden" else (a["m"], a["l"]))
            ops += [["make", None if q["self"] else P("old"), P("new"), P("d%d" % n), 0], ["odestroy", 0], ["apply", P("new") if q["self"] else P("old"), P("d%d" % n), P("r%d" % n)]]
            plan.append((q, len(ops) - 3, len(ops) - 1))
        r = d.session(ops, 300)
        if r.crash: problems.append(("crash-%s" % ops[min(len(r.ops), len(ops)) - 1][0], "%s\n%s" % (r.crash, r.stderr[-1200:])))
        for n, (q, m, a) in enumerate(plan):
            if a >= len(r.ops): break
            q = dict(q, tgt=c["tgt"]); e = {"e": "delta", "q": q, "rc": r.rc(m), "differs": not q["self"]}
            if r.rc(m) == "OK":
                try: x = D.parse(open(P("d%d" % n), "rb").read())
                except D.BadDelta as ex: problems.append(("malformed", str(ex))); continue
                lv = lambda z, bm: [z["l"] if z["l"] else CHOICE.get(z["m"], 0)] if z["m"] not in ("package", "forbidden") else [c["tgt"]["l"], CHOICE.get(c["tgt"]["m"], 0), 9]
                ac = (C.detect(x.add) or "none") if x.add else "forbidden"
                try: addlevels = matches(C.decompress(x.add, ac), ac, x.add, lv(q["add"], ac)) if x.add else []
                except Exception as ex: problems.append(("add-block", "%s: %s" % (ac, ex))); addlevels = []
                e.update(body=x.comp, bodylevels=matches(x.rawbody, x.comp, x.zbody, lv(q["body"], x.comp)), add=ac, addlevels=addlevels,
                         recorded=-1 if x.version < 2 else D_code(x), apply=r.rc(a), same=os.path.exists(P("r%d" % n)) and open(P("r%d" % n), "rb").read() == nb)
            ev.append(e)
        return problems, ev
    return run
def D_code(x): return x.disk_comp + 256 * x.tgt_level

def run(ck):
    rng = random.Random(ck.seed)
    ck.tlc("Compression", 'SPECIFICATION Spec\nCONSTANT Mode = "walk"\nINVARIANTS Reproduced Honoured OnlyLzip\n', workers=6, timeout=850)
    em = ck.tlc("Compression", 'SPECIFICATION Spec\nCONSTANT Mode = "emit"\nCONSTRAINT Emit\n').printed()
    role = lambda k: sorted((x[1] for x in em if x[0] == k), key=lambda v: (v["m"], v["l"]))
    tg, bo, ad = role("target"), role("body"), role("add")
    kinds = [{"type": "standard", "version": v} for v in (1, 2, 3)] + [{"type": "rpmonly", "version": 3}]
    if not ck.thorough: tg = [t for t in tg if t["l"] <= 19 or t["l"] == 22]
    # every body setting and every add block setting with every kind of delta, every target with all kinds, each in changing company
    def deck(xs):
        while True:
            s = [(x, k) for x in xs for k in kinds]; rng.shuffle(s)
            yield from s
    B, A = deck(bo), deck(ad); cases = []
    per = ck.q(6, 8)
    for rep in range(ck.q(1, 12)):
        for t in tg:
            reqs = []
            for k in kinds:
                b, a = next(B)[0], next(A)[0]
                reqs.append({"body": b, "add": a, "kind": k, "self": False})
                reqs.append({"body": {"m": "package", "l": 0}, "add": rng.choice(ad), "kind": k, "self": rng.random() < .3})
            for _ in range(per):
                b, k = next(B); a, k2 = next(A)
                reqs.append({"body": b, "add": rng.choice(ad), "kind": k, "self": rng.random() < .1}); reqs.append({"body": rng.choice(bo), "add": a, "kind": k2, "self": False})
            h = len(reqs) // 2
            for i, part in enumerate((reqs[:h], reqs[h:])): cases.append({"k": "t%s%d-%d-%d" % (t["m"], t["l"], rep, i), "tgt": t, "reqs": part, "big": (rep + i) % 2 == 0})
    vals = [(m, l) for m in [0, 1, 2, 3, 4, 5, 6, 7, 8, 255, 256, 65535] for l in [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 19, 99, 255, 256, 257, 32768, 65534, 65535]]
    cases.append({"k": "set", "set": vals})
    pool = ck.pool("plain")
    ck.run_traced(pool, cases, case(ck), "CompressionTrace", 'CONSTANT Mode = "trace"\n', chunk=1500, key=lambda c: c["k"], budget=ck.q(300, 2500),
                  sig=lambda e: e["e"] if e["e"] == "set" else "level0-%s-%s" % (e["q"]["tgt"]["m"], e.get("apply")) if e["q"]["tgt"]["l"] == 0 and e["q"]["tgt"]["m"] not in ("none", "lzip") and not (e["q"]["self"] and e["q"]["kind"]["type"] == "rpmonly") else "%s-%s-%s-%s" % (e["q"]["kind"]["type"], e["q"]["kind"]["version"], e["q"]["tgt"]["m"], e["rc"]))
    for c in cases[:2]: ck.sample({"k": c["k"], "reqs": c["reqs"][:3]})
    return ck.finish("model_checking", "every method and level as body setting and as add block setting with every type and version, every payload method and level as target, in changing combinations; methods, levels (by compressing again with the same libraries), the recorded number and the rebuilt package decided by CompressionTrace.tla")
