"""C12: options objects (Options.tla, OptionsTrace.tla)."""
import hashlib, os, random
from .. import comp as C, deltafile as D, gen
from ..driver import errname
from ..rpmfile import F, Pkg

NAMES = ["s", "sequence", "sequences", "seq-with-a-longer-name"]
def packages(rng):
    txt = gen.data(rng, rng.randint(1500, 5000), "text")
    ed = bytearray(txt)
    for _ in range(12): ed[rng.randrange(len(ed))] ^= 3
    c, l = rng.choice([("gzip", 1), ("gzip", 6), ("gzip", 9), ("bzip2", 9), ("bzip2", 1), ("xz", 2), ("lzma", 2), ("zstd", 3), ("zstd", 9)])
    old = Pkg(name="o", version="1", files=[F("/o/a", content=txt), F("/o/b", content=b"same" * 20)], comp="gzip", level=1)
    new = Pkg(name="o", version="2", files=[F("/o/a", content=bytes(ed)), F("/o/b", content=b"same" * 20), F("/o/n", content=gen.data(rng, 2500, "text"))], comp=c, level=l)
    return old, new
def levels(body, comp, z, cand):
    if comp == "none": return list(range(10))
    return [l for l in cand if not (l > 9 and comp != "zstd") and C.compress(body, comp, l) == z]

def case(ck):
    def run(d, c):
        rng = random.Random("%d-%s" % (ck.seed, c["k"]))
        dr = ck.dir(); P = lambda n: os.path.join(dr, n)
        old, new = packages(rng); po, pn = P("old"), P("new"); old.write(po); new.write(pn)
        ops, at, n = [], [], 0
        for o in c["ops"]:
            k = o["op"]; s = len(ops)
            if k == "oinitnull": ops.append(["oinit", None])
            elif k in ("oinit", "odestroy", "odefaults", "orpm", "oforbid"): ops.append([k, o["i"]])
            elif k == "ocopy": ops.append([k, o["i"], o["j"]])
            elif k in ("otype", "over"): ops.append([k, o["i"], o["a"]])
            elif k in ("ocomp", "oaddblk"): ops.append([k, o["i"], o["a"], o["b"]])
            elif k == "oseq": ops.append([k, o["i"], None if o["s"] == "none" else P(o["s"])])
            elif k == "opatches":
                a, b = (None, None) if o["s"] == "none" else (P("nosuch-print" + "t" * rng.randrange(4)), P("nosuch-patch.rpm" + "m" * rng.randrange(4)))
                if o["s"] == "none" and rng.random() < .5: a, b = rng.choice([(P("x"), None), (None, P("x"))])
                ops.append([k, o["i"], a, b])
            elif k == "make":
                ops.append(["make", po, pn, P("d%d" % n), o["i"] if o["i"] else None])
                for w in NAMES: ops.append(["rename", P(w), P("%s.%d" % (w, n))])
                n += 1
            at.append(s)
        r = d.session(ops, 100)
        ev = [{"e": "case", "id": c["k"], "pkg": {"comp": D.COMPS.index(new.comp), "level": new.level}}]; problems = []
        if r.crash: return [("crash-" + (r.ops[-1]["op"] if r.ops else "?"), "%s\n%s" % (r.crash, r.stderr[-1500:]))], []
        n = 0
        for o, i in zip(c["ops"], at):
            e = {"e": "op", "op": o, "rc": errname(r[i]["rc"])}
            if o["op"] == "odestroy" and e["rc"] == "OK" and not r[i]["isnull"]: problems.append(("destroy-not-null", ""))
            if o["op"] == "make":
                sf = [w for w in NAMES if os.path.exists(P("%s.%d" % (w, n)))]
                g = {"seqfiles": sf, "seqok": True, "files": sf + (["delta"] if os.path.exists(P("d%d" % n)) else [])}
                if e["rc"] == "OK":
                    b = open(P("d%d" % n), "rb").read()
                    try: x = D.parse(b)
                    except D.BadDelta as ex: return [("malformed", str(ex))], []
                    cand = sorted({v["b"] for v in c["ops"] if v["op"] in ("ocomp", "oaddblk") and 1 <= v["b"] <= 9} | {new.level})
                    ac = C.detect(x.add) if x.add else None
                    g.update(type=0 if x.type == "standard" else 1, version=x.version, comp=D.COMPS.index(x.comp), levels=levels(x.rawbody, x.comp, x.zbody, cand), digest=hashlib.sha1(b).hexdigest()[:16],
                             add=D.COMPS.index(ac) if ac else -1, addlevels=levels(C.decompress(x.add, ac), ac, x.add, cand) if x.add else [])
                    for w in sf:
                        if open(P("%s.%d" % (w, n))).read() != "%s-%s\n" % (x.src_nevr, x.sequence.hex()): g["seqok"] = False
                e["got"] = g; n += 1
            ev.append(e)
        return problems, ev
    return run

def walks(ck, n, depth):
    return [[x["op"] for x in w] for w in ck.walks("Options", "SPECIFICATION Walks\nCONSTANTS\n NO = 3\n Rich = TRUE\nINVARIANTS AllValid Same\nCONSTRAINT Emit\n", n, depth)]
def run(ck):
    ck.tlc("Options", "SPECIFICATION Spec\nCONSTANTS\n NO = %d\n Rich = FALSE\nVIEW View\nINVARIANTS AllValid Same\nPROPERTIES Refused OneAtATime OnlyItsOwn CopySame\n" % ck.q(1, 2), workers=6, timeout=850)
    cases = []
    for i, w in enumerate(walks(ck, ck.q(260, 4000), ck.q(70, 120))): cases.append({"k": "w%d" % i, "ops": w})
    # every setting on its own, and one after another
    for i in range(ck.q(60, 400)):
        rng = random.Random("s%d-%d" % (i, ck.seed)); ops = [{"op": "oinit", "i": 1}, {"op": "make", "i": 1}, {"op": "make", "i": 0}]
        for _ in range(6):
            ops += [rng.choice([{"op": "otype", "i": 1, "a": rng.choice([0, 1, 2])}, {"op": "over", "i": 1, "a": rng.choice([1, 2, 3, 3, 4])}, {"op": "ocomp", "i": 1, "a": rng.randrange(8), "b": rng.randrange(11)},
                                {"op": "oaddblk", "i": 1, "a": rng.randrange(8), "b": rng.randrange(11)}, {"op": "oforbid", "i": 1}, {"op": "orpm", "i": 1}, {"op": "oseq", "i": 1, "s": rng.choice(["none"] + NAMES)}]),
                    {"op": "make", "i": 1}]
        ops += [{"op": "odefaults", "i": 1}, {"op": "make", "i": 1}, {"op": "odestroy", "i": 1}]
        cases.append({"k": "s%d" % i, "ops": ops})
    pool = ck.pool("asan")
    ck.run_traced(pool, cases, case(ck), "OptionsTrace", "CONSTANTS\n NO = 3\n Rich = TRUE\n", chunk=1500, key=lambda c: c["k"], budget=ck.q(300, 2500), sig=lambda e: "%s-%s" % (e["op"]["op"], e.get("rc")))
    for c in cases[:3]: ck.sample({"k": c["k"], "ops": c["ops"][:10]})
    return ck.finish("model_checking", "random walks of Options.tla over three objects (all calls, valid and invalid values, copies, resets, destroyed objects) with deltas made in between; every return code, delta (type, version, methods, levels, add block, bytes) and sequence file decided by OptionsTrace.tla")
