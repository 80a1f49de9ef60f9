"""C22: identity deltas (World.tla: MadeDelta of a single package; Scenario.tla packages)."""
import os, random, shutil
from .. import deltafile as D, gen, installed, worlds
from ..worlds import World
from .c01 import CONSTS
from ..rpmfile import F, Pkg

FORMS = [("p", "null"), ("null", "p"), ("p", "p"), ("p", "q"), ("q", "p")]     # q: a copy of the package under another name
def case(ck):
    def run(d, c):
        rng = random.Random("%d-%s" % (ck.seed, c["k"]))
        w = World(ck, d, c["k"]); site = installed.Site(w.dir)
        if "mk" in c: p = c["mk"](rng, site.root)
        else: p = rng.choice(gen.pair(rng, c["sc"], root=site.root, name="id"))
        if p.comp == "lzip": p.comp, p.level = "xz", 2      # a target cannot be lzip
        path = w.add("p", p); w.add("q", p)
        site.package("p", path, p); site.install(p)
        home = site.home({"p"})
        w.ev.append({"e": "setdb", "pkgs": ["p"]})
        ops, plan = [["setenv", "HOME", home]], []
        j = 0
        for ty, ver in c["types"]:
            comp, level, ab = worlds.rand_options(rng)
            for o, n in (rng.sample(FORMS, 3) if not ck.thorough else FORMS):
                pd, out = w.path("d%d" % j), w.path("o%d" % j)
                ops += gen.opt_ops(0, ty, ver, comp, level, ab); m = len(ops)
                src = rng.choice(["p", "q"])
                bs, cb, of = rng.choice([(8192, 5000, 50), (64, 3, 2)])
                ops += [["limits", 8192, 5000, 50], ["make", w.file(o), w.file(n), pd, 0], ["odestroy", 0], ["limits", bs, cb, of], ["apply", w.file(src), pd, out],
                        ["apply", None, pd, out + "i"], ["check", pd, 1], ["check", pd, 2], ["read", 0, pd]]
                g = len(ops); ops += [["gu", 0, 1], ["gu", 0, 2], ["gs", 0, 5], ["gs", 0, 6], ["gs", 0, 4], ["destroy", 0]]
                plan.append((j, ty, ver, o, n, src, m + 1, g, pd, out, "%s/%s/%s" % (comp, level, ab), comp)); j += 1
        r = w.session(ops, 300)
        R = lambda i: r.rc(i) if i < len(r.ops) and r.ops[i]["rc"] >= 0 else None
        hx = lambda i: bytes.fromhex(r[i]["v"]).decode() if i < len(r.ops) and r[i].get("v") else "?"
        for j, ty, ver, o, n, src, m, g, pd, out, opts, comp in plan:
            if R(m) is None: break
            w.log_make(j, ty, ver, o, n, R(m), pd, opts)
            if R(m + 3): w.log_apply(j, src, R(m + 3), out)
            if R(m + 4): w.log_apply(j, "null", R(m + 4), out + "i")
            for k in (5, 6):
                if R(m + k): w.ev.append({"e": "check", "slot": j, "mode": k, "rc": R(m + k)})
            if R(m + 7):
                e = {"e": "read", "slot": j, "rc": R(m + 7), "src": hx(g + 2), "tgt": hx(g + 3), "type": "?", "version": -1}
                if g + 1 < len(r.ops): e["version"] = r[g]["v"]; e["type"] = ["standard", "rpmonly"][r[g + 1]["v"]] if r[g + 1]["v"] < 2 else "?"
                w.ev.append(e)
            if R(m) == "OK":
                try: x = D.parse(open(pd, "rb").read())
                except D.BadDelta: continue
                if ty == "rpmonly" and "null" in (o, n) and (x.int_copies or x.ext_copies or x.int_data or x.add or x.ext_data_len):
                    w.problems.append(("carries-data", "identity delta of %s has copies or data" % p.nevr))
                if comp and x.comp != comp and not (comp == "none"): w.problems.append(("compression", "%s instead of %s" % (x.comp, comp)))
                seq = "%s-%s" % (p.nevr, x.sequence.hex())
                s = w.session([["setenv", "HOME", home], ["checkseq", w.file(src), seq, 0]] + ([["checkseq", None, seq, 1]] if ty == "standard" else []))
                if len(s.ops) > 1: w.ev.append({"e": "checkseq", "slot": j, "pkg": src, "pkgk": "file", "rc": s.rc(1)})
                if len(s.ops) > 2: w.ev.append({"e": "check", "slot": j, "mode": "seq", "rc": s.rc(2)})
                if g + 4 < len(r.ops) and hx(g + 4) != x.sequence.hex(): w.problems.append(("read-sequence", hx(g + 4)))
        return w.result()
    return run

def run(ck):
    rng = random.Random(ck.seed)
    worlds.model(ck)
    cases = []
    ALL = [("standard", 1), ("standard", 2), ("standard", 3), ("rpmonly", 3)]
    few = lambda root, n, **kw: Pkg(name="id", version="1", files=[F(root + "/a/f%d" % i, content=gen.data(random.Random(i), 90 * i)) for i in range(n)], **kw)
    sp = [("nofiles", lambda r, root: few(root, 0)), ("one", lambda r, root: few(root, 2)), ("epoch0", lambda r, root: few(root, 3, epoch=0)), ("many", lambda r, root: few(root, 130, order=r.sample(range(130), 130))),
          ("big", lambda r, root: Pkg(name="id", version="1", files=[F(root + "/x", content=gen.data(r, 200000, "rand"))]))]
    for c in ("gzip", "bzip2", "xz", "lzma", "zstd"):
        for lv in gen.LEVELS[c]: sp.append(("enc-%s-%s" % (c, lv), lambda r, root, c=c, lv=lv: few(root, 6, comp=c, level=lv)))
    for n, mk in sp: cases.append({"k": n, "mk": mk, "types": ALL})
    for i, sc in enumerate(gen.scenarios(ck, rng, ck.q(110, None), ck.q(40, 400))):
        cases.append({"k": "sc%d" % i, "sc": sc, "types": ALL if ck.thorough else [("standard", rng.choice([1, 2, 3])), ("rpmonly", 3)]})
    pool = ck.pool("asan")
    ck.run_traced(pool, cases, case(ck), "WorldTrace", CONSTS, key=lambda c: str(c.get("sc", c["k"])), budget=ck.q(200, 2500))
    for c in cases[-3:]: ck.sample(c)
    return ck.finish("model_checking", "distinct packages (Scenario.tla classes), each made into identity deltas in every form, applied from file and from disk, checked and read; decided by World.tla")
