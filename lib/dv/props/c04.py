"""C04: a delta is applied only onto the exact source it was made from (Variant.tla, World.tla)."""
import copy, os, random
from .. import gen, installed, seqid, worlds
from ..worlds import World
from ..rpmfile import F, Pkg, Rpm

CONSTS = "CONSTANTS\n Pkgs = {}\n Sources = {}\n Targets = {}\n Dbs = {}\n Versions = {}\n NSlots = 0\n Envs = {}\n"
BASES = [dict(name="foo", version="1.2", release="3", epoch=None), dict(name="foo-bar", version="1", release="1.fc9", epoch=2), dict(name="f-2-1", version="2", release="1", epoch=None),
    dict(name="g.*x", version="1.*", release="*", epoch=1)]     # taken as patterns, these would match other packages

def base(rng, root, b, **kw):
    fs = [F(root + "/a/reg", content=gen.data(rng, 3000, "rand")), F(root + "/a/reg2", content=gen.data(rng, 700, "rand"), mode=0o755), F(root + "/a/empty"),
          F(root + "/a/link", "sym", linkto="target"), F(root + "/a/dir", "dir"), F(root + "/a/dev", "chr", rdev=0x105), F(root + "/a/conf", content=gen.data(rng, 200, "rand"), flags=1)]
    return Pkg(files=fs, order=rng.sample(range(len(fs)), len(fs)), algo=rng.choice([1, 8]), comp=rng.choice(["gzip", "bzip2"]), level=6, **b, **kw)

def zeroed(rng, p, part):
    """p with some content replaced so that a digest of it contains a zero byte early"""
    for i in range(20000):
        x = next(f for f in p.files if f.path.endswith("/reg2")); p.files[p.files.index(x)] = gen.clone(x, content=rng.randbytes(len(x.content)))
        if part == "sequence":
            if seqid.digest([f for f in p.archive_order() if seqid.usable(f)], p.algo)[0] == 0: return
        elif 0 in Rpm(p.bytes()).sig[1004][0][:8]: return

def variant(rng, p, v):
    q = copy.copy(p); q.files = [gen.clone(f) for f in p.files]
    n, m = v["nevr"], v["meta"]
    if n == "name": q.name = rng.choice(["other", p.name.upper(), p.name[:-1] + "x"])
    elif n == "nameprefix": q.name = p.name[:-1]
    elif n == "namelonger": q.name = p.name + rng.choice(["x", "-1", "-" + p.version])
    elif n == "version": q.version = rng.choice(["9", "0"])
    elif n == "versionlonger": q.version = p.version + rng.choice(["0", ".1", "."])
    elif n == "release": q.release = rng.choice(["9", "x"])
    elif n == "releaselonger": q.release = p.release + rng.choice(["0", ".1"])
    elif n == "epoch": q.epoch = (p.epoch or 0) + rng.choice([1, 5, 65536])
    elif n == "epochadded":
        if p.epoch is not None: return None
        q.epoch = rng.choice([1, 7])
    elif n == "epochgone":
        if p.epoch is None: return None
        q.epoch = None
    elif n == "shifted":     # the same text cut elsewhere
        if p.epoch is not None or "-" not in p.name: return None
        parts = p.name.split("-"); q.name = "-".join(parts[:-1]) or p.name; q.version, q.release = parts[-1], p.version
        if q.name == p.name: return None
        # name-version-release of q is shorter by the old release
    f = {x.path.rsplit("/", 1)[1]: x for x in q.files}
    def bit(b): b = bytearray(b); k = rng.randrange(len(b)); b[k] ^= 1 << rng.randrange(8); return bytes(b)
    if m == "content": x = f[rng.choice(["reg", "reg2"])]; x.content = bit(x.content)
    elif m == "mode": x = f[rng.choice(["reg", "empty", "link", "dir", "dev"])]; x.mode ^= 1 << rng.randrange(9)
    elif m == "size": x = f[rng.choice(["reg", "reg2"])]; x.content = x.content[:-1] if rng.random() < .5 else x.content + b"x"
    elif m == "linkto": f["link"].linkto = rng.choice(["targex", "target2", "targe"])
    elif m == "rdev": f["dev"].rdev ^= 1 << rng.randrange(16)
    elif m == "filename": x = rng.choice(list(f.values())[:6]); x.path += "x"
    elif m == "kind": f["dev"].kind = "blk"; f["dev"].mode = 0o060600 | f["dev"].mode & 0o777
    elif m == "fewer":
        k = rng.randrange(6); q.files.pop(k); q.order = [i - (i > k) for i in p.order if i != k]
    elif m == "more": q.files.insert(0, F(p.files[0].path + "0", content=b"more")); q.order = [0] + [i + 1 for i in p.order]
    elif m == "none": q.files = []; q.order = []
    elif m == "mtime":
        for x in q.files: x.mtime += rng.randrange(1000)
    elif m == "owner":
        for x in q.files: x.user, x.group = "nobody", "users"
    elif m == "flags":
        for x in q.files: x.flags |= rng.choice([2, 4, 16, 128, 256])
    elif m == "verify":
        for x in q.files: x.verify &= ~rng.choice([16, 32, 64])
    elif m == "summary": q.summary = "another summary"
    elif m == "arch": q.arch = "x86_64"
    elif m == "order": q.order = list(reversed(p.order))
    elif m == "recompressed": q.comp, q.level = ("gzip", 1) if p.comp != "gzip" else ("bzip2", 9)
    elif m == "unused": x = f["conf"]; x.content = gen.data(rng, 300, "rand")     # a configuration file is not in the sequence
    elif m == "device":
        for x in q.files: x.ino = rng.randrange(1, 1 << 30)
    elif m == "twin": zeroed(rng, q, "sequence")
    if v["sig"] == "none": q.sig_md5 = False
    b = q.bytes()
    if v["sig"] == "near":
        t = bytearray(Rpm(b).sig[1004][0]); i = b.index(t); z = t.find(0)
        k = rng.randrange(z + 1, 16) if 0 <= z < 15 and rng.random() < .6 else rng.choice([0, 15, rng.randrange(16)])
        t[k] ^= 1 << rng.randrange(8); b = b[:i] + bytes(t) + b[i + 16:]
    if v["sig"] == "forged":
        s, t = Rpm(p.bytes()).sig[1004][0], Rpm(b).sig[1004][0]
        i = b.index(t); b = b[:i] + s + b[i + 16:]
    elif v["sig"] == "resigned":     # what the signature does not cover
        s = Rpm(b); il = int.from_bytes(b[104:108], "big"); i = 112 + il * 16 + s.sig[1007][1]     # another archive size, another lead name
        b = b[:10] + b"X" + b[11:i] + b"\1" + b[i + 1:]
    return q, b

def case(ck):
    def run(d, c):
        rng = random.Random("%d-%s" % (ck.seed, c["k"]))
        w = World(ck, d, c["k"]); site = installed.Site(w.dir)
        old = base(rng, site.root, c["base"])
        if c["v"]["meta"] == "twin": zeroed(rng, old, "sequence")
        elif c["v"]["sig"] == "near" and rng.random() < .7: zeroed(rng, old, "signature")
        r = variant(rng, old, c["v"])
        if r is None: return [], [{"e": "case", "id": c["k"]}]
        var, vb = r
        newv = dict(c["base"]); newv["version"] = "5"
        new = Pkg(files=[gen.clone(f) for f in old.files], comp="gzip", level=9, **newv)
        new.files[0] = gen.clone(new.files[0], content=gen.edit(rng, new.files[0].content, "edit"))
        from ..worlds import meta_id
        po, pn = w.add("src", old, meta=smeta(old)), w.add("tgt", new)
        site.package("src", po, old)
        pv = w.add("var", var, data=vb, meta=smeta(var))
        site.package("var", pv, var)
        # a bystander whose only common feature is the name
        dbs = [{"var"}]
        if var.nevr != old.nevr and not var.version.endswith(".") and rng.random() < .3: dbs = [{"var"}, {"src", "var"}]
        if c["k"].endswith("-0"): dbs.append(set())
        types = [("standard", v) for v in ((1, 2, 3) if ck.thorough else (rng.choice([1, 2, 3]),))] + [("rpmonly", 3)]
        mk = []
        for j, (ty, ver) in enumerate(types):
            mk += gen.opt_ops(0, ty, ver, None, 0, rng.choice([None, ("bzip2", 0)])) + [["make", po, pn, w.path("d%d" % j), 0], ["odestroy", 0]]
        out = w.path("out")
        first = True
        for db in dbs:
            for q in (old, var) if db == {"var"} else (var, old): site.install(q)
            pre = [["setenv", "HOME", site.home(db)]]
            ops = list(pre); plan = []
            if first: ops += mk
            for j, (ty, ver) in enumerate(types):
                pd = w.path("d%d" % j)
                seq = None
                for what in (("apply", "checkseq", "apply0", "check1", "check2") if first else ("apply0", "check1", "check2")):
                    # outputs are looked at one by one
                    o = "%s-%d-%s" % (out, j, what)
                    plan.append((len(ops), j, what, o))
                    if what == "apply": ops.append(["apply", pv, pd, o])
                    elif what == "apply0": ops.append(["apply", None, pd, o])
                    elif what == "checkseq": ops.append(["checkseq", pv, "@SEQ%d" % j, 0])
                    else: ops.append(["check", pd, int(what[-1])])
            if first:
                # sequence strings are known once the deltas exist
                r = w.session(pre + mk)
                for j, (ty, ver) in enumerate(types):
                    i = [k for k, o in enumerate(pre + mk) if o[0] == "make"][j]
                    if i < len(r.ops): w.log_make(j, ty, ver, "src", "tgt", r.rc(i), w.path("d%d" % j))
                seqs = []
                from .. import deltafile as D
                for j in range(len(types)):
                    try: seqs.append("%s-%s" % (old.nevr, D.parse(open(w.path("d%d" % j), "rb").read()).sequence.hex()))
                    except Exception: seqs.append("x")
                shift = len(mk); ops = [o for o in pre] + ops[len(pre) + shift:]; plan = [(i - shift, j, a, o) for i, j, a, o in plan]
                for i, o in enumerate(ops):
                    if o[0] == "checkseq": ops[i] = ["checkseq", o[1], seqs[int(o[2][4:])], 0]
            w.ev.append({"e": "setdb", "pkgs": sorted(db)})
            r = w.session(ops)
            for i, j, what, o in plan:
                if i >= len(r.ops) or r.ops[i]["rc"] < 0: continue
                if what == "apply": w.log_apply(j, "var", r.rc(i), o)
                elif what == "apply0": w.log_apply(j, "null", r.rc(i), o)
                elif what == "checkseq": w.ev.append({"e": "checkseq", "slot": j, "pkg": "var", "pkgk": "file", "rc": r.rc(i)})
                else: w.ev.append({"e": "check", "slot": j, "mode": what, "rc": r.rc(i)})
            first = False
        for e in w.ev: e["v"] = "%(nevr)s-%(meta)s-%(sig)s" % c["v"]
        return w.result()
    return run

def smeta(p):
    """metadata of the files the sequence covers (the configuration file is not among them)"""
    q = copy.copy(p); q.files = [f for f in p.files if not f.flags & 1]
    return worlds.meta_id(q)

def sig(e): return "%s-%s-%s" % (e["e"], e.get("rc", ""), e.get("v", ""))

def run(ck):
    rng = random.Random(ck.seed)
    worlds.model(ck)
    r = ck.tlc("Variant", "SPECIFICATION VSpec\n" + CONSTS + "INVARIANT Refused\nCONSTRAINT Emit\n")
    vs = r.printed()
    single = [v for v in vs if (v["nevr"] == "same") + (v["meta"] == "same") >= 1]
    rest = [v for v in vs if v not in single]
    cases = []
    sel = vs if ck.thorough else single + rng.sample(rest, min(70, len(rest)))
    for rep in range(ck.q(1, 3)):
        for i, v in enumerate(sel):
            for bi, b in enumerate(BASES):
                if not ck.thorough and v in rest and bi != i % 3: continue
                cases.append({"k": "v%d-%d-%d" % (i, bi, rep), "v": v, "base": b})
    pool = ck.pool("asan")
    ck.run_traced(pool, cases, case(ck), "WorldTrace", CONSTS, key=lambda c: str((c["v"], c["base"]["name"])), budget=ck.q(200, 2500), sig=sig)
    for c in cases[-3:]: ck.sample(c)
    return ck.finish("model_checking", "distinct (source package, lookalike) pairs: every identity part x metadata part x signature class of Variant.tla, each offered to apply, check and sequence check as file and as installed package; decided by World.tla")
