"""C21: the library and the reference tools take up each other's deltas (Interop.tla, InteropTrace.tla)."""
import hashlib, os, random, subprocess
from .. import comp as C, deltafile as D, gen, installed, recon, seqid
from ..deltaev import h32, h64
from ..driver import errname
from ..rpmfile import F, Pkg, Rpm, TAGS

def sh(*a): return subprocess.run(a, capture_output=True, text=True, errors="replace", stdin=subprocess.DEVNULL)
def sm(v): return h32(v & 0xffffffff)
def neg(v): return [v >> 16, v & 0xffff]                # high part signed, as DeltaFile.tla has it

def fields(x):
    """the items of a delta that follow from the packages and the request"""
    return {"src": list(x.src_nevr.encode("utf-8", "surrogateescape")) + [0], "tgt": list(x.tgt_nevr.encode("utf-8", "surrogateescape")), "seq": list(x.sequence), "md5": list(x.tgt_md5), "size": h32(x.tgt_size),
            "comp": x.disk_comp + 256 * x.tgt_level if x.version >= 2 else -1, "param": list(x.tgt_comp_param), "hdrlen": h32(x.tgt_header_len), "adja": [h32(a) for a, _ in x.offadj], "adjb": [neg(b) for _, b in x.offadj],
            "lead": list(x.leadsig), "fmtoff": h32(x.payload_fmt_off), "extlen": h64(x.ext_data_len),
            "outer": hashlib.sha1(x.rpm.leadsig[:96] + x.rpm.header_bytes + repr(sorted(x.rpm.sig)).encode() if x.rpm else x.head[:12 + x.head[11]]).hexdigest()}
FMT = TAGS["PAYLOADFORMAT"]
def facts(old, new, nb, q):
    """the same from the packages"""
    r = Rpm(nb); std = q["kind"]["type"] == "standard"; src = new if q["self"] else old; opaque = q["self"] and not std
    seq = seqid.digest([f for f in src.archive_order() if seqid.usable(f, src.colors)], src.algo) if std else b""
    return {"src": list(src.nevr.encode()) + [0], "tgt": list(new.nevr.encode()), "seq": list(seq), "md5": list(hashlib.md5(nb).digest()), "size": h32(len(nb)), "lead": list(r.leadsig), "hdrlen": h32(len(r.header_bytes)),
            "fmtoff": h32(0 if opaque else r.hdr[FMT][1])}

def zarg(q):
    b, a = q["body"], q["add"]
    z = None if b["m"] == "package" else b["m"] + (".%d" % b["l"] if b["l"] else "")
    if a["m"] == "forbidden": return None if z is None else z + ",off"
    if z is None: return None
    return z + (",bzip2%s" % (".%d" % a["l"] if a["l"] else "") if a["l"] or a["m"] != "bzip2" else "")

def case(ck):
    def run(d, c):
        rng = random.Random("%d-%s" % (ck.seed, c["k"]))
        ev, problems = [{"e": "case", "id": c["k"]}], []
        dr = ck.dir(); P = lambda n: os.path.join(dr, n)
        site = installed.Site(dr) if c.get("site") else None
        old, new = gen.pair(rng, c["sc"], root=site.root if site else "/opt/t", name="ix")
        old.comp, old.level = rng.choice([("gzip", 9), ("gzip", 6), ("bzip2", 9), ("xz", 2), ("zstd", 3), ("lzma", 2), ("none", 0)])
        new.comp, new.level = c["tgt"]["m"], c["tgt"]["l"]
        old.write(P("old")); new.write(P("new")); nb = open(P("new"), "rb").read()
        pre = []
        if site:
            site.package("old", P("old"), old); site.install(old); pre = [["setenv", "HOME", site.home({"old"})]]
            for f in old.hfiles():
                if f.kind == "reg" and seqid.usable(f, old.colors) and rng.random() < .2: site.state(rng, f, "touched")
        ops, at = list(pre), []
        for n, q in enumerate(c["reqs"]):
            b, a = q["body"], q["add"]
            ops += gen.opt_ops(0, q["kind"]["type"], q["kind"]["version"], None if b["m"] == "package" else b["m"], b["l"], None if a["m"] == "forbidden" else (a["m"], a["l"]), P("q%d" % n))
            ops += [["make", None if q["self"] else P("old"), P("new"), P("d%d" % n), 0], ["odestroy", 0]]; at.append(len(ops) - 2)
        r = d.session(ops, 200)
        if r.crash: return [("crash-make", "%s\n%s" % (r.crash, r.stderr[-1200:]))], ev
        deltas, seqs = [], []
        def load(by, n, q, path):
            """-> fields or None"""
            x = D.parse(open(path, "rb").read())
            e = {"e": "made", "by": by, "q": q, "rc": "OK", "f": fields(x), "want": facts(old, new, nb, q), "body": list(x.rawbody) if len(x.rawbody) < 5000 else []}
            ev.append(e); deltas.append((by, q, path, x)); return e["f"]
        for n, q in enumerate(c["reqs"]):
            q = dict(q, tgt=c["tgt"]); f1 = f2 = None
            if r.rc(at[n]) != "OK": ev.append({"e": "made", "by": "library", "q": q, "rc": r.rc(at[n]), "f": {}, "want": {}, "body": []})
            else:
                try: f1 = load("library", n, q, P("d%d" % n))
                except D.BadDelta as e: problems.append(("layout", "%s: %s" % (q, e)))
            z = zarg(q)
            if (z is not None or (q["body"]["m"] == "package" and q["add"] == {"m": "bzip2", "l": 0})) and q["body"]["m"] in ("package", "gzip", "bzip2", "lzma", "xz", "zstd") and q["add"]["m"] in ("bzip2", "forbidden") \
                    and not (q["body"]["m"] == "zstd" and q["body"]["l"]) and c["tgt"]["m"] != "lzip":
                t = sh("makedeltarpm", "-V", str(q["kind"]["version"]), *(["-r"] if q["kind"]["type"] == "rpmonly" else []), "-s", P("rq%d" % n), *(["-z", z] if z else []), *(["-u"] if q["self"] else [P("old")]), P("new"), P("rd%d" % n))
                if t.returncode or not os.path.exists(P("rd%d" % n)): ck.notes["reference_makes_not"] = ck.notes.get("reference_makes_not", 0) + 1
                else:
                    try: f2 = load("reference", n, q, P("rd%d" % n))
                    except D.BadDelta as e: raise RuntimeError("the reference's delta: %s %s" % (q, e))
                    ck.notes["reference_makes"] = ck.notes.get("reference_makes", 0) + 1
            rd = lambda p: list(open(p, "rb").read()) if os.path.exists(p) else [0]
            if f1 and f2:
                ev.append({"e": "pair", "q": q, "lib": f1, "ref": f2, "libseq": rd(P("q%d" % n)), "refseq": rd(P("rq%d" % n))})
            if f1 and q["kind"]["type"] == "standard" and not q["self"]: seqs.append(open(P("q%d" % n)).read().strip())
        # who makes what of it
        ops, plan = list(pre), []
        for n, (by, q, path, x) in enumerate(deltas):
            src = P("new") if q["self"] else P("old")
            ops.append(["apply", src, path, P("o%d" % n)]); plan.append((len(ops) - 1, n, P("o%d" % n)))
            if site and by == "reference" and q["kind"]["type"] == "standard" and not q["self"]:
                ops += [["apply", None, path, P("i%d" % n)]]; plan.append((len(ops) - 1, n, P("i%d" % n)))
                ops += [["check", path, 1], ["check", path, 2]]; plan += [(len(ops) - 2, n, None), (len(ops) - 1, n, None)]
        sq = []
        if seqs:
            s = rng.choice(seqs); at0 = len(s) - len(s.rsplit("-", 1)[1])
            flip = lambda k: s[:k] + "%x" % (int(s[k], 16) ^ rng.choice([1, 2, 4, 8])) + s[k + 1:]
            # the digest begins after the last dash
            vs = [(s, True), (flip(at0 + rng.randrange(32)), False), (flip(at0 + rng.choice([0, 31])), False), (s[:at0 + rng.choice([0, 2, 16, 30])], False)]
            for v, whole in vs:
                for pk in ("old", "new"): sq.append((v, whole, pk)); ops.append(["checkseq", P(pk), v, 0])
        q0 = len(ops) - len(sq)
        r = d.session(ops, 200)
        if r.crash: problems.append(("crash-use", "%s at %s\n%s" % (r.crash, ops[min(len(r.ops), len(ops) - 1)], r.stderr[-1200:])))
        for i, n, out in plan:
            if i >= len(r.ops): break
            by, q, path, x = deltas[n]
            ev.append({"e": "used", "by": "library", "of": by, "q": q, "how": ops[i][0] + ("" if ops[i][1] else "-installed"), "rc": r.rc(i), "same": out is None or (os.path.exists(out) and open(out, "rb").read() == nb)})
        for n, (v, whole, pk) in enumerate(sq):
            if q0 + n < len(r.ops): ev.append({"e": "seq", "by": "library", "right": pk == "old", "whole": whole, "ok": r.rc(q0 + n) == "OK"})
            t = sh("applydeltarpm", "-s", v, "-r", P(pk))
            ev.append({"e": "seq", "by": "reference", "right": pk == "old", "whole": whole, "ok": t.returncode == 0})
        for n, (by, q, path, x) in enumerate(deltas):
            if by != "library": continue
            src = P("new") if q["self"] else P("old"); out = P("t%d" % n)
            t = sh("applydeltarpm", "-r", src, path, out)
            ev.append({"e": "used", "by": "reference", "of": by, "q": q, "how": "apply", "rc": "OK" if t.returncode == 0 else (t.stderr.strip()[-80:] or "failed").replace(dr, ""), "same": os.path.exists(out) and open(out, "rb").read() == nb})
            if q["kind"]["type"] == "standard" and x.comp != "lzip":
                t = sh("applydeltarpm", "-i", path)
                got = dict(l.split(": ", 1) for l in t.stdout.splitlines() if ": " in l)
                if t.returncode or "heavy" in c or (x.comp in ("lzma", "xz") and q["body"]["l"] > 7): continue
                ac = len(x.add)
                want = {"deltarpm version": str(q["kind"]["version"]), "deltarpm type": "standard", "sequence": "%s-%s" % (x.src_nevr, x.sequence.hex()), "source rpm": (new if q["self"] else old).nevr, "target rpm": new.nevr,
                        "source payload size": str(len(recon.stream(new if q["self"] else old)[0])), "target payload size": str(len(new.cpio())), "target size": str(len(nb)), "target md5": hashlib.md5(nb).hexdigest(), "internal data size": str(len(x.int_data))}
                if ac: want["compressed add data size"] = str(ac)
                ev.append({"e": "info", "got": {k: got.get(k, "") for k in want}, "want": want})
        for f in os.listdir(dr):
            if f[0] in "doti" and os.path.isfile(P(f)): os.unlink(P(f))
        return problems, ev
    return run

def run(ck):
    rng = random.Random(ck.seed)
    import threading
    model = threading.Thread(target=lambda: errs.append(attempt())); errs = []
    def attempt():
        try: ck.tlc("Interop", "SPECIFICATION Spec\nINVARIANTS Interchange Agree Wider Default\n", workers=4, timeout=850)
        except Exception as e: return e
    model.start()
    em = ck.tlc("Compression", 'SPECIFICATION Spec\nCONSTANT Mode = "emit"\nCONSTRAINT Emit\n').printed()
    role = lambda k: sorted((x[1] for x in em if x[0] == k), key=lambda v: (v["m"], v["l"]))
    heavy = lambda t: t["m"] in ("lzma", "xz") and t["l"] > 7
    tg = [t for t in role("target") if not (t["l"] == 0 and t["m"] not in ("none", "lzip")) and not heavy(t)]
    if not ck.thorough: tg = [t for t in tg if t["m"] != "zstd" or t["l"] in (1, 3, 9, 10, 15, 19, 22)]
    easy = [{"m": "gzip", "l": 9}, {"m": "bzip2", "l": 9}, {"m": "lzma", "l": 2}]
    bo, ad = role("body"), role("add")
    kinds = [{"type": "standard", "version": v} for v in (1, 2, 3)] + [{"type": "rpmonly", "version": 3}]
    pkgb, bz = {"m": "package", "l": 0}, {"m": "bzip2", "l": 0}
    known = [b for b in bo if b["m"] in ("gzip", "bzip2", "lzma", "xz", "none") and not heavy(b)] + [{"m": "zstd", "l": 0}, pkgb]
    scs = gen.scenarios(ck, rng, ck.q(110, 1500), ck.q(60, 700), slots=4); cases = []
    rng.shuffle(scs)
    for i, sc in enumerate(scs):
        t = tg[i // 2 % len(tg)] if i % 2 else rng.choice(easy)
        reqs = [{"body": pkgb, "add": bz, "kind": k, "self": False} for k in kinds]
        for _ in range(2): reqs.append({"body": rng.choice(known), "add": rng.choice([bz, bz, {"m": "forbidden", "l": 0}] + [a for a in ad if a["m"] == "bzip2"] + [{"m": "gzip", "l": 5}]), "kind": rng.choice(kinds), "self": rng.random() < .4})
        if i % 3 == 0: reqs.append({"body": rng.choice(bo), "add": rng.choice(ad), "kind": rng.choice(kinds), "self": rng.random() < .2})
        cases.append({"k": "x%d" % i, "sc": sc, "tgt": t, "reqs": reqs, "site": i % 4 == 0})
    pool = ck.pool("plain")
    ck.run_traced(pool, cases, case(ck), "InteropTrace", "", chunk=160, key=lambda c: c["k"], budget=ck.q(300, 2500),
                  sig=lambda e: "%s-%s-%s-%s%s" % (e["e"], e.get("by", ""), e.get("rc", "")[:30], e["q"]["kind"]["type"], e["q"]["kind"]["version"]) if "q" in e else "%s-%s" % (e["e"], e.get("by", "")))
    model.join()
    if errs[0]: raise errs[0]
    for c in cases[:3]: ck.sample({"k": c["k"], "tgt": c["tgt"], "reqs": c["reqs"][:2]})
    return ck.finish("model_checking", "package scenarios of Scenario.tla x payload methods and levels x types x versions x settings: deltas of both tools compared item by item with each other and with the packages, small ones read and rewritten by DeltaFile.tla, applied and checked by the other tool, sequence ids exchanged; decided by InteropTrace.tla")
