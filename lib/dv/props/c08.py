"""C08: what is not a well-formed delta is refused (DeltaFile.tla, DeltaMutation.tla, DeltaTrace.tla)."""
import os, random, struct
from .. import comp as C, deltaev, deltafile as D, gen, installed
from ..driver import errname
from ..rpmfile import F, Pkg
from .c07 import CONSTS, CL, synthetic, pkgcomp

FIELD = {"magic": "magic", "srclen": "src_nevr_len", "src": "src_nevr", "seqlen": "seq_len", "seq": "sequence", "md5": "tgt_md5", "tgtsize": "tgt_size", "tgtcomp": "tgt_comp", "paramlen": "tgt_comp_param_len",
         "param": "tgt_comp_param", "hdrlen": "tgt_header_len", "adjcount": "offadj_count", "adja": "offadj_a", "adjb": "offadj_b", "leadlen": "leadsig_len", "lead": "leadsig", "fmtoff": "payload_fmt_off",
         "intcount": "int_count", "extcount": "ext_count", "inta": "int_a", "intb": "int_b", "exta": "ext_a", "extb": "ext_b", "extlen": "ext_data_len", "addlen": "add_len", "add": "add", "intlen": "int_data_len", "data": "int_data", "sigcount": "leadsig", "sigsize": "leadsig"}
def number(rng, v, n, how, rest):
    top = (1 << 8 * n) - 1; h = 1 << (8 * n - 1)
    r = {"zero": 0, "one": 1, "minus1": v - 1, "plus1": v + 1, "minus2": v - 2, "plus2": v + 2, "minus16": v - 16, "plus16": v + 16, "double": 2 * v, "half": v // 2, "rest": rest, "restplus1": rest + 1, "low8": v ^ 0xff,
         "top8": v ^ (0xff << (8 * n - 8)), "i31-1": h - 1, "i31": h, "i31+1": h + 1, "u32-1": top - 1, "u32": top, "u32/2": top // 2, "u30": 1 << (8 * n - 2), "millions": 200000000, "u29": 1 << (8 * n - 3),
         "byteswap": int.from_bytes(v.to_bytes(n, "big"), "little")}[how] & top
    return r.to_bytes(n, "big")
def bytes_(rng, b, how, name):
    o = bytearray(b)
    if how == "shorter": return bytes(o[:-1])
    if how == "longer": return bytes(o) + rng.choice([b"\0", b"x"])
    if not o: return None
    if how == "first": o[0] ^= rng.randint(1, 255)
    elif how == "last": o[-1] = (o[-1] + rng.choice([1, 255, 3, 0x30])) & 255 if name == "magic" else o[-1] ^ rng.randint(1, 255)
    elif how == "zeros": o[:] = bytes(len(o))
    elif how == "ones": o[:] = b"\xff" * len(o)
    else: o[rng.randrange(len(o))] ^= 1 << rng.randrange(8)
    return bytes(o)
def cstr(b): return b.split(b"\0")[0]

def mutate(rng, x, m):
    """-> (body, head) or None when nothing would change. head only for the rpm-only kind."""
    toks = x.tokens(); head = x.outer() if x.type == "rpmonly" else None
    it, how = m["item"], m["how"]
    if how.startswith("fit"):
        n = int(how[3:]); fit = lambda b: (b + rng.randbytes(n))[:n]
        if it in ("tgt", "outeradd"):
            t = x.clone()
            if it == "outeradd": t.add = fit(x.add)
            else: t.raw["tgt_nevr"] = fit(x.tgt_nevr.encode() + b"\0")
            return x.body(), t.outer()
        at = next(i for i, (f, b) in enumerate(toks) if f == FIELD[it]); b = fit(toks[at][1])
        if b == toks[at][1]: return None
        toks[at - 1] = (toks[at - 1][0], struct.pack(">I", n)); toks[at] = (FIELD[it], b)
        return b"".join(b for f, b in toks), head
    if it in FIELD:
        name = FIELD[it]; total = sum(len(b) for _, b in toks); at = 0; out = b""; ch = False
        for f, b in toks:
            nb = b
            if f == name:
                if it in ("adja", "adjb", "inta", "intb", "exta", "extb"):
                    if not b: return None
                    k = rng.choice([0, len(b) // 4 - 1, rng.randrange(len(b) // 4)]) * 4
                    nb = b[:k] + number(rng, int.from_bytes(b[k:k + 4], "big"), 4, how, total - at - len(b)) + b[k + 4:]
                elif it in ("sigcount", "sigsize"):
                    k = 104 if it == "sigcount" else 108
                    nb = b[:k] + number(rng, int.from_bytes(b[k:k + 4], "big"), 4, how, len(b) - 112) + b[k + 4:]
                elif it in deltanums: nb = number(rng, int.from_bytes(b, "big"), len(b), how, total - at - len(b))
                else: nb = bytes_(rng, b, how, it)
                if nb is None or nb == b: return None
                ch = True
            at += len(b); out += nb
        return (out, head) if ch else None
    tn = x.tgt_nevr.encode() + b"\0"; body = x.body()
    p1, p2 = 12, 12 + len(tn); add = x.add
    seg = {"otherstart": (0, 4), "outermagic": (4, 8), "tgtlen": (8, 12), "tgt": (p1, p2), "outeraddlen": (p2, p2 + 4), "outeradd": (p2 + 4, p2 + 4 + len(add))}[it]
    b = head[seg[0]:seg[1]]
    if it in ("tgtlen", "outeraddlen"): nb = number(rng, int.from_bytes(b, "big"), 4, how, len(head) - seg[1])
    else: nb = bytes_(rng, b, how, "magic" if it == "outermagic" else it)
    if nb is None or nb == b: return None
    return body, head[:seg[0]] + nb + head[seg[1]:]
deltanums = {"srclen", "seqlen", "tgtsize", "tgtcomp", "paramlen", "hdrlen", "adjcount", "leadlen", "fmtoff", "intcount", "extcount", "extlen", "addlen", "intlen"}

def case(ck):
    def run(d, c):
        rng = random.Random("%d-%s" % (ck.seed, c["k"]))
        dr = ck.dir(); problems, ev = [], [{"e": "case", "id": c["k"]}]
        P = lambda n: os.path.join(dr, n)
        ty, ver, comp = c["type"], c["version"], c["comp"]
        if c.get("open"):
            return openers(d, dr, rng, ev)
        pre = []; po = None
        if c["base"] == "real":
            site = installed.Site(dr)
            fs = [F(site.root + "/f%d" % i, content=rng.randbytes(rng.randint(30, 200))) for i in range(3)]
            old = Pkg(name="m", version="1", files=fs, comp="gzip", level=9, order=rng.sample(range(3), 3))
            new = Pkg(name="m", version="2", files=[gen.clone(fs[0], content=fs[0].content[:20] + b"zz" + fs[0].content[22:]), fs[1], gen.clone(fs[2], content=fs[2].content + rng.randbytes(40)), F(site.root + "/g", content=rng.randbytes(60))], comp=rng.choice(["gzip", "bzip2"]), level=9)
            po, pn, pd = P("old"), P("new"), P("base"); old.write(po); new.write(pn)
            if ty == "standard" and c.get("db"): site.package("src", po, old); site.install(old); pre = [["setenv", "HOME", site.home({"src"})]]
            r = d.session(gen.opt_ops(0, ty, ver, "none", 0, rng.choice([("none", 0), ("gzip", 1), ("bzip2", 0), None])) + [["make", po, pn, pd, 0]], 60)
            if r.crash or r.rc() != "OK": return [("make", str(r.crash))], ev
            x = D.parse(open(pd, "rb").read()); x.tgt_pkg = new; pc = D.COMPS.index(new.comp)
            if ver >= 2: x.raw["tgt_comp"] = x.disk_comp | x.tgt_level << 8
        else:
            while True:
                x = synthetic(rng, ty, ver, "none")
                if x.ext_copies and x.int_data and x.add and (ver < 2 or x.tgt_comp_param) and (ver < 3 or x.offadj) and len(x.body()) < 1500: break
            pc = pkgcomp(x)
        x.comp = comp; x.level = rng.choice(CL[comp])
        todo = []       # (label, file bytes, body, sound, loose, noise, head, tgt)
        body = x.body(); whole = x.encode(); zoff = len(whole) - len(C.compress(body, x.comp, x.level))
        def put(label, raw, b, **kw): todo.append((label, raw, b, kw))
        def enc(b, head=None):
            if x.type == "rpmonly": return (head if head is not None else x.outer()) + C.compress(b, x.comp, x.level)
            return x.encode(b)
        put("untouched", whole, body)
        if c["what"] == "mutation":
            for m in c["m"]:
                r = mutate(rng, x, m)
                if r is None: continue
                b, head = r; lab = "%s-%s" % (m["item"], m["how"])
                kw = {}
                if head is not None:
                    kw["head"] = head
                    n = struct.unpack(">I", head[8:12])[0]
                    kw["tgt"] = cstr(head[12:12 + n]).decode("utf-8", "surrogateescape") if n < 5000 else ""
                put(lab, enc(b, head), b, **kw)
        elif c["what"] == "bodycut":
            for n in range(c["from"], len(body), c["step"]): put("bodycut", enc(body[:n]), body[:n])
            put("extra", enc(body + b"more"), body + b"more")
        elif c["what"] == "filecut":
            for n in range(c["from"], len(whole), c["step"]):
                if comp == "none" and n >= zoff: put("filecut", whole[:n], body[:n - zoff])
                elif n < len(whole) - 64 or n < zoff: put("filecut", whole[:n], b"", sound=False)
                else: put("filecut-end", whole[:n], body, loose=True)
        elif c["what"] == "noise":
            for _ in range(60):
                o = bytearray(whole); z = rng.random() < .8; lo = zoff if z else 0
                for _ in range(rng.choice([1, 1, 2, 5])):
                    k = rng.choice([rng.randrange(lo, len(o)), min(lo + rng.randrange(30), len(o) - 1), len(o) - 1 - rng.randrange(min(30, len(o) - lo))]); how = rng.randrange(4)
                    if how == 0: o[k] ^= 1 << rng.randrange(8)
                    elif how == 1: o[k] = rng.choice([0, 255, 128, 127])
                    elif how == 2: del o[k:k + rng.randint(1, 4)]
                    else: o[k:k] = rng.randbytes(rng.randint(1, 4))
                    if len(o) <= lo + 1: break
                put("noise", bytes(o), b"", noise=True)
        elif c["what"] == "otherfile":
            # good outside, body compressed as something else or no body at all, and whole other files
            for cc in D.COMPS: put("othercomp", whole[:zoff] + C.compress(body, cc, None if cc == "none" else C_default(cc)), body, comp=cc)
            put("nobody", whole[:zoff], b"", sound=False)
            for b in (b"", b"D", b"DLT", b"DLT\x33", rng.randbytes(100), b"drpm" * 50, b"DLT4" + body[4:], b"DLT0" + body[4:], b"dlt3" + body[4:]): put("otherbody", enc(b), b)
            for raw in (b"", b"d", b"drp", b"drpm", b"drpmDLT3", b"drpmDLT3\0\0\0\0", b"drpmDLT3\0\0\0\0\0\0\0\0", b"drpmDLT3\xff\xff\xff\xff", rng.randbytes(300), b"\xed\xab\xee\xdb", b"\xed\xab\xee\xdb" + bytes(92), b"text\n" * 40): put("otherfile", raw, b"", sound=False)
            if x.tgt_pkg is not None: put("package", Pkg(name="p", version="1", files=[F("/p", content=b"abc")]).bytes(), b"", sound=False)
        n = deltaev.NOPS
        for lo in range(0, len(todo), 15):
            batch = todo[lo:lo + 15]; ops = list(pre)
            for k, (lab, raw, b, kw) in enumerate(batch):
                with open(P("d%d" % k), "wb") as f: f.write(raw)
                ops += deltaev.ops(1, P("d%d" % k)) + [["check", P("d%d" % k), 1], ["apply", po, P("d%d" % k), P("out")]]
            r = d.session(ops, 60)
            for k, (lab, raw, b, kw) in enumerate(batch):
                o = r.ops[len(pre) + k * (n + 2):len(pre) + (k + 1) * (n + 2)]
                if len(o) < n + 2 or any(q["rc"] < 0 for q in o):
                    problems.append(("crash-" + lab, "%s %s %s %s: %s in %s\n%s" % (c["base"], ty, ver, comp, r.crash, o[-1]["op"] if o else "?", r.stderr[-1500:]), {"case": c, "label": lab, "file": raw.hex() if len(raw) < 20000 else ""})); break
                kw = dict(kw); y = x
                if "comp" in kw: y = x.clone(comp=kw.pop("comp"))
                e = deltaev.event(y, P("d%d" % k), b, o[:n], pkgcomp=pc, applyrc=errname(o[n]["rc"]), checkrc=errname(o[n + 1]["rc"]), **kw)
                e["label"] = lab; ev.append(e)
        return problems, ev
    return run
def C_default(c): return {"gzip": 6, "bzip2": 9, "xz": 1, "lzma": 1, "zstd": 3, "lzip": (65536, 16)}[c]
def openers(d, dr, rng, ev):
    P = lambda n: os.path.join(dr, n)
    os.mkdir(P("dir")); os.symlink(P("loop"), P("loop")); os.symlink(P("none"), P("dangling")); open(P("file"), "w").close(); open(P("secret"), "w").close(); os.chmod(P("secret"), 0)
    os.chmod(dr, 0o777)
    for path, want in ((P("none"), "IO"), (P("none/none"), "IO"), (P("loop"), "IO"), (P("dangling"), "IO"), (P("file/x"), "IO"), ("", "IO"), (P("x" * 300), "IO"), (P("dir"), "IO"), (P("secret"), "IO")):
        r = d.session([["uid", 65534], ["read", 0, path], ["check", path, 1], ["apply", P("file"), path, P("out")]], 30)
        if r.crash: return [("crash-open", "%s %s" % (path, r.crash))], ev
        ev.append({"e": "open", "path": path, "want": want, "rc": r.rc(1), "hnull": bool(r[1]["hnull"]), "checkrc": r.rc(2), "applyrc": r.rc(3)})
    return [], ev

def run(ck):
    rng = random.Random(ck.seed)
    ck.tlc("DeltaFile", "SPECIFICATION Spec\nCONSTANTS\n DigestLen = 2\n LeadMin = 3\nINVARIANTS ReadsBack CutRefused ExtraIgnored\n", workers=6)
    muts = ck.tlc("DeltaMutation", "INIT Init\nNEXT Next\nCONSTRAINT Emit\n").printed()
    ck.notes["mutations"] = len(muts)
    types = [("standard", 1), ("standard", 2), ("standard", 3), ("rpmonly", 3)]
    cases = [{"k": "open", "open": 1, "type": "standard", "version": 3, "comp": "none"}]
    for ty, ver in types:
        mine = [m for m in muts if m["ty"] == {"type": ty, "version": ver}]
        for base in ("real", "synthetic"):
            for rep in range(ck.q(1, 12)):
                rng.shuffle(mine)
                for lo in range(0, len(mine), 45):
                    comp = "none" if rep == 0 and rng.random() < .6 else rng.choice(D.COMPS)
                    cases.append({"k": "mut-%s%d-%s-%d-%d" % (ty, ver, base, rep, lo), "what": "mutation", "m": mine[lo:lo + 45], "base": base, "type": ty, "version": ver, "comp": comp, "db": rng.random() < .3})
            for comp in D.COMPS:
                for i in range(ck.q(1, 6)):
                    cases.append({"k": "noise-%s%d-%s-%s-%d" % (ty, ver, base, comp, i), "what": "noise", "base": base, "type": ty, "version": ver, "comp": comp})
                if base == "real" or ck.thorough: cases.append({"k": "other-%s%d-%s-%s" % (ty, ver, base, comp), "what": "otherfile", "base": base, "type": ty, "version": ver, "comp": comp})
                st = ck.q(24, 6)
                for f in range(0, st, max(1, st // ck.q(2, 6))):
                    cases.append({"k": "fcut-%s%d-%s-%s-%d" % (ty, ver, base, comp, f), "what": "filecut", "from": f + rng.randrange(max(1, st // 2)) if not ck.thorough else f, "step": st, "base": base, "type": ty, "version": ver, "comp": comp})
            st = ck.q(8, 8)
            for f in range(st): cases.append({"k": "bcut-%s%d-%s-%d" % (ty, ver, base, f), "what": "bodycut", "from": f, "step": st, "base": base, "type": ty, "version": ver, "comp": "none"})
    pool = ck.pool("asan")
    ck.run_traced(pool, cases, case(ck), "DeltaTrace", CONSTS, chunk=400, key=lambda c: c["k"], budget=ck.q(350, 2500), sig=lambda e: "%s-%s-%s" % (e.get("label", e.get("path")), e.get("type"), e.get("rc")))
    for c in cases[-3:] + cases[1:3]: ck.sample({"k": c["k"], "what": c.get("what")})
    return ck.finish("model_checking", "well-formed deltas (made by the library, and random ones) with one item changed in every way of DeltaMutation.tla, bodies cut at every byte, files cut at regular positions in every compression, compressed bytes damaged, other files; verdict of DeltaFile.tla's reader on the actual bytes")
