"""Operations to observe and disturb: how to set each up, which files it may write, what it should answer (Io.tla)."""
import re, hashlib, os, random
from . import gen, installed, seqid
from . import deltafile as D
from .driver import errname
from .rpmfile import F, Pkg
from .rpml import L

MAKES = ["make", "make-rpmonly", "make-self", "make-rpmonly-self", "make-v1", "make-v2", "make-seq", "make-seq-rpmonly", "make-noadd", "make-gzip", "make-bzip2", "make-lzma", "make-xz", "make-lzip", "make-zstd", "make-none", "make-big",
         "make-noold", "make-nonew", "make-junk", "make-nodir", "make-xzpkg", "make-zstdpkg", "make-links", "make-patches", "make-patches-rpm", "make-patches-wrong", "make-patches-junk", "make-patches-none"]
APPLIES = ["apply", "apply-rpmonly", "apply-self", "apply-rpmonly-self", "apply-v1", "apply-paged", "apply-pages", "apply-pages-installed", "apply-big", "apply-noadd", "apply-xz", "apply-zstd", "apply-lzma", "apply-bzip2", "apply-lzip", "apply-installed", "apply-installed-elf", "apply-installed-paged",
           "apply-wrong", "apply-wrong-rpmonly", "apply-junk", "apply-nodelta", "apply-noold", "apply-nodir", "apply-edited", "apply-links", "apply-installed-prelinked", "apply-installed-misprelinked"]
CHECKS = ["check-full", "check-sizes", "check-edited", "check-gone", "check-elf", "check-notinstalled", "checkseq", "checkseq-sizes", "checkseq-package", "checkseq-rpmonly", "checkseq-bad", "check-prelinked", "check-sizes-prelinked", "check-misprelinked"]
READS = ["read", "read-rpmonly", "read-v1", "read-lzip", "read-zstd", "read-junk", "read-cut", "read-nothing"]
OPTIONS = ["opt-init", "opt-seq", "opt-copy", "opt-copy-self", "opt-patches", "opt-defaults", "opt-destroy", "opt-patches-fresh", "opt-patches-more", "opt-copy-full", "opt-seq-more"]
GETS = ["get-name", "get-seq", "get-adj", "get-copies", "get-destroy"]
ALL = MAKES + APPLIES + CHECKS + READS
GETTERS = [["gs", t] for t in (0, 4, 5, 6, 8, 10, 13)] + [["gu", t] for t in (1, 2, 3, 9, 11, 14, 18)] + [["gul", 7], ["ga", 12], ["ga", 15], ["ga", 16]]

def build(rng, name, dr, d):
    """makes the files (through d where deltas are needed); -> dict"""
    P = lambda *n: os.path.join(dr, *n)
    os.makedirs(P("in")); os.makedirs(P("out")); os.makedirs(P("s")); os.makedirs(P("aside"))
    site = installed.Site(P("s"))
    root = site.root
    big = "big" in name
    z = lambda n: gen.data(rng, n, "mixed")
    a, b = z(30000 if big else 3000), z(20000 if big else 1500)
    elf = installed.elf(rng, rng.choice(["plain", "badtype", "badoff", "badlen"]))
    fs = [F(root + "/a", content=a), F(root + "/d/b", content=b), F(root + "/elf", content=elf) if "elf" in name else F(root + "/c", content=b"tiny"),
          F(root + "/l", "sym", linkto="a"), F(root + "/e", content=b"")]
    if "links" in name:
        fs += [F(root + "/h1", content=z(900), nlink=2, ino=77, payload_content=b""), F(root + "/h2", content=fs[0].content[:900], nlink=2, ino=77)]
        fs[-2].content = fs[-1].content
    nf = [gen.clone(f, content=gen.edit(rng, f.content, rng.choice(["edit", "insert"]))) if f.kind == "reg" and len(f.content) > 100 and f.nlink < 2 else f for f in fs]
    if "pages" in name:     # the new package takes everything twice and in another order
        parts = [rng.randbytes(300) for _ in range(24)]; o = list(range(24)) * 2; rng.shuffle(o)
        fs = [F(root + "/p%02d" % i, content=parts[i]) for i in range(24)]
        nf = [F(root + "/p%02d" % i, content=parts[o[2 * i]] + b"." + parts[o[2 * i + 1]]) for i in range(24)]
    comp = "xz" if name in ("make-xzpkg", "apply-xz") else "zstd" if name in ("make-zstdpkg", "apply-zstd") else "lzma" if name == "apply-lzma" else "bzip2" if name == "apply-bzip2" else "gzip"
    kw = dict(comp=comp, level=1 if comp in ("xz", "lzma") else 3 if comp == "zstd" else 9)
    nv = gen.nevr(rng); kw.update(name=nv["name"])
    old = Pkg(version=nv["version"], release=nv["release"], files=fs, **kw); new = Pkg(version="2", release="9", files=nf, **kw)
    a = fs[0].content
    other = Pkg(version=nv["version"], release=nv["release"], files=[gen.clone(f, content=b"other" + f.content) if f.kind == "reg" else f for f in fs], **kw)
    for n, p in (("old", old), ("new", new), ("other", other)): p.write(P("in", n)); site.package(n, P("in", n), p)
    with open(P("in", "junk"), "wb") as f: f.write(rng.randbytes(3000))
    site.install(old)
    ty = "rpmonly" if "rpmonly" in name else "standard"
    ver = 1 if "v1" in name else 2 if "v2" in name else 3
    bodycomp = next((c for c in gen.COMPS if name in ("make-" + c, "read-" + c, "apply-lzip" if c == "lzip" else "")), None)
    seq = P("out", "seq") if "make-seq" in name else None
    c = dict(name=name, pre=[], post=[], outs={}, inputs=[P("in", n) for n in ("old", "new", "other", "junk")], wanted="OK", site=site, dir=dr, paths=(P("in"), P("out"), root), rewrites=[])
    oo = lambda slot, seqf=seq: gen.opt_ops(slot, ty, ver, bodycomp, {"xz": 1, "lzma": 1}.get(bodycomp, 0), None if "noadd" in name else ("bzip2", 0), seqf)
    delta, out = P("in", "delta"), P("out", "new")
    homed = ["old"]
    if name in OPTIONS:
        mk = lambda k: [["make", P("in", "old"), P("in", "new"), P("out", "delta"), k]]
        c["outs"]["delta"] = P("out", "delta"); c["outs"]["seq"] = P("out", "seq"); c["later"] = True
        init = [["oinit", 0], ["oinit", 1], ["oseq", 1, P("out", "seq")], ["oaddblk", 1, 1, 3]]
        c["pre"] = init
        # every run from the same state; a copy is made of what the call left behind, and put to use
        fresh = [["oinit", 2], ["ocopy", 2, 0]] + mk(2) + [["odestroy", 2], ["odestroy", 0], ["oinit", 0]]
        ask = ["opatches", 0, P("in", "print"), P("in", "patch")]
        if name in ("opt-patches-fresh", "opt-patches-more", "opt-copy-full", "opt-seq-more"):
            had = {"opt-patches-more": [["opatches", 0, "p", "q" * 30]], "opt-copy-full": [["oseq", 0, P("out", "seq") + "2"], ["opatches", 0, "p", "q"], ["oseq", 1, P("out", "seq")], ["opatches", 1] + ask[2:]], "opt-seq-more": [["oseq", 0, P("out", "seq")[:-1]]]}.get(name, [])
            c["pre"] = init + had
            for o in had:
                if o[0] == "oseq" and o[1] == 0: c["outs"]["seq2"] = o[2]
            c["op"] = ["ocopy", 0, 1] if name == "opt-copy-full" else ["oseq", 0, P("out", "seq")] if name == "opt-seq-more" else ask
            c["post"] = fresh + had
        else: c["op"], c["post"] = {"opt-init": (["oinit", 2], mk(2) + [["odestroy", 2]]), "opt-seq": (["oseq", 0, P("out", "seq")], mk(0)), "opt-copy": (["ocopy", 0, 1], mk(0)), "opt-copy-self": (["ocopy", 1, 1], mk(1)),
                              "opt-patches": (["opatches", 0, P("in", "p1"), P("in", "p2")], []), "opt-defaults": (["odefaults", 1], mk(1) + init[2:]), "opt-destroy": (["odestroy", 1], [["oinit", 1]] + init[2:])}[name]
    elif name in MAKES:
        c["outs"]["delta"] = P("out", "delta")
        if seq: c["outs"]["seq"] = seq
        o, n = P("in", "old"), P("in", "new")
        if "self" in name: o = None
        elif "noold" in name: o = P("in", "none"); c["wanted"] = "IO"
        elif "nonew" in name: n = P("in", "none"); c["wanted"] = "IO"
        elif "junk" in name: n = P("in", "junk"); c["wanted"] = "FORMAT"
        dp = P("out", "delta")
        if "nodir" in name: dp = P("out", "no", "delta"); c["outs"]["delta"] = dp; c["wanted"] = "IO"
        c["pre"] = oo(0)
        c["op"] = ["make", o, n, dp, 0]
        if "patches" in name:
            un = lambda f: f.path in (root + "/a", root + "/c")
            evr = nv["version"] + "-" + nv["release"]
            pr = L(nv["name"], evr, [("./" + f.path[1:], f.mode, f.content + (b"x" if un(f) and f.path != root + "/c" else b"")) for f in fs if f.kind == "reg"] + [("dev/x", 0o20600, b"")], ["first"], [root[1:] + "/none"])
            pa = L(nv["name"], evr + ("2" if "wrong" in name else ""), [(root[1:] + "/d/b", 0o100644, b"patched")], ["p1", "p2"], [f.path[1:] for f in fs if un(f)])
            with open(P("in", "print"), "wb") as f: f.write(pr.bytes())
            if "rpm" in name: Pkg(version=nv["version"], release=nv["release"], files=[gen.clone(f, flags=1 << 10 if un(f) else 0, in_payload=False) for f in fs if un(f) or f.path.endswith("/b")], **kw).write(P("in", "patch"))
            else:
                with open(P("in", "patch"), "wb") as f: f.write(rng.randbytes(500) if "junk" in name else pa.bytes())
            c["inputs"] += [P("in", "print"), P("in", "patch")]
            c["wanted"] = "ARGS" if "wrong" in name else "FORMAT" if "junk" in name else "IO" if "none" in name else "OK"
            c["pre"] += [["opatches", 0, P("in", "print"), P("in", "nopatch" if "none" in name else "patch")]]
    else:
        r = d.session(oo(0, None) + [["make", None if "self" in name else P("in", "old"), P("in", "new"), delta, 0]])
        if r.crash or r.rc() != "OK": raise RuntimeError("no delta for %s: %s %s" % (name, r.crash, r.ops and r.rc()))
        x = D.parse(open(delta, "rb").read())
        if "junk" in name or "cut" in name:
            raw = open(delta, "rb").read()
            with open(delta, "wb") as f: f.write(rng.randbytes(500) if "junk" in name else raw[:len(raw) * 2 // 3])
        c["inputs"].append(delta)
        if name in GETS:
            c["pre"] = [["read", 0, delta]]
            c["op"] = {"get-name": ["gs", 0, 0, -1, 0], "get-seq": ["gs", 0, 4, -1, 0], "get-adj": ["ga", 0, 12, -1, 0], "get-copies": ["ga", 0, 16, -1, 0], "get-destroy": ["destroy", 0]}[name]
            if name == "get-destroy": c["post"] = [["read", 0, delta]]
        elif name in APPLIES:
            c["outs"]["new"] = out
            o = P("in", "old")
            if "installed" in name or "edited" in name: o = None
            elif "wrong" in name: o = P("in", "other"); c["wanted"] = "MISMATCH"
            elif "noold" in name: o = P("in", "none"); c["wanted"] = "IO"
            dl = delta
            if "nodelta" in name: dl = P("in", "none"); c["wanted"] = "IO"
            if "junk" in name: c["wanted"] = "FORMAT"
            if "nodir" in name: out = P("out", "no", "new"); c["outs"]["new"] = out; c["wanted"] = "IO"
            if "self" in name: o = P("in", "new")
            if "edited" in name: os.unlink(root + "/a"); c["wanted"] = "IO"
            if "page" in name: c["pre"] = [["limits", 256, 2, 1]]
            c["op"] = ["apply", o, dl, out]
        elif name in CHECKS:
            if name.startswith("checkseq"):
                s = "%s-%s" % (x.src_nevr, x.sequence.hex())
                if "bad" in name: s = s[:-1]; c["wanted"] = "FORMAT"
                # an rpm-only sequence names a package file, never an installed package
                c["op"] = ["checkseq", P("in", "old") if "package" in name or "rpmonly" in name else None, s, 2 if "sizes" in name else 1]
                if "package" in name or "rpmonly" in name or "bad" in name: c["op"][1], c["op"][3] = P("in", "old"), 0
            else: c["op"] = ["check", delta, 2 if "sizes" in name else 1]
            if "edited" in name: b2 = bytearray(a); b2[100] ^= 1; open(root + "/a", "wb").write(bytes(b2)); c["wanted"] = "MISMATCH"
            if "gone" in name: os.unlink(root + "/a"); c["wanted"] = "IO"
            if "notinstalled" in name: homed = []; c["wanted"] = "NOINSTALL"
        else:
            if "junk" in name or "cut" in name: c["wanted"] = "FORMAT"
            if "nothing" in name: delta = P("in", "none"); c["wanted"] = "IO"
            c["op"] = ["read", 0, delta]
            c["post"] = [[g, 0, t, -1, 0] for g, t in GETTERS] + [["destroy", 0]]
    if "prelinked" in name:     # some of the installed files are as prelink leaves them
        for f in fs:
            if f.kind == "reg" and f.content and f.path != root + "/c" and (f.path == root + "/a" or rng.random() < .5):
                with open(f.path, "wb") as g: g.write(installed.prelinked(rng, f.content))
        if "misprelinked" in name:
            with open(root + "/a", "wb") as g: g.write(installed.prelinked(rng, fs[0].content[1:] + b"x"))
            c["wanted"] = "MISMATCH"
    c["pre"] = [["setenv", "HOME", site.home(homed)], ["setenv", "DV_PRELINK", "1" if "prelinked" in name else ""]] + c["pre"]
    c["home"] = site.home(homed)
    c["warm"] = 2
    return c

STATES = ["edited", "grown", "grownbig", "shrunk", "emptied", "gone", "moved", "dangling", "dir", "touched", "elf", "elfgrown", "loop", "fifo", "prelinked", "misprelinked", "noprelink"]
def states(rng, x):
    """ops that bring an installed file of the case into another state and back, with labels"""
    out = []; root = x["site"].root; aside = os.path.join(x["dir"], "aside"); targets = [p for p in (root + "/a", root + "/d/b", root + "/p03", root + "/elf") if os.path.exists(p)]
    for n, st in enumerate(STATES):
        p = rng.choice(targets); q = os.path.join(aside, "s%d" % n); keep = os.path.join(aside, "kept")
        b = open(p, "rb").read(); e = installed.elf(rng, rng.choice(["plain", "badtype", "badoff", "badlen", "short", "badidx", "badsize", "hugeoff"]), max(700, len(b) + rng.choice([0, 50, 9000])))
        b = {"edited": b[:-1] + bytes([b[-1] ^ 1]), "grown": b + b"more", "grownbig": b + rng.randbytes(20000), "shrunk": b[:len(b) // 2], "emptied": b"", "elf": e[:max(len(b), 1)], "elfgrown": e + b"x" * max(0, len(b) + 1 - len(e)),
             "prelinked": installed.prelinked(rng, b), "misprelinked": installed.prelinked(rng, b, True) if b else b, "noprelink": installed.prelinked(rng, b)}.get(st, b)
        aw = [["rename", p, keep]]
        if st in ("gone",): pass
        elif st in ("moved", "dangling", "loop", "dir", "fifo"):
            if st == "moved": os.symlink(keep, q)
            elif st == "dangling": os.symlink("/nonexistent/x", q)
            elif st == "loop": os.symlink(p, q)
            elif st == "dir": os.mkdir(q)
            else: continue
            aw.append(["rename", q, p])
        else:
            with open(q, "wb") as f: f.write(b)
            aw.append(["rename", q, p])
        back = ([] if st == "gone" else [["rename", p, q]]) + [["rename", keep, p]]
        if "prelink" in st: aw.append(["setenv", "DV_PRELINK", "" if st == "noprelink" else "1"]); back.append(["setenv", "DV_PRELINK", "1" if "prelinked" in x["name"] else ""])
        out.append(("%s %s" % (st, os.path.basename(p)), aw, back))
    return out

def damaged(rng, x, n):
    """(label, op, before, after) on damaged inputs; the damaged files are written beside"""
    from . import damage
    out = []; P = lambda k: os.path.join(x["dir"], "in", k); op = x["op"]
    def put(b):
        p = os.path.join(x["dir"], "aside", "v%d" % len(out))
        with open(p, "wb") as f: f.write(b)
        return p
    raws = {k: open(P(k), "rb").read() for k in ("old", "new", "other", "delta") if os.path.exists(P(k))}
    try: dl = D.parse(raws["delta"]) if "delta" in raws else None
    except D.BadDelta: dl = None
    lv = {"xz": 1, "lzma": 1, "zstd": 3}
    hows = ["flip", "zero", "ones", "cut", "drop", "insert", "dup", "random", "plus", "minus", "empty", "other"]
    for _ in range(20 * n):
        if len(out) >= n: break
        if os.path.exists(P("print")) and rng.random() < .7:
            k = rng.choice(["print", "patch"]); raw = bytearray(open(P(k), "rb").read()) if os.path.exists(P(k)) else bytearray(b"none"); i = rng.randrange(len(raw)); how = rng.choice(["flip", "ones", "cut", "dup", "empty"])
            if how == "flip": raw[i] ^= 1 << rng.randrange(8)
            else: raw[i:] = {"ones": b"\xff" * rng.choice([1, 2, 4]) + raw[i + 4:], "cut": b"", "dup": bytes(raw[i:]) * 2, "empty": b""}[how]
            if how == "empty": raw = b""
            q = put(bytes(raw)); u = x["pre"][-1][2:]
            out.append(("%s of %s" % (how, k), op, [["opatches", 0] + ([q, u[1]] if k == "print" else [u[0], q])], [["opatches", 0] + u])); continue
        for i, a in enumerate(op):
            if not isinstance(a, str) or rng.random() < .5: continue
            b = None; how = rng.choice(hows)
            if a == P("delta") and dl is not None:
                fields = ["f-" + f for f, _ in dl.tokens()]
                reg = rng.choice(fields * 3 + (["whole", "body"] + (["magic", "nevr", "add"] if dl.type == "rpmonly" else ["lead", "signature", "header"])) * 2)
                try: b = damage.in_delta(rng, dl, raws["delta"], reg, how, None, raws["old"])
                except (KeyError, ValueError, AssertionError): continue
            elif a in (P("old"), P("new"), P("other")):
                reg = rng.choice(["whole", "lead", "signature", "header", "header", "payload", "archive", "entryhead", "entryhead", "entryname", "entrydata"]); k = os.path.basename(a)
                try: b = damage.in_package(rng, raws[k], reg, how, raws["other" if k != "other" else "old"], "gzip", 9)
                except (KeyError, ValueError, AssertionError, IndexError): continue
            elif op[0] == "checkseq" and i == 2:
                s = op[2]; k = rng.randrange(len(s)); reg = "sequence"
                b = {"cut": s[:k], "drop": s[:k] + s[k + 2:], "insert": s[:k] + rng.choice("0f-x") + s[k:], "dup": s + s[-2:], "empty": "", "other": "x-1-1-" + s[-32:]}.get(how, s[:k] + rng.choice("0123456789abcdefx-") + s[k + 1:])
                if b == s: continue
                out.append(("%s %s" % (reg, how), op[:i] + [b] + op[i + 1:], [], [])); continue
            if b is None: continue
            out.append(("%s of %s %s" % (reg, os.path.basename(a), how), op[:i] + [put(b)] + op[i + 1:], [], []))
    return out

def unprivileged(c):
    """from now on as a user who may read the inputs and write the outputs and nothing else"""
    for p in (c["dir"], os.path.join(c["dir"], "s"), c["site"].root, c["home"], os.path.join(c["home"], "db")): os.chmod(p, 0o755)
    for top in (os.path.join(c["dir"], "in"), c["site"].root):
        for d, ds, fs in os.walk(top):
            os.chmod(d, 0o555)
            for f in fs:
                if not os.path.islink(os.path.join(d, f)): os.chmod(os.path.join(d, f), 0o444)
    for d, ds, fs in os.walk(c["home"]):
        for f in fs: os.chmod(os.path.join(d, f), 0o644)
    os.chmod(os.path.join(c["dir"], "out"), 0o777)
    c["pre"] = [["uid", 65534]] + c["pre"]

class Session:
    """collects runs of the case's operation, each with a disturbance, and turns the result into Io events"""
    def __init__(self, c):
        self.c, self.ops, self.runs, self.wanted = c, [], [], {}
        self.ops += c["pre"] + [["watch", p] for p in c["paths"] + ("/tmp/drpm",)] + [["trace", 1]]
        c0 = c["dir"]
        with open(os.path.join(c0, "aside", "before"), "wb") as f: f.write(b"what was there before\n" * 5000)
        for _ in range(c["warm"]): self.ops += [c["op"]] + c["post"]
    def run(self, what, before=(), after=(), clean="unlink", fault=None, op=None):
        c = self.c
        for p in c["outs"].values():
            if os.path.dirname(p).endswith("/no"): continue
            self.ops.append(["unlink", p] if clean == "unlink" else ["copy", os.path.join(c["dir"], "aside", "before"), p])
        self.ops += list(before); at = len(self.ops)
        self.ops += [op or c["op"]] + list(after); post = len(self.ops); self.ops += c["post"]
        s = len(self.ops)
        self.ops += [["sum", p] for p in c["outs"].values()] + [["sum", p] for p in c["inputs"]]
        self.runs.append((what, at, post, s, fault, clean))
    def limited(self, n): self.run("disturbed", [["fsize", n]], [["fsize", -1]], "unlink", "fsize %d" % n)
    def disturbed(self, nth, mode, cls="any", count=1, clean="unlink"):
        self.run("disturbed", [["fault", nth, mode, cls, count]], [["fault", -1, "err", "any", 0]], clean, "%s %s %d x%d" % (cls, mode, nth, count))
    def variant(self, label, op=None, before=(), after=(), wanted="any"):
        """the operation on other inputs: what it leaves behind is the same"""
        self.wanted[len(self.runs)] = wanted
        # once before, for what libraries keep from the first time something happens
        self.run("variant", list(before) + [op or self.c["op"]] + self.c["post"], after, fault="variant " + label, op=op)
    def memory(self, nth, count=1):
        self.run("disturbed", [["memfail", nth, count]], [["memfail", -1, 0]], "unlink", "memory %d x%d" % (nth, count))
    def state(self):
        c = self.c
        db = hashlib.sha1()
        for f in ("rpmdb.sqlite",):
            p = os.path.join(c["home"], "db", f)
            if os.path.exists(p): db.update(open(p, "rb").read())
        return installed.snapshot(c["site"].root) + db.hexdigest() + str(sorted(os.listdir(os.path.join(c["dir"], "in")) + [x for x in os.listdir(os.path.join(c["dir"], "out")) if os.path.join(c["dir"], "out", x) not in c["outs"].values()] + os.listdir(os.path.join(c["dir"], "aside"))))
    def role(self, p):
        c = self.c
        if p in c["outs"].values(): return "out"
        if p.startswith(c["home"] + "/") or "/rpm/" in p and "lock" in p: return "db"
        if p.startswith(tuple(c["paths"])): return "in"
        if p.startswith("/tmp/drpm."): return "temp"
        if p in ("/dev/null", "/dev/tty"): return "db"
        return "else"
    def io(self, t, keep):
        """one traced call -> event, or None where it says nothing (successful reads and the like)"""
        k = t["c"]; e = {"e": "io"}
        if k == "open":
            w = "c" in t["m"] or "t" in t["m"]
            if t.get("unwatched"):
                if not w and not keep: return None
                return dict(e, c="touch", role=self.role(t["p"]), p=t["p"], r=t["r"])
            return dict(e, c="open", role=self.role(t["p"]), p=t["p"], w=w, r=t["r"])
        if k == "mkstemp": return dict(e, c="temp", p=t["p"], r=t["r"])
        if k in ("read", "seek"): return dict(e, c="read", fd=t["fd"]) if keep or t.get("inj") else None
        if k == "write" or k == "ftruncate": return dict(e, c="write", fd=t["fd"], r=t["r"] if k == "write" else 1)
        if k in ("close", "badclose"): return dict(e, c=k, fd=t["fd"])
        if k == "rename": return dict(e, c="rename", p=t["p"], q=t["q"], qrole=self.role(t["q"]), r=t["r"])
        return dict(e, c="change", role=self.role(t["p"]), p=t["p"], gone=k in ("unlink",) or t.get("how") in ("remove", "rmdir"), r=t["r"])
    def events(self, d, timeout=120, keep=True, ops_of=None):
        """runs the session -> (problems, events, result)"""
        c = self.c
        before = self.state()
        r = d.session(self.ops, timeout)
        problems, ev = [], [{"e": "case", "id": c["name"]}]
        metas, total = None, 0
        for n, (what, at, post, s, fault, clean) in enumerate(self.runs):
            if len(r.ops) < s + len(c["outs"]) + len(c["inputs"]) or any("rc" not in o or "partial" in o for o in r.ops[at:s + 1]): break
            o = r.ops[at]
            ev.append({"e": "call", "op": c["op"][0], "fault": fault or "none"})
            last = None
            for t in o.get("trace", []):
                e = self.io(t, keep)
                if e is None or (e == last and e["c"] in ("read", "write")): continue
                last = e; ev.append(e)
            outs = {}
            for i, k in enumerate(c["outs"]):
                q = r.ops[s + i]; outs[k] = "%s %s" % (q["size"], q["sum"]) if q["rc"] == 0 else "absent"
            if c.get("later") and o["rc"] != 0: outs = {}
            info = str(o.get("v", "")) + "".join("%s %s;" % (q.get("rc"), q.get("v")) for q in r.ops[post:post + len(c["post"])])
            if (c["post"] or "v" in o) and o["rc"] == 0: outs["info"] = info
            m = [(q.get("size"), q.get("sum"), q.get("meta")) for q in r.ops[s + len(c["outs"]):s + len(c["outs"]) + len(c["inputs"])]]
            if metas is None: metas = m
            held = o["live"] + sum(q.get("live", 0) for q in r.ops[post:post + len(c["post"])])
            # options keep memory from call to call: what counts is the sum
            # librpm itself keeps a header it refuses (headerRead): damage there says nothing about drpm's memory
            if fault and re.match(r"variant (whole|lead|signature|header|f-\S*lead\S*) of", fault): held = min(held, 0)
            if c.get("later"): total += held; held = total
            ev.append({"e": "ret", "what": what, "rc": errname(o["rc"]), "outs": outs, "fd": o["fd"], "inputs": m == metas, "held": held, "hits": o["injected"] if fault and not fault.startswith(("memory", "fsize", "variant")) else 1 if fault else 0, "wanted": self.wanted.get(n, c["wanted"]),
                       "fault": fault or "none", "clean": clean, "opaque": c["name"] == "make-rpmonly-self" and " zero " in (fault or "")})
        if r.crash: 
            fl = next((f for (w, a, p, s, f, cl) in reversed(self.runs) if a <= len(r.ops)), None)
            problems.append(("crash-%s-%s" % (c["name"], (fl or "none").split()[0]), "%s in %s disturbed with %s\n%s" % (r.crash, c["op"], fl, r.stderr[-1500:])))
        elif before != self.state(): problems.append(("changed-%s" % c["name"], "inputs, installed files or the database are not as they were after %s" % c["op"]))
        return problems, ev, r
