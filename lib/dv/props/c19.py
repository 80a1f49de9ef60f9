"""C19: any order of calls under any names and surroundings (History.tla, HistoryTrace.tla)."""
import hashlib, os, random
from .. import gen, installed, worlds
from ..driver import errname
from ..rpmfile import F, Pkg
from ..iocases import GETTERS

NJ, NT = 3, 4
CONSTS = "CONSTANTS\n NJ = 3\n NT = 4\n Rich = TRUE\n"
SMALL = {"gzip": (1, 9), "bzip2": (1, 9), "xz": (1, 2), "lzma": (1, 2), "lzip": (1, 2), "zstd": (3, 9), "none": (0, 0)}

class Names:
    """aliases of files: the same file under other names"""
    def __init__(self, rng, dr):
        self.rng, self.dr, self.cwd = rng, dr, "home"
        self.deep = os.path.join(dr, "x" * 200, "y" * 200, "z" * 180)
        for d in ("in", "out", "sub", "alias", "names, with 100%s %n\n"): os.makedirs(os.path.join(dr, d))
        os.makedirs(self.deep)
        self.n = 0; self.pre = []
    def take(self):
        x = self.pre; self.pre = []
        return x
    def dirs(self): return {"home": self.dr, "root": "/", "sub": os.path.join(self.dr, "sub")}[self.cwd]
    def name(self, p, how):
        """may make a link; names with symlink, hard, long, space: beside"""
        b = os.path.basename(p); self.n += 1
        if how == "reused":
            q = os.path.join(self.dr, "alias", "reused.%s" % b[0]); self.pre += [["unlink", q], ["link", p, q]]
            return q
        if how == "plain": return p
        if how == "relative": return os.path.relpath(p, self.dirs())
        if how == "dots": return os.path.join(os.path.dirname(p), "..", os.path.basename(os.path.dirname(p)), ".", b)
        if how == "slashes": return "/" + p.replace("/", "//")
        q = {"space": os.path.join(self.dr, "names, with 100%s %n\n", "%d %s" % (self.n, b)), "long": os.path.join(self.deep, "%d%s" % (self.n, b)), "strange": os.path.join(self.dr, "alias", "-%d.gz:%s;*" % (self.n, b)),
             "utf8": os.path.join(self.dr, "alias", "\u00e4\u4e2d\U0001f600%d" % self.n)}.get(how) or os.path.join(self.dr, "alias", "%d" % self.n)
        if how == "symlink": os.symlink(p, q)
        else: os.link(p, q)
        return q
    def late(self, p, how): 
        """a name for a file that need not exist yet"""
        return self.name(p, how)

def setup(rng, dr, d):
    """packages, jobs, their deltas: made by a process of its own -> case dictionary"""
    nm = Names(rng, dr); P = lambda *a: os.path.join(dr, *a)
    os.makedirs(P("s")); site = installed.Site(P("s"))
    jobs = []
    for j in range(NJ):
        if j and rng.random() < .3: old, new, k = jobs[0]["pkgs"]
        else:
            k = j
            fs = [F(site.root + "/h%d/%s" % (j, n), content=gen.data(rng, rng.choice([0, 40, 900, 3000, 9000]))) for n in ("a", "b", "c", "d")] + [F(site.root + "/h%d/l" % j, "sym", linkto="a")]
            nf = [gen.clone(f, content=gen.edit(rng, f.content, rng.choice(["edit", "insert"]))) if f.kind == "reg" and len(f.content) > 50 and rng.random() < .7 else f for f in fs]
            rng.shuffle(nf)
            c = rng.choice(["gzip", "bzip2", "xz", "zstd", "lzma"])
            old = Pkg(name="h%d" % j, version="1", files=fs, comp="gzip", level=rng.choice([1, 6])); new = Pkg(name="h%d" % j, version=rng.choice(["2", "1"]), files=nf, comp=c, level=SMALL[c][0])
            if new.version == "1": new.release = "9"
            old.write(P("in", "o%d" % k)); new.write(P("in", "n%d" % k)); site.package("p%d" % k, P("in", "o%d" % k), old); site.install(old)
        ty, ver = rng.choice([("standard", 3), ("standard", 3), ("standard", 2), ("standard", 1), ("rpmonly", 3)])
        comp = rng.choice([None] + gen.COMPS); ab = rng.choice([("bzip2", 0), ("gzip", 9), ("xz", 1), ("zstd", 3), None])
        jobs.append({"pkgs": (old, new, k), "old": P("in", "o%d" % k), "new": P("in", "n%d" % k), "self": rng.random() < .12, "type": ty, "ver": ver, "comp": (comp, SMALL[comp][0] if comp else 0), "ab": ab, "seq": rng.random() < .4})
    for j in jobs:
        o, n, k = j["pkgs"]
        if os.path.exists(P("in", "s%d" % k)): continue
        Pkg(name=o.name, version=o.version, release=o.release, files=[gen.clone(f, content=f.content[::-1] + b"other") if f.kind == "reg" else f for f in o.files], comp="gzip", level=1).write(P("in", "s%d" % k))
        c = next(f.content for f in o.files if f.path.endswith("/a"))
        open(P("in", "edited%d" % k), "wb").write(bytes([c[0] ^ 1]) + c[1:] if c else b"x")
    for n, b in (("junk", rng.randbytes(2500)), ("cutpkg", open(P("in", "o0"), "rb").read()[:-40])): open(P("in", n), "wb").write(b)
    home = site.home({"p%d" % j["pkgs"][2] for j in jobs})
    for i, j in enumerate(jobs):
        j["opts"] = lambda s, j=j, seq=None: gen.opt_ops(s, j["type"], j["ver"], j["comp"][0], j["comp"][1], j["ab"], seq)
        # a delta to read and apply, from a process of its own
        r = d.session(j["opts"](0) + [["make", None if j["self"] else j["old"], j["new"] if not j["self"] else j["old"], P("in", "d%d" % i), 0]])
        if r.crash or r.rc() != "OK": return None, ("make-%s" % (r.crash and "crash" or r.rc()), str(r.crash))
        b = open(P("in", "d%d" % i), "rb").read(); open(P("in", "c%d" % i), "wb").write(b[:len(b) * 3 // 4]); j["sequence"] = None
        from .. import deltafile as D
        x = D.parse(b); j["sequence"] = "%s-%s" % (x.src_nevr, x.sequence.hex())
    return dict(jobs=jobs, nm=nm, home=home, site=site, dir=dr), None

def fill(rng, p, how, c):
    """-> digest afterwards"""
    if os.path.lexists(p): os.unlink(p)
    if how == "absent": return "absent"
    if how == "linked":
        q = p + ".other%d" % rng.randrange(10 ** 9); open(q, "wb").write(b"linked" * 4000); os.link(q, p)
    else:
        b = {"empty": b"", "short": b"x" * 30, "long": b"before " * 30000, "delta": open(os.path.join(c["dir"], "in", "d0"), "rb").read() * 2, "rpm": open(os.path.join(c["dir"], "in", "n0"), "rb").read() + b"trailing" * 900}.get(how)
        with open(p, "wb") as f:
            if how == "sparse": f.truncate(900000)
            else: f.write(b)
    return hashlib.sha1(open(p, "rb").read()).hexdigest()[:16]

FILLS = ("absent", "empty", "short", "long", "sparse", "delta", "rpm", "linked")
ENV0 = {"locale": "C", "umask": 18, "cwd": "home", "stdin": "open", "tmp": "none", "heap": 165}
def apply_env(e, nm):
    nm.cwd = e["cwd"]
    return [["setlocale", e["locale"]], ["setenv", "LANG", e["locale"]], ["umask", e["umask"]], ["chdir", nm.dirs()], ["stdin", int(e["stdin"] == "open")], ["heapfill", e["heap"]],
            ["setenv", "TMPDIR", {"none": "/tmp", "set": os.path.join(nm.dr, "sub"), "nowhere": "/nonexistent"}[e["tmp"]]]]

def reference():
    """every call once, first"""
    out = []
    for j in range(1, NJ + 1):
        p = dict(j=j, t=1, old="plain", new="plain", delta="plain", outname="plain")
        out += [dict(p, op="make"), dict(p, op="apply", src="file"), dict(p, op="apply", src="installed"), dict(p, op="check", mode=1), dict(p, op="check", mode=2), dict(p, op="checkseq", src="file"), dict(p, op="checkseq", src="installed"), dict(p, op="read")]
    return out + [{"op": "process"}]

def case(ck):
    def run(d, c):
        rng = random.Random("%d-%s" % (ck.seed, c["k"]))
        dr = ck.dir(); x, bad = setup(rng, dr, d)
        if x is None: return [bad], []
        nm, jobs = x["nm"], x["jobs"]; P = lambda *a: os.path.join(dr, *a)
        sha = lambda p: hashlib.sha1(open(p, "rb").read()).hexdigest()[:16] if os.path.exists(p) else "absent"
        for k, n in (("fill-" + f, f) for f in FILLS if f != "absent"): fill(rng, P("in", k), n, x)
        fills = {f: sha(P("in", "fill-" + f)) if f != "absent" else "absent" for f in FILLS}
        nb = [sha(j["old"] if j["self"] else j["new"]) for j in jobs]
        ev = [{"e": "case", "id": c["k"], "tgt": nb}]; problems = []
        outp = lambda t: P("out", "t%d" % t)
        ids = {}      # "size sum" as the driver says it -> sha
        def remember(p): pass
        keep = 0
        env = dict(ENV0)
        base = [["setenv", "HOME", x["home"]]] + [["watch", p] for p in (P("in"), P("out"), x["site"].root, "/tmp/drpm")]
        nm.cwd = "home"
        ops, plan = base + apply_env(env, nm), []
        def flush():
            nonlocal ops, plan, env
            r = d.session(ops, 200)
            if r.crash:
                i = min(len(r.ops), len(ops) - 1)
                problems.append(("crash-%s" % ops[i][0], "%s at %s\n%s" % (r.crash, ops[i], r.stderr[-1500:])))
            for (o, at, saved, extra) in plan:
                if o["op"] == "env": ev.append({"e": "env", "env": o["env"]}); continue
                if o["op"] == "fill": ev.append({"e": "fill", "t": o["t"], "fill": o["fill"]}); continue
                if at >= len(r.ops): break
                rc = r.rc(at); dg = "none"
                if o["op"] in ("make", "apply") and rc == "OK": dg = sha(saved[0]) + ("" if len(saved) < 2 else "+" + sha(saved[1]))
                if o["op"] == "read": dg = hashlib.sha1(repr([{k: v for k, v in q.items() if k not in ("fd", "live", "liveb", "calls", "mcalls", "injected", "i", "n")} for q in r.ops[at + 1:at + 1 + extra]]).encode()).hexdigest()[:16]
                if o["op"] == "make" and rc == "OK" and jobs[o["j"] - 1]["seq"] and len(saved) > 1:
                    want = jobs[o["j"] - 1]["sequence"] + "\n"
                    if not os.path.exists(saved[1]) or open(saved[1]).read() != want: problems.append(("sequence-file", "not what it should hold"))
                if o["op"] == "make" and rc == "OK": dg = sha(saved[0])
                ev.append({"e": "op", "op": o, "rc": rc, "digest": dg, "standard": jobs[o["j"] - 1]["type"] == "standard"})
            now = [sha(outp(t)) for t in range(1, NT + 1)]
            ev.append({"e": "process", "now": now, "fills": fills})
            env = dict(ENV0); nm.cwd = "home"
            ops, plan = base + apply_env(env, nm), []
        nsaved = 0
        for o in reference() + c["ops"] + [{"op": "process"}]:
            k = o["op"]
            if k == "process": flush(); continue
            if k == "env":
                env = o["env"]; ops += apply_env(env, nm); plan.append((o, -1, None, None)); continue
            if k == "fill":
                ops.append(["unlink", outp(o["t"])])
                if o["fill"] == "linked":     # a second name for what is written over
                    q = P("in", "lk%d" % len(ops)); ops += [["copy", P("in", "fill-linked"), q], ["link", q, outp(o["t"])]]
                elif o["fill"] != "absent": ops.append(["copy", P("in", "fill-" + o["fill"]), outp(o["t"])])
                plan.append((o, -1, None, None)); continue
            j = jobs[o["j"] - 1]; jo, jn = (None, j["old"]) if j["self"] else (j["old"], j["new"]); dl = P("in", "d%d" % (o["j"] - 1))
            def alias(p, h): return nm.name(p, h) if p else None
            if k == "make":
                q = outp(o["t"])
                on = nm.name(q, o["outname"])
                sq = P("out", "q%d" % o["t"]) if j["seq"] else None
                if sq and rng.random() < .5: ops.append(["copy", P("in", "fill-" + rng.choice(["long", "short", "rpm"])), sq])
                ops += j["opts"](0, seq=nm.name(sq, rng.choice(["plain", "relative", "dots"])) if sq else None)
                a = ["make", alias(jo, o["old"]), alias(jn, o["new"]), on, 0]; ops += nm.take() + [a]; at = len(ops) - 1
                s = [P("out", "kept%d" % nsaved)]; ops.append(["copy", q, s[0]]); nsaved += 1
                if sq: s.append(P("out", "kept%d" % nsaved)); nsaved += 1; ops.append(["copy", sq, s[1]])
                ops.append(["odestroy", 0]); plan.append((o, at, s, None))
            elif k == "apply":
                q = outp(o["t"])
                on = nm.name(q, o["outname"])
                a = ["apply", alias(jo or jn, o["old"]) if o["src"] == "file" else None, alias(dl, o["delta"]), on]; ops += nm.take() + [a]; at = len(ops) - 1
                s = [P("out", "kept%d" % nsaved)]; ops.append(["copy", q, s[0]]); nsaved += 1
                plan.append((o, at, s, None))
            elif k == "check": a = ["check", alias(dl, o["delta"]), o["mode"]]; ops += nm.take() + [a]; plan.append((o, len(ops) - 1, None, None))
            elif k == "checkseq":
                f = o["src"] == "file"
                a = ["checkseq", alias(jo or jn, o["old"]) if f else None, j["sequence"], 0 if f else 1]; ops += nm.take() + [a]; plan.append((o, len(ops) - 1, None, None))
            elif k == "read":
                a = ["read", 1, alias(dl, o["delta"])]; ops += nm.take() + [a]; at = len(ops) - 1
                g = [[g, 1, t, -1, 0] for g, t in GETTERS if t]
                ops += g + [["destroy", 1]]; plan.append((o, at, None, len(g)))
            elif k == "mishap":
                q = outp(o["t"]); w, b = o["what"], o["base"]
                junk, cut = P("in", "junk"), P("in", "cutpkg"); none = P("in", "none")
                a = {"make": ["make", jo, jn, q, 0], "apply": ["apply", jo or jn, dl, q], "check": ["check", dl, 1], "read": ["read", 1, dl]}[b]
                if w == "wrongold":
                    if b == "make": a[1] = jobs[o["j"] % NJ]["old"]
                    elif b == "apply": a[1] = jobs[(o["j"]) % NJ]["new"]
                    else: a[1 if b == "check" else 2] = jn
                elif w == "junkdelta":
                    if b == "make": a[2] = junk
                    else: a[{"apply": 2, "check": 1, "read": 2}[b]] = junk
                elif w == "junkpkg": a[{"make": 1, "apply": 1, "check": 1, "read": 2}[b]] = junk
                elif w == "noold": a[{"make": 1, "apply": 1, "check": 1, "read": 2}[b]] = none
                elif w == "nodelta": a[{"make": 2, "apply": 2, "check": 1, "read": 2}[b]] = none
                elif w == "cutdelta": a[{"make": 2, "apply": 2, "check": 1, "read": 2}[b]] = cut if b == "make" else P("in", "c%d" % (o["j"] - 1))
                elif w == "nodir":
                    if b in ("make", "apply"): a[3] = P("no", "dir", "x")
                    else: a[1 if b == "check" else 2] = P("no", "dir", "x")
                elif w == "badopts": a = {"make": ["make", None, None, q, 0], "apply": ["apply", jo, None, q], "check": ["check", dl, 9], "read": ["read", -1, dl]}[b]
                pre, post = [], []
                if w == "samenevr":
                    if b == "make": a[1] = P("in", "s%d" % j["pkgs"][2])
                    elif b == "apply": a[1] = P("in", "s%d" % j["pkgs"][2])
                    else: a[{"check": 1, "read": 2}[b]] = P("in", "s%d" % j["pkgs"][2])
                    # under the name of the source
                    if b == "apply": q2 = P("alias", "reused.%s" % os.path.basename(jo or jn)[0]); pre += [["unlink", q2], ["link", a[1], q2]]; a[1] = q2
                if w in ("edited", "gone"):
                    f = x["site"].root + "/h%d/a" % j["pkgs"][2]; g = P("in", "edited%d" % j["pkgs"][2])
                    if b == "apply": a[1] = None
                    pre += [["rename", f, P("sub", "kept")]] + ([["copy", g, f]] if w == "edited" else []); post += [["unlink", f], ["rename", P("sub", "kept"), f]]
                nth = o["k"] if o["k"] % 2 else 1 + o["k"] % 15
                if w in ("iofault", "iofaults"): pre, post = [["fault", nth, rng.choice(["err", "short", "zero"]), "any", 1 if w == "iofault" else 10 ** 6]], [["fault", -1, "err", "any", 0]]
                if w in ("memfault", "memfaults"): pre, post = [["memfail", nth, 1 if w == "memfault" else 10 ** 6]], [["memfail", -1, 0]]
                if b == "make": ops += j["opts"](0)
                ops += pre + [a]; at = len(ops) - 1; ops += post
                if b == "make": ops.append(["odestroy", 0])
                if b == "read": ops.append(["destroy", 1])
                plan.append((o, at, None, None))
        return problems, ev
    return run

def run(ck):
    ck.tlc("History", "SPECIFICATION Spec\nCONSTANTS\n NJ = %d\n NT = 2\n Rich = FALSE\nCONSTRAINT Bound\nVIEW View\nPROPERTIES OnlyOwn Pure Stable ProcessKeeps\n" % ck.q(1, 2), workers=6, timeout=850)
    ws = [[x["op"] for x in w] for w in ck.walks("History", "SPECIFICATION Walks\n" + CONSTS + "CONSTRAINT Emit\n", ck.q(400, 6000), ck.q(40, 80))]
    cases = [{"k": "w%d" % i, "ops": w} for i, w in enumerate(ws)]
    pool = ck.pool("plain")
    sig = lambda e: "%s-%s" % (e["op"]["op"] if e["e"] == "op" else e["e"], e.get("rc", ""))
    ck.run_traced(pool, cases, case(ck), "HistoryTrace", CONSTS, chunk=1500, key=lambda c: c["k"], budget=ck.q(250, 2400), sig=sig)
    for c in cases[:2]: ck.sample({"k": c["k"], "ops": c["ops"][:8]})
    return ck.finish("model_checking", "random walks of History.tla: calls for three jobs under ten kinds of names, over outputs with eight kinds of former contents, with failed and disturbed calls, changes of locale, umask, working directory, standard input, temporary directory and heap contents, and new processes in between; every answer and every output's contents decided by HistoryTrace.tla")
