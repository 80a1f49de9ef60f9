"""C17: arguments and inputs that must be refused (Args.tla, ArgsTrace.tla)."""
import os, random
from .. import deltafile as D, gen
from ..driver import errname
from ..installed import Site
from ..rpmfile import F, Pkg

OPS = ["make", "apply", "check", "checkseq", "read", "destroy", "get", "strerror", "oinit", "odestroy", "odefaults", "orpm", "oforbid", "ocopy", "oseq", "opatches", "otype", "over", "ocomp", "oaddblk"]
GONE = {"missing", "dangling", "noparent", "noname", "denied"}
def const(ops): return "CONSTANT Ops = {%s}\n" % ", ".join('"%s"' % o for o in ops)
NOBODY = 65534

def case(ck):
    """a session: the files once, then the calls of the case in order"""
    def run(d, cs):
        rng = random.Random("%d-%s" % (ck.seed, cs["k"]))
        dr = ck.dir(); P = lambda *n: os.path.join(dr, *n); os.chmod(dr, 0o777)
        home = Site(P("site") if not os.makedirs(P("site")) else None).home(())
        txt = gen.data(rng, 3000, "text"); ed = bytearray(txt); ed[700] ^= 1; ed[2000:2010] = b"0123456789"
        kw = dict(comp=rng.choice(["gzip", "bzip2", "xz", "zstd"]), level=1)
        ok = Pkg(name="ok", version="1", files=[F("/v/a", content=txt), F("/v/b", content=b"b" * 90)], **kw)
        new = Pkg(name="ok", version="2", files=[F("/v/a", content=bytes(ed)), F("/v/b", content=b"c" * 90)], **kw)
        other = Pkg(name="other", version="1", files=[F("/v/a", content=txt)], **kw)
        src = Pkg(name="srcp", version="1", srcrpm="", files=[F("/v/a", content=txt)], **kw)
        for n, p in (("ok", ok), ("new", new), ("other", other), ("source", src)): p.write(P(n))
        ops = [["setenv", "HOME", home], ["make", P("ok"), P("new"), P("standard"), None], ["make", P("source"), None, P("sourcedelta"), None],
               ["oinit", 0], ["otype", 0, 1], ["make", P("ok"), P("new"), P("rpmonly"), 0], ["odestroy", 0]]
        r = d.session(ops, 60)
        if r.crash or any(r[i]["rc"] for i in (1, 2, 5)): return [("good-arguments-refused", "%s %s" % (r.crash, [x.get("rc") for x in r.ops]))], []
        seqs = {n: (lambda x: "%s-%s" % (x.src_nevr, x.sequence.hex()))(D.parse(open(P(n), "rb").read())) for n in ("standard", "rpmonly")}
        for n, b in (("empty", b""), ("junk", rng.randbytes(rng.choice([3, 200, 5000]))), ("text", b"This is not it.\n" * 50)):
            with open(P(n), "wb") as f: f.write(b)
        for n in ("ok", "standard", "rpmonly"):
            with open(P(n), "rb") as f: b = f.read()
            with open(P("lead-" + n), "wb") as f: f.write(b[:rng.choice([4, 50, 96, 100])])
        os.symlink(P("nowhere"), P("dangling")); os.mkdir(P("dir"))
        with open(P("denied"), "wb") as f: f.write(ok.bytes())
        os.chmod(P("denied"), 0)
        os.mkdir(P("locked"), 0o555)
        def inp(w, delta):
            if w == "null": return None
            if w == "noname": return ""
            if w == "noparent": return P("no", "such")
            if w == "lead": return P("lead-" + (rng.choice(["standard", "rpmonly"]) if delta else "ok"))
            if w == "delta": return P("standard")
            if w == "package": return P("ok")
            return P(w)
        ops, at, outs = [["setenv", "HOME", home]], [], []
        if cs["nobody"]: ops.append(["uid", NOBODY])
        ops += [["oinit", 4], ["read", 4, P("standard")]]
        def out(i, what, w, o):
            if w == "null": return None
            if w == "noname": return ""
            p = P("o%d-%s" % (i, what))
            if w == "dir": os.mkdir(p)
            elif w == "noparent": p = P("no", "such%d" % i)
            elif w == "denied": p = P("locked", "o%d" % i)
            else:
                if w == "existing":
                    with open(p, "wb") as f: f.write(b"before")
                    os.chmod(p, 0o666)
                o.append((what, w, p))
            return p
        for i, c in enumerate(cs["calls"]):
            o = []; k = c["op"]
            if k == "make":
                s = None; w = c["opts"]
                if w != "none":
                    s = 0; ops.append(["oinit", 0])
                    if w.startswith("rpmonly"):
                        ops.append(["otype", 0, 1])
                        if w[7:]: ops.append(["over", 0, int(w[7:])])
                    elif w.startswith("v"): ops.append(["over", 0, int(w[1:])])
                    else: ops.append(["oseq", 0, out(i, "seq", {"seq": "fresh"}.get(w, w[3:]), o)])
                    if rng.random() < .2: ops.append(["oforbid", 0])
                newf = P("new") if c["new"] == "ok" else inp(c["new"], False)
                at.append(len(ops)); ops.append(["make", inp(c["old"], False), newf, out(i, "delta", c["delta"], o), s])
                if s is not None: ops.append(["odestroy", 0])
            elif k == "apply": nf = out(i, "new", c["new"], o); at.append(len(ops)); ops.append(["apply", inp(c["old"], False), inp(c["delta"], True), nf])
            elif k == "check": at.append(len(ops)); ops.append(["check", inp(c["delta"], True), c["mode"]])
            elif k == "checkseq":
                sq = {"null": None, "noname": "", "junk": rng.choice(["x", "ok-1-1", "-", "ok-1-1-" + "zz" * 20, "ok-1-1-" + "ab" * 15])}.get(c["seq"]) if c["seq"] in ("null", "noname", "junk") else seqs[c["seq"]]
                at.append(len(ops)); ops.append(["checkseq", inp(c["old"], False), sq, c["mode"]])
            elif k == "read":
                at.append(len(ops)); ops.append(["read", 0 if c["target"] == "handle" else None, inp(c["delta"], True)])
                if c["target"] == "handle": ops.append(["destroy", 0])
            elif k == "destroy":
                if c["target"] == "handle": ops.append(["read", 0, P("standard")])
                at.append(len(ops)); ops.append(["destroy", None if c["target"] == "null" else 0 if c["target"] == "handle" else 1])
            elif k == "get":
                at.append(len(ops)); ops.append([c["g"], 4 if c["target"] == "handle" else 1, c["tag"], -1, c["null"]])
            elif k == "strerror": at.append(len(ops)); ops.append(["strerror", c["code"]])
            else:
                s = 4 if c["target"] == "object" else None
                if k == "oinit":
                    at.append(len(ops)); ops.append([k, 5 if s else None])
                    if s: ops.append(["odestroy", 5])
                elif k == "odestroy":
                    if s: ops.append(["oinit", 5])
                    at.append(len(ops)); ops.append([k, 5 if s else None if c["target"] == "null" else 5])
                elif k == "ocopy": at.append(len(ops)); ops.append([k, s, 4 if c["from"] == "object" else None])
                elif k == "oseq": at.append(len(ops)); ops.append([k, s, None if c["a"] == "null" else P("unused")])
                elif k == "opatches": at.append(len(ops)); ops.append([k, s, None if c["a"] == "null" else P("x"), None if c["b"] == "null" else P("y")])
                else: at.append(len(ops)); ops.append([k, s] + [c[x] for x in ("a", "b") if x in c])
            outs.append(o)
        r = d.session(ops, 200)
        ev = [{"e": "case", "k": cs["k"]}]
        if r.crash:
            n = len([a for a in at if a < len(r.ops)]); c = cs["calls"][max(0, n - 1)]
            return [("crash-" + c["op"], "%s\n%s\n%s" % (c, r.crash, r.stderr[-1200:]))], []
        for c, i, o in zip(cs["calls"], at, outs):
            q = r[i]; e = {"e": "call", "c": c, "rc": errname(q["rc"]), "touched": bool(q.get("touched")), "made": [], "changed": []}
            if c["op"] == "read" and c["target"] == "handle": e["touched"] = not q["huntouched"]
            if c["op"] == "strerror": e["text"] = bytes.fromhex(q["v"]).decode() if q["v"] else ""
            for what, w, p in o:
                if w == "fresh" and os.path.exists(p): e["made"].append(what)
                if w == "existing" and open(p, "rb").read() != b"before": e["changed"].append(what)
            ev.append(e)
        return [], ev
    return run

def sig(e):
    c = e["c"]
    return "-".join([c["op"], e["rc"]] + [str(c[k]) for k in ("old", "new", "delta", "opts", "seq", "target") if k in c])
def run(ck):
    rng = random.Random(ck.seed)
    cs = ck.tlc("Args", const(OPS) + "SPECIFICATION Spec\nINVARIANTS Decided ArgsFirst NothingDone Success Emit\n", workers=6, timeout=850).printed()
    small = [c for c in cs if c["op"] not in ("make", "apply")]
    apply = [c for c in cs if c["op"] == "apply"]; make = [c for c in cs if c["op"] == "make"]
    cases, n = [], 60
    for nobody, again in [(n, a) for a in range(ck.q(1, 8)) for n in (False, True)]:
        sel = [c for c in small + apply + make if ("denied" in str(c)) == nobody]
        if nobody: sel += rng.sample([c for c in small + apply + make if "denied" not in str(c)], 60)
        rng.shuffle(sel)
        for i in range(0, len(sel), n): cases.append({"k": "%s%d-%d" % ("nobody" if nobody else "root", again, i), "nobody": nobody, "calls": sel[i:i + n]})
        for rep in range(2):     # all texts in one process
            cases.append({"k": "codes%d%d%d" % (nobody, again, rep), "nobody": nobody, "calls": sorted([c for c in small if c["op"] == "strerror"], key=lambda c: c["code"] * (1 - 2 * rep))})
    pool = ck.pool("asan")
    ck.run_traced(pool, cases, case(ck), "ArgsTrace", const(OPS), chunk=1500, key=lambda c: c["k"], budget=ck.q(300, 2500), sig=sig)
    ck.distinct = {str(c) for x in cases for c in x["calls"]}
    for c in cases[:3]: ck.sample(c["calls"][:3])
    return ck.finish("model_checking", "argument combinations enumerated from Args.tla (%d of %d), in random order in shared processes, as root and as an unprivileged user; outcomes and outputs decided by ArgsTrace.tla" % (len(ck.distinct), len(cs)))
