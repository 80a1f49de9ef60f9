"""C03: never a success with anything but the target (Damage.tla)."""
import hashlib, os, random, re
from .. import comp as C, damage, deltafile as D, gen, installed, seqid, worlds
from ..rpmfile import F, Pkg, Rpm

def package(rng, root, v, **kw):
    fs = [F(root + "/a/text", content=gen.data(random.Random(str(root)), 9000, "text")), F(root + "/a/blob", content=gen.data(random.Random("b" + root), 3000, "rand"), mode=0o755), F(root + "/a/empty"),
          F(root + "/a/link", "sym", linkto="target"), F(root + "/a/dir", "dir"), F(root + "/a/dev", "chr", rdev=0x105), F(root + "/etc/conf", content=gen.data(random.Random("c" + root), 500, "text"), flags=1),
          F(root + "/a/small", content=b"small contents"), F(root + "/a/zeros", content=bytes(4000))]
    if v > 1:
        for i in (0, 1, 7): fs[i] = gen.clone(fs[i], content=gen.edit(rng, fs[i].content, rng.choice(["edit", "insert", "edit"])))
        fs.append(F(root + "/a/new%d" % v, content=gen.data(rng, 400, "rand")))
        fs.append(F(root + "/a/copy%d" % v, content=fs[1].content[500:] + fs[0].content[:2000]))
    return Pkg(name="dmg", version=str(v), files=fs, order=rng.sample(range(len(fs)), len(fs)), **kw)

def zeroed(rng, p, digest):
    """p changed so that its digest (or that of its header and payload) starts with a zero byte"""
    for i in range(5000):
        p.summary = "s%06d" % rng.randrange(10 ** 6); b = p.bytes()
        if (hashlib.md5(b).digest() if digest == "full" else Rpm(b).sig[1004][0])[0] == 0: return

def rebody(d, raw): return raw[:len(raw) - len(d.zbody)] + C.compress(d.body(), d.comp, d.level)

def near(rng, dd, raw, nb, region):
    """the delta changed so that it rebuilds something else with such a digest"""
    h = Rpm(nb).hdr_off
    if region == "f-leadsig":      # the name in the lead
        for i in range(5000):
            x = nb[:40] + b"%08x" % rng.randrange(1 << 32) + nb[48:]
            if hashlib.md5(x).digest()[0] == 0 and x != nb:
                e = dd.clone(); e.leadsig = x[:len(dd.leadsig)]
                return rebody(e, raw)
        return None
    at = nb.index(b"s", nb.index(re.search(rb"s\d{6}\0", nb[h:]).group(), h)) + 1
    zh = raw.index(re.search(rb"s\d{6}\0", nb[h:]).group()) + 1
    for i in range(5000):
        t = b"%06d" % rng.randrange(10 ** 6)
        if hashlib.md5(nb[h:at] + t + nb[at + 6:]).digest()[0] == 0 and t != nb[at:at + 6]: return raw[:zh] + t + raw[zh + 6:]

def case(ck):
    def run(d, c):
        rng = random.Random("%d-%s" % (ck.seed, c["k"]))
        dr = ck.dir(); site = installed.Site(dr)
        enc = [("gzip", 6), ("bzip2", 1), ("xz", 2), ("zstd", 3)]
        oe, ne = rng.choice(enc), rng.choice(enc)
        old = package(rng, site.root, 1, comp=oe[0], level=oe[1]); new = package(rng, site.root, 2, comp=ne[0], level=ne[1], sig_md5=c["ty"]["type"] == "identity" or c["digest"] == "none" or rng.random() < .8)
        alone = c["ty"]["type"] in ("self", "identity")
        if any(x["how"] == "near" for dm in c["dmg"] for x in dm): zeroed(rng, new, c["digest"])
        if alone: old, oe = new, ne
        third = package(rng, site.root, 3, comp=oe[0], level=oe[1])
        P = lambda n: os.path.join(dr, n)
        po, pn, pt = P("old"), P("new"), P("third"); old.write(po); new.write(pn); third.write(pt)
        ob, nb, tb = (open(x, "rb").read() for x in (po, pn, pt))
        home = None
        if c["via"] == "disk":
            site.package("src", po, old); site.install(old); home = site.home({"src"})
        ty = {"type": {"self": "standard", "identity": "rpmonly"}.get(c["ty"]["type"], c["ty"]["type"]), "version": c["ty"]["version"]}; comp = rng.choice(["none", "none", "gzip", "bzip2", "zstd", "xz"]); level = {"none": 0, "gzip": 6, "bzip2": 9, "zstd": 3, "xz": 2}[comp]
        ab = rng.choice([None, ("bzip2", 0), ("bzip2", 0), ("gzip", 1), ("xz", 1)])
        pd, p2 = P("delta"), P("delta2")
        o = gen.opt_ops(0, ty["type"], ty["version"], comp, level, ab)
        pre = [["setenv", "HOME", home]] if home else []
        r = d.session(pre + o + [["make", None if alone else po, pn, pd, 0], ["make", None if alone else po, pt, p2, 0], ["apply", po if c["via"] == "package" else None, pd, P("out")]], 100)
        ev, problems = [{"e": "case", "id": c["k"], "digest": c["digest"]}], []
        if r.crash or len(r.ops) < len(pre + o) + 3: return [("crash-undamaged", str(r.crash) + r.stderr[-800:])], ev
        k = len(pre + o)
        if r.rc(k) != "OK" or r.rc(k + 1) != "OK": return [("make-" + r.rc(k), "make failed")], ev
        cov = nb[Rpm(nb).hdr_off:]
        def ident(p):
            x = open(p, "rb").read() if os.path.exists(p) else b""
            return "target" if x == nb else "covered" if x.endswith(cov) else "else"
        ev.append({"e": "apply", "damage": 0, "rc": r.rc(k + 2), "out": ident(P("out")), "intact": True})
        raw, raw2 = open(pd, "rb").read(), open(p2, "rb").read()
        try: dd, dd2 = D.parse(raw), D.parse(raw2)
        except D.BadDelta as e: return [("malformed", str(e))], ev
        dd.level = dd2.level = level
        if c["digest"] == "none":
            dd.tgt_md5 = bytes(16); z = len(raw) - len(dd.zbody); raw = rebody(dd, raw); open(pd, "wb").write(raw); dd.zbody = raw[z:]
            r = d.session(pre + [["apply", po if c["via"] == "package" else None, pd, P("out")]], 100)
            ev.append({"e": "apply", "damage": 0, "rc": r.rc(len(pre)), "out": ident(P("out")), "intact": True})
        keep = installed.snapshot(site.root)
        todo = []
        for i, dm in enumerate(c["dmg"]):
            ndelta, nold, undo = raw, ob, []
            hits = 0
            for x in dm:
                if x["how"] == "near":
                    y = near(rng, dd, raw, nb, x["region"])
                    if y is not None: ndelta = y; hits += 1
                elif x["where"] == "delta":
                    y = damage.in_delta(rng, dd, raw, x["region"], x["how"], dd2, raw2)
                    if y is not None: ndelta = y; hits += 1
                elif x["where"] == "old":
                    y = damage.in_package(rng, ob, x["region"], x["how"], tb, *oe)
                    if y is not None: nold = y; hits += 1
                else: undo.append(x); hits += 1
            if x["where"] == "delta" and x["region"] == "whole" and x["how"] == "other": ndelta = raw2
            if not hits: continue
            todo.append((i, dm, ndelta, nold, undo))
        reg = [f for f in old.hfiles() if f.kind == "reg"]
        todo.reverse()
        while todo:
            batch = []
            # installed files are damaged one application at a time
            n = 1 if todo[-1][4] else 25
            while todo and len(batch) < n and (n == 1 or not todo[-1][4]): batch.append(todo.pop())
            ops = list(pre); touched = None
            for i, dm, nd, no, undo in batch:
                a, b = P("d%d" % i), P("o%d" % i)
                with open(a, "wb") as f: f.write(nd)
                with open(b, "wb") as f: f.write(no)
                ops += [["limits", *rng.choice([(8192, 5000, 50), (8192, 5000, 50), (256, 3, 2)])], ["apply", b if c["via"] == "package" else None, a, P("r%d" % i)]]
                for x in undo:
                    f = rng.choice(reg); touched = f
                    if x["region"] == "existence": site.state(rng, f, rng.choice(["gone", "dir", "dangling"]))
                    elif not f.content: site.state(rng, f, "grown")
                    elif x["how"] == "other": open(f.path, "wb").write(rng.choice(reg).content)
                    elif x["how"] == "empty": open(f.path, "wb").close()
                    else:
                        y = damage.hit(rng, f.content, x["how"])
                        if y is not None: open(f.path, "wb").write(y)
            r = d.session(ops, 100)
            for q, (i, dm, nd, no, undo) in enumerate(batch):
                at = len(pre) + 2 * q + 1
                label = "+".join("%(where)s-%(region)s-%(how)s" % x for x in dm)
                if at >= len(r.ops) or r.ops[at]["rc"] < 0:
                    problems.append(("crash-%s" % dm[0]["region"], "%s: %s %s\n%s" % (label, ty, r.crash, r.stderr[-1800:]))); todo += [t for t in reversed(batch[q + 1:])]; break
                rc = r.rc(at); out = P("r%d" % i)
                o = ident(out)
                # the delta's contents were replaced by those of another delta: then that one's target is the right result
                if o == "else" and nd.endswith(dd2.zbody) and os.path.exists(out) and open(out, "rb").read() == tb: o = "target"
                ev.append({"e": "apply", "damage": len(dm), "rc": rc, "out": o, "what": label, "ty": "%s%d" % (ty["type"], ty["version"]),
                           "intact": open(P("d%d" % i), "rb").read() == nd and open(P("o%d" % i), "rb").read() == no})
                for n in ("d%d", "o%d", "r%d"):
                    if os.path.exists(P(n % i)): os.unlink(P(n % i))
            if touched: site.put(touched)
        return problems, ev
    return run

def sig(e): return "apply-%s-%s-%s" % (e.get("rc"), e.get("out"), e.get("what", ""))

def run(ck):
    rng = random.Random(ck.seed)
    r = ck.tlc("Damage", "SPECIFICATION Spec\nCONSTANT MaxDamage = 1\nINVARIANTS SuccessIsTarget UndamagedWorks\nCONSTRAINT Emit\n")
    by = {}
    for e in r.printed(): by.setdefault((e["ty"]["type"], e["ty"]["version"], e["via"], e["digest"]), []).append(e["d"])
    cases = []
    for (ty, v, via, dg), ds in sorted(by.items()):
        ds.sort(key=str)
        if dg == "none" and not ck.thorough and (v < 3 or ty in ("self", "rpmonly") and via == "package"): continue
        K = {"ty": {"type": ty, "version": v}, "via": via, "digest": dg}; n = "%s%d-%s-%s" % (ty, v, via, dg)
        for rep in range(ck.q(3, 40) if dg == "full" and ty in ("standard", "rpmonly") else ck.q(1, 10)):
            dm = [[x] for x in ds if x["how"] != "near"]
            rng.shuffle(dm)
            per = ck.q(90, 60)
            for i in range(0, len(dm), per): cases.append({"k": "%s-%d-%d" % (n, rep, i), "dmg": dm[i:i + per], **K})
        for rep in range(ck.q(1, 5)):
            dm = [[x] for x in ds if x["how"] == "near"]
            if dm: cases.append({"k": "%s-near-%d" % (n, rep), "dmg": dm, **K})
        # two damages at once; an erased digest leaves nothing to compare with, so it stays out of these
        ok = [x for x in ds if x["region"] != "f-tgt_md5" and x["how"] != "near"]
        for rep in range(ck.q(2, 60) if dg == "full" else 0):
            cases.append({"k": "%s-two-%d" % (n, rep), "dmg": [rng.sample(ok, 2) for _ in range(60)], **K})
    pool = ck.pool("asan")
    rng.shuffle(cases)
    cfg = "SPECIFICATION TSpec\n"
    ck.run_traced(pool, cases, case(ck), "DamageTrace", "CONSTANT MaxDamage = 0\n", key=lambda c: c["k"], budget=ck.q(250, 2500), sig=sig)
    for c in cases[-2:]: ck.sample({"type": c["ty"], "via": c["via"], "damages": c["dmg"][:4]})
    return ck.finish("model_checking", "one application per (delta type and version, way of applying, damaged input, region or body field, kind of damage) of Damage.tla, and pairs of damages; decided by DamageTrace.tla")
