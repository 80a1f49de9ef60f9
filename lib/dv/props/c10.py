"""C10: the source comes back intact whatever the order and the limits (Blocks.tla, BlocksWalk.tla, BlocksTrace.tla)."""
import hashlib, json, os, random
from .. import deltafile as D, gen, installed, recon, seqid
from ..rpmfile import F, Pkg, Rpm

CFG = 'SPECIFICATION Spec\nCONSTANTS\n NBlocks = %d\n PlanLen = %d\n Caps = {1,2,3}\n Kinds = {"package","files"}\n Period = %d\n Flaw = "%s"\nINVARIANTS Right Bounded Kept Sane NoPages\n'

def files(rng, root, bs, total):
    """regular files whose sizes lie around multiples of the block size, with links and the like between them"""
    out, n, i = [], 0, 0
    while n < total:
        k = rng.choice(["reg"] * 6 + ["sym", "dir", "empty"])
        p = "%s/%s%d" % (root, "n" * rng.randint(1, 7), i); i += 1
        if k == "reg":
            f = F(p, content=rng.randbytes(max(1, rng.choice([1, 2, 3, bs // 2, bs - 1, bs, bs + 1, 2 * bs, 3 * bs + 1, rng.randint(1, 3 * bs)]))))
        elif k == "sym": f = F(p, "sym", linkto="t" * rng.choice([1, 5, min(bs, 3000), min(2 * bs + 1, 3500)]))
        elif k == "dir": f = F(p, "dir")
        else: f = F(p)
        out.append(f); n += 112 + len(p) + len(f.payload())
    return out

def plan_delta(kind, old, oldb, src, copies, rng, version, tgt, leadsig):
    """a delta whose target is what the copies give: (file bytes, target bytes)"""
    body = b"".join(src[a:a + n] for a, n in copies)
    x = D.Delta(type=kind, version=version, comp=rng.choice(["none", "gzip"]), level=1)
    exts, at = [], 0
    for a, n in copies: exts.append((a - at, n)); at = a + n
    x.src_nevr = old.nevr
    # the copies grouped at random, some literal bytes in between
    ints, data, out, i = [], b"", b"", 0
    while i < len(exts):
        k = min(rng.choice([1, 2, 5, 100]), len(exts) - i); b = rng.randbytes(rng.choice([0, 0, 3, 700]))
        ints.append((k, len(b))); out += b"".join(src[a:a + n] for a, n in copies[i:i + k]) + b; data += b; i += k
    x.ext_copies, x.int_copies, x.int_data, x.ext_data_len = exts, ints, data, len(src)
    x.leadsig = leadsig
    x.tgt_comp, x.tgt_level = "none", 0
    if kind == "standard":
        x.tgt_pkg = tgt; x.tgt_nevr = tgt.nevr
        hdr = tgt.header()
        x.payload_fmt_off = hdr.find(b"cpio\0")
        x.sequence = seqid.digest([f for f in old.archive_order() if seqid.usable(f, old.colors)], old.algo) + seqid.encode([old.hfiles().index(f) for f in old.archive_order() if seqid.usable(f, old.colors)])
        full = leadsig + hdr + out
    else:
        x.tgt_nevr = "t-2-1"; x.version = 3; x.tgt_header_len = min(len(out), rng.choice([1, 20, len(out)])) or 1
        x.sequence = Rpm(oldb).sig[1004][0]
        x.payload_fmt_off = 0
        full = leadsig + out
    x.tgt_size = len(full); x.tgt_md5 = hashlib.md5(full).digest()
    x.offadj = []
    return x.encode(), full, out, ints

def case(ck):
    def run(d, c):
        rng = random.Random("%d-%s" % (ck.seed, c["k"]))
        dr = ck.dir(); site = installed.Site(dr)
        small = c["bs"] <= 64 and not c.get("far")
        bs = c["bs"]
        fs = c["files"](rng, site.root) if "files" in c else files(rng, site.root, bs, 8 * bs if small else c.get("total", 12 * bs))
        old = Pkg(name="b", version="1", files=fs, order=gen.order(rng, len(fs), rng.choice(["same", "reversed", "shuffled"])), comp=rng.choice(["gzip", "none", "zstd"]) if not c.get("big") else "none", level=1)
        oldb = old.bytes()
        po = os.path.join(dr, "old.rpm"); open(po, "wb").write(oldb)
        kind = c["kind"]
        ro = Rpm(oldb)
        src = ro.header_bytes + ro.archive() if kind == "rpmonly" else recon.stream(old)[0]
        tgt = Pkg(name="b", version="2", files=[F("/x")])
        # units of the plan to bytes of the source
        nu = c["nunits"]; unit = bs / c["per"]
        total = len(src)
        base = rng.choice([0, max(0, total - int(nu * unit)) // bs * bs]) if not c.get("spread") else 0
        copies = []
        for a, n in c["plan"]:
            if c.get("spread"): lo, hi = total * a // nu, total * (a + n) // nu
            else: lo, hi = base + int(a * unit), base + int((a + n) * unit)
            if rng.random() < .2: lo += rng.choice([-1, 1])
            if rng.random() < .2: hi += rng.choice([-1, 1])
            lo = max(0, min(lo, total - 1)); hi = max(lo + 1, min(hi, total))
            copies.append((lo, hi - lo))
        if c.get("far"):
            # blocks whose numbers differ in a single bit one after the other
            for _ in range(40):
                x = rng.randrange(total // bs); y = x ^ 1 << rng.randrange(1, 17)
                if y >= total // bs: continue
                for b in (x, y, x)[:rng.choice([2, 3])]: lo = b * bs + rng.randrange(bs); copies.append((lo, min(rng.choice([1, bs // 2, bs]), total - lo)))
        delta, full, out, ints = plan_delta("rpmonly" if kind == "rpmonly" else "standard", old, oldb, src, copies, rng, c["version"], tgt, Rpm(tgt.bytes()).leadsig)
        pd = os.path.join(dr, "d"); open(pd, "wb").write(delta)
        ops = []
        if kind == "files": site.package("src", po, old); site.install(old); ops.append(["setenv", "HOME", site.home({"src"})])
        ops += [["watch", site.root + "/"]]
        at = []
        for k, (b, cores, nf) in enumerate(c["limits"]):
            o = os.path.join(dr, "o%d" % k)
            ops += [["limits", b, cores, nf], ["trace", 1 if kind == "files" else 0], ["apply", None if kind == "files" else po, pd, o]]
            at.append((len(ops) - 1, o, (b, cores, nf)))
        r = d.session(ops, 200)
        problems, ev = [], [{"e": "case", "id": c["k"], "src": list(src) if small else []}]
        if r.crash: problems.append(("crash-" + kind, "%s\n%s" % (r.crash, r.stderr[-1500:])))
        head = len(full) - len(out)
        for i, o, lim in at:
            if i >= len(r.ops) or r.ops[i]["rc"] < 0: continue
            rc = r.rc(i)
            got = open(o, "rb").read() if os.path.exists(o) else b""
            fl = []
            for t in r.ops[i].get("trace", []):
                if t["c"] == "open" and t["r"] >= 0 and "unwatched" not in t: fl.append(1)
                elif t["c"] == "close" and t.get("fd", -1) >= 0: fl.append(-1)
            e = {"e": "plan", "id": c["k"], "kind": kind, "rc": rc, "limits": list(lim), "limit": lim[2], "files": fl, "small": small}
            pay = got[head:]
            if rc == "OK" and got[:head] != full[:head]: problems.append(("head-" + kind, "lead, signature or header changed, limits %s" % (lim,)))
            # take the literal bytes out again
            pieces, p, k, j = [], 0, 0, 0
            for n, b in ints:
                for a, ln in copies[j:j + n]: pieces.append(pay[p:p + ln]); p += ln
                j += n; p += b
            if small: e.update(plan=[list(x) for x in copies], out=list(b"".join(pieces)) if rc == "OK" else [])
            else: e.update(right=[x == src[a:a + n] for x, (a, n) in zip(pieces, copies)] if rc == "OK" else [])
            if rc == "OK" and got != full and pieces and all(x == src[a:a + n] for x, (a, n) in zip(pieces, copies)): problems.append(("rest-" + kind, "output differs outside the copies, limits %s" % (lim,)))
            ev.append(e)
        return problems, ev
    return run

def LIMS(rng, bs, k):
    l = [(bs, 1, 1), (bs, 2, 1), (bs, 2, 2), (bs, 3, 1), (bs, 4, 3), (bs, 7, 2), (bs, 9, 50), (bs, 5000, 50)]
    return rng.sample(l, k)

def run(ck):
    rng = random.Random(ck.seed)
    ck.tlc("Blocks", CFG % (4, ck.q(3, 4), ck.q(3, 8), "none"), workers=8, timeout=850)
    for f in ("early", "nopage", "skip"):
        r = ck.tlc("Blocks", CFG % (3, 3, 3, f), workers=4, allow=None)
        if not r.violated: raise RuntimeError("Blocks: flaw %s goes unnoticed" % f)
    cases = []
    nu, per = 28, 4
    walks = [[(x["op"]["at"], x["op"]["len"]) for x in w] for w in ck.walks("BlocksWalk", "SPECIFICATION Spec\nCONSTANTS\n NUnits = %d\n PerBlock = %d\nINVARIANT Within\nCONSTRAINT Emit\n" % (nu, per), ck.q(330, 6000), 26)]
    for i, w in enumerate(walks):
        bs = rng.choice([16, 24, 32, 40, 64]) if i % 3 else rng.choice([128, 512, 1000, 4096, 8192])
        cases.append({"k": "w%d" % i, "kind": ["standard", "rpmonly", "files"][i % 3 if i % 3 else rng.randrange(3)], "bs": bs, "plan": w, "nunits": nu, "per": per, "version": rng.choice([2, 3]), "limits": LIMS(rng, bs, 3),
                      "spread": rng.random() < .3})
    # the limits the library is built with: more blocks than are kept, more files than may be open
    real = (8192, 5000, 50)
    for i, w in enumerate(walks[:ck.q(3, 12)]):
        kind = ["standard", "rpmonly", "files"][i % 3]
        cases.append({"k": "real-blocks%d" % i, "kind": kind, "bs": 8192, "big": True, "files": lambda r, root: [F("%s/f%d" % (root, k), content=r.randbytes(r.choice([5000000, 9000000]))) for k in range(7)],
                      "plan": w, "nunits": nu, "per": per, "version": 3, "limits": [real], "spread": True})
    for i, w in enumerate(walks[:ck.q(8, 60)]):
        n = [49, 50, 51, 52, 60, 101, 130, 200][i % 8]
        cases.append({"k": "real-files%d" % i, "kind": "files", "bs": 8192, "files": lambda r, root, n=n: [F("%s/f%03d" % (root, k), content=r.randbytes(r.choice([1, 900, 8192, 20000]))) for k in range(n)],
                      "plan": [(r * 28 // 90, 1) for r in rng.sample(range(90), 60)] + w, "nunits": nu, "per": per, "version": 3, "limits": [real, (8192, 3, 2)], "spread": True})
    for i in range(ck.q(9, 60)):
        cases.append({"k": "far%d" % i, "kind": ["standard", "rpmonly", "files"][i % 3], "bs": 16, "far": True, "files": lambda r, root, n=[70000, 300000, 1200000][i // 3 % 3]: [F("%s/f%d" % (root, k), content=r.randbytes(n // 3)) for k in range(3)],
                      "plan": [], "nunits": nu, "per": per, "version": rng.choice([2, 3]), "limits": [(16, 2, 1), (16, rng.choice([1, 3, 300]), 2), (16, 100000, 50)]})
    # (the address sanitizer makes the library's growing of big buffers far too slow)
    big = [c for c in cases if c.get("big")]
    kw = dict(chunk=60, key=lambda c: c["k"], sig=lambda e: "%s-%s" % (e.get("kind"), e.get("rc")))
    ck.run_traced(ck.pool("plain"), big, case(ck), "BlocksTrace", "", budget=ck.q(150, 900), **kw)
    cases = [c for c in cases if not c.get("big")]
    ck.run_traced(ck.pool("asan"), cases, case(ck), "BlocksTrace", "", budget=ck.q(250, 2500), **kw)
    for c in cases[:3]: ck.sample({"plan": c["plan"], "kind": c["kind"], "limits": c["limits"], "block": c["bs"]})
    return ck.finish("model_checking", "plans of copies walked by BlocksWalk.tla, written into deltas of the harness's own making and applied under several limits; rebuilt bytes decided by BlocksTrace.tla")
