"""C11: what a standard delta uses of the old package (Archive.tla)."""
import os, random
from .. import comp as C, deltafile as D, gen, recon, seqid
from ..rpmfile import F, Pkg

FL = {"none": 0, "config": 1, "missingok": 8, "ghost": 64, "doc": 2, "noreplace": 16, "config+noreplace": 17, "license": 128}
ALL = 0xffffffff
VF = {"all": ALL, "nodigest": ALL & ~1, "nosize": ALL & ~2, "noother": 3, "nothing": 0}
CL = {"none": 0, "elf32": 1, "elf64": 2, "both": 3, "mips": 4}
PL = {"lib": "usr/lib/", "lib32": "lib32/x/", "lib64": "usr/lib64/", "mylib": "opt/mylib/", "bin": "usr/bin/", "libexec": "usr/libexec/"}

def make_file(rng, i, c):
    """Archive.tla class -> list of F"""
    path = "/%s%s%d" % (PL[c["place"]], "n" * rng.randint(1, 5), i)
    k = c["kind"]
    content = gen.data(rng, rng.choice([0, 1, 3, 4, 60, 700, 3000])) if c["agree"] else gen.data(rng, 50)
    if k in ("reg", "hard"): f = F(path, content=content, mode=rng.choice([0o644, 0o755, 0o4755]))
    elif k == "sym": f = F(path, "sym", linkto=rng.choice(["t", "abc", "/very/long/target/of/a/link"]))
    else: f = F(path, k, rdev=rng.choice([0, 1, 0x101, 0xff, 0x1234, 0xffff]) if k in ("chr", "blk") else 0)
    f.flags, f.verify, f.color = FL[c["flag"]], VF[c["verify"]], CL[c["color"]]
    f.mtime = rng.randrange(1 << 31)
    if not c["agree"] and f.kind == "reg": f.header_size = rng.choice([len(content) + 1, len(content) - 1, len(content) + 4096, 0])
    f.in_header, f.in_payload = c["where"] != "archiveonly", c["where"] != "headeronly"
    if k == "hard":
        g = gen.clone(f, path=path + "l", nlink=2, ino=5000 + i); f.nlink, f.ino, f.payload_content = 2, 5000 + i, b""
        return [f, g]
    return [f]

def case(ck):
    def run(d, c):
        rng = random.Random("%d-%s" % (ck.seed, c["k"]))
        ev, problems = [{"e": "case", "id": c["k"]}], []
        if "sc" in c: old, new = gen.pair(rng, c["sc"])
        else:
            fs = []
            for i, x in enumerate(c["cls"]): fs += make_file(rng, i, x)
            for i in range(rng.randint(0, 2)): fs.insert(rng.randint(0, len(fs)), F("/bg/%d" % i, content=gen.data(rng, rng.randint(0, 800))))
            nf = [gen.clone(f, content=gen.edit(rng, f.content, "edit") if f.kind == "reg" and f.content and rng.random() < .4 else f.content, header_size=None) for f in fs]
            how = rng.choice(["same", "shuffled", "reversed"])
            enc = lambda: rng.choice([("gzip", 6), ("bzip2", 1), ("xz", 1), ("zstd", 3)])
            e1, e2 = enc(), enc()
            colors = c["cls"][0]["colors"]
            prefix = rng.choice([".", ".", None])
            if rng.random() < .5: old_order = gen.order(rng, len(fs), how)
            else: old_order = None
            old = Pkg(name="arc", version="1", files=fs, order=old_order, comp=e1[0], level=e1[1], colors=colors, algo=rng.choice([1, 8]), prefix=prefix, oldnames=rng.random() < .25)
            new = Pkg(name="arc", version="2", files=nf, comp=e2[0], level=e2[1], colors=colors, prefix=prefix)
        dr = ck.dir(); P = lambda n: os.path.join(dr, n)
        old.write(P("old")); new.write(P("new"))
        vers = [1, 2, 3] if ck.thorough else [3, rng.choice([1, 2])]
        ops = []
        most = c.get("most", 0)
        ops.append(["chunk", max(most, len(new.cpio()) // 2000) if most else 0]); most = ops[0][1]
        for v in vers:
            ops += gen.opt_ops(v, "standard", v, "gzip", 1, rng.choice([("gzip", 1), None])) + [["make", P("old"), P("new"), P("d%d" % v), v], ["apply", P("old"), P("d%d" % v), P("r%d" % v)]]
        r = d.session(ops)
        if r.crash: return [("crash", r.crash + r.stderr[-1500:])], ev
        src, pieces = recon.stream(old)
        ents = [e for _, e in recon.entries(old)]
        k = 0
        for op, res in zip(ops, r.ops):
            if op[0] == "make":
                if r.rc(k) != "OK": problems.append(("make-%s" % r.rc(k), str(c)[:300])); break
                v = op[4]
                raw = open(P("d%d" % v), "rb").read()
                try: x = D.parse(raw)
                except D.BadDelta as e: problems.append(("malformed", str(e))); k += 1; continue
                want = seqid.digest([f for f in old.archive_order() if seqid.usable(f, old.colors)], old.algo)
                if x.sequence[:16] != want: problems.append(("digest", "metadata digest of the sequence"))
                ev.append({"e": "delta", "ents": ents, "colors": bool(old.colors), "version": v, "most": most, "count": len(old.hfiles()), "nibbles": seqid.unpack(x.sequence[16:]),
                           "adj": [list(a) for a in x.offadj], "pieces": pieces, "len": len(src)})
                if x.ext_data_len != len(src): problems.append(("source-length", "%d recorded, %d usable" % (x.ext_data_len, len(src))))
                add = C.decompress(x.add, C.detect(x.add)) if x.add else None
                st = recon.plan(x, add)
                # the copies only make sense on the stream as rendered
                tgt = new.cpio()
                if sum(s[2] for s in st) != len(tgt) or not all(recon.run(st, src, x.int_data, add, tgt)): problems.append(("stream", "copies do not fit the stream of usable entries (version %d)" % v))
            elif op[0] == "apply":
                if r.rc(k) != "OK" or open(P("r%d" % op_v(op)), "rb").read() != new.bytes(): problems.append(("apply-%s" % r.rc(k), "version %d" % op_v(op)))
            k += 1
        return problems, ev
    return run
def op_v(op): return int(op[3][-1])

def run(ck):
    rng = random.Random(ck.seed)
    ck.tlc("Archive", 'SPECIFICATION Spec\nCONSTANTS\n MaxEntries = %d\n Mode = "walk"\nINVARIANTS MapExact DividedExact SeqExact Contiguous NoAdjWhenSame\n' % ck.q(2, 3), workers=6)
    r = ck.tlc("Archive", 'SPECIFICATION Spec\nCONSTANTS\n MaxEntries = 0\n Mode = "class"\nCONSTRAINT EmitClass\n')
    cls = r.printed(); cls.sort(key=str)
    cases = []
    for rep in range(ck.q(1, 8)):
        for colors in (True, False):
            mine = [c for c in cls if c["colors"] == colors]; rng.shuffle(mine)
            i = 0
            while i < len(mine):
                n = rng.randint(1, 5); cases.append({"k": "cls-%s-%d-%d" % (colors, rep, i), "cls": mine[i:i + n]}); i += n
    for i in range(ck.q(60, 800)): cases.append({"k": "divided-%d" % i, "cls": [rng.choice(cls) for _ in range(rng.randint(2, 12))], "most": rng.choice([1, 5, 20, 100, 111, 130, 500, 2000])})
    cases.append({"k": "many", "cls": [rng.choice(cls) for _ in range(300)]})
    for i, sc in enumerate(gen.scenarios(ck, rng, ck.q(80, None), ck.q(30, 400))): cases.append({"k": "sc%d" % i, "sc": sc})
    pool = ck.pool("asan")
    ck.notes["entry_classes"] = len(cls)
    ck.run_traced(pool, cases, case(ck), "ArchiveTrace", 'CONSTANTS\n MaxEntries = 0\n Mode = "walk"\n', key=lambda c: c["k"], budget=ck.q(250, 2500), sig=lambda e: "archive-%s" % e.get("version"))
    for c in cases[:3]: ck.sample(c)
    return ck.finish("model_checking", "every class of archive entry of Archive.tla (kind, flags, verify flags, color, place, presence, size agreement) inside packages of varied order, prefix and encoding, and Scenario.tla packages; one standard delta per format version; sequence, adjustments and source stream decided by ArchiveTrace.tla")
