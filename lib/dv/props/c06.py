"""C06: sequence IDs (Sequence.tla, SeqText.tla)."""
import os, random
from .. import deltafile as D, gen, seqid
from ..rpmfile import F, Pkg

CFG = "SPECIFICATION Spec\nCONSTANTS\n MaxFiles = %d\n MaxNibbles = %d\n DecFiles = %d\n Mode = \"%s\"\nINVARIANTS %s\nPROPERTY StaysBad\nCONSTRAINT Emit\n"

def mkfiles(rng, n, prefix="/d"):
    fs = []
    for i in range(n):
        k = rng.choice(["reg"] * 5 + ["sym", "dir", "chr", "blk", "fifo", "empty"])
        p = "%s/%s%03d" % (prefix, "f" * rng.randint(1, 6), i)
        if k == "reg": fs.append(F(p, content=rng.randbytes(rng.randint(1, 90))))
        elif k == "empty": fs.append(F(p))
        elif k == "sym": fs.append(F(p, "sym", linkto="t" * rng.randint(1, 9)))
        elif k in ("chr", "blk"): fs.append(F(p, k, rdev=rng.randint(0, 65535)))
        else: fs.append(F(p, k, mode=rng.choice([0o755, 0o700, 0o1777])))
    return fs

def package(rng, n, order, **kw):
    fs = mkfiles(rng, n)
    there = set(order)
    for i in range(n): fs[i].in_payload = i in there
    rest = [i for i in range(n) if i not in there]
    return Pkg(**gen.nevr(rng), epoch=rng.choice([None, None, 0, 3]), files=fs, order=list(order) + rest, algo=rng.choice([1, 8]),
               comp="gzip", level=6, **kw)

def run(ck):
    pool = ck.pool("asan")
    # 1. every order: encoder model vs. sequences recorded by the library
    n = ck.q(5, 6)
    r = ck.tlc("Sequence", CFG % (n, 0, n, "encode", "RoundTrip"), workers=1)
    cases = [(n, e["o"], e["n"]) for e in r.printed()]
    big = []
    rng = random.Random(ck.seed)
    for size in [9, 10, 17, 63, 64, 65, 130, 300, 520, 600, 4200, 33000] + ([700, 1500, 5000, 263000] if ck.thorough else []):
        for k in range(2 if size < 10000 else 1):
            o = list(range(size))
            for _ in range(rng.randint(1, 8) if size < 10000 else 0):          # move blocks around and drop some
                a = rng.randrange(size); l = rng.randint(1, size // 2); b = rng.randrange(size)
                blk = o[a:a + l]; del o[a:a + l]
                if rng.random() < 0.7: b %= max(1, len(o)); o[b:b] = blk
            if size > 10000: o = o[-7:-2] + o[:-7]       # numbers of as many digits as there are
            big.append((size, o))
    for size in [40, 100, 400, 600] + ([2000] if ck.thorough else []):       # long IDs with numbers of several digits at every place
        for k in range(3):
            o = list(range(size)); rng.shuffle(o); big.append((size, o[:rng.randint(size // 2, size)]))
    # the encoding of the big ones also comes from the model
    for size, o, nn in encode_big(ck, big): cases.append((size, o, nn))
    def enc_case(d, c):
        size, order, nibs = c
        rng = random.Random("%d-%s" % (ck.seed, str(order)[:200]))
        dr = ck.dir()
        old = package(rng, size, order); new = Pkg(name="s", version="2", files=[F("/d/n", content=b"new")], comp="gzip", level=6)
        po, pn, pd, ps = (os.path.join(dr, x) for x in ("o", "n", "d", "s"))
        old.write(po); new.write(pn)
        ver = rng.choice([1, 2, 3, 3])
        ops = [["oinit", 0], ["oseq", 0, ps], ["over", 0, ver], ["ocomp", 0, 1, 1], ["make", po, pn, pd, 0], ["read", 0, pd], ["gs", 0, 4]]
        res = d.session(ops)
        out = []
        if res.crash: return [("crash-make", res.crash)]
        if res.rc(4) != "OK": return [("make-failed", res.rc(4))]
        want = seqid.digest([old.files[i] for i in order], old.algo) + seqid.pack(nibs)
        text = open(ps, "rb").read().decode()
        if text != "%s-%s\n" % (old.nevr, want.hex()): out.append(("seqfile-content", "order %s: %r expected %r" % (order[:20], text, want.hex())))
        try:
            if D.parse(open(pd, "rb").read()).sequence != want: out.append(("delta-sequence", "order %s" % order[:20]))
        except D.BadDelta as e: out.append(("delta-unparsable", str(e)))
        if res.rc(5) != "OK" or bytes.fromhex(res[6]["v"]).decode() != want.hex(): out.append(("read-sequence", str(res[6])))
        full = text.strip()
        alt = want[:16].hex() + seqid.pack(list(nibs)[:-1]).hex() if False else None
        ops = [["checkseq", po, full, 0], ["checkseq", po, "%s-%s" % (old.nevr, want.hex().upper()), 0]]
        exp = ["OK", "OK"]
        if order:
            flip = bytearray(want); flip[rng.randrange(16)] ^= 1 << rng.randrange(8)
            ops.append(["checkseq", po, "%s-%s" % (old.nevr, bytes(flip).hex()), 0]); exp.append("MISMATCH")
        ops.append(["checkseq", po, "x" + full, 0]); exp.append("MISMATCH")
        ops.append(["apply", po, pd, pn + ".out"]); exp.append("OK" if True else None)
        res = d.session(ops)
        if res.crash: return out + [("crash-checkseq", res.crash)]
        for i, e in enumerate(exp):
            if res.rc(i) != e: out.append(("verdict-%d" % i, "order %s: %s expected %s (%s)" % (order[:20], res.rc(i), e, ops[i])))
        return out
    big, small = [c for c in cases if c[0] > 10000], [c for c in cases if c[0] <= 10000]
    ck.run_cases(ck.pool("plain"), big, enc_case, key=lambda c: "big%s" % (c[1][:50],))   # reallocation is quadratic under ASan
    ck.run_cases(pool, small, enc_case, key=lambda c: "enc%s" % (c[1][:50],))
    ck.sample({"encode": cases[min(40, len(cases) - 1)]})
    # 2. every short nibble string
    m, cnt = ck.q((4, 3), (4, 3))
    dec = []
    for files, nn in [(3, 4), (2, 3 if not ck.thorough else 4), (9, 2)] + ([(1, 4), (0, 4)] if ck.thorough else [(0, 2)]):
        r = ck.tlc("Sequence", CFG % (1, nn, files, "decode", "InRange NeverTooMany"), workers=1)
        p = r.printed()
        if not ck.thorough and len(p) > 9000: p = random.Random(ck.seed).sample(p, 9000)
        dec.append((files, p))
    batches = []
    for files, p in dec:
        step = 300
        for i in range(0, len(p), step): batches.append((files, p[i:i + step]))
    # long ones, walked by the model
    longs = long_strings(ck, rng)
    for i in range(0, len(longs), 100): batches.append((12, longs[i:i + 100]))
    def dec_case(d, c):
        files, items = c
        rng = random.Random("%d-%d" % (ck.seed, files))
        pk = package(rng, files, list(range(files)), sig_md5=True)
        dr = ck.dir(); po = os.path.join(dr, "o"); pk.write(po)
        ops, exp = [], []
        for it in items:
            nib, v = it["n"], it["d"]
            tail = seqid.pack(nib)
            if v["ok"]:
                dg = seqid.digest([pk.files[i] for i in v["files"]], pk.algo)
                ops.append(["checkseq", po, "%s-%s" % (pk.nevr, (dg + tail).hex()), 0]); exp.append(("OK", it))
                wrong = bytes([dg[0] ^ 1]) + dg[1:]
                ops.append(["checkseq", po, "%s-%s" % (pk.nevr, (wrong + tail).hex()), 0]); exp.append(("MISMATCH", it))
            else:
                dg = seqid.digest([], pk.algo)
                ops.append(["checkseq", po, "%s-%s" % (pk.nevr, (dg + tail).hex()), 0]); exp.append(("FORMAT", it))
        res = d.session(ops, timeout=120)
        out = []
        if res.crash:
            k = len(res.ops) - 1
            out.append(("crash-decode", "%s at %s" % (res.crash, exp[min(k, len(exp) - 1)])))
        for i, o in enumerate(res.ops):
            if o["rc"] >= 0 and res.rc(i) != exp[i][0]: out.append(("decode-verdict", "%s: %s expected %s" % (exp[i][1], res.rc(i), exp[i][0]), {"op": ops[i]}))
        return out
    ck.run_cases(pool, batches, dec_case, key=lambda c: "dec%d-%s" % (c[0], c[1][0]["n"]))
    ck.evals += sum(len(b[1]) for b in batches) - len(batches)
    for b in batches: ck.distinct.update("d%d%s" % (b[0], it["n"]) for it in b[1])
    ck.sample({"decode": batches[0][1][min(37, len(batches[0][1]) - 1)]})
    # 3. text classes
    r = ck.tlc("SeqText", "INIT Init\nNEXT Next\nINVARIANT OnlyExact\nCONSTRAINT Emit\n")
    txt = r.printed()
    rng3 = random.Random(ck.seed + 7)
    pk = package(rng3, 3, [0, 1, 2]); po = os.path.join(ck.dir(), "o"); pk.write(po)
    def text(c):
        dg = bytearray(seqid.digest(pk.files, pk.algo))
        if c["digest"] == "wrong": dg[3] ^= 0x10
        h = (bytes(dg) + seqid.pack([3])).hex()
        L = {"none": 0, "short": 30, "one_less": len(h) - 1, "right": len(h), "one_more": len(h) + 1, "two_more": len(h) + 2}[c["len"]]
        h = (h[:33] + "0" + "11")[:L] if L > len(h) else h[:L]
        if c["case"] == "upper": h = h.upper()
        if c["bad"] != "no" and h:
            k = {"first": 0, "mid": len(h) // 2, "last": len(h) - 1}[c["bad"]]
            h = h[:k] + "g" + h[k + 1:]
        nv = {"right": pk.nevr, "wrongversion": pk.nevr[:-1] + "7", "wrongname": "t" + pk.nevr, "prefix": pk.nevr[:-1], "empty": ""}[c["nevr"]]
        return nv + ("-" if c["dash"] else "") + h + ("\n" if c["nl"] else "")
    def txt_case(d, items):
        ops = [["checkseq", po, text(it["c"]), 0] for it in items]
        res = d.session(ops)
        out = [("crash-text", res.crash + " at " + str(items[len(res.ops) - 1]))] if res.crash else []
        for i, o in enumerate(res.ops):
            if o["rc"] >= 0 and res.rc(i) != items[i]["v"]: out.append(("text-verdict", "%s: %s expected %s" % (items[i], res.rc(i), items[i]["v"]), {"op": ops[i]}))
        return out
    tb = [txt[i:i + 40] for i in range(0, len(txt), 40)]
    ck.run_cases(pool, tb, txt_case, key=lambda c: "t%s" % c[0])
    ck.evals += len(txt) - len(tb); ck.distinct.update("t%s" % t for t in txt)
    ck.sample(txt[len(txt) // 2])
    return ck.finish("model_checking", "distinct archive orders / nibble strings / text classes enumerated by TLC and replayed on the library")

def encode_big(ck, big):
    """Encode given orders with the model's operators."""
    import json
    mod = "---- MODULE SeqBig ----\nEXTENDS Sequence\nIn == ndJsonDeserialize(\"orders.ndjson\")\nVARIABLE k\nBInit == Init /\\ k = 0\n" \
          "BNext == k < Len(In) /\\ k' = k + 1 /\\ UNCHANGED vars /\\ PrintT(ToJson([k |-> k', n |-> Padded(Encode(In[k'].o)), ok |-> Decode(Encode(In[k'].o), In[k'].c).files = In[k'].o]))\n====\n"
    r = ck.tlc("SeqBig", "INIT BInit\nNEXT BNext\nCONSTANTS\n MaxFiles = 1\n MaxNibbles = 0\n DecFiles = 1\n Mode = \"none\"\n",
               files={"SeqBig.tla": mod, "orders.ndjson": "".join(json.dumps({"o": o, "c": s}) + "\n" for s, o in big)}, extra=())
    p = r.printed()
    assert len(p) == len(big) and all(x["ok"] for x in p), r.out[-2000:]
    return [(s, o, x["n"]) for (s, o), x in zip(big, sorted(p, key=lambda x: x["k"]))]

def long_strings(ck, rng):
    import json
    ins = []
    for _ in range(ck.q(500, 6000)):
        n = rng.choice([6, 8, 10, 12, 20, 40, 60])
        ins.append([rng.choice([0, 1, 1, 2, 3, rng.randrange(16), 8 + rng.randrange(3)]) for _ in range(n)])
    mod = "---- MODULE SeqLong ----\nEXTENDS Sequence\nIn == ndJsonDeserialize(\"nibs.ndjson\")\nVARIABLE k\nBInit == Init /\\ k = 0\n" \
          "BNext == k < Len(In) /\\ k' = k + 1 /\\ UNCHANGED vars /\\ PrintT(ToJson([n |-> In[k'].n, d |-> Decode(In[k'].n, 12)]))\n====\n"
    r = ck.tlc("SeqLong", "INIT BInit\nNEXT BNext\nCONSTANTS\n MaxFiles = 1\n MaxNibbles = 0\n DecFiles = 1\n Mode = \"none\"\n",
               files={"SeqLong.tla": mod, "nibs.ndjson": "".join(json.dumps({"n": o}) + "\n" for o in ins)})
    p = r.printed()
    assert len(p) == len(ins)
    return p
