"""Concrete packages for the abstract scenarios of Scenario.tla."""
import json, os, random
from .rpmfile import F, Pkg, STYLES, LOSSY, cpio_entry

KINDS = ["empty", "tiny", "small", "block", "large", "hard", "sym", "dir", "chr", "fifo"]
REG = KINDS[:6]
CHANGES = ["same", "edit", "insert", "delete", "append", "truncate", "rewrite", "remove", "add", "rename", "retype", "dup"]
ATTRS = ["plain", "config", "ghost", "missingok", "nomd5", "nosize", "color", "colorlib", "hdrsize", "nopayload", "noheader"]
LEVELS = {"gzip": [1, 6, 9], "bzip2": [1, 5, 9], "xz": [1, 2, 3, 6], "lzma": [1, 2, 3, 6], "zstd": [1, 3, 9, 19], "lzip": [None], "none": [0]}
WORDS = [b"alpha", b"beta", b"gamma", b"delta", b"epsilon", b"zeta", b"\0\0\0\0", b"eta", b"\n", b" ", b"theta", b"iota"]

def data(rng, n, style=None):
    style = style or rng.choice(["rand", "text", "zero", "mixed"])
    if style == "rand": return rng.randbytes(n)
    if style == "zero": return bytes([rng.choice([0, 0xff, 0x41])]) * n
    if style == "text":
        b = b"".join(rng.choice(WORDS) for _ in range(n // 3 + 2)); return b[:n]
    out = b""
    while len(out) < n: out += data(rng, rng.randint(1, 1 + n // 3), rng.choice(["rand", "text", "zero"]))
    return out[:n]

SIZES = {"empty": (0, 0), "tiny": (1, 40), "small": (100, 1500), "block": (7000, 20000), "large": (40000, 120000), "hard": (50, 9000)}

def edit(rng, b, how):
    b = bytearray(b)
    n = len(b)
    if how == "edit":
        for _ in range(rng.randint(1, 1 + min(6, n // 50))):
            k = rng.randrange(n); l = rng.randint(1, 1 + min(8, n - k - 1) if n - k > 1 else 1)
            b[k:k + l] = bytes((x + rng.randint(1, 255)) & 255 for x in b[k:k + l])
    elif how == "insert": k = rng.randint(0, n); b[k:k] = data(rng, rng.randint(1, 300))
    elif how == "delete": k = rng.randrange(n); del b[k:k + rng.randint(1, max(1, n // 3))]
    elif how == "append": b += data(rng, rng.randint(1, 500))
    elif how == "truncate": del b[rng.randrange(n):]
    elif how == "rewrite": b = bytearray(data(rng, rng.randint(0, max(1, n * 2))))
    return bytes(b)

def clone(f, **kw):
    import copy
    g = copy.copy(f); g.__dict__.update(kw); return g

def slot_files(rng, i, s, root, others):
    """-> (old list, new list)"""
    path = "%s/%s%d" % (root, rng.choice(["usr/bin/p", "etc/c", "usr/share/x/y/n", "f"]), i)
    if s["attr"] == "colorlib": path = "%s/%s/l%d" % (root, rng.choice(["usr/lib", "lib32", "lib64"]), i)
    k, ch, at = s["kind"], s["change"], s["attr"]
    def mk(k, path):
        if k in REG:
            lo, hi = SIZES[k]
            f = F(path, content=data(rng, rng.randint(lo, hi)), mode=rng.choice([0o644, 0o755, 0o4711]))
        elif k == "sym": f = F(path, "sym", linkto=rng.choice(["t", "../a/b", "/x/" + "y" * 30]))
        elif k == "dir": f = F(path, "dir", mode=rng.choice([0o755, 0o1777]))
        elif k == "chr": f = F(path, rng.choice(["chr", "blk"]), rdev=rng.choice([0, 0x103, 0xffff]))
        else: f = F(path, "fifo")
        return f
    f = mk(k, path)
    if at == "config": f.flags = 1 | rng.choice([0, 16])
    elif at == "ghost": f.flags = 64
    elif at == "missingok": f.flags = 8
    elif at == "nomd5": f.verify = 0xffffffff & ~1
    elif at == "nosize": f.verify = 0xffffffff & ~2
    elif at in ("color", "colorlib"): f.color = rng.choice([1, 2])
    elif at == "hdrsize": f.header_size = f.size() + rng.choice([1, 7, 1000])
    elif at == "nopayload": f.in_payload = False
    elif at == "noheader": f.in_header = False
    old, new = [f], [f]
    if k == "hard":
        # rpm archives carry the contents with the last link only
        g = clone(f, path=path + ".l", nlink=2, ino=1000 + i); f.nlink, f.ino, f.payload_content = 2, 1000 + i, b""
        old, new = [f, g], [f, g]
        if ch in ("edit", "insert", "delete", "append", "truncate", "rewrite"):
            c = edit(rng, f.content, ch) if f.content or ch in ("append", "rewrite") else b"x"
            new = [clone(f, content=c), clone(g, content=c)]
        elif ch == "rename": new = [f, clone(g, path=path + ".m")]
        elif ch == "remove": new = []
        elif ch == "add": old = []
        elif ch == "retype": new = [clone(g, path=path, nlink=1, payload_content=None), F(path + ".l", "sym", linkto="x")]
        elif ch == "dup": new = [f, g, F(path + ".copy", content=f.content)]
        return old, new
    if ch in ("edit", "insert", "delete", "append", "truncate", "rewrite"):
        c = edit(rng, f.content, ch)
        new = [clone(f, content=c, header_size=len(c) + 3 if f.header_size is not None else None)]
    elif ch == "remove": new = []
    elif ch == "add": old = []
    elif ch == "rename": new = [clone(f, path=path + rng.choice([".new", "x" * 11]))]
    elif ch == "retype": new = [mk(rng.choice([x for x in ("small", "sym", "dir", "chr") if x != k]), path)]
    elif ch == "dup":
        new = [f, F(path + ".copy", content=f.content), F(path + ".part", content=f.content[len(f.content) // 3:] + data(rng, 20))]
    return old, new

def order(rng, n, how):
    o = list(range(n))
    if how == "reversed": o.reverse()
    elif how == "shuffled": rng.shuffle(o)
    return o

def sigextra(rng):
    """reserved space in the signature, so that its length varies"""
    return [(1008, 7, b"\0" * rng.choice((1, 2, 3, 4, 5, 6, 7, 8, 72, 281, 4128)))] if rng.random() < 0.7 else []

def nevr(rng, name=None):
    """a package's name, version and release, short and long, with whatever characters they may have"""
    abc = "abcdefghijklmnopqrstuvwxyz0123456789"
    n = rng.choice(["p", "pkg", "lib-2.0-3", "python3.11-x", "g++", "a-deadbeef", "X_org", "0ad", "z" * rng.choice([59, 60, 61, 65, 66, 67]), "-".join("part%d" % i for i in range(rng.randint(1, 30))), "n" + "".join(rng.choice(abc + "-+._") for _ in range(rng.randint(1, 200))) + "e"])
    v = rng.choice(["1", "0", "20260101git", "1.2.3", "1~rc1", "1^git.7", "1.%d" % rng.randrange(10 ** 9), "9" * rng.choice([7, 40])])
    return dict(name=name or n, version=v, release=rng.choice(["1", "0", "2.fc%d" % rng.randrange(99), "1~1", "0.1.%s" % ("f" * rng.choice([1, 32]))]))

def pair(rng, sc, root="/opt/t", bg=3, name="pkg", **kw):
    """scenario {"s": [slots], "l": level} -> (old Pkg, new Pkg)"""
    old, new = [], []
    for i in range(bg):
        f = F("%s/bg%d" % (root, i), content=data(rng, rng.randint(10, 2500)))
        old.append(f); new.append(f if rng.random() < 0.6 else clone(f, content=edit(rng, f.content, "edit")))
    for i, s in enumerate(sc["s"]):
        a, b = slot_files(rng, i, s, root, old)
        old += a; new += b
    l = sc["l"]
    rng.shuffle(old)
    ep = {"none": (None, None), "zero": (0, 0), "same": (2, 2), "new": (None, 1)}[l["epoch"]]
    olv, nlv = rng.choice(LEVELS[l["oldenc"]]), rng.choice(LEVELS[l["newenc"]])
    def reorder(fs, how):
        o = order(rng, len(fs), how)
        # keep hard links in header order, contents last
        return o
    kw.setdefault("sigextra", sigextra(rng))
    # rpm does not install packages with tags outside the header's region
    def style(heads):
        kw.update(headstyle=rng.choice(heads) if rng.random() < .2 else None, sigstyle=rng.choice(STYLES) if rng.random() < .1 else None)
    style(STYLES if root == "/opt/t" else ["unsorted"])
    a, b = dict(name=name, version="1.%d" % rng.randint(0, 9), release="1"), dict(name=name, version="2.%d" % rng.randint(0, 9), release=rng.choice(["1", "2.fc"]))
    if name == "pkg" and rng.random() < .5: a = nevr(rng); b = nevr(rng, a["name"] if rng.random() < .7 else None)
    if (a["version"], a["release"]) == (b["version"], b["release"]): b["release"] += ".2"
    po = Pkg(**a, epoch=ep[0], files=old, order=reorder(old, l["order"]), comp=l["oldenc"], level=olv,
             algo=l["algo"], colors=l["colors"], oldnames=l["names"] == "flat", **kw)
    kw["sigextra"] = sigextra(rng)
    style(STYLES if root == "/opt/t" or name != "id" else ["unsorted"])
    pn = Pkg(**b, epoch=ep[1], files=new, order=reorder(new, l["neworder"]), comp=l["newenc"], level=nlv,
             algo=l["algo"], colors=l["colors"], oldnames=l["names"] == "flat", summary=rng.choice(["a package", "a better package " * 5]), **kw)
    return po, pn

def default_level(rng=None):
    if rng is None: return dict(order="shuffled", neworder="same", oldenc="gzip", newenc="gzip", algo=8, colors=True, epoch="none", names="dirs")
    return dict(order=rng.choice(["same", "reversed", "shuffled"]), neworder=rng.choice(["same", "reversed", "shuffled"]), oldenc=rng.choice(["gzip", "bzip2", "xz", "lzma", "zstd", "lzip", "none"]),
                newenc=rng.choice(["gzip", "bzip2", "xz", "lzma", "zstd", "none"]), algo=rng.choice([1, 8]), colors=rng.random() < .5, epoch=rng.choice(["none", "zero", "same", "new"]), names=rng.choice(["dirs", "dirs", "flat"]))

COMPS = ["none", "gzip", "bzip2", "lzma", "xz", "lzip", "zstd"]
def opt_ops(slot, type="standard", version=3, comp=None, level=0, addblk=("bzip2", 0), seqfile=None):
    """driver calls that set up an options object. comp None: from the package; addblk None: forbidden."""
    ops = [["oinit", slot]]
    if type == "rpmonly": ops.append(["otype", slot, 1])
    if version != 3: ops.append(["over", slot, version])
    if comp is not None: ops.append(["ocomp", slot, COMPS.index(comp), level])
    if addblk is None: ops.append(["oforbid", slot])
    elif addblk != ("bzip2", 0): ops.append(["oaddblk", slot, COMPS.index(addblk[0]), addblk[1]])
    if seqfile: ops.append(["oseq", slot, seqfile])
    return ops

def scenarios(ck, rng, count_slot, count_mix, slots=3):
    """slot classes enumerated by TLC (sampled down to count_slot) and random walks for mixes."""
    r = ck.tlc("Scenario", "SPECIFICATION Spec\nCONSTANTS\n Slots = 1\n Pick = \"slot\"\nINVARIANT TypeOK\nCONSTRAINT Emit\n")
    allc = r.printed()
    ck.notes["slot_classes"] = len(allc)
    sel = allc if count_slot is None or count_slot >= len(allc) else rng.sample(allc, count_slot)
    out = [{"s": c["s"], "l": default_level(rng) if rng.random() < 0.5 else c["l"]} for c in sel]
    for _ in range(count_mix):
        out.append({"s": [rng.choice(allc)["s"][0] for _ in range(rng.randint(0, slots + 2))], "l": default_level(rng)})
    return out
