"""Independent computation of sequence digests."""
import hashlib, stat, struct
def usable(f, colors=False):
    """A file of the old package that a standard delta may rely on (see Archive.tla)."""
    if not f.in_payload or not f.in_header: return False
    if f.kind != "reg": return True
    if len(f.payload()) != f.size(): return False
    if f.flags & (1 | 8 | 64): return False
    if not (f.verify & 1 and f.verify & 2): return False
    if colors and f.color & 3 and not multilib(f.path): return False
    return True
def multilib(p): return any(x in p for x in ("lib/", "lib32/", "lib64/"))
def digest(files, algo):
    h = hashlib.md5()
    for f in files:
        name = f.path[1:] if f.path.startswith("/") else f.path
        sz = f.size() if f.kind == "reg" else len(f.linkto.encode()) if f.kind == "sym" else 0
        rd = f.rdev if f.kind in ("chr", "blk") else 0
        h.update(name.encode() + b"\0" + struct.pack(">III", f.mode & 0xffff, sz, rd))
        if f.kind == "sym": h.update(f.linkto.encode() + b"\0")
        elif f.kind == "reg" and sz > 0: h.update(bytes.fromhex(f.md5(algo)))
    return h.digest()
def pack(nibs):
    n = list(nibs) + ([0] if len(nibs) % 2 else [])
    return bytes(n[i] << 4 | n[i + 1] for i in range(0, len(n), 2))
def unpack(b): return [x for c in b for x in (c >> 4, c & 15)]
def encode(order):
    """one way of writing down an order (every run of files preceded by a jump)"""
    def num(n):
        r = []
        while n >= 8: r.append(8 | n & 7); n >>= 3
        return r + [n]
    out, i = [], 0
    while i < len(order):
        k = i + 1
        while k < len(order) and order[k] == order[k - 1] + 1: k += 1
        out += [0] + num(order[i]) + num(k - i); i = k
    return pack(out)
