"""What a delta's copies refer to: the source and target streams, rendered from the packages, and the plan they amount to."""
from .rpmfile import Rpm, cpio_entry
from . import seqid

FLAG = {1: "config", 8: "missingok", 64: "ghost"}
def entries(p):
    """Archive.tla entries of a package, in archive order, with their F objects"""
    hf = p.hfiles(); pos = {id(f): i for i, f in enumerate(hf)}
    out = []
    for f in p.archive_order():
        if not f.in_payload: continue
        name = f.path.lstrip("/")
        arc = name if p.prefix is None else p.prefix + f.path
        out.append((f, {"idx": pos.get(id(f), -1), "kind": f.kind, "namelen": len(name.encode()), "arcname": len(arc.encode()), "arcsize": len(f.payload()),
                        "size": f.size(), "linklen": len(f.linkto.encode()), "flags": [n for b, n in FLAG.items() if f.flags & b] + (["other"] if f.flags & ~73 else []),
                        "verify": [n for b, n in ((1, "digest"), (2, "size")) if f.verify & b], "color": [n for b, n in ((1, "elf32"), (2, "elf64")) if f.color & b] + (["other"] if f.color & ~3 else []),
                        "lib": seqid.multilib(f.path), "mode": f.mode & 0xffff, "rdev": f.rdev & 0xffff}))
    return out

def stream(p):
    """-> (source stream of a standard delta made from p, pieces as Archive.tla describes them)"""
    out, pieces, orig = b"", [], 0
    for f, e in entries(p):
        n = 110 + e["arcname"] + 1; olen = n + -n % 4 + e["arcsize"] + -e["arcsize"] % 4
        if seqid.usable(f, p.colors):
            body = f.linkto.encode() if f.kind == "sym" else f.payload()
            size = len(f.linkto.encode()) if f.kind == "sym" else f.size() if f.kind == "reg" else 0
            mj, mn = (f.rdev >> 8 & 255, f.rdev & 255) if f.kind in ("chr", "blk") else (0, 0)
            pieces.append({"at": len(out), "orig": orig, "mode": f.mode & 0xffff, "namesize": len(f.path.lstrip("/").encode()) + 3, "size": size, "major": mj, "minor": mn, "body": len(body)})
            out += cpio_entry("./" + f.path.lstrip("/"), f.mode & 0xffff, 1, size, body, ino=0, rmaj=mj, rmin=mn)
        orig += olen
    out += cpio_entry("TRAILER!!!", 0, 1, 0, b"", ino=0)
    return out, pieces

def ends(x, old, oldb, newb):
    """(source bytes, target bytes) of parsed delta x"""
    n = Rpm(newb)
    if x.type == "standard": return stream(old)[0], n.archive()
    o = Rpm(oldb)
    return o.header_bytes + o.archive(), n.header_bytes + n.archive()

def plan(x, add):
    """steps: [0, off, len, place in add block] or [1, off, len, 0]"""
    out = []; so = io = ao = ei = 0
    for a, b in x.int_copies:
        for c, n in x.ext_copies[ei:ei + a]:
            so += c; out.append([0, so, n, ao]); so += n; ao += n
        ei += a
        if b: out.append([1, io, b, 0]); io += b
    return out

def run(steps, src, intd, add, tgt):
    """whether each step gives what the target has"""
    right, t = [], 0
    for k, off, n, ao in steps:
        if k: b = intd[off:off + n]
        else:
            b = src[off:off + n]
            if add is not None: b = bytes((p + q) & 255 for p, q in zip(b, add[ao:ao + n])) if any(add[ao:ao + n]) or len(add) < ao + n else b
        right.append(len(b) == n and tgt[t:t + n] == b); t += n
    return right

def event(x, add, src, tgt, full=3000):
    """CopiesTrace event; add: uncompressed add block or None"""
    st = plan(x, add)
    ev = {"e": "delta", "ints": [list(c) for c in x.int_copies], "exts": [list(c) for c in x.ext_copies], "srclen": len(src), "intlen": len(x.int_data), "tgtlen": len(tgt),
          "hasadd": add is not None, "addlen": len(add) if add is not None else 0, "srclen_stored": x.ext_data_len, "needed": len(src), "full": len(src) + len(tgt) <= full}
    if ev["full"]: ev.update(src=list(src), int=list(x.int_data), add=list(add or b""), tgt=list(tgt))
    else: ev.update(plan=st, right=run(st, src, x.int_data, add, tgt))
    return ev
