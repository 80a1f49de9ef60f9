"""Concrete damages for Damage.tla."""
import random, struct
from . import comp as C
from .rpmfile import Rpm, parse_cpio

def hit(rng, b, how, other=b""):
    """one damage to a byte string; None if it would change nothing"""
    n = len(b); o = bytearray(b)
    k = rng.randrange(n) if n else 0
    w = min(rng.choice([1, 1, 2, 4, 8, 100]), n - k) if n else 0
    if how == "flip":
        if not n: return None
        o[k] ^= 1 << rng.randrange(8)
    elif how == "zero": o[k:k + w] = bytes(w)
    elif how == "ones": o[k:k + w] = b"\xff" * w
    elif how == "cut": del o[k:]
    elif how == "drop": del o[k:k + w]
    elif how == "insert": o[k:k] = rng.randbytes(rng.choice([1, 4, 100]))
    elif how == "dup": o[k:k] = o[k:k + w]
    elif how == "random": o[k:k + w] = rng.randbytes(w)
    elif how in ("plus", "minus"):
        if n < 4: return None
        k = rng.randrange(n // 4) * 4; v = struct.unpack(">I", o[k:k + 4])[0]
        d = rng.choice([1, 1, 2, 4, 255, 65536]); v = (v + d if how == "plus" else v - d) & 0xffffffff
        o[k:k + 4] = struct.pack(">I", v)
    elif how == "empty": o = bytearray()
    elif how == "other": o = bytearray(other)
    return None if bytes(o) == bytes(b) else bytes(o)

def numeric(rng, b, how):
    """boundary values for number fields"""
    n = len(b); v = int.from_bytes(b, "big"); top = (1 << 8 * n) - 1
    v2 = {"zero": 0, "ones": top, "plus": (v + 1) & top, "minus": (v - 1) & top, "random": rng.randrange(top), "flip": v ^ 1 << rng.randrange(8 * n), "insert": 1 << (8 * n - 1),
          "dup": (2 * v) & top, "drop": v // 2, "cut": (1 << (8 * n - 1)) - 1, "empty": 1 << 24, "other": v ^ (1 << (8 * n - 1))}[how]
    return None if v2 == v else v2.to_bytes(n, "big")

def in_delta(rng, d, raw, region, how, od=None, oraw=b""):
    """d: parsed Delta, raw: its file, od/oraw: another delta. -> damaged file or None"""
    if region == "whole": return hit(rng, raw, how, oraw)
    if region.startswith("f-"):
        name = region[2:]
        body = b""; done = False
        ot = dict(od.tokens()) if od else {}
        for f, b in d.tokens():
            if f == name:
                # how a field is hit depends on whether it is a number
                x = numeric(rng, b, how) if name.endswith(("_len", "count", "_off", "tgt_size", "tgt_comp")) and len(b) in (4, 8) else hit(rng, b, how, ot.get(f, b""))
                if x is None: return None
                b = x; done = True
            body += b
        if not done: return None
        return raw[:len(raw) - len(d.zbody)] + C.compress(body, d.comp, d.level)
    z = len(raw) - len(d.zbody)
    if region == "body": a, e = z, len(raw)
    elif d.type == "rpmonly":
        tn = len(d.tgt_nevr.encode()) + 1
        a, e = {"magic": (0, 8), "nevr": (8, 12 + tn), "add": (12 + tn, z)}[region]
    else: a, e = {"lead": (0, 96), "signature": (96, d.rpm.hdr_off), "header": (d.rpm.hdr_off, z)}[region]
    x = hit(rng, raw[a:e], how, oraw[a:e])
    return None if x is None else raw[:a] + x + raw[e:]

def in_package(rng, raw, region, how, oraw, comp, level):
    if region == "whole": return hit(rng, raw, how, oraw)
    r = Rpm(raw)
    if region in ("lead", "signature", "header", "payload"):
        a, e = {"lead": (0, 96), "signature": (96, r.hdr_off), "header": (r.hdr_off, r.payload_off), "payload": (r.payload_off, len(raw))}[region]
        x = hit(rng, raw[a:e], how, oraw[a:e])
        return None if x is None else raw[:a] + x + raw[e:]
    arc = r.archive()
    if region == "archive": a, e = 0, len(arc)
    else:
        ent = rng.choice(parse_cpio(arc))
        a, e = {"entryhead": (ent["off"], ent["off"] + 110), "entryname": (ent["off"] + 110, ent["data_off"]), "entrydata": (ent["data_off"], ent["end"])}[region]
    if region == "entryhead":      # numbers are hexadecimal text
        k = rng.randrange(14); f = arc[a:e]
        if k == 0: x = hit(rng, f[:6], how, b"070702"); x = None if x is None else x + f[6:]
        else:
            i = 6 + 8 * (k - 1); v = numeric(rng, bytes.fromhex(f[i:i + 8].decode()), how)
            x = None if v is None else f[:i] + v.hex().encode() + f[i + 8:]
    else: x = hit(rng, arc[a:e], how, oraw[:e - a])
    if x is None: return None
    return raw[:r.payload_off] + C.compress(arc[:a] + x + arc[e:], comp, level)
