"""Events for DeltaTrace.tla: bytes of a delta and what the library said about it."""
from . import comp as C
from .deltafile import COMPS
from .driver import errname

GETS = [("gu", t) for t in (1, 2, 3, 7, 9)] + [("gul", t) for t in (11, 14)] + [("gull", t) for t in (17, 18)] + [("gs", t) for t in (0, 4, 5, 6, 8, 10, 13)] + [("ga", t) for t in (12, 15, 16)]
def h32(v): return [v >> 16 & 0xffff, v & 0xffff] if 0 <= v < 1 << 32 else [70000, 0]
def h64(v): return [v >> 48 & 0xffff, v >> 32 & 0xffff, v >> 16 & 0xffff, v & 0xffff]
def ops(slot, path): return [["read", slot, path]] + [[g, slot, t, -1, 0] for g, t in GETS] + [["destroy", slot]]
NOPS = len(GETS) + 2
EMPTY = {}

def got(res):
    """results of the getters -> record, or a record that can never be right when one of them failed"""
    v = {}
    for (g, t), o in zip(GETS, res):
        if o["rc"] != 0: return {"failed": "%s %d" % (g, t)}
        v[t] = o["v"]
    hx = lambda s: list(bytes.fromhex(s)) if s else []
    # hexadecimal text inside: bytes written as text
    def hh(s):
        try: return list(bytes.fromhex(bytes.fromhex(s).decode())) if s else []
        except ValueError: return [999]
    return {"file": hx(v[0]), "version": v[1], "type": v[2], "comp": v[3], "src": hx(v[5]), "tgt": hx(v[6]), "seq": hh(v[4]), "md5": hh(v[8]), "tgtsize": h32(v[7]), "tgtcomp": v[9], "param": hh(v[10]),
            "hdrlen": h32(v[11]), "adj": [h32(x) for x in v[12]], "lead": hh(v[13]), "fmtoff": h32(v[14]), "ints": [h32(x) for x in v[15]], "exts": [h32(x) for x in v[16]], "extlen": h64(v[17]), "intlen": h64(v[18])}

def event(x, path, body, res, sound=True, loose=False, noise=False, head=None, pkgcomp=0, tgt=None, applyrc="FORMAT", checkrc="FORMAT"):
    """x: Delta (type, comp, tgt_nevr); body: the uncompressed body as in the file; res: results of ops()"""
    rc = errname(res[0]["rc"])
    ho = head if head is not None else (x.outer() if x.type == "rpmonly" else b"")
    return {"e": "delta", "file": list(path.encode()), "type": x.type, "comp": COMPS.index(x.comp), "pkgcomp": pkgcomp, "sound": sound, "loose": loose, "noise": noise, "head": list(ho), "at": len(ho),
            "tgt": list((x.tgt_nevr if tgt is None else tgt).encode("utf-8", "surrogateescape")), "body": list(body), "rc": rc, "hnull": bool(res[0]["hnull"]), "got": got(res[1:-1]) if rc == "OK" else EMPTY, "applyrc": applyrc, "checkrc": checkrc}
