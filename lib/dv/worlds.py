"""Runs sessions on the library and logs them as World.tla events."""
import hashlib, os, random
from . import deltafile as D, gen, seqid
from .driver import errname
from .rpmfile import LOSSY, Rpm

COMPS = gen.COMPS
def meta_id(p):
    h = hashlib.sha1()
    for f in p.hfiles():
        sz = f.size() if f.kind == "reg" else 0
        h.update(repr((f.path, f.mode & 0xffff, sz, f.rdev if f.kind in ("chr", "blk") else 0, f.linkto if f.kind == "sym" else "",
                       f.md5(p.algo) if f.kind == "reg" and sz else "")).encode())
    return h.hexdigest()[:12]

def data_id(p):
    h = hashlib.sha1()
    for f in p.archive_order():
        if seqid.usable(f, p.colors): h.update(repr((f.path, f.payload())).encode())
    return h.hexdigest()[:12]

class World:
    """One case: packages on disk, sessions, events."""
    def __init__(self, ck, d, cid):
        self.ck, self.d, self.dir = ck, d, ck.dir()
        self.ev = [{"e": "case", "id": cid}]
        self.problems = []
        self.bytes = {}       # id -> bytes
        self.pk = {}
        self.n = 0
    def path(self, n): return os.path.join(self.dir, n)
    def add(self, name, p, data=None, write=True, sig="auto", meta=None):
        b = p.bytes() if data is None else data
        ident = hashlib.sha1(b).hexdigest()[:12]
        self.bytes[ident] = b; self.pk[name] = (p, b, ident)
        if write:
            with open(self.path(name), "wb") as f: f.write(b)
        if sig == "auto":
            r = Rpm(b); s = r.sig.get(1004); sig = s[0].hex() if s else "none"
        self.ev.append({"e": "pkg", "name": name, "id": ident, "nevr": p.nevr, "sig": sig, "meta": meta or meta_id(p), "data": data_id(p), "nfiles": len(p.hfiles()), "source": not p.srcrpm,
                        "odd": p.headstyle in LOSSY or p.sigstyle in LOSSY})
        return self.path(name)
    def kind(self, n): return n if n in ("null", "missing", "junk") else "file"
    def file(self, n): return None if n == "null" else self.path(n)
    def session(self, ops, timeout=120):
        r = self.d.session(ops, timeout)
        if r.crash:
            i = len(r.ops) - 1
            self.problems.append(("crash-%s" % ops[min(max(i, 0), len(ops) - 1)][0], "%s in %s\n%s" % (r.crash, ops[min(max(i, 0), len(ops) - 1)], r.stderr[-1500:])))
        return r
    def log_make(self, slot, type, version, old, new, rc, path, opts=""):
        dg, wf = "", True
        if rc == "OK":
            try: b = open(path, "rb").read()
            except OSError: b = b""
            dg = hashlib.sha1(b).hexdigest()[:16]
            try: D.parse(b)
            except D.BadDelta as e: wf = False; self.problems.append(("malformed-delta", "%s %s: %s" % (type, version, e)))
        self.ev.append({"e": "make", "slot": slot, "type": type, "version": version, "oldk": self.kind(old), "newk": self.kind(new), "old": old, "new": new,
                        "rc": rc, "digest": dg, "opts": opts, "wellformed": wf})
    def log_apply(self, slot, pkg, rc, out):
        o = "absent"
        if rc == "OK":
            try: b = open(out, "rb").read()
            except OSError: b = None
            if b is not None:
                o = hashlib.sha1(b).hexdigest()[:12]
                if o not in self.bytes: o = "junk"
        self.ev.append({"e": "apply", "slot": slot, "pkg": pkg, "pkgk": self.kind(pkg), "rc": rc, "out": o})
    def result(self): return self.problems, self.ev

def rand_options(rng, cheap=True):
    """(comp, level, addblk) — comp None: as in the package, addblk None: forbidden"""
    comp = rng.choice([None, None] + COMPS)
    lv = {"none": [0], "gzip": [0, 1, 6, 9], "bzip2": [0, 1, 9], "lzma": [0, 1, 2], "xz": [0, 1, 2], "lzip": [0, 1], "zstd": [0, 1, 3, 9]}
    if not cheap:
        lv = {k: list(range(10)) for k in lv}; lv["none"] = [0]
    level = rng.choice(lv[comp]) if comp else 0
    ab = rng.choice([("bzip2", 0), None, "x", "x"])
    if ab == "x":
        c = rng.choice(COMPS); ab = (c, rng.choice(lv[c]))
    return comp, level, ab

def model(ck, slots=1, workers=6):
    """the World state machine itself, over a few packages"""
    big = ck.thorough
    cfg = ('SPECIFICATION Spec\nCONSTANTS\n Pkgs <- MCPkgs\n Sources = {%s,"o"}\n Targets = {"b","a","s","o","null"%s}\n Dbs = {{},{"a"},{"a2"},{"a","b"}%s}\n Versions = {%s}\n NSlots = %d\n Envs = {"plain","other"}\n'
           'INVARIANTS RoundTrip OnlySource Identity InstalledOnlySource NotInstalled Predicts\nPROPERTIES EnvIrrelevant Frame Observers\n') % (
           '"a","a2","a4","s","null","missing"' if big else '"a","s","null"', ',"junk"' if big else '', ',{"s"}' if big else '', '1,3' if big else '3', slots)
    return ck.tlc("WorldMC", cfg, workers=workers, timeout=850)
