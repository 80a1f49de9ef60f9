"""Independent reader and writer of delta RPM files (written from the published layout, not from drpm's sources)."""
import copy, hashlib, struct
from . import comp as C
from .rpmfile import Rpm, build_header, parse_header, be32, T_INT32, T_BIN

COMPS = ["none", "gzip", "bzip2", "lzma", "xz", "lzip", "zstd"]          # public numbering
DISK = {"none": 0, "gzip": 1, "bzip2": 2, "lzma": 5, "xz": 6, "zstd": 7}
UNDISK = {0: "none", 1: "gzip", 2: "bzip2", 3: "gzip", 4: "bzip2", 5: "lzma", 6: "xz", 7: "zstd"}
class BadDelta(Exception): pass

def u32(x): return x & 0xffffffff
def signmag(x): return (abs(x) | 0x80000000) if x < 0 else x
def unsignmag(v): return -(v & 0x7fffffff) if v & 0x80000000 else v

class Rd:
    def __init__(self, b): self.b, self.p = b, 0
    def take(self, n):
        if self.p + n > len(self.b): raise BadDelta("short: want %d at %d of %d" % (n, self.p, len(self.b)))
        r = self.b[self.p:self.p + n]; self.p += n
        return r
    def u32(self): return struct.unpack(">I", self.take(4))[0]
    def u64(self): return struct.unpack(">Q", self.take(8))[0]

class Delta:
    """Field values; offsets of the copies are signed Python ints."""
    FIELDS = "type version src_nevr tgt_nevr sequence tgt_md5 tgt_size tgt_comp tgt_level tgt_comp_param tgt_header_len offadj leadsig payload_fmt_off int_copies ext_copies ext_data_len add int_data".split()
    def __init__(self, **kw):
        self.type, self.version = "rpmonly", 3
        self.src_nevr, self.tgt_nevr = "a-1-1", "a-2-1"
        self.sequence, self.tgt_md5 = b"\1" * 16, b"\2" * 16
        self.tgt_size, self.tgt_comp, self.tgt_level, self.tgt_comp_param, self.tgt_header_len = 1000, "gzip", 9, b"", 200
        self.offadj, self.leadsig, self.payload_fmt_off = [], b"L" * 112, 100
        self.int_copies, self.ext_copies, self.ext_data_len, self.add, self.int_data = [], [], 0, b"", b""
        self.comp, self.level = "gzip", 9
        self.tgt_pkg = None          # standard: Pkg of the target
        self.raw = {}                # overrides of encoded numbers: name -> int
        self.__dict__.update(kw)
    def clone(self, **kw):
        d = copy.copy(self); d.raw = dict(self.raw); d.__dict__.update(kw); return d
    def tokens(self):
        """body as list of (field, bytes); self.raw overrides integer fields."""
        out = []
        g = lambda k, v: self.raw.get(k, v)
        def n32(k, v): out.append((k, struct.pack(">I", u32(g(k, v)))))
        def n64(k, v): out.append((k, struct.pack(">Q", g(k, v) & (1 << 64) - 1)))
        def by(k, v): out.append((k, self.raw.get(k, v)))
        v = self.version
        by("magic", b"DLT" + bytes([0x30 + v]))
        sn = self.src_nevr.encode() + b"\0"
        n32("src_nevr_len", len(sn)); by("src_nevr", sn)
        n32("seq_len", len(self.sequence)); by("sequence", self.sequence)
        by("tgt_md5", self.tgt_md5)
        if v >= 2:
            n32("tgt_size", self.tgt_size); n32("tgt_comp", DISK[self.tgt_comp] | self.tgt_level << 8)
            n32("tgt_comp_param_len", len(self.tgt_comp_param)); by("tgt_comp_param", self.tgt_comp_param)
        if v >= 3:
            n32("tgt_header_len", self.tgt_header_len); n32("offadj_count", len(self.offadj))
            by("offadj_a", b"".join(struct.pack(">I", u32(a)) for a, b in self.offadj))
            by("offadj_b", b"".join(struct.pack(">I", u32(signmag(b))) for a, b in self.offadj))
        n32("leadsig_len", len(self.leadsig)); by("leadsig", self.leadsig)
        n32("payload_fmt_off", self.payload_fmt_off)
        n32("int_count", len(self.int_copies)); n32("ext_count", len(self.ext_copies))
        by("int_a", b"".join(struct.pack(">I", u32(a)) for a, b in self.int_copies))
        by("int_b", b"".join(struct.pack(">I", u32(b)) for a, b in self.int_copies))
        by("ext_a", b"".join(struct.pack(">I", u32(signmag(a))) for a, b in self.ext_copies))
        by("ext_b", b"".join(struct.pack(">I", u32(b)) for a, b in self.ext_copies))
        (n64 if v >= 3 else n32)("ext_data_len", self.ext_data_len)
        add = self.add if self.type == "standard" else b""
        n32("add_len", len(add)); by("add", add)
        (n64 if v >= 3 else n32)("int_data_len", len(self.int_data)); by("int_data", self.int_data)
        return out
    def body(self): return b"".join(b for _, b in self.tokens())
    def outer(self):
        if self.type != "rpmonly": raise ValueError
        tn = self.raw.get("tgt_nevr", self.tgt_nevr.encode() + b"\0")
        return b"drpm" + self.raw.get("outer_magic", b"DLT" + bytes([0x30 + self.version])) + be32(self.raw.get("tgt_nevr_len", len(tn))) + tn + \
               be32(self.raw.get("outer_add_len", len(self.add))) + self.raw.get("outer_add", self.add)
    def encode(self, body=None, trailing=b""):
        body = self.body() if body is None else body
        cb = C.compress(body, self.comp, self.level) + trailing
        if self.type == "rpmonly": return self.outer() + cb
        p = copy.copy(self.tgt_pkg); p.payload_format = "drpm"
        full = p.bytes()
        r = Rpm(full)
        hdr = r.header_bytes
        st = [(1000, T_INT32, [len(hdr) + len(cb)]), (1004, T_BIN, hashlib.md5(hdr + cb).digest())]
        sig = build_header(st, 62); sig += b"\0" * (-len(sig) % 8)
        return full[:96] + sig + hdr + cb

def header_pkgformat(buf): return None

def parse(buf):
    """-> Delta; raises BadDelta for anything not following the layout exactly (including trailing bytes)."""
    d = Delta()
    if buf[:4] == b"drpm":
        r = Rd(buf); r.take(4)
        d.type = "rpmonly"
        m = r.take(4)
        if m != b"DLT3": raise BadDelta("outer magic %r" % m)
        tn = r.take(r.u32())
        if tn[-1:] != b"\0" or b"\0" in tn[:-1]: raise BadDelta("tgt nevr %r" % tn)
        d.tgt_nevr = tn[:-1].decode()
        d.add = r.take(r.u32())
        body_off = r.p
        d.head = buf[:body_off]
        d.rpm = None
    else:
        try: rp = Rpm(buf)
        except Exception as e: raise BadDelta("rpm: %s" % e)
        d.type = "standard"
        d.rpm = rp
        d.tgt_nevr = rp.nevr
        if rp.tag("PAYLOADFORMAT") != "drpm": raise BadDelta("payload format %r" % rp.tag("PAYLOADFORMAT"))
        body_off = rp.payload_off
        st = {k: v[0] for k, v in rp.sig.items()}
        if 1000 not in st or st[1000][0] != len(rp.header_bytes) + len(rp.payload): raise BadDelta("signature size")
        if st.get(1004) != hashlib.md5(rp.header_bytes + rp.payload).digest(): raise BadDelta("signature md5")
        if set(st) - {62, 1000, 1004}: raise BadDelta("signature tags %s" % sorted(st))
        d.add = b""
    z = buf[body_off:]
    d.comp = C.detect(z); d.zbody = z
    try: body = C.decompress(z, d.comp)
    except Exception as e: raise BadDelta("body: %s" % e)
    d.rawbody = body
    r = Rd(body)
    m = r.take(4)
    if m[:3] != b"DLT" or m[3:] not in (b"1", b"2", b"3"): raise BadDelta("magic %r" % m)
    v = d.version = m[3] - 0x30
    sn = r.take(r.u32())
    if sn[-1:] != b"\0" or b"\0" in sn[:-1]: raise BadDelta("src nevr %r" % sn)
    d.src_nevr = sn[:-1].decode()
    d.sequence = r.take(r.u32())
    if len(d.sequence) < 16 or (d.type == "rpmonly" and len(d.sequence) != 16): raise BadDelta("sequence length")
    d.tgt_md5 = r.take(16)
    d.tgt_size = d.tgt_header_len = 0; d.tgt_comp_param = b""; d.offadj = []; d.tgt_comp = None; d.tgt_level = None
    if v >= 2:
        d.tgt_size = r.u32()
        c = r.u32()
        if c & 0xff not in UNDISK: raise BadDelta("target comp %x" % c)
        d.tgt_comp, d.tgt_level, d.disk_comp = UNDISK[c & 0xff], c >> 8, c & 0xff
        d.tgt_comp_param = r.take(r.u32())
    if v >= 3:
        d.tgt_header_len = r.u32()
        n = r.u32()
        a = [r.u32() for _ in range(n)]; b = [unsignmag(r.u32()) for _ in range(n)]
        d.offadj = list(zip(a, b))
    if d.type == "rpmonly" and d.tgt_header_len == 0: raise BadDelta("target header length")
    d.leadsig = r.take(r.u32())
    if len(d.leadsig) < 112: raise BadDelta("leadsig")
    d.payload_fmt_off = r.u32()
    ni, ne = r.u32(), r.u32()
    a = [r.u32() for _ in range(ni)]; b = [r.u32() for _ in range(ni)]
    d.int_copies = list(zip(a, b))
    a = [unsignmag(r.u32()) for _ in range(ne)]; b = [r.u32() for _ in range(ne)]
    d.ext_copies = list(zip(a, b))
    d.ext_data_len = r.u64() if v >= 3 else r.u32()
    add = r.take(r.u32())
    if d.type == "standard": d.add = add
    elif add: raise BadDelta("add data in rpm-only body")
    d.int_data = r.take(r.u64() if v >= 3 else r.u32())
    if r.p != len(body): raise BadDelta("%d trailing bytes" % (len(body) - r.p))
    return d

def altered_cpio_stream(*a): raise NotImplementedError
