"""Independent writer and reader of RPM packages (lead, signature, header, cpio payload)."""
import hashlib, os, stat, struct
from . import comp as C

T_INT16, T_INT32, T_STRING, T_BIN, T_SARR, T_I18N = 3, 4, 6, 7, 8, 9
HDRMAGIC = b"\x8e\xad\xe8\x01\0\0\0\0"
TAGS = dict(NAME=1000, VERSION=1001, RELEASE=1002, EPOCH=1003, SUMMARY=1004, DESCRIPTION=1005, BUILDTIME=1006, BUILDHOST=1007,
            SIZE=1009, LICENSE=1014, GROUP=1016, OS=1021, ARCH=1022, FILESIZES=1028, FILEMODES=1030, FILERDEVS=1033, FILEMTIMES=1034,
            FILEMD5S=1035, FILELINKTOS=1036, FILEFLAGS=1037, FILEUSERNAME=1039, FILEGROUPNAME=1040, SOURCERPM=1044, FILEVERIFYFLAGS=1045,
            PROVIDENAME=1047, RPMVERSION=1064, FILEDEVICES=1095, FILEINODES=1096, FILELANGS=1097, PROVIDEFLAGS=1112, PROVIDEVERSION=1113,
            DIRINDEXES=1116, BASENAMES=1117, DIRNAMES=1118, PAYLOADFORMAT=1124, PAYLOADCOMPRESSOR=1125, PAYLOADFLAGS=1126,
            FILECOLORS=1140, FILEDIGESTALGO=5011, OLDFILENAMES=1027, ENCODING=5062)
CONFIG, MISSINGOK, GHOST = 1, 8, 64
V_MD5, V_SIZE = 1, 2

def be32(x): return struct.pack(">I", x & 0xffffffff)

STYLES = ["unsorted", "dribble"]      # headers librpm takes and gives back as they are
LOSSY = ["noregion"]                  # ... takes, and gives back otherwise

def build_header(tags, region, style=None):
    """tags: list of (tag, type, value).  style: None; "unsorted" two tags in the other order; "dribble" a tag
    after the end of the region; "noregion" no region at all."""
    ents, data = [], bytearray()
    tags = sorted(tags, key=lambda t: t[0])
    if style == "unsorted":
        st = [i for i, t in enumerate(tags) if t[1] in (T_STRING, T_BIN, T_SARR)]
        i, j = st[len(st) // 2 - 1], st[len(st) // 2]
        tags[i], tags[j] = tags[j], tags[i]
    if style == "noregion": region = None
    for tag, typ, val in tags:
        if typ == T_INT32:
            while len(data) % 4: data.append(0)
            off, cnt = len(data), len(val); data += b"".join(be32(v) for v in val)
        elif typ == T_INT16:
            while len(data) % 2: data.append(0)
            off, cnt = len(data), len(val); data += b"".join(struct.pack(">H", v & 0xffff) for v in val)
        elif typ == T_STRING:
            off, cnt = len(data), 1; data += val.encode("utf-8", "surrogateescape") + b"\0"
        elif typ in (T_SARR, T_I18N):
            off, cnt = len(data), len(val); data += b"".join(v.encode("utf-8", "surrogateescape") + b"\0" for v in val)
        elif typ == T_BIN:
            off, cnt = len(data), len(val); data += val
        ents.append((tag, typ, off, cnt))
    if region:
        il = len(ents) + 1
        off = len(data)
        data += struct.pack(">IIiI", region, T_BIN, -il * 16, 16)
        ents.insert(0, (region, T_BIN, off, 16))
        if style == "dribble":
            ents.append((5099, T_STRING, len(data), 1)); data += b"outside\0"
    h = HDRMAGIC + be32(len(ents)) + be32(len(data))
    return h + b"".join(struct.pack(">IIII", *e) for e in ents) + bytes(data)

def parse_header(buf, off):
    assert buf[off:off + 4] == HDRMAGIC[:4], "header magic"
    il, dl = struct.unpack(">II", buf[off + 8:off + 16])
    base = off + 16 + il * 16
    tags = {}
    for i in range(il):
        tag, typ, o, cnt = struct.unpack(">IIII", buf[off + 16 + i * 16:off + 32 + i * 16])
        p = base + o
        if typ == T_INT32: v = list(struct.unpack(">%dI" % cnt, buf[p:p + 4 * cnt]))
        elif typ == T_INT16: v = list(struct.unpack(">%dH" % cnt, buf[p:p + 2 * cnt]))
        elif typ == T_STRING: v = buf[p:buf.index(b"\0", p)].decode("utf-8", "surrogateescape")
        elif typ in (T_SARR, T_I18N):
            v = []
            for _ in range(cnt):
                e = buf.index(b"\0", p); v.append(buf[p:e].decode("utf-8", "surrogateescape")); p = e + 1
        elif typ == T_BIN: v = buf[p:p + cnt]
        else: v = (typ, o, cnt)
        tags[tag] = (v, o)
    return tags, base + dl

class F:
    """One packaged file."""
    def __init__(self, path, kind="reg", content=b"", mode=None, flags=0, verify=0xffffffff, color=0, rdev=0, linkto="", ino=None, nlink=1,
                 in_payload=True, in_header=True, payload_content=None, header_size=None, mtime=1000000000, user="root", group="root", digest=None,
                 payload_size=None):
        self.path, self.kind, self.content = path, kind, content
        fm = {"reg": stat.S_IFREG | 0o644, "dir": stat.S_IFDIR | 0o755, "sym": stat.S_IFLNK | 0o777, "chr": stat.S_IFCHR | 0o600,
              "blk": stat.S_IFBLK | 0o600, "fifo": stat.S_IFIFO | 0o600, "sock": stat.S_IFSOCK | 0o600}[kind]
        self.mode = fm if mode is None else (mode | stat.S_IFMT(fm))
        self.flags, self.verify, self.color, self.rdev, self.linkto = flags, verify, color, rdev, linkto
        self.ino, self.nlink, self.in_payload, self.in_header = ino, nlink, in_payload, in_header
        self.payload_content = payload_content      # what the archive holds when it differs
        self.header_size = header_size              # what the header says when it differs
        self.mtime, self.user, self.group, self.digest = mtime, user, group, digest
    def size(self):
        if self.header_size is not None: return self.header_size
        if self.kind == "reg": return len(self.content)
        if self.kind == "sym": return len(self.linkto)
        if self.kind == "dir": return 4096
        return 0
    def payload(self):
        if self.payload_content is not None: return self.payload_content
        if self.kind == "reg": return self.content
        if self.kind == "sym": return self.linkto.encode()
        return b""
    def md5(self, algo):
        if self.kind != "reg": return ""
        if self.digest is not None: return self.digest
        if self.flags & GHOST: return ""
        return (hashlib.md5 if algo == 1 else hashlib.sha256)(self.content).hexdigest()

def cpio_entry(name, mode, nlink, size, data, ino=1, mtime=0, rmaj=0, rmin=0, uid=0, gid=0, devmaj=0, devmin=0):
    nm = name.encode() + b"\0"
    h = b"070701" + b"".join(b"%08x" % (v & 0xffffffff) for v in (ino, mode, uid, gid, nlink, mtime, size, devmaj, devmin, rmaj, rmin, len(nm), 0))
    e = h + nm
    e += b"\0" * (-len(e) % 4)
    return e + data + b"\0" * (-len(data) % 4)

def build_cpio(files, prefix="."):
    out = []
    for i, f in enumerate(files):
        if not f.in_payload: continue
        d = f.payload()
        out.append(cpio_entry(prefix + f.path if prefix is not None else f.path.lstrip("/"), f.mode, f.nlink, len(d), d, ino=f.ino or (i + 1), mtime=f.mtime,
                          rmaj=(f.rdev >> 8) & 0xff if f.kind in ("chr", "blk") else 0, rmin=f.rdev & 0xff if f.kind in ("chr", "blk") else 0))
    return b"".join(out) + cpio_entry("TRAILER!!!", 0, 1, 0, b"", ino=0)

class Pkg:
    def __init__(self, name="pkg", version="1", release="1", epoch=None, arch="noarch", files=(), order=None, comp="gzip", level=9,
                 algo=8, colors=False, payload_format="cpio", payload_flags=None, payload_comp=None, srcrpm="pkg-1-1.src.rpm", prefix=".",
                 extra=(), summary="a package", sig_md5=True, oldnames=False, payload=None, trailing=b"", sigextra=(), headstyle=None, sigstyle=None):
        self.__dict__.update(locals()); del self.__dict__["self"]
        self.files = list(files)
    @property
    def nevr(self):
        return "%s-%s%s-%s" % (self.name, "%d:" % self.epoch if self.epoch is not None else "", self.version, self.release)
    def archive_order(self):
        fs = self.files
        return [fs[i] for i in self.order] if self.order is not None else fs
    def hfiles(self):
        return [f for f in self.files if f.in_header]
    def cpio(self):
        return self.payload if self.payload is not None else build_cpio(self.archive_order(), self.prefix)
    def header(self):
        fs = self.hfiles()
        t = [(TAGS["NAME"], T_STRING, self.name), (TAGS["VERSION"], T_STRING, self.version), (TAGS["RELEASE"], T_STRING, self.release),
             (TAGS["SUMMARY"], T_I18N, [self.summary]), (TAGS["DESCRIPTION"], T_I18N, ["d"]), (100, T_SARR, ["C"]),
             (TAGS["BUILDTIME"], T_INT32, [1000000000]), (TAGS["BUILDHOST"], T_STRING, "h"), (TAGS["SIZE"], T_INT32, [sum(f.size() for f in fs)]),
             (TAGS["LICENSE"], T_STRING, "X"), (TAGS["GROUP"], T_I18N, ["g"]), (TAGS["OS"], T_STRING, "linux"), (TAGS["ARCH"], T_STRING, self.arch),
             (TAGS["RPMVERSION"], T_STRING, "4.18.2"),
             (TAGS["PROVIDENAME"], T_SARR, [self.name]), (TAGS["PROVIDEFLAGS"], T_INT32, [8]),
             (TAGS["PROVIDEVERSION"], T_SARR, [("%d:" % self.epoch if self.epoch is not None else "") + self.version + "-" + self.release]),
             (TAGS["ENCODING"], T_STRING, "utf-8")]
        if self.payload_format is not None: t.append((TAGS["PAYLOADFORMAT"], T_STRING, self.payload_format))
        pc = self.payload_comp if self.payload_comp is not None else self.comp
        if pc not in ("none", ""): t.append((TAGS["PAYLOADCOMPRESSOR"], T_STRING, pc))
        pf = self.payload_flags if self.payload_flags is not None else ("" if self.level is None else "6" if isinstance(self.level, tuple) else str(self.level))
        if pf != "<absent>": t.append((TAGS["PAYLOADFLAGS"], T_STRING, pf))
        if self.epoch is not None: t.append((TAGS["EPOCH"], T_INT32, [self.epoch]))
        if self.srcrpm: t.append((TAGS["SOURCERPM"], T_STRING, self.srcrpm))
        if fs:
            t += [(TAGS["FILESIZES"], T_INT32, [f.size() for f in fs]), (TAGS["FILEMODES"], T_INT16, [f.mode for f in fs]),
                  (TAGS["FILERDEVS"], T_INT16, [f.rdev for f in fs]), (TAGS["FILEMTIMES"], T_INT32, [f.mtime for f in fs]),
                  (TAGS["FILEMD5S"], T_SARR, [f.md5(self.algo) for f in fs]), (TAGS["FILELINKTOS"], T_SARR, [f.linkto for f in fs]),
                  (TAGS["FILEFLAGS"], T_INT32, [f.flags for f in fs]), (TAGS["FILEUSERNAME"], T_SARR, [f.user for f in fs]),
                  (TAGS["FILEGROUPNAME"], T_SARR, [f.group for f in fs]), (TAGS["FILEVERIFYFLAGS"], T_INT32, [f.verify for f in fs]),
                  (TAGS["FILEDEVICES"], T_INT32, [1] * len(fs)), (TAGS["FILEINODES"], T_INT32, [f.ino or i + 1 for i, f in enumerate(fs)]),
                  (TAGS["FILELANGS"], T_SARR, [""] * len(fs))]
            if self.oldnames:
                t.append((TAGS["OLDFILENAMES"], T_SARR, [f.path for f in fs]))
            else:
                dirs = []; di = []; bn = []
                for f in fs:
                    d, b = f.path.rsplit("/", 1); d += "/"
                    if d not in dirs: dirs.append(d)
                    di.append(dirs.index(d)); bn.append(b)
                t += [(TAGS["DIRINDEXES"], T_INT32, di), (TAGS["BASENAMES"], T_SARR, bn), (TAGS["DIRNAMES"], T_SARR, dirs)]
            if self.colors: t.append((TAGS["FILECOLORS"], T_INT32, [f.color for f in fs]))
            if self.algo != 1: t.append((TAGS["FILEDIGESTALGO"], T_INT32, [self.algo]))
        t += list(self.extra)
        return build_header(t, 63, self.headstyle)
    def bytes(self):
        hdr = self.header()
        cp = self.cpio()
        payload = C.compress(cp, self.comp, self.level) + self.trailing
        st = [(1000, T_INT32, [len(hdr) + len(payload)]), (1007, T_INT32, [len(cp)]), (269, T_STRING, hashlib.sha1(hdr).hexdigest()),
              (273, T_STRING, hashlib.sha256(hdr).hexdigest())]
        if self.sig_md5: st.append((1004, T_BIN, hashlib.md5(hdr + payload).digest()))
        sig = build_header(st + list(self.sigextra), 62, self.sigstyle)
        sig += b"\0" * (-len(sig) % 8)
        nm = ("%s-%s-%s" % (self.name, self.version, self.release)).encode()[:65]
        lead = b"\xed\xab\xee\xdb\x03\0" + struct.pack(">HH", 0 if self.srcrpm else 1, 255) + nm.ljust(66, b"\0") + struct.pack(">HH", 1, 5) + b"\0" * 16
        assert len(lead) == 96
        return lead + sig + hdr + payload
    def write(self, path):
        with open(path, "wb") as f: f.write(self.bytes())
        return path

class Rpm:
    """Parsed package."""
    def __init__(self, buf):
        assert buf[:4] == b"\xed\xab\xee\xdb", "lead"
        self.buf = buf
        self.sig, e = parse_header(buf, 96)
        self.sig_end = e
        e += -e % 8
        self.leadsig = buf[:e]
        self.hdr_off = e
        self.hdr, e = parse_header(buf, e)
        self.header_bytes = buf[self.hdr_off:e]
        self.payload_off = e
        self.payload = buf[e:]
    def tag(self, n, default=None):
        t = self.hdr.get(TAGS[n] if isinstance(n, str) else n)
        return t[0] if t else default
    @property
    def nevr(self):
        ep = self.tag("EPOCH")
        return "%s-%s%s-%s" % (self.tag("NAME"), "%d:" % ep[0] if ep else "", self.tag("VERSION"), self.tag("RELEASE"))
    def archive(self):
        return C.decompress(self.payload)

def parse_cpio(a):
    """-> list of dict(name, mode, size, off, data_off, end, ...)"""
    out = []; off = 0
    while True:
        h = a[off:off + 110]
        assert h[:6] == b"070701", "cpio magic at %d" % off
        v = [int(h[6 + 8 * i:14 + 8 * i], 16) for i in range(13)]
        d = dict(zip("ino mode uid gid nlink mtime size devmaj devmin rmaj rmin namesize check".split(), v))
        d["off"] = off
        d["name"] = a[off + 110:off + 110 + d["namesize"] - 1].decode()
        p = off + 110 + d["namesize"]; p += -p % 4
        d["data_off"] = p
        e = p + d["size"]; d["data"] = a[p:e]; e += -e % 4
        d["end"] = e
        out.append(d)
        if d["name"] == "TRAILER!!!": return out
        off = e
