"""An installed system in a scratch directory: packages in an rpm database of its own, files on disk."""
import hashlib, os, shutil, subprocess, time
from rpmfile import F, GHOST

class Site:
    """root: where packaged paths point; home(db): HOME whose rpm database holds the packages named in db."""
    def __init__(self, dir):
        self.dir = dir
        self.root = os.path.join(dir, "r")
        os.makedirs(self.root)
        self.pk = {}
        self.homes = {}
    def package(self, name, path, pkg): self.pk[name] = (path, pkg)
    def home(self, db):
        key = ",".join(sorted(db)) or "none"
        if key not in self.homes:
            h = os.path.join(self.dir, "home-" + key.replace(",", "+"))
            os.makedirs(os.path.join(h, "db"))
            with open(os.path.join(h, ".rpmmacros"), "w") as f: f.write("%%_dbpath %s/db\n" % h)
            e = dict(os.environ, HOME=h)
            if db:
                p = subprocess.run(["rpm", "-i", "--justdb", "--nodeps", "--nodigest", "--nosignature", "--force", "--ignorearch", "--ignoreos", "--dbpath", h + "/db"] + [self.pk[n][0] for n in sorted(db)], env=e, capture_output=True, text=True)
                q = subprocess.run(["rpm", "-qa", "--dbpath", h + "/db"], env=e, capture_output=True, text=True)
                assert len(q.stdout.split()) == len(db), (p.stderr, q.stdout, q.stderr)
            else: subprocess.run(["rpm", "--initdb", "--dbpath", h + "/db"], env=e, capture_output=True)
            self.homes[key] = h
        return self.homes[key]
    def put(self, f):
        """one packaged file as packaged"""
        p = f.path
        assert p.startswith(self.root), p
        self.clear(p)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if f.kind == "reg":
            with open(p, "wb") as g: g.write(f.content)
            os.chmod(p, f.mode & 0o777)
        elif f.kind == "dir": os.makedirs(p, exist_ok=True)
        elif f.kind == "sym": os.symlink(f.linkto, p)
        elif f.kind == "fifo": os.mkfifo(p)
        # device nodes are left out: nothing reads them
    def clear(self, p):
        for q in (p, p + ".real"):
            if os.path.islink(q) or os.path.isfile(q): os.unlink(q)
            elif os.path.isdir(q): shutil.rmtree(q)
            elif os.path.exists(q): os.unlink(q)
    def install(self, pkg, skip=()):
        for f in pkg.hfiles():
            if f.kind == "dir" and not any(g.path.startswith(f.path + "/") for g in pkg.hfiles()): self.put(f)
        for f in pkg.hfiles():
            if f.kind == "dir" or f.flags & GHOST or f.path in skip: continue
            self.put(f)
    def state(self, rng, f, s):
        """brings the installed regular file into state s of Installed.tla"""
        self.put(f); p = f.path; c = f.content
        if s == "ok": return
        if s == "touched":
            os.chmod(p, rng.choice([0o400, 0o777, 0o644])); os.utime(p, (rng.randrange(10 ** 9), rng.randrange(10 ** 9)))
            try: os.chown(p, rng.choice([0, 1, 65534]), rng.choice([0, 1, 65534]))
            except OSError: pass
        elif s == "edited":
            b = bytearray(c); k = rng.choice([0, len(b) - 1, rng.randrange(len(b))]); b[k] ^= 1 << rng.randrange(8); open(p, "wb").write(bytes(b))
        elif s == "grown": open(p, "ab").write(rng.choice([b"x", b"\0", rng.randbytes(20), rng.randbytes(9000)]))
        elif s == "shrunk": open(p, "wb").write(c[:rng.choice([0, len(c) - 1, rng.randrange(len(c))])])
        elif s == "rewritten":
            n = rng.choice([len(c) + 1, 2 * len(c) + 5, max(0, len(c) - 1)])
            b = rng.randbytes(n)
            if b[:len(c)] == c or c[:n] == b: b = bytes(255 - x for x in c) + b"zz"
            open(p, "wb").write(b)
        elif s == "gone": os.unlink(p)
        elif s == "dangling": os.unlink(p); os.symlink("/nonexistent/nothing", p)
        elif s == "moved": os.rename(p, p + ".real"); os.symlink(p + ".real", p)
        elif s == "dir": os.unlink(p); os.mkdir(p)
        else: raise ValueError(s)

def snapshot(root, times=True):
    """everything observable below root, as a digest"""
    h = hashlib.sha1()
    for d, ds, fs in os.walk(root):
        ds.sort()
        for n in sorted(ds + fs):
            p = os.path.join(d, n); st = os.lstat(p)
            h.update(repr((p, st.st_mode, st.st_uid, st.st_gid, st.st_size if not os.path.isdir(p) else 0, st.st_mtime_ns if times and not os.path.isdir(p) else 0, st.st_nlink)).encode())
            if os.path.islink(p): h.update(os.readlink(p).encode())
            elif os.path.isfile(p):
                with open(p, "rb") as f: h.update(f.read())
    return h.hexdigest()

def elf(rng, style, n=3000):
    """an ELF file with a section header table, for code that looks for prelinking"""
    import struct
    is64 = rng.random() < .5; le = rng.random() < .5; E = "<" if le else ">"
    names = b"\0.shstrtab\0.text\0"
    nsec, stridx = 3, 1
    ssz = 64 if is64 else 40
    soff = 200; doff = soff + nsec * ssz
    typ = {"plain": 3, "badtype": 1, "badoff": 3, "badlen": 3, "short": 3, "badidx": 3, "badsize": 3, "hugeoff": 3}[style]
    if style == "badidx": stridx = 7
    stroff, strlen = doff, len(names)
    if style == "badoff": stroff = 10 ** 6
    if style == "badlen": strlen = 0xfffffff0
    if style == "hugeoff": stroff = 2 ** 40 if is64 else 0xfffffff0
    if style == "badsize": ssz_f = 0x7fff + 5
    else: ssz_f = ssz
    if style == "short": soff = n + 10
    def sec(name, t, off, size):
        if is64: return struct.pack(E + "IIQQQQIIQQ", name, t, 0, 0, off, size & (2 ** 64 - 1), 0, 0, 1, 0)
        return struct.pack(E + "IIIIIIIIII", name, t, 0, 0, off & 0xffffffff, size & 0xffffffff, 0, 0, 1, 0)
    secs = sec(0, 0, 0, 0) + sec(1, typ, stroff, strlen) + sec(11, 1, 0, 10)
    ident = b"\x7fELF" + bytes([2 if is64 else 1, 1 if le else 2, 1]) + b"\0" * 9
    if is64: h = ident + struct.pack(E + "HHIQQQIHHHHHH", 2, 62, 1, 0, 0, soff, 0, 64, 0, 0, ssz_f, nsec, stridx)
    else: h = ident + struct.pack(E + "HHIIIIIHHHHHH", 2, 3, 1, 0, 0, soff & 0xffffffff, 0, 52, 0, 0, ssz_f, nsec, stridx)
    b = h.ljust(200, b"\0") + secs + names
    return b.ljust(n, b"\x90")
