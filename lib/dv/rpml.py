"""Lists of a package's files (rpml), as makedeltarpm -p reads them."""
import hashlib, struct

class L:
    """name, evr; patches: names of the patches; unpatched: names of files; files: (name, mode, content or None for no digest)"""
    def __init__(self, name, evr, files=(), patches=(), unpatched=(), long_names=False, owner=(b"", b""), wide=False, rdev=0):
        self.name, self.evr, self.files, self.patches, self.unpatched = name, evr, list(files), list(patches), list(unpatched)
        self.share, self.owner, self.wide, self.rdev = not long_names, owner, wide, rdev
    def entries(self):
        """as a reader comes to know them, in order: (name, listed as unpatched, hex MD5 or none)"""
        out = [(n, True, "0" * 32) for n in (self.unpatched if self.patches else [])]
        for n, mode, c in self.files:
            has = mode and mode & 0o170000 in (0o100000, 0o120000) and c
            out.append((n[2:] if n.startswith("./") else n, False, hashlib.md5(c).hexdigest() if has else "0" * 32))
        return out
    def bytes(self, magic=b"RPML"):
        s8 = lambda s: bytes([len(s.encode())]) + s.encode()
        prev = [b""]
        def fn(cur):
            p, c = prev[0], cur.encode(); o = 0
            while self.share and o < min(len(p), len(c), 255) and p[o] == c[o]: o += 1
            r = c[o:]; prev[0] = c
            return bytes([o]) + (bytes([len(r)]) if len(r) < 255 else b"\xff" + struct.pack(">H", len(r))) + r
        b = magic + s8(self.name) + s8(self.evr) + s8("host.example") + struct.pack(">IH", 1234567890, len(self.patches))
        for p in self.patches: b += s8(p)
        if self.patches:
            b += struct.pack(">I", len(self.unpatched))
            for u in self.unpatched: b += fn(u)
        for n, mode, c in self.files:
            b += fn(n) + struct.pack(">H", mode)
            if not mode: continue
            c = c or b""; k = max(1, (len(c).bit_length() + 7) // 8); u, g = self.owner
            # how long the owner's and group's names are (0: root), in a short or a wide form
            if self.wide: b += bytes([255, len(u) - 1 if u else 0, (len(g) - 1 if g else 0) << 2 | k - 1])
            else: b += bytes([(len(u) - 1 if u else 0) << 5 | (len(g) - 1 if g else 0) << 2 | k - 1])
            b += u + g
            if mode & 0o170000 in (0o20000, 0o60000): b += struct.pack(">I", self.rdev)
            if mode & 0o170000 in (0o100000, 0o120000): b += len(c).to_bytes(k, "big") + (hashlib.md5(c).digest() if c else b"")
        return b + b"\0\0"
