"""Compressors used to build packages and deltas, independent of the code under test.
gzip/bzip2/lzma/xz/zstd are produced by rpm's own I/O layer (librpmio), i.e. exactly what rpmbuild would write."""
import ctypes, os, tempfile, zlib, bz2, lzma

_rpmio = None
def rpmio():
    global _rpmio
    if _rpmio is None:
        lib = ctypes.CDLL("librpmio.so.9")
        lib.Fopen.restype = ctypes.c_void_p
        lib.Fopen.argtypes = [ctypes.c_char_p, ctypes.c_char_p]
        lib.Fwrite.restype = ctypes.c_ssize_t
        lib.Fwrite.argtypes = [ctypes.c_char_p, ctypes.c_size_t, ctypes.c_size_t, ctypes.c_void_p]
        lib.Fread.restype = ctypes.c_ssize_t
        lib.Fread.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_size_t, ctypes.c_void_p]
        lib.Fclose.argtypes = [ctypes.c_void_p]
        _rpmio = lib
    return _rpmio

_DIO = {"gzip": "gzdio", "bzip2": "bzdio", "lzma": "lzdio", "xz": "xzdio", "zstd": "zstdio"}
_cache = {}

def _rpm_compress(data, comp, level):
    lib = rpmio()
    fd, path = tempfile.mkstemp(prefix="dvc")
    os.close(fd)
    try:
        f = lib.Fopen(path.encode(), ("w%s.%s" % ("" if level is None else level, _DIO[comp])).encode())
        assert f, (comp, level)
        off = 0
        while off < len(data):
            chunk = data[off:off + 32768]          # rpm writes payloads in pieces
            assert lib.Fwrite(chunk, 1, len(chunk), f) == len(chunk)
            off += len(chunk)
        assert lib.Fclose(f) == 0
        with open(path, "rb") as g:
            return g.read()
    finally:
        os.unlink(path)

_lz = None
def lzlib():
    global _lz
    if _lz is None:
        l = ctypes.CDLL("liblz.so.1")
        l.LZ_compress_open.restype = ctypes.c_void_p
        l.LZ_compress_open.argtypes = [ctypes.c_int, ctypes.c_int, ctypes.c_ulonglong]
        l.LZ_decompress_open.restype = ctypes.c_void_p
        for n in ("compress_finish", "compress_finished", "compress_close", "decompress_finish", "decompress_finished", "decompress_close", "compress_write_size", "decompress_write_size"):
            getattr(l, "LZ_" + n).argtypes = [ctypes.c_void_p]
        for n in ("compress_read", "compress_write", "decompress_read", "decompress_write"):
            getattr(l, "LZ_" + n).argtypes = [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_int]
        _lz = l
    return _lz

LZ_LEVELS = [(65535, 16), (1 << 20, 5), (3 << 19, 6), (1 << 21, 8), (3 << 20, 12), (1 << 22, 20), (1 << 23, 36), (1 << 24, 68), (3 << 23, 132), (1 << 25, 273)]
def _lz_run(data, enc, level=None):
    l = lzlib()
    if enc:
        s = l.LZ_compress_open(*(level if isinstance(level, tuple) else LZ_LEVELS[level or 0]), 0xFFFFFFFFFFFFFFFF); p = "compress"
    else:
        s = l.LZ_decompress_open(); p = "decompress"
    g = lambda n: getattr(l, "LZ_%s_%s" % (p, n))
    out = []; buf = ctypes.create_string_buffer(65536); off = 0; fin = False
    while True:
        if off < len(data):
            n = g("write")(s, data[off:off + 16384], len(data[off:off + 16384]))
            if n < 0: raise ValueError("lzip")
            off += n
        elif not fin:
            g("finish")(s); fin = True
        r = g("read")(s, buf, 65536)
        if r < 0: raise ValueError("lzip")
        out.append(buf.raw[:r])
        if fin and g("finished")(s) == 1: break
        if fin and r == 0 and not enc: raise ValueError("lzip truncated")
    g("close")(s)
    return b"".join(out)

_zs = None
def zstdlib():
    global _zs
    if _zs is None:
        z = ctypes.CDLL("libzstd.so.1")
        z.ZSTD_compressBound.restype = ctypes.c_size_t
        z.ZSTD_compressBound.argtypes = [ctypes.c_size_t]
        z.ZSTD_compress.restype = ctypes.c_size_t
        z.ZSTD_compress.argtypes = [ctypes.c_char_p, ctypes.c_size_t, ctypes.c_char_p, ctypes.c_size_t, ctypes.c_int]
        z.ZSTD_createDStream.restype = ctypes.c_void_p
        z.ZSTD_freeDStream.argtypes = [ctypes.c_void_p]
        class Buf(ctypes.Structure):
            _fields_ = [("p", ctypes.c_void_p), ("size", ctypes.c_size_t), ("pos", ctypes.c_size_t)]
        z.Buf = Buf
        z.ZSTD_decompressStream.restype = ctypes.c_size_t
        z.ZSTD_decompressStream.argtypes = [ctypes.c_void_p, ctypes.POINTER(Buf), ctypes.POINTER(Buf)]
        z.ZSTD_isError.argtypes = [ctypes.c_size_t]
        _zs = z
    return _zs

def _zstd_decompress(data):
    z = zstdlib()
    d = z.ZSTD_createDStream()
    src = ctypes.create_string_buffer(data, len(data)); dst = ctypes.create_string_buffer(1 << 17)
    i = z.Buf(ctypes.addressof(src), len(data), 0)
    out = []
    try:
        while True:
            o = z.Buf(ctypes.addressof(dst), 1 << 17, 0)
            r = z.ZSTD_decompressStream(d, ctypes.byref(o), ctypes.byref(i))
            if z.ZSTD_isError(r): raise ValueError("zstd")
            out.append(dst.raw[:o.pos])
            if r == 0: break
            if i.pos == i.size and o.pos < (1 << 17): raise ValueError("zstd truncated")
        return b"".join(out)
    finally:
        z.ZSTD_freeDStream(d)

class _ZBuf(ctypes.Structure): _fields_ = [("p", ctypes.c_void_p), ("size", ctypes.c_size_t), ("pos", ctypes.c_size_t)]
def odd(data, comp, seed):
    """the same data as another encoder might write it: blocks ended at odd places, other settings"""
    import random
    rng = random.Random(seed)
    cuts = [0]
    while cuts[-1] < len(data): cuts.append(min(len(data), cuts[-1] + rng.choice([1, 100, 5000, 70000, 100000, 130000])))
    if comp == "gzip":
        c = zlib.compressobj(rng.choice([0, 1, 9]), zlib.DEFLATED, 31, rng.choice([1, 9]), rng.choice([0, 2, 4])); out = b""
        for a, b in zip(cuts, cuts[1:]): out += c.compress(data[a:b]) + c.flush(rng.choice([zlib.Z_SYNC_FLUSH, zlib.Z_FULL_FLUSH]))
        return out + c.flush()
    if comp == "bzip2": return bz2.compress(data, rng.choice([1, 5]))
    if comp == "xz": return lzma.compress(data, lzma.FORMAT_XZ, rng.choice([lzma.CHECK_NONE, lzma.CHECK_SHA256, lzma.CHECK_CRC32]), rng.choice([0, 9]))
    if comp == "lzma": return lzma.compress(data, lzma.FORMAT_ALONE, filters=[{"id": lzma.FILTER_LZMA1, "preset": rng.choice([0, 4]), "dict_size": 1 << rng.choice([16, 20])}])
    if comp == "zstd":
        z = zstdlib(); z.ZSTD_createCCtx.restype = ctypes.c_void_p
        z.ZSTD_freeCCtx.argtypes = [ctypes.c_void_p]; z.ZSTD_CCtx_setParameter.argtypes = [ctypes.c_void_p, ctypes.c_int, ctypes.c_int]
        z.ZSTD_compressStream2.restype = ctypes.c_size_t; z.ZSTD_compressStream2.argtypes = [ctypes.c_void_p, ctypes.c_void_p, ctypes.c_void_p, ctypes.c_int]
        cc = z.ZSTD_createCCtx(); z.ZSTD_CCtx_setParameter(cc, 100, rng.choice([1, 3, 12])); z.ZSTD_CCtx_setParameter(cc, 201, rng.choice([0, 0, 1]))
        out = b""; dst = ctypes.create_string_buffer(1 << 18)
        for a, b in zip(cuts, cuts[1:]):
            src = ctypes.create_string_buffer(data[a:b], b - a); i = _ZBuf(ctypes.addressof(src), b - a, 0)
            while True:
                o = _ZBuf(ctypes.addressof(dst), 1 << 18, 0)
                r = z.ZSTD_compressStream2(cc, ctypes.byref(o), ctypes.byref(i), 2 if b == len(data) else 1)
                assert not z.ZSTD_isError(r); out += dst.raw[:o.pos]
                if r == 0: break
        z.ZSTD_freeCCtx(cc)
        return out
    return compress(data, comp, 0)

def compress(data, comp, level=None):
    """level None = the method's default in rpm; ("odd", seed): see odd."""
    if isinstance(level, tuple) and level and level[0] == "odd": return odd(data, comp, level[1])
    key = (comp, level, data) if len(data) < 1 << 20 else None
    if key and key in _cache: return _cache[key]
    if comp in (None, "none"): r = data
    elif comp == "lzip": r = _lz_run(data, True, level)
    else: r = _rpm_compress(data, comp, level)
    if key: _cache[key] = r
    return r

MAGIC = [(b"\x1f\x8b", "gzip"), (b"BZh", "bzip2"), (b"\xfd7zXZ\0", "xz"), (b"\x28\xb5\x2f\xfd", "zstd"), (b"LZIP", "lzip"), (b"\x5d\0\0", "lzma")]
def detect(data):
    for m, n in MAGIC:
        if data.startswith(m): return n
    return "none"

def decompress(data, comp=None):
    if comp is None: comp = detect(data)
    if comp == "none": return data
    if comp == "gzip":
        d = zlib.decompressobj(31); r = d.decompress(data) + d.flush()
        if not d.eof: raise ValueError("gzip truncated")
        return r
    if comp == "bzip2":
        d = bz2.BZ2Decompressor(); r = d.decompress(data)
        if not d.eof: raise ValueError("bzip2 truncated")
        return r
    if comp in ("xz", "lzma"):
        d = lzma.LZMADecompressor(); r = d.decompress(data)
        if not d.eof: raise ValueError("xz truncated")
        return r
    if comp == "zstd": return _zstd_decompress(data)
    if comp == "lzip": return _lz_run(data, False)
    raise ValueError(comp)
