OLDNEW = '''build()
import random
r = random.Random(5); a = r.randbytes(6000); b = a[:2500] + b"changed" + a[2500:]
'''
SEEDS = [
("run-of-eight", "C06", [("src/drpm_make.c", "    while (tmp >= (1<<3)) {", "    while (tmp > (1<<3)) {")],
 "a number of exactly 8 (or 64 to 71) in the file order: a run of 8 files or 8 files left out", "the sequence says another order than the archive has; applying is refused", OLDNEW + r'''
fs = [F("/d/f%02d" % i, content=r.randbytes(50), flags=1 if i == 8 else 0) for i in range(12)]      # the ninth one is configuration
Pkg(name="o", version="1", files=fs).write(P("old")); Pkg(name="o", version="2", files=fs).write(P("new"))
o = run(["make", P("old"), P("new"), P("d")], ["apply", P("old"), P("d"), P("out")], ["read", 0, P("d")], ["str", 0, 4])
expect(o[1] == 0 and same(P("new"), P("out")), o)
'''),
("sum-wraps", "C08", [("src/drpm_read.c", "    uint64_t off;", "    uint32_t off;")],
 "lengths of copies from internal data whose sum passes 2^32 and comes out small", "a malformed delta is read as if it were sound and its instructions read memory past the internal data", OLDNEW + r'''
import struct
x = b"".join(bytes([i]) * 3 + a[400 * i:400 * i + 400] for i in range(14))
Pkg(name="o", version="1", files=[F("/a", content=a)], comp="gzip").write(P("old")); Pkg(name="o", version="2", files=[F("/a", content=x)], comp="gzip").write(P("new"))
o = run(["oinit", 0], ["otype", 0, 1], ["ocomp", 0, 0, 0], ["oforbid", 0], ["make", P("old"), P("new"), P("d"), 0], ["read", 0, P("d")], ["arr", 0, 15])
expect(o == [0] * 7, o)
v = [int(z) for z in o.words[6][0].split(":")[1].split(",") if z]; ln = v[1::2]; n = len(ln)
d = open(P("d"), "rb").read(); pat = b"".join(struct.pack(">I", z) for z in ln)
expect(n > 3 and d.count(pat) == 1, "the lengths are not found")
k = next(i for i in range(n - 1) if ln[i])
done = sum(ln[:k + 1]); ln[k + 1] = 2 ** 32 - done
open(P("d2"), "wb").write(d.replace(pat, b"".join(struct.pack(">I", z) for z in ln)))
o = run(["read", 0, P("d2")])
expect(o[0] == FORMAT, "reading says %d" % o[0])
'''),
("seqfile-append", "C15", [("src/drpm_write.c", '    if ((file = fopen(filename, "w")) == NULL)', '    if ((file = fopen(filename, "a")) == NULL)')],
 "a sequence file that exists already", "the sequence file holds the old contents too", OLDNEW + r'''
Pkg(name="o", version="1", files=[F("/a", content=a)]).write(P("old")); Pkg(name="o", version="2", files=[F("/a", content=b)]).write(P("new"))
o = run(["oinit", 0], ["oseq", 0, P("seq")], ["make", P("old"), P("new"), P("d"), 0]); one = open(P("seq")).read()
o = run(["oinit", 0], ["oseq", 0, P("seq")], ["make", P("old"), P("new"), P("d"), 0])
expect(o == [0, 0, 0] and open(P("seq")).read() == one, "the sequence file is %r" % open(P("seq")).read())
'''),
("identity-unchecked", "C03", [("src/drpm.c", "        goto final_check;\n", "        goto cleanup;\n")],
 "an identity rpm-only delta and a source package whose payload was damaged while its header and signature are intact", "apply reports success with a damaged package", OLDNEW + r'''
Pkg(name="o", version="1", files=[F("/a", content=a)], comp="gzip").write(P("p"))
d = bytearray(open(P("p"), "rb").read()); d[-1000] ^= 4; open(P("bad"), "wb").write(d)
o = run(["oinit", 0], ["otype", 0, 1], ["make", P("p"), "-", P("d"), 0], ["apply", P("p"), P("d"), P("o1")], ["apply", P("bad"), P("d"), P("o2")])
expect(o[:4] == [0, 0, 0, 0] and same(P("p"), P("o1")), o)
expect(o[4] != 0 or same(P("p"), P("o2")), "success with a damaged package")
'''),
("link-boundary", "C02", [("src/drpm_block.c", "                    strncpy((char *)buf_ptr, blks->linkto + file_off, read_len);", "                    strncpy((char *)buf_ptr, blks->linkto, read_len);")],
 "an apply without the old package, the target of a symbolic link lying across a multiple of 8192 bytes of the source's archive, and a delta that uses it", "the second half of the link's target is wrong; the package is not rebuilt", r'''
build()
import random
from installed import Site
s = Site(W); r = random.Random(4); ok = 0
path = s.root + "/a"
for n in range(8192 - 110 - len(path) - 300, 8192 - 110 - len(path), 40):
    c = r.randbytes(n); to = "".join(r.choice("abcdefgh/") for i in range(190))
    fs = [F(path, content=c), F(s.root + "/l", kind="sym", linkto=to)]
    p = Pkg(name="o%d" % n, version="1", files=fs, arch="x86_64"); p.write(P("old"))
    # the new one holds the old archive, link included
    arch = cpio_entry("." + path, fs[0].mode, 1, n, c, ino=0, mtime=0) + cpio_entry("." + fs[1].path, fs[1].mode, 1, len(to), to.encode(), ino=0, mtime=0)
    q = Pkg(name="o%d" % n, version="2", files=[F(s.root + "/b", content=arch)], arch="x86_64"); q.write(P("new"))
    s.package("o%d" % n, P("old"), p); h = s.home(["o%d" % n]); s.install(p)
    o = run(["make", P("old"), P("new"), P("d")], ["apply", "-", P("d"), P("out")], ["apply", P("old"), P("d"), P("out2")], env={"HOME": h})
    expect(o == [0, 0, 0] and same(P("new"), P("out")) and same(P("new"), P("out2")), "with %d bytes before: %r" % (n, o))
'''),
("link-boundary-rpm", "C01", [("src/drpm_block.c", "                    blks->linkto += MIN(strlen(blks->linkto), read_len);\n", "")],
 "an apply with the old package, the target of a symbolic link lying across a multiple of 8192 bytes of the source's archive, and a delta that uses it", "the second half of the link's target is wrong; the package is not rebuilt", r'''
build()
import random
r = random.Random(4)
for n in range(8192 - 110 - 300, 8192 - 110, 12):
    c = r.randbytes(n); to = "".join(r.choice("abcdefgh/") for i in range(190))
    fs = [F("/a", content=c), F("/l", kind="sym", linkto=to)]
    Pkg(name="o", version="1", files=fs).write(P("old"))
    arch = cpio_entry("./a", fs[0].mode, 1, n, c, ino=0, mtime=0) + cpio_entry("./l", fs[1].mode, 1, len(to), to.encode(), ino=0, mtime=0)
    Pkg(name="o", version="2", files=[F("/b", content=arch)]).write(P("new"))
    o = run(["make", P("old"), P("new"), P("d")], ["apply", P("old"), P("d"), P("out")])
    expect(o == [0, 0] and same(P("new"), P("out")), "with %d bytes before: %r" % (n, o))
'''),
("seqfile-memory", "C14", [("src/drpm_write.c", "    if ((sequence = malloc(delta->sequence_len * 2 + 1)) == NULL) {\n        error = DRPM_ERR_MEMORY;\n        goto cleanup;\n    }\n", "    sequence = malloc(delta->sequence_len * 2 + 1);\n")],
 "memory that runs out at the one allocation for writing the sequence file", "making the delta crashes", r'''
build()
import random, subprocess
r = random.Random(5); a = r.randbytes(3000)
n = 40000
fs = [F("/d/f%05d" % i, content=b"") for i in range(300)]
Pkg(name="o", version="1", files=fs).write(P("old"))
open(P("oom.c"), "w").write("""
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdlib.h>
#include <stdio.h>
static int armed;
FILE *fopen(const char *n, const char *m) { static FILE *(*f)(const char *, const char *); if (!f) f = dlsym(RTLD_NEXT, "fopen"); FILE *r = f(n, m); size_t l = __builtin_strlen(n); if (l > 4 && !__builtin_strcmp(n + l - 4, "/seq")) armed = 1; return r; }
void *malloc(size_t n) { static void *(*m)(size_t); if (!m) m = dlsym(RTLD_NEXT, "malloc"); if (armed) { armed = 0; return NULL; } return m(n); }
""")
subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-o", P("oom.so"), P("oom.c"), "-ldl"], check=True)
o = run(["oinit", 0], ["oseq", 0, P("seq")], ["make", P("old"), "-", P("d"), 0], env={"LD_PRELOAD": P("oom.so")})
expect(o.code == 0 and list(o) == [0, 0, MEMORY], "exit %d, %r" % (o.code, list(o)))
'''),
]
