OLDNEW = '''build()
import random
r = random.Random(5); a = r.randbytes(6000); b = a[:2500] + b"changed" + a[2500:]
'''
SEEDS = [
("sizes-symlink", "C05", [("src/drpm_apply.c", "    if (stat(filename, &stats) != 0)\n        return DRPM_ERR_NOINSTALL;", "    if (lstat(filename, &stats) != 0)\n        return DRPM_ERR_NOINSTALL;")],
 "an installed file that was moved elsewhere and is reached through a symbolic link", "the sizes check compares the length of the link and reports a changed file, though applying works", OLDNEW + r'''
from installed import Site
s = Site(W)
p = Pkg(name="o", version="1", files=[F(s.root + "/a", content=a)], arch="x86_64"); p.write(P("old")); q = Pkg(name="o", version="2", files=[F(s.root + "/a", content=b)], arch="x86_64"); q.write(P("new"))
s.package("o", P("old"), p); h = s.home(["o"]); s.install(p)
os.rename(s.root + "/a", s.root + "/elsewhere"); os.symlink(s.root + "/elsewhere", s.root + "/a")
o = run(["make", P("old"), P("new"), P("d")], ["apply", "-", P("d"), P("out")], ["check", P("d"), 1], ["check", P("d"), 2], env={"HOME": h})
expect(o[:3] == [0, 0, 0] and same(P("new"), P("out")), o)
expect(o[3] == 0, "the sizes check says %d, applying works" % o[3])
'''),
("nevr-prefix", "C04", [("src/drpm.c", "    if (strcmp(delta.src_nevr, old_rpm_nevr) != 0) {\n        error = DRPM_ERR_MISMATCH;\n        goto cleanup;\n    }\n\n    if (!rpm_only) {", "    if (strncmp(delta.src_nevr, old_rpm_nevr, strlen(delta.src_nevr)) != 0) {\n        error = DRPM_ERR_MISMATCH;\n        goto cleanup;\n    }\n\n    if (!rpm_only) {")],
 "a package with the source's files whose release starts with the source's release", "a delta made from o-1-1 is applied onto o-1-10", OLDNEW + r'''
Pkg(name="o", version="1", release="1", files=[F("/a", content=a)]).write(P("old")); Pkg(name="o", version="1", release="10", files=[F("/a", content=a)]).write(P("other")); Pkg(name="o", version="2", files=[F("/a", content=b)]).write(P("new"))
o = run(["make", P("old"), P("new"), P("d")], ["apply", P("other"), P("d"), P("out")], ["apply", P("old"), P("d"), P("out")])
expect(o == [0, MISMATCH, 0], o)
'''),
("signature-zero", "C04", [("src/drpm.c", "            if (memcmp(delta.sequence, oldsig_md5, MD5_DIGEST_LENGTH) != 0) {", "            if (strncmp((const char *)delta.sequence, (const char *)oldsig_md5, MD5_DIGEST_LENGTH) != 0) {")],
 "two packages of one name, version and release whose MD5 sums both start with a zero byte, an rpm-only delta, and a difference the delta does not touch", "the delta is applied onto another package than its source", OLDNEW + r'''
from rpmfile import Rpm
def zero(extra):
    for i in range(5000):
        x = Pkg(name="o", version="1", files=[F("/a", content=a), F("/b", content=extra + b"%05d" % i)], comp="gzip", level=1).bytes()
        if Rpm(x).sig[1004][0][0] == 0: return x
    fail("no package found")
open(P("old"), "wb").write(zero(b"x" * 500)); open(P("other"), "wb").write(zero(b"y" * 500))
Pkg(name="o", version="2", files=[F("/a", content=b)]).write(P("new"))
o = run(["oinit", 0], ["otype", 0, 1], ["make", P("old"), P("new"), P("d"), 0], ["apply", P("other"), P("d"), P("out")], ["apply", P("old"), P("d"), P("out")])
expect(o[:3] == [0, 0, 0] and o[4] == 0 and same(P("new"), P("out")), o)
expect(o[3] == MISMATCH, "another package is %d" % o[3])
''' ),
("seek-offset", "C10", [("src/drpm_block.c", "                file->offset = file_off + read_len;", "                file->offset += read_len;")],
 "an apply without the old package, whose instructions go back and forth in an installed file of several blocks", "the position in an installed file is lost and wrong data is read", r'''
build()
import random
from installed import Site
s = Site(W); r = random.Random(4); old = r.randbytes(8192 * 8); path = s.root + "/a"; h = (110 + len(path) + 2 + 3) // 4 * 4
x = [old[max(0, 8192 * k - h):8192 * k + 8192 - h] for k in range(8)]     # what of the file lies in each block
new = b"".join(x[i] for i in (0, 3, 2, 1, 6, 5, 4))
p = Pkg(name="o", version="1", files=[F(path, content=old)], arch="x86_64"); p.write(P("old"))
q = Pkg(name="o", version="2", files=[F(path, content=new)], arch="x86_64"); q.write(P("new"))
s.package("o", P("old"), p); h = s.home(["o"]); s.install(p)
o = run(["make", P("old"), P("new"), P("d")], ["apply", P("old"), P("d"), P("o1")], ["apply", "-", P("d"), P("o2")], env={"HOME": h})
expect(o == [0, 0, 0], o); expect(same(P("new"), P("o1")) and same(P("new"), P("o2")), "wrong package rebuilt")
'''),
("array-sign", "C18", [("src/drpm.c", "            (*ret_array)[i] = (unsigned long)array[i];", "            (*ret_array)[i] = (unsigned long)(int)array[i];")],
 "a delta with a copy from before the end of the previous one", "numbers of the array that stand for negative offsets come out as 64-bit values", r'''
build()
import random
r = random.Random(4); x = [r.randbytes(9000) for i in range(4)]
Pkg(name="o", version="1", files=[F("/a", content=b"".join(x))]).write(P("old")); Pkg(name="o", version="2", files=[F("/a", content=b"".join(x[::-1]))]).write(P("new"))
o = run(["make", P("old"), P("new"), P("d")], ["read", 0, P("d")], ["arr", 0, 16])
expect(o[:3] == [0, 0, 0], o)
v = [int(z) for z in o.words[2][0].split(":")[1].split(",") if z]
expect(any(z >> 31 for z in v), "no negative offset"); expect(all(z >> 32 == 0 for z in v), "values of more than 32 bits: %r" % v)
'''),
("level-limit", "C20", [("src/drpm_compstrm.c", "(level < 1 || level > 99)", "(level < 1 || level > 19)")],
 "a package compressed with zstd at one of the levels 20 to 22", "no delta can be made for it", OLDNEW + r'''
Pkg(name="o", version="1", files=[F("/a", content=a)], comp="zstd", level=3).write(P("old")); Pkg(name="o", version="2", files=[F("/a", content=b)], comp="zstd", level=20).write(P("new"))
o = run(["make", P("old"), P("new"), P("d")], ["apply", P("old"), P("d"), P("out")]); expect(o == [0, 0] and same(P("new"), P("out")), o)
'''),
("version-zero", "C17", [("src/drpm_options.c", "    if (opts == NULL || version < 1 || version > 3)", "    if (opts == NULL || version > 3)")],
 "a call that asks for version 0", "a version that does not exist is accepted, and deltas nobody can read are made", OLDNEW + r'''
Pkg(name="o", version="1", files=[F("/a", content=a)]).write(P("old")); Pkg(name="o", version="2", files=[F("/a", content=b)]).write(P("new"))
o = run(["oinit", 0], ["over", 0, 0], ["over", 0, 4], ["make", P("old"), P("new"), P("d"), 0], ["apply", P("old"), P("d"), P("out")])
expect(o == [0, ARGS, ARGS, 0, 0], o)
'''),
("raw-offsets", "C21", [("src/drpm_write.c", "                                                 TWOS_COMPLEMENT(delta->ext_copies[i]) | INT32_MIN :", "                                                 delta->ext_copies[i] :"),
   ("src/drpm_read.c", "                delta->ext_copies[i] = TWOS_COMPLEMENT(delta->ext_copies[i] ^ INT32_MIN);", "                delta->ext_copies[i] = delta->ext_copies[i];")],
 "a delta with a copy from before the end of the previous one; writer and reader agree with each other", "negative offsets are stored in another form than the format's, so that deltas cannot be exchanged with other programs", r'''
build()
import random, subprocess
r = random.Random(4); x = [r.randbytes(9000) for i in range(4)]
Pkg(name="o", version="1", files=[F("/a", content=b"".join(x))]).write(P("old")); Pkg(name="o", version="2", files=[F("/a", content=b"".join(x[::-1]))]).write(P("new"))
o = run(["make", P("old"), P("new"), P("d")], ["apply", P("old"), P("d"), P("out")]); expect(o == [0, 0] and same(P("new"), P("out")), o)
c = subprocess.run(["applydeltarpm", "-r", P("old"), P("d"), P("ref")], capture_output=True)
expect(c.returncode == 0 and same(P("new"), P("ref")), "applydeltarpm: %r" % (c,))
'''),
("old-bzip2", "C07", [("src/drpm_deltarpm.c", "    case DELTARPM_COMP_BZ_20:\n    case DELTARPM_COMP_BZ_17:\n", "    case DELTARPM_COMP_BZ_20:\n")],
 "a delta whose target's compression is recorded with the number of an older bzip2", "deltas of that kind cannot be read", OLDNEW + r'''
import struct
Pkg(name="o", version="1", files=[F("/a", content=a)], comp="bzip2", level=9).write(P("old")); Pkg(name="o", version="2", files=[F("/a", content=b)], comp="bzip2", level=9).write(P("new"))
o = run(["oinit", 0], ["ocomp", 0, 0, 0], ["make", P("old"), P("new"), P("d"), 0], ["apply", P("old"), P("d"), P("out")]); expect(o == [0, 0, 0, 0], o)
d = open(P("d"), "rb").read(); i = d.rindex(struct.pack(">II", os.path.getsize(P("new")), 2 | 9 << 8))
open(P("d2"), "wb").write(d[:i + 7] + b"\4" + d[i + 8:])
o = run(["apply", P("old"), P("d2"), P("out2")], ["read", 0, P("d2")]); expect(o == [0, 0] and same(P("new"), P("out2")), o)
'''),
("seqfile-kept", "C12", [("src/drpm_options.c", "    if (seqfile == NULL) {\n        free(opts->seqfile);\n        opts->seqfile = NULL;\n    } else {", "    if (seqfile != NULL) {")],
 "options with a sequence file that is taken back by passing no name, and a delta made then", "the sequence is written although it was called off", OLDNEW + r'''
Pkg(name="o", version="1", files=[F("/a", content=a)]).write(P("old")); Pkg(name="o", version="2", files=[F("/a", content=b)]).write(P("new"))
o = run(["oinit", 0], ["oseq", 0, P("seq")], ["oseq", 0, "-"], ["make", P("old"), P("new"), P("d"), 0]); expect(o == [0, 0, 0, 0], o)
expect(not os.path.exists(P("seq")), "a sequence file was written")
'''),
]
