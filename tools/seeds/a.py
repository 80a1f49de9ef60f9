SEEDS = [
("output-tail", "C19", [("src/drpm_write.c", "(filedesc = creat(delta->filename, CREAT_MODE)) < 0", "(filedesc = open(delta->filename, O_WRONLY | O_CREAT, CREAT_MODE)) < 0")],
 "an rpm-only delta made over an existing, longer output file", "the delta's bytes depend on what the output file contained before: what is beyond the new delta's end stays", r'''
build()
import random
r = random.Random(1); a = r.randbytes(3000); b = a[:1500] + b"x" + a[1500:]
Pkg(name="o", version="1", files=[F("/a", content=a)]).write(P("old")); Pkg(name="o", version="2", files=[F("/a", content=b)]).write(P("new"))
open(P("d2"), "wb").write(b"\xee" * 100000)
o = run(["oinit", 0], ["otype", 0, 1], ["make", P("old"), P("new"), P("d1"), 0], ["make", P("old"), P("new"), P("d2"), 0])
expect(o == [0, 0, 0, 0], o)
expect(same(P("d1"), P("d2")), "two deltas of the same packages differ")
'''),
("short-write", "C13", [("src/drpm_write.c", "if (write(filedesc, strm_data, strm_data_len) != (ssize_t)strm_data_len)\n        error", "if (strm_data_len > 0 && write(filedesc, strm_data, strm_data_len) <= 0)\n        error")],
 "storage that runs out in the middle of the last write of the delta, so that the write is short", "a delta cut short is reported as success", r'''
build()
import random
r = random.Random(1); a = r.randbytes(30000); b = r.randbytes(30000)
Pkg(name="o", version="1", files=[F("/a", content=a)]).write(P("old")); Pkg(name="o", version="2", files=[F("/a", content=b)]).write(P("new"))
o = run(["make", P("old"), P("new"), P("d")]); expect(o == [0], o)
n = os.path.getsize(P("d"))
for k in (1, 100, 5000, 20000, n // 2):
    os.unlink(P("d")); o = run(["fsize", n - k], ["make", P("old"), P("new"), P("d")])
    expect(o[1] != OK, "made a delta of %d bytes that is %d bytes long" % (n, os.path.getsize(P("d"))))
'''),
("check-descriptor", "C16", [("src/drpm_apply.c", "        if (read_len < 0) {\n            close(filedesc);\n            return DRPM_ERR_IO;\n        }\n        close(filedesc);\n    }\n\n    return DRPM_ERR_MISMATCH;",
   "        if (read_len < 0) {\n            close(filedesc);\n            return DRPM_ERR_IO;\n        }\n    }\n\n    return DRPM_ERR_MISMATCH;")],
 "a size check of an installed file that has grown and is not prelinked", "a file descriptor is left open by every such check", r'''
build()
from installed import Site
s = Site(W); a = b"text " * 300
p = Pkg(name="o", version="1", files=[F(s.root + "/a", content=a)], arch="x86_64"); p.write(P("old")); q = Pkg(name="o", version="2", files=[F(s.root + "/a", content=a + b"more")], arch="x86_64"); q.write(P("new"))
s.package("o", P("old"), p); h = s.home(["o"]); s.install(p)
o = run(["make", P("old"), P("new"), P("d")], ["check", P("d"), 2], ["fds"], ["check", P("d"), 2], ["fds"], env={"HOME": h})
expect(o[:2] == [0, 0], o)
open(s.root + "/a", "ab").write(b"grown")
o = run(["check", P("d"), 2], ["fds"], ["check", P("d"), 2], ["check", P("d"), 2], ["fds"], env={"HOME": h})
expect(o[0] == MISMATCH and o[2] == MISMATCH, o)
expect(o[1] == o[4], "descriptors: %r" % o)
'''),
("grown-file", "C05", [("src/drpm_apply.c", "            if (read_len > (ssize_t)filesize)\n                read_len = filesize;\n            if ((error = checksum_update(&chsm, buf, read_len)) != DRPM_ERR_OK)\n                goto cleanup;\n            filesize -= read_len;",
   "            if (read_len > (ssize_t)filesize)\n                read_len = filesize;\n            if ((error = checksum_update(&chsm, buf, read_len)) != DRPM_ERR_OK)\n                goto cleanup;")],
 "a full check of an installed file to which something was appended", "the file's needed content is intact, but the check reports a mismatch", r'''
build()
from installed import Site
s = Site(W); a = b"text " * 10000
p = Pkg(name="o", version="1", files=[F(s.root + "/a", content=a)], arch="x86_64"); p.write(P("old")); q = Pkg(name="o", version="2", files=[F(s.root + "/a", content=a + b"more")], arch="x86_64"); q.write(P("new"))
s.package("o", P("old"), p); h = s.home(["o"]); s.install(p)
open(s.root + "/a", "ab").write(b"grown")
o = run(["make", P("old"), P("new"), P("d")], ["apply", "-", P("d"), P("out")], ["check", P("d"), 1], env={"HOME": h})
expect(o[:2] == [0, 0] and same(P("new"), P("out")), o)
expect(o[2] == 0, "the full check says %d, applying works" % o[2])
'''),
("evict-current", "C10", [("src/drpm_block.c", "                if (blks->blocks_max[blk->id] < copy_cnt ||", "                if (blks->blocks_max[blk->id] <= copy_cnt ||")],
 "a copy from the beginning of more than 5000 blocks after one from their end, so that blocks went to temporary storage", "blocks that the running copy still needs are thrown away; the payload cannot be read again, so applying fails", r'''
build()
import random
r = random.Random(3); M = 1 << 20; a = r.randbytes(50 * M); b = r.randbytes(4 * M)
Pkg(name="o", version="1", files=[F("/a", content=a + b)], level=1).write(P("old")); Pkg(name="o", version="2", files=[F("/a", content=b + a)], level=1).write(P("new"))
o = run(["make", P("old"), P("new"), P("d")], ["apply", P("old"), P("d"), P("out")])
expect(o == [0, 0], o); expect(same(P("new"), P("out")), "wrong package rebuilt")
'''),
("adjust-sign", "C11", [("src/drpm_make.c", "offadjs[offadjn++ * 2 + 1] = TWOS_COMPLEMENT(offset);", "offadjs[offadjn++ * 2 + 1] = offset;")],
 "a version 3 delta of an old package whose archive is shorter than the altered one, e.g. names without ./", "offset adjustments stored in the delta have the wrong sign", r'''
build()
import struct
from kit import *
import comp as C
r = __import__("random").Random(3)
fs = [F("/d/f%d" % i, content=r.randbytes(500 + i)) for i in range(8)]
Pkg(name="o", version="1", files=fs, prefix=None).write(P("old")); Pkg(name="o", version="2", files=fs[::-1]).write(P("new"))
o = run(["oinit", 0], ["ocomp", 0, 0, 0], ["make", P("old"), P("new"), P("d"), 0], ["read", 0, P("d")], ["arr", 0, 12])
expect(o == [0, 0, 0, 0, 0], o)
n, v = o.words[4][0].split(":"); v = [int(x) for x in v.split(",") if x]
adj = [(v[i], v[i + 1] - (1 << 32) if v[i + 1] >> 31 else v[i + 1]) for i in range(0, len(v), 2)]
# the archive of the altered package (names with "./") and the original one: where each entry starts
alt = org = 0; want = []; la = lo = 0
def pad(x): return -x % 4
for f in fs:
    if alt - org != la - lo or False: want.append((alt - la0 if want else alt, 0))
    la0 = alt
    nm = f.path[1:]
    alt += (110 + len("./" + nm) + 1 + 3) // 4 * 4 + (len(f.content) + 3) // 4 * 4
    org += (110 + len(nm) + 1 + 3) // 4 * 4 + (len(f.content) + 3) // 4 * 4
total = sum(x[1] for x in adj)
expect(adj, "no adjustments")
expect(total < 0, "the original is shorter than the altered archive, adjustments add up to %d" % total)
'''),
("rejected-method", "C12", [("src/drpm_options.c", "    switch (comp) {\n    case DRPM_COMP_NONE:\n    case DRPM_COMP_GZIP:\n    case DRPM_COMP_BZIP2:\n    case DRPM_COMP_LZMA:\n    case DRPM_COMP_XZ:\n    case DRPM_COMP_LZIP:\n#ifdef WITH_ZSTD\n    case DRPM_COMP_ZSTD:\n#endif\n        opts->comp_from_rpm = false;\n        opts->comp = comp;",
   "    opts->comp_from_rpm = false;\n\n    switch (comp) {\n    case DRPM_COMP_NONE:\n    case DRPM_COMP_GZIP:\n    case DRPM_COMP_BZIP2:\n    case DRPM_COMP_LZMA:\n    case DRPM_COMP_XZ:\n    case DRPM_COMP_LZIP:\n#ifdef WITH_ZSTD\n    case DRPM_COMP_ZSTD:\n#endif\n        opts->comp = comp;")],
 "a call that asks for an unknown compression method and is rejected, and then a delta made with the same options", "the rejected call changes the method: no longer the new package's", r'''
build()
Pkg(name="o", version="1", files=[F("/a", content=b"one " * 400)], comp="xz", level=2).write(P("old")); Pkg(name="o", version="2", files=[F("/a", content=b"one two" * 400)], comp="xz", level=2).write(P("new"))
o = run(["oinit", 0], ["ocomp", 0, 77, 5], ["make", P("old"), P("new"), P("d1"), 0], ["make", P("old"), P("new"), P("d2")])
expect(o == [0, ARGS, 0, 0], o); expect(same(P("d1"), P("d2")), "a rejected call changed the options")
'''),
]
