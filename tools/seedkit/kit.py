"""Helpers for the demonstration: builds the library from ./src with a small command line tool; scratch directory."""
import atexit, glob, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE); sys.dont_write_bytecode = True
REPO = os.getcwd()
W = tempfile.mkdtemp(prefix="demo")
atexit.register(lambda: shutil.rmtree(W, ignore_errors=True))
OK, MEMORY, ARGS, IO, FORMAT, CONFIG, OTHER, OVERFLOW, PROG, MISMATCH, NOINSTALL = range(11)
NONE, GZIP, BZIP2, LZMA, XZ, LZIP, ZSTD = range(7)
def P(n): return os.path.join(W, n)
def build(*flags):
    os.mkdir(P("b")); open(P("b/config.h"), "w").write("#define HAVE_LZLIB_DEVEL\n#define WITH_ZSTD\n")
    subprocess.run(["gcc", "-std=gnu99", "-g", "-O1", "-w", "-DHAVE_CONFIG_H", "-I" + P("b"), "-I" + REPO + "/src", *flags, "-o", P("b/tool"), HERE + "/tool.c"] + sorted(glob.glob(REPO + "/src/*.c"))
                   + "-lz -lbz2 -llzma -lrpm -lrpmio -lcrypto -lzstd -llz".split(), check=True)
class Out(list): pass
def run(*cmds, env=None, timeout=120, user=None):
    """each command a list; -> list of the last word of each line as a number; .words the lines split; .code exit status"""
    args = []
    for c in cmds: args += [str(x) for x in c] + ["+"]
    e = dict(os.environ); e["MALLOC_PERTURB_"] = "165"; e.update(env or {})
    try: r = subprocess.run([P("b/tool")] + args[:-1], env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired: fail("does not end: %r" % (cmds,))
    o = Out(int(l.split()[-1]) for l in r.stdout.splitlines()); o.words = [l.split() for l in r.stdout.splitlines()]; o.code = r.returncode; o.err = r.stderr
    return o
def fail(what): print("FAIL:", what); sys.exit(1)
def expect(ok, what):
    if not ok: fail(what)
def same(a, b): return open(a, "rb").read() == open(b, "rb").read()
