"""Builds the driver from /repo's current working tree. Builds are cached by the content of everything that goes in."""
import fcntl, glob, hashlib, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("DV_REPO", "/repo")
WORK = os.path.join(VERIF, ".work")
CONFIG_H = "#ifndef _CONFIG_H_\n#define _CONFIG_H_\n#define HAVE_LZLIB_DEVEL\n#define WITH_ZSTD\n#endif\n"
VARIANTS = {
    "plain": ["-O1", "-g"],
    "asan": ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address"],
    "cov": ["-O0", "-g", "--coverage"],
}
def sources():
    return sorted(glob.glob(os.path.join(REPO, "src", "*.c")))
def _key(variant):
    h = hashlib.sha256(variant.encode())
    for p in sources() + sorted(glob.glob(os.path.join(REPO, "src", "*.h"))) + sorted(glob.glob(os.path.join(VERIF, "driver", "*"))) + [os.path.abspath(__file__)]:
        h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:20]

class BuildError(Exception): pass

def build(variant="asan"):
    os.makedirs(os.path.join(WORK, "build"), exist_ok=True)
    out = os.path.join(WORK, "build", "%s-%s" % (variant, _key(variant)))
    exe = os.path.join(out, "driver")
    with open(os.path.join(WORK, "build", variant + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe): return exe
        for old in glob.glob(os.path.join(WORK, "build", variant + "-*")):     # keep the cache small
            if time.time() - os.path.getmtime(old) > 3600: shutil.rmtree(old, ignore_errors=True)
        tmp = tempfile.mkdtemp(prefix="tmp-" + variant, dir=os.path.join(WORK, "build"))
        with open(os.path.join(tmp, "config.h"), "w") as f: f.write(CONFIG_H)
        drv = os.path.join(VERIF, "driver")
        base = ["gcc", "-w", "-U_FORTIFY_SOURCE", "-DHAVE_CONFIG_H", "-I" + tmp, "-I" + os.path.join(REPO, "src"), "-I" + drv] + VARIANTS[variant]
        lib = ["-std=c99", "-DDRPM_VERIF", "-include", os.path.join(drv, "vlimits.h"),
               "-include", os.path.join(drv, "valloc.h")]
        chunk = ["-include", os.path.join(drv, "vchunk.h")]
        jobs = [(base + lib + (chunk if os.path.basename(s) in ("drpm_diff.c", "drpm_make.c") else []) + ["-c", s, "-o", os.path.join(tmp, "l_" + os.path.basename(s)[:-2] + ".o")]) for s in sources()]
        nocov = [a for a in base if a != "--coverage"]
        jobs += [(nocov + ["-c", os.path.join(drv, s), "-o", os.path.join(tmp, "d_" + s[:-2] + ".o")]) for s in ("driver.c", "interpose.c")]
        def cc(cmd):
            r = subprocess.run(cmd, capture_output=True, text=True)
            if r.returncode and chunk[1] in cmd:          # the limits are used where a run-time value cannot stand: do without
                i = cmd.index(chunk[1]); r = subprocess.run(cmd[:i - 1] + cmd[i + 1:], capture_output=True, text=True)
            if r.returncode: raise BuildError(" ".join(cmd) + "\n" + r.stderr)
        with ThreadPoolExecutor(8) as ex: list(ex.map(cc, jobs))
        cc(["gcc"] + VARIANTS[variant] + ["-rdynamic", "-o", os.path.join(tmp, "driver")] + sorted(glob.glob(os.path.join(tmp, "*.o"))) +
           "-lz -lbz2 -llzma -lrpm -lrpmio -lcrypto -lzstd -llz -ldl".split())
        if variant == "cov":
            # objects' gcda paths stay valid in the final place
            pass
        os.rename(tmp, out)
    return exe
