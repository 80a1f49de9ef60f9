"""Client of the C driver: runs sessions of API calls, each in a child process of its own."""
import json, multiprocessing, os, pickle, subprocess, sys, tempfile, threading, traceback
from . import build

ERR = ["OK", "MEMORY", "ARGS", "IO", "FORMAT", "CONFIG", "OTHER", "OVERFLOW", "PROG", "MISMATCH", "NOINSTALL"]
def errname(rc): return ERR[rc] if 0 <= rc < len(ERR) else "rc%d" % rc

def enc(a):
    if a is None: return "-"
    if isinstance(a, bool): return str(int(a))
    if isinstance(a, int): return str(a)
    if isinstance(a, Raw): return str(a)
    if isinstance(a, str): a = os.fsencode(a)
    return a.hex() if a else " "   # empty string argument
class Raw(str): pass

class Result:
    """ops: list of dicts; crash: None or description."""
    def __init__(self, ops, crash, stderr):
        self.ops, self.crash, self.stderr = ops, crash, stderr
    def rc(self, i=-1): return errname(self.ops[i]["rc"])
    def __getitem__(self, i): return self.ops[i]

class Driver:
    def __init__(self, variant="asan", env=None, home=None):
        self.exe = build.build(variant)
        self.variant = variant
        self.env = dict(os.environ)
        for k in ("LC_ALL", "LANG", "LANGUAGE", "TMPDIR"): self.env.pop(k, None)
        self.env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:max_allocation_size_mb=1024:handle_abort=1"
        if home: self.env["HOME"] = home
        if env: self.env.update(env)
        self.err = tempfile.TemporaryFile()
        self.p = None
    def _start(self):
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=self.env)
    def session(self, ops, timeout=60):
        if self.p is None or self.p.poll() is not None: self._start()
        self.err.seek(0); self.err.truncate()
        msg = ["BEGIN %d" % timeout]
        for o in ops: msg.append("\t".join([o[0]] + [enc(a) for a in o[1:]]))
        msg.append("END\n")
        self.p.stdin.write("\n".join(msg).encode()); self.p.stdin.flush()
        res, crash = [], None
        while True:
            l = self.p.stdout.readline()
            if not l: raise RuntimeError("driver died")
            l = l.strip()
            if l.startswith(b"X "):
                ex, sig = int(l.split()[1]), int(l.split()[2]); break
            if not l: continue
            try: res.append(json.loads(l))
            except ValueError:
                try: s = l.decode("utf-8", "replace"); res.append({"op": json.loads(s.split(",\"op\":")[1].split(",")[0].rstrip("}")), "partial": s, "rc": -1})
                except Exception: res.append({"op": "?", "partial": repr(l), "rc": -1})
        stderr = ""
        if ex != 0 or sig:
            self.err.seek(0); stderr = self.err.read().decode("utf-8", "replace")
            summ = [x for x in stderr.splitlines() if "SUMMARY" in x or "ERROR: Addr" in x]
            crash = ("hang (%ds)" % timeout if sig == 14 else "signal %d" % sig if sig else "exit %d" % ex) + (": " + "; ".join(summ) if summ else "")
        return Result(res, crash, stderr)
    def close(self):
        if self.p:
            self.p.stdin.close(); self.p.wait(); self.p.stdout.close(); self.p = None

class Pool:
    """map(fn, items) calls fn(driver, item) in N forked worker processes, each with a driver of its own; results in order."""
    def __init__(self, n=8, **kw):
        self.n, self.kw = n, kw
        build.build(kw.get("variant", "asan"))
    def map(self, fn, items):
        items = list(items)
        n = max(1, min(self.n, len(items)))
        if not items: return []
        ctx = multiprocessing.get_context("fork")
        nxt = ctx.Value("l", 0)
        procs = []
        sys.stdout.flush()
        for w in range(n):
            r, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.close(r)
                    for pr, _ in procs: os.close(pr)
                    out = os.fdopen(wr, "wb")
                    d = Driver(**self.kw); d.worker = w
                    while True:
                        with nxt.get_lock(): i = nxt.value; nxt.value += 1
                        if i >= len(items): break
                        try: v = (i, True, fn(d, items[i]))
                        except BaseException as e: v = (i, False, "%s\n%s" % (e, traceback.format_exc()))
                        pickle.dump(v, out)
                        if not v[1]: break
                    out.flush(); d.close(); code = 0
                except BaseException: traceback.print_exc()
                finally:
                    sys.stdout.flush(); sys.stderr.flush(); os._exit(code)
            os.close(wr); procs.append((r, pid))
        res = [None] * len(items); err = []
        def drain(r):
            with os.fdopen(r, "rb") as f:
                while True:
                    try: i, ok, v = pickle.load(f)
                    except EOFError: return
                    if ok: res[i] = v
                    else: err.append(v)
        ts = [threading.Thread(target=drain, args=(r,)) for r, _ in procs]
        for t in ts: t.start()
        for t in ts: t.join()
        bad = [p for _, p in procs if os.waitpid(p, 0)[1] != 0]
        if err: raise RuntimeError("case failed: " + err[0])
        if bad: raise RuntimeError("%d workers ended abnormally" % len(bad))
        return res
    def close(self): pass
