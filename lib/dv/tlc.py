"""Runs TLC on the modules in /verif/tla."""
import json, os, re, shutil, subprocess, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
TLA = os.path.join(VERIF, "tla")

class TLCError(Exception): pass

class Run:
    def __init__(self, out, code):
        self.out, self.code = out, code
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        m = re.search(r"The depth of the complete state graph search is (\d+)", out)
        self.depth = int(m.group(1)) if m else 0
        self.ok = code == 0
        self.violated = code in (10, 11, 12, 13)
    def printed(self):
        """JSON values printed with PrintT(ToJson(..))."""
        r = []
        for l in self.out.splitlines():
            if l.startswith('"') and l.endswith('"') and len(l) > 2 and l[1] in "[{":
                r.append(json.loads(json.loads(l) if "\\" in l else l[1:-1]))
        return r

def run(module, cfg, files=None, workers=1, simulate=None, depth=None, seed=1, timeout=600, extra=(), env=None, allow=(0,), heap="4g"):
    """cfg: text of the configuration. files: name -> text written beside the module (traces, constants)."""
    d = tempfile.mkdtemp(prefix="tlc")
    try:
        for f in os.listdir(TLA):
            if f.endswith(".tla"): os.symlink(os.path.join(TLA, f), os.path.join(d, f))
        for n, t in (files or {}).items():
            with open(os.path.join(d, n), "w") as f: f.write(t)
        with open(os.path.join(d, "run.cfg"), "w") as f: f.write(cfg)
        e = dict(os.environ); e.update(env or {})
        e["JAVA_TOOL_OPTIONS"] = "-Xmx%s -Xss64m -XX:+UseParallelGC -Djava.io.tmpdir=%s" % (heap, d)
        cmd = ["tlc", "-config", "run.cfg", "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE", "-workers", str(workers), "-deadlock"]
        if simulate: cmd += ["-simulate", "num=%d" % simulate, "-depth", str(depth or 20), "-seed", str(seed)]
        cmd += list(extra) + [module + ".tla"]
        try: p = subprocess.run(cmd, cwd=d, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired: raise TLCError("timeout after %ds: %s" % (timeout, module))
        r = Run(p.stdout + p.stderr, p.returncode)
        r.files = {}
        for n in os.listdir(d):
            if n.startswith("out_"):
                with open(os.path.join(d, n)) as f: r.files[n] = f.read()
        if allow is not None and r.code not in allow:
            raise TLCError("%s: tlc exit %d\n%s" % (module, r.code, "\n".join(x for x in r.out.splitlines() if not x.startswith('"'))[-6000:]))
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)
