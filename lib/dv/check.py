"""Common frame of all checks: case running, confirmation, known findings, evidence, outcome."""
import atexit, fnmatch, json, os, random, re, shutil, signal, sys, tempfile, threading, time, traceback
from . import tlc as T
from .driver import Pool, Driver
VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
KNOWN = os.path.join(VERIF, "known_findings.txt")

def known_findings(pid):
    r = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"finding: property=(\S+) sig=(\S+) (.*)", l)
            if m and m.group(1) == pid: r.append((m.group(2), m.group(3)))
    return r

def brief(x):
    """for messages: long lists by their length"""
    if isinstance(x, dict): return {k: brief(v) for k, v in x.items()}
    if isinstance(x, list): return [brief(v) for v in x] if len(x) <= 12 else [brief(v) for v in x[:8]] + ["... %d" % len(x)]
    return x

class Check:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.rng = random.Random("%s-%d" % (pid, self.seed))
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.problems = []       # (sig, detail, replay)
        self.states = self.transitions = self.traces = self.evals = 0
        self.distinct = set()
        self.samples = []
        self.notes = {}
        self.models = []
        self.tmp = tempfile.mkdtemp(prefix="dv")
        os.chmod(self.tmp, 0o755)
        self.pools = []
        self._n = 0
        self._incase = None
        self._lock = threading.Lock()
    def q(self, quick, thorough): return thorough if self.thorough else quick
    def elapsed(self): return time.time() - self.t0
    def dir(self, name=None):
        with self._lock: self._n += 1; n = self._n
        d = os.path.join(self.tmp, name or "%d-%d" % (os.getpid(), n))
        os.makedirs(d, exist_ok=True)
        if name is None and self._incase is not None: self._incase.append(d)
        return d
    def pool(self, variant="asan", n=8, **kw):
        p = Pool(n, variant=variant, **kw); self.pools.append(p); return p
    def tlc(self, module, cfg, **kw):
        """model run counted in the evidence; a violation of the model itself is an error of the check."""
        r = T.run(module, cfg, **kw)
        with self._lock:
            self.states += r.distinct; self.transitions += r.generated
            self.models.append({"module": module, "distinct": r.distinct, "generated": r.generated, "depth": r.depth})
        return r
    def walks(self, module, cfg, n, depth, **kw):
        """random walks of a model that prints [n |-> TLCGet("level"), ...] in every state: a list of records per walk, the initial state (which TLC makes once for all walks) left out."""
        out, last = [], 0
        for x in self.tlc(module, cfg, simulate=n, depth=depth, seed=self.seed, **kw).printed():
            if x["n"] == 1: continue
            if x["n"] == 2: out.append([])
            elif x["n"] != len(out[-1]) + 2: raise RuntimeError("%s: a step with several outcomes: %s" % (module, x))
            out[-1].append(x)
        if len(out) < n * .9: raise RuntimeError("%s: %d walks where %d were asked for" % (module, len(out), n))
        return out
    def sample(self, s):
        if len(self.samples) < 12: self.samples.append(s if isinstance(s, str) else json.dumps(s, default=str)[:400])
    def report(self, sig, detail, replay=None):
        with self._lock: self.problems.append((sig, detail, replay))
    def run_cases(self, pool, cases, fn, key=None, confirm=True, budget=None):
        """fn(driver, case) -> list of (sig, detail[, replay]). A problem counts if it shows up again when the case is run alone."""
        deadline = time.time() + budget if budget else None
        skipped = [0]
        def one(d, c):
            if deadline and time.time() > deadline: return None
            self._incase = []
            try: return fn(d, c)
            except Exception as e:
                e.args = (*e.args, "case %s" % str(c)[:600]); raise
            finally:
                for x in self._incase: shutil.rmtree(x, ignore_errors=True)
                self._incase = None
        res = pool.map(one, cases)
        bad = 0
        for c, r in zip(cases, res):
            if r is None: skipped[0] += 1; continue
            self.evals += 1
            self.distinct.add(str(key(c) if key else c)[:300])
            if r:
                bad += 1
                if confirm and bad <= (40 if time.time() - self.t0 < 120 or self.thorough else 8):
                    deadline = None
                    r2 = pool.map(one, [c])[0] or []
                    s2 = {x[0] for x in r2}
                    r = [x for x in r if x[0] in s2]
                for x in r: self.report(x[0], x[1], x[2] if len(x) > 2 else {"case": c})
        if skipped[0]: self.notes["cases_skipped_for_time"] = self.notes.get("cases_skipped_for_time", 0) + skipped[0]
        return res
    def validate(self, module, groups, consts="", chunk=3000, workers=8):
        """groups: list of event lists. TLC walks them all through the trace module; returns {group index: [(event, expected)]}."""
        from concurrent.futures import ThreadPoolExecutor
        chunks, cur, n = [], [], 0
        for gi, g in enumerate(groups):
            if not g: continue
            cur.append(gi); n += len(g)
            if n >= chunk: chunks.append(cur); cur, n = [], 0
        if cur: chunks.append(cur)
        bad = {}
        def one(gs):
            lines, idx = [], []
            for gi in gs:
                for e in groups[gi]: lines.append(json.dumps(e)); idx.append((gi, e))
            r = self.tlc(module, "SPECIFICATION TSpec\n%s\nPOSTCONDITION Accepted\n" % consts, files={"trace.ndjson": "\n".join(lines) + "\n"}, allow=None, timeout=800)
            if r.code != 0: raise T.TLCError("%s: exit %d\n%s\nat %s" % (module, r.code, r.out[-3000:], lines[r.distinct - 1][:1500] if 0 < r.distinct <= len(lines) else ""))
            return [(idx[x["line"] - 1], x["expected"]) for x in r.printed()]
        with ThreadPoolExecutor(workers) as ex:
            for res in ex.map(one, chunks):
                for (gi, e), exp in res: bad.setdefault(gi, []).append((e, exp))
        return bad
    def run_traced(self, pool, cases, fn, module, consts="", chunk=3000, key=None, budget=None, sig=None):
        """fn(driver, case) -> (problems, events). TLC decides the events; disagreeing cases are run again before they are reported."""
        deadline = time.time() + budget if budget else None
        def one(d, c):
            if deadline and time.time() > deadline: return None
            self._incase = []
            try: return fn(d, c)
            except Exception as e:
                e.args = (*e.args, "case %s" % str(c)[:600]); raise
            finally:
                for x in self._incase: shutil.rmtree(x, ignore_errors=True)
                self._incase = None
        res = pool.map(one, cases)
        done = [i for i, r in enumerate(res) if r is not None]
        if len(done) < len(cases): self.notes["cases_skipped_for_time"] = self.notes.get("cases_skipped_for_time", 0) + len(cases) - len(done)
        bad = self.validate(module, [res[i][1] if res[i] else [] for i in range(len(cases))], consts, chunk)
        self.evals += len(done); self.traces += len(done)
        self.notes["events_validated"] = self.notes.get("events_validated", 0) + sum(len(res[i][1]) for i in done)
        for i in done: self.distinct.add(str(key(cases[i]) if key else cases[i])[:300])
        sig = sig or (lambda e: "%s-%s" % (e.get("e"), e.get("rc", "")))
        sus = [i for i in done if res[i][0] or i in bad]
        if sus:
            sus = sus[:40 if time.time() - self.t0 < 120 or self.thorough else 8]
            deadline = None         # however late it is: what was seen is to be seen again
            res2 = pool.map(one, [cases[i] for i in sus])
            res2 = [r if r is not None else ([], []) for r in res2]
            bad2 = self.validate(module, [r[1] for r in res2], consts, chunk)
            for k, i in enumerate(sus):
                s2 = {p[0] for p in res2[k][0]} | {sig(e) for e, _ in bad2.get(k, [])}
                for p in res[i][0]:
                    if p[0] in s2: self.report(p[0], p[1], p[2] if len(p) > 2 else {"case": cases[i]})
                for e, exp in bad.get(i, []):
                    if sig(e) in s2: self.report(sig(e), "observed %s, model allows %s" % (json.dumps(brief(e))[:1200], json.dumps(exp)[:600]), {"case": cases[i], "events": res[i][1]})
        return res
    def finish(self, level, rule, extra=None):
        kf = known_findings(self.pid)
        hit = {}
        fresh = []
        for p in self.problems:
            for pat, what in kf:
                if fnmatch.fnmatchcase(p[0], pat): hit.setdefault((pat, what), 0); hit[(pat, what)] += 1; break
            else: fresh.append(p)
        for pat, what in kf:
            print("KNOWN-FINDING: property=%s %s%s" % (self.pid, what, "" if (pat, what) in hit else " [not exercised in this run]"))
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces or self.evals,
               "evaluations": self.evals, "distinct_nontrivial": len(self.distinct), "rule": rule, "samples": self.samples or ["-"], "models": self.models}
        cov.update(self.notes); cov.update(extra or {})
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(fresh)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f: json.dump(ev, f, indent=1, default=str)
        for p in self.pools: p.close()
        if fresh:
            rd = os.path.join(VERIF, ".work", "replay"); os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, "%s-%s.json" % (self.pid, self.tier))
            with open(path, "w") as f: json.dump([{"sig": s, "detail": d, "replay": r} for s, d, r in fresh[:200]], f, indent=1, default=str)
            seen = {}
            for s, d, _ in fresh: seen.setdefault(s, []).append(d)
            for s, ds in list(seen.items())[:15]: print("  %s (%d times): %s" % (s, len(ds), str(ds[0])[:1500]))
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            return 1
        print("OK property=%s tier=%s evaluations=%d states=%d traces=%d %.1fs" % (self.pid, self.tier, self.evals, self.states, cov["traces_validated_against_impl"], time.time() - self.t0))
        return 0

def main(argv):
    import importlib, faulthandler
    pid, tier = argv[1], argv[2] if len(argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    mod = importlib.import_module("dv.props." + pid.lower())
    ck = Check(pid, tier)
    try: rc = mod.run(ck)
    except Exception:
        traceback.print_exc(); rc = 2
    finally:
        shutil.rmtree(ck.tmp, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)
