"""C13: every operation with every one of its system calls failing or falling short (Io.tla, IoMC.tla, IoTrace.tla)."""
import random
from .. import iocases

POLICIES = ["ignoreshort", "ignoreread", "ignorewrite", "ignoreclose", "leak", "keepname"]
MC = 'SPECIFICATION MCSpec\nCONSTANTS\n Policy = "%s"\n Faults = %d\nINVARIANTS AllHonest NothingBad Undisturbed\nPROPERTIES Ends\nCHECK_DEADLOCK FALSE\n'
def model(ck, faults):
    """the discipline keeps the contract, and the contract notices every way to leave the discipline"""
    ck.tlc("IoMC", MC % ("good", faults))
    for p in POLICIES:
        if not ck.tlc("IoMC", MC % (p, faults), allow=None).violated: raise RuntimeError("IoMC: policy %s breaks nothing" % p)
def sig(e): return "%s-%s-%s" % (e.get("e"), e.get("rc", ""), e.get("fault", "").split(" ")[0])

INSTALLED = [n for n in iocases.ALL if n.startswith(("check-", "apply-installed")) or n in ("checkseq", "checkseq-sizes", "apply-pages-installed")]
def case(ck, plans, keep=False, per=80, variants=0):
    """plans(rng, case, calls, mcalls) -> list of functions that add a run to a session"""
    def run(d, c):
        rng = random.Random("%d-%s-%s" % (ck.seed, c["op"], c.get("k", 0)))
        problems, ev = [], []
        x = iocases.build(rng, c["op"], ck.dir(), d)
        if c.get("nobody"): iocases.unprivileged(x)
        s = iocases.Session(x); s.run("reference", [["memfail", -1, 0]])
        p, e, r = s.events(d, keep=True)
        problems += p; ev += e
        if r.crash: return problems, ev
        o = r.ops[s.runs[0][1]]
        todo = plans(rng, x, o["calls"], o["mcalls"])
        if variants: todo += [lambda s, l=l, o=o, b=b, a=a: s.variant(l, o, b, a) for l, o, b, a in iocases.damaged(rng, x, variants)]
        if variants and c["op"] in INSTALLED: todo += [lambda s, l=l, a=a, b=b: s.variant(l, None, a, b) for l, a, b in iocases.states(rng, x) * 2]
        for i in range(0, len(todo), per):
            s = iocases.Session(x); s.run("reference")
            for f in todo[i:i + per]: f(s)
            s.run("again")
            p, e, r = s.events(d, keep=keep)
            problems += p; ev += e
            if r.crash and "hang" in r.crash: break
        return problems, ev
    return run

def plan(ck):
    def f(rng, x, calls, mcalls):
        todo = []
        for n in range(1, calls + 1):
            for mode, count in (("err", 1), ("err", 10 ** 6), ("short", 1), ("short", 10 ** 6), ("zero", 1), ("eintr", 1)):
                if (mode, count) in (("err", 10 ** 6), ("eintr", 1)) and not ck.thorough and n % 3: continue
                if mode == "short" and count > 1 and n % 7 and not ck.thorough: continue
                cl = "unlink" if rng.random() < .5 or count > 1 else "junk"
                todo.append(lambda s, n=n, m=mode, k=count, cl=cl: s.disturbed(n, m, "any", k, cl))
        # failures of one kind that last
        for cls in ("open", "read", "write", "seek", "close"):
            for n in range(1, ck.q(4, 12)): todo.append(lambda s, n=n, c=cls: s.disturbed(n, "err", c, 10 ** 6))
        # no room beyond n bytes
        if x["outs"] and not (x["op"][0] == "apply" and x["op"][1] is None):     # librpm's database has files of its own
            for n in range(ck.q(4, 20)): todo.append(lambda s, n=[0, 1, 100, 500, 900][n] if n < 5 else rng.randrange(3000): s.limited(n))
        return todo
    return f

def run(ck):
    model(ck, ck.q(2, 4))
    pool = ck.pool("asan")
    cases = [{"op": n, "k": k} for k in range(ck.q(1, 6)) for n in iocases.ALL]
    ck.run_traced(pool, cases, case(ck, plan(ck)), "IoTrace", chunk=6000, key=lambda c: "%s-%s" % (c["op"], c["k"]), budget=ck.q(300, 2400), sig=sig)
    ck.notes["operations"] = len(iocases.ALL)
    return ck.finish("model_checking", "operations (%d kinds of making, applying, checking and reading) observed by interposition, each of their calls failed, cut short or ended in turn; every call and outcome decided by IoTrace.tla" % len(iocases.ALL))
