"""C15: what operations touch, undisturbed and failing, as root and as nobody with read-only inputs (Io.tla, IoTrace.tla)."""
import os
from .. import iocases
from . import c13

def plan(ck):
    def f(rng, x, calls, mcalls):
        todo = [lambda s: s.run("again", clean="junk"), lambda s: s.run("again"), lambda s: s.run("again", clean="junk")]
        for n in range(1, calls + 1):
            if n % 3 == 0 or ck.thorough: todo.append(lambda s, n=n, m=rng.choice(["err", "short", "zero"]), k=rng.choice([1, 10 ** 6]), cl=rng.choice(["junk", "unlink"]): s.disturbed(n, m, "any", k if m == "err" else 1, cl))
        for n in range(1, mcalls + 1):
            if n % 5 == 0 or ck.thorough: todo.append(lambda s, n=n: s.memory(n, 1))
        return todo
    return f

def run(ck):
    c13.model(ck, 2)
    pool = ck.pool("plain")
    cases = [{"op": n, "k": k, "nobody": k % 2 == 1} for k in range(ck.q(2, 12)) for n in iocases.ALL]
    ck.run_traced(pool, cases, c13.case(ck, plan(ck), keep=True, per=50, variants=ck.q(20, 150)), "IoTrace", chunk=6000, key=lambda c: "%s-%s" % (c["op"], c["k"]), budget=ck.q(300, 2400), sig=c13.sig)
    return ck.finish("model_checking", "operations, undisturbed and with failing calls and allocations, as root and as an unprivileged user with read-only inputs; every call that opens for writing, writes, removes or renames decided by IoTrace.tla, inputs and installed files and database compared before and after")
