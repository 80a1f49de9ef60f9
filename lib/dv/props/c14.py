"""C14: every allocation of every operation failing, once and for good (Io.tla, IoTrace.tla)."""
from .. import iocases
from . import c13

def plan(ck):
    def f(rng, x, calls, mcalls):
        todo = []
        step = 1
        for n in range(1, mcalls + 1):
            todo.append(lambda s, n=n: s.memory(n, 1))
            if ck.thorough or n % 4 == 1: todo.append(lambda s, n=n: s.memory(n, 10 ** 6))
            if ck.thorough: todo.append(lambda s, n=n: s.memory(n, 2))
            if n % ck.q(8, 3) == 0: todo.append(lambda s: s.run("again"))
        return todo
    return f

def run(ck):
    c13.model(ck, 2)
    pool = ck.pool("asan")
    ops = iocases.ALL + iocases.OPTIONS + iocases.GETS
    cases = [{"op": n, "k": k} for k in range(ck.q(1, 8)) for n in ops]
    ck.run_traced(pool, cases, c13.case(ck, plan(ck)), "IoTrace", chunk=6000, key=lambda c: "%s-%s" % (c["op"], c["k"]), budget=ck.q(300, 2400), sig=c13.sig)
    ck.notes["operations"] = len(ops)
    return ck.finish("model_checking", "operations, each of the library's own allocations in them failed in turn (address sanitizer on), undisturbed runs in between; decided by IoTrace.tla")
