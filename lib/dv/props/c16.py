"""C16: what is left after an operation, undisturbed and failing anywhere (Io.tla, IoTrace.tla)."""
from .. import iocases
from . import c13

def plan(ck):
    def f(rng, x, calls, mcalls):
        todo = []
        for n in range(1, calls + 1):
            for mode, count in (("err", 1), ("err", 10 ** 6), ("short", 1), ("zero", 1)):
                if mode != "err" and n % 2 and not ck.thorough: continue
                todo.append(lambda s, n=n, m=mode, k=count: s.disturbed(n, m, "any", k))
        for n in range(1, mcalls + 1):
            todo.append(lambda s, n=n: s.memory(n, 1))
            if n % 4 == 0 or ck.thorough: todo.append(lambda s, n=n: s.memory(n, 10 ** 6))
        rng.shuffle(todo)
        for _ in range(ck.q(10, 200)): todo.append(lambda s: s.run("again"))
        return todo
    return f

def run(ck):
    c13.model(ck, 2)
    pool = ck.pool("plain")
    ops = iocases.ALL + iocases.OPTIONS + iocases.GETS
    cases = [{"op": n, "k": k} for k in range(ck.q(1, 6)) for n in ops]
    ck.run_traced(pool, cases, c13.case(ck, plan(ck), keep=False, per=150, variants=ck.q(40, 300)), "IoTrace", chunk=6000, key=lambda c: "%s-%s" % (c["op"], c["k"]), budget=ck.q(300, 2400), sig=c13.sig)
    return ck.finish("model_checking", "operations repeated in one process, undisturbed and with each call and each allocation failing; descriptors, named temporary files and live allocations after each decided by IoTrace.tla")
