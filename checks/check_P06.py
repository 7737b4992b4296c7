import common, pool
from engine import Interp
EXPLANATION = ("Path-sensitive accounting of every thread-pool operation: tasks reserved, queued, signalled, run and retired are counted symbolically "
               "(loops keep the counters related to their induction variables) and compared on every path and at every exit.")
ASSUMPTIONS = ("the task queue delivers each item once (P05) and the call-storage allocator behaves (P01, P02)", "counters do not wrap around", "a task does not throw")


def run(rep):
    p = common.tu("conc.cpp")
    n = e = 0
    for root, op in pool.ROOTS:
        rep.require(root in p.funcs, root)
        r = pool.PoolRule(op)
        I = Interp(p, r)
        I.run(p.funcs[root], ts=())
        rep.add_interp(I, root)
        rep.require(r.counts["exits"], "return of " + root)
        n += r.counts["events"]
        e += r.counts["exits"]
    rep.obligations = n + e
    rep.detail["events"] = n
    rep.detail["floors"] = {"events": (n, 60)}
    rep.rules = ["reserve >= queue, queue == reserve at exit, signal after queueing and for each task", "one pop = one call of that task = one release decrement",
                 "a worker sleeps only after finding the queue empty and stops only when told", "waiting ends only on an acquire load that saw no pending task",
                 "destruction: wait, stop, wake, all stopped, join", "stored calls: stored < recorded < queued; called < destroyed < released, once"]
