import common, locks
from engine import Interp
EXPLANATION = ("Interprocedural lock typestate over GCC's GIMPLE SSA of every public operation of the concurrent allocators, "
               "queues and the thread pool: the set of locks held (with mode) is tracked along every path, callees entered.")
ASSUMPTIONS = ("RWLock operations have the effect established by P03", "a block handed out by the ring allocator represents one shared hold of its bucket",
               "exceptions other than allocation failure are not modelled")


def job(root, guards, init, inh, eh):
    p = common.tu("conc.cpp")
    r = locks.LockRule(root, init=init, exit_hold=eh, guards=())
    I = Interp(p, r)
    I.run(p.funcs[root], ts=(frozenset(), inh))
    return common.Mini(I, (r.counts, r.order))


def run(rep):
    p = common.tu("conc.cpp")
    order = {}
    ops = exits = 0
    for root in locks.ROOTS:
        rep.require(root[0] in p.funcs, root[0])
    for (root, *_), (k, m) in zip(locks.ROOTS, common.parallel(job, locks.ROOTS)):
        if k == "broken":
            raise common.AnalysisBroken("%s: %s" % (root, m))
        rep.add_interp(m, root)
        c, o = m.extra
        ops += c["lock_ops"]
        exits += c["exits"]
        for a, b, loc in o:
            order.setdefault((a, b), loc)
    # acquisition order must be acyclic
    rep.obligations = ops + exits + len(order)
    g = {}
    for a, b in order:
        g.setdefault(a, set()).add(b)
    for a, b in sorted(order):
        seen, todo = set(), [b]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            todo += g.get(x, ())
        if a in seen:
            rep.violation("locks '%s' and '%s' are acquired in both orders" % (a, b), order[(a, b)], "lock order")
    rep.rules = ["acquire while held", "release in the wrong mode or without holding", "upgrade/downgrade pairing", "held at return",
                 "bucket handed to the recycle list only under its exclusive hold", "acyclic acquisition order"]
    rep.detail["lock_operations"] = ops
    rep.detail["exits"] = exits
    rep.detail["acquisition_order"] = sorted("%s -> %s" % k for k in order)
    rep.detail["floors"] = {"lock operations": (ops, 200), "exits": (exits, 60)}
