import common, locks
from engine import Interp
EXPLANATION = ("Guarded-by analysis: along every path of every public operation, each access to the shared structure of an allocator or queue "
               "is matched with the lock mode held at that point.")
ASSUMPTIONS = ("RWLock operations have the effect established by P03", "constructors, destructors and moves have exclusive access to the object")


def job(root, guards, init, inh, eh):
    p = common.tu("conc.cpp")
    r = locks.LockRule(root, init=init, exit_hold=eh, guards=guards, pairing=False)
    I = Interp(p, r)
    I.run(p.funcs[root], ts=(frozenset(), inh))
    return common.Mini(I, r.counts)


def run(rep):
    p = common.tu("conc.cpp")
    n = 0
    for root in locks.ROOTS:
        rep.require(root[0] in p.funcs, root[0])
    for (root, *_), (k, m) in zip(locks.ROOTS, common.parallel(job, locks.ROOTS)):
        if k == "broken":
            raise common.AnalysisBroken("%s: %s" % (root, m))
        rep.add_interp(m, root)
        n += m.extra["guarded"]
    rep.obligations = n
    rep.rules = ["%s.%s under %s: %s" % (f, fld, lk, {a: "".join(sorted(s)) for a, s in md.items() if s})
                 for f, t in locks.GUARDS.items() for fld, (lk, md) in t.items()]
    rep.detail["guarded_accesses"] = n
    rep.detail["floors"] = {"guarded accesses": (n, 200)}
