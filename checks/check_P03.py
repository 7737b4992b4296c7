import common, rwlock
from engine import Interp
EXPLANATION = ("Abstract interpretation of every lock operation over the lock word, abstracted to (writer bit, readers 0..3) with an arbitrary "
               "environment between any two atomic accesses; the thread's own contribution to the word is the typestate and is compared at every "
               "return with what the operation promises.")
ASSUMPTIONS = ("other threads change the word only through these same operations", "the hardware bit-test-and-set with lock prefix is atomic")


def run(rep):
    p = common.tu("conc.cpp")
    n = 0
    for spec in rwlock.SPEC:
        root = "root_RWLock_" + spec[0]
        rep.require(root in p.funcs, root)
        r = rwlock.WordRule(spec)
        I = Interp(p, r)
        I.run(p.funcs[root], ts=rwlock.START[spec[1]])
        rep.add_interp(I, root)
        n += r.counts["observations"] + r.counts["exits"]
        rep.require(r.counts["exits"] > 0, "return of %s" % root)
    rep.obligations = n
    rep.rules = ["%s: %s -> %s%s" % (o, a, b, "" if f is None else " (failure: %s)" % f) for o, a, b, f in rwlock.SPEC]
