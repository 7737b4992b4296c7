import common, queues
from engine import Interp
EXPLANATION = ("Event-order analysis of every push/pop path of the concurrent queues: construction, linking, publication (with memory order), "
               "position advance, element destruction and node release are recorded in program order and matched against the protocol.")
ASSUMPTIONS = ("LocklessQueue has one producer and one consumer, as documented", "MicroLockQueue flags are held as established by P01/P02")


def run(rep):
    p = common.tu("conc.cpp")
    n = e = 0
    for root, kind, op, ln in queues.ROOTS:
        rep.require(root in p.funcs, root)
        r = queues.QueueRule(kind, op, ln)
        I = Interp(p, r)
        I.run(p.funcs[root], ts=((), frozenset()))
        rep.add_interp(I, root)
        rep.require(r.counts["exits"], "return of " + root)
        n += r.counts["events"]
        e += r.counts["exits"]
    rep.obligations = n + e
    rep.detail["events"] = n
    rep.detail["floors"] = {"events": (n, 60)}
    rep.rules = ["construct < terminate < link < publish (release)", "no write to a published node", "one item taken = one position advanced = one length decrement",
                 "foreign positions read with acquire", "only passed nodes are destroyed, once, before release"]
