import common, own
from engine import Interp
EXPLANATION = ("Typestate analysis of ref_ptr, RefCounter and OwnerPtr: every operation is interpreted over an explicit heap from every combination of what its operands point to "
               "(nothing, one object, the same object, another object, an operand stored inside the object that is let go) and of other holders; counts, destructions and later uses are compared with the holders left.")
ASSUMPTIONS = ("an object's own Grab and Drop follow the contract of RefCounter, which is checked for RefCounter itself", "reference counts are used from one thread at a time and do not overflow")
NROOTS = 35


def job(root):
    p = common.tu("own.cpp", defs=("-DNDEBUG",))
    r = own.rule(root)
    I = Interp(p, r, budget=60000)
    I.run(p.funcs[root], ts=(), setup=r.setup)
    return common.Mini(I, r.counts)


def run(rep):
    p = common.tu("own.cpp", defs=("-DNDEBUG",))
    names = sorted(n for n in p.funcs if n.startswith("root_"))
    rep.require(len(names) >= NROOTS, "pointer operations (%d of %d)" % (len(names), NROOTS))
    n = c = 0
    for root, (k, m) in zip(names, common.parallel(job, [(r,) for r in names])):
        if k == "broken":
            raise common.AnalysisBroken("%s: %s" % (root, m))
        rep.add_interp(m, root)
        rep.require(m.extra["exits"], "return of " + root)
        n += m.extra["links"] + m.extra["exits"]
        c += m.extra["configs"]
    rep.obligations = n
    rep.detail["operations"] = len(names)
    rep.detail["start_configurations"] = c
    rep.detail["floors"] = {"obligations": (n, 500)}
    rep.rules = ["the count of an object is the number of its holders after every operation", "an object is destroyed exactly when its last holder lets go",
                 "no object, and nothing stored inside it, is used after it was destroyed", "an owned object is deleted exactly once, and only by its owner",
                 "a copied counter starts at zero and assigning an object does not change its count"]
