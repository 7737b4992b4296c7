import common, variant
from engine import Interp
EXPLANATION = ("Typestate analysis of Variant: every operation is interpreted from every combination of alternatives its operands can hold (none included), following which alternative is constructed, "
               "assigned or destroyed in which storage, with which value; tag and storage must agree afterwards. The layout is decided by the compiler in constant expressions over the real class.")
ASSUMPTIONS = ("alternatives are opaque types with the usual special members", "three alternatives stand for any list: the code treats alternatives uniformly through recursion over the type list")
NROOTS = 48


def job(root):
    p = common.tu("var.cpp")
    r = variant.VariantRule(variant.configs(root[5:]))
    I = Interp(p, r, budget=60000)
    I.run(p.funcs[root], ts=(), setup=r.setup)
    return common.Mini(I, r.counts)


def run(rep):
    p = common.tu("var.cpp")
    names = sorted(n for n in p.funcs if n.startswith("root_"))
    rep.require(len(names) >= NROOTS, "variant operations (%d of %d)" % (len(names), NROOTS))
    n = c = 0
    for root, (k, m) in zip(names, common.parallel(job, [(r,) for r in names])):
        if k == "broken":
            raise common.AnalysisBroken("%s: %s" % (root, m))
        rep.add_interp(m, root)
        rep.require(m.extra["exits"], "return of " + root)
        n += m.extra["links"] + m.extra["exits"]
        c += m.extra["configs"]
    rep.obligations = n
    rep.detail["operations"] = len(names)
    rep.detail["start_configurations"] = c
    rep.detail["floors"] = {"obligations": (n, 500)}
    rep.rules = ["an alternative is only constructed in empty storage and only destroyed or assigned as the type that lives there", "after every operation the tag names the alternative in the storage (-1: none)",
                 "the value held is the one assigned; the source keeps its (possibly moved-from) alternative", "no defined use of an empty or self-assigned Variant aborts", "the storage fits and is aligned for every alternative"]
