import common, cas
from engine import Interp
EXPLANATION = ("Value analysis of every 16-byte compare-and-swap reachable from the lock-free allocators: the exchanged value is compared, as a symbolic "
               "access path, with the value observed, on every path; block ownership is a typestate.")
ASSUMPTIONS = ("the 16-byte exchange is atomic (cmpxchg16b)", "blocks passed to deallocate came from the same allocator and are passed once")


def job(root, own, arg, ret):
    p = common.tu("conc.cpp")
    r = cas.CasRule(own, arg, ret)
    I = Interp(p, r)
    f = p.funcs[root]
    I.run(f, ts=(frozenset([("arg", arg)] if arg else []), frozenset()))
    return common.Mini(I, r.counts)


def run(rep):
    p = common.tu("conc.cpp")
    tot = {}
    for root in cas.ROOTS:
        rep.require(root[0] in p.funcs, root[0])
    for (root, *_), (k, m) in zip(cas.ROOTS, common.parallel(job, cas.ROOTS)):
        if k == "broken":
            raise common.AnalysisBroken("%s: %s" % (root, m))
        rep.add_interp(m, root)
        for a, b in m.extra.items():
            tot[a] = tot.get(a, 0) + b
    rep.obligations = tot["cas"] + tot["exits"]
    rep.detail.update(tot)
    rep.detail["floors"] = {"pops": (tot["pops"], 3), "pushes": (tot["pushes"], 4), "exchanges": (tot["cas"], 12)}
    rep.rules = ["new tag = observed tag + k, k>0", "new head = link of the observed head (pop) or block linked to the observed head (push)",
                 "16-byte exchange only", "blocks popped are handed out once, blocks freed are pushed once", "no access after push"]
