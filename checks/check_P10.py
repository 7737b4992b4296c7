import common, shape
from engine import Interp
EXPLANATION = ("Shape analysis: every operation is interpreted over an explicit heap from every configuration of the nodes around the one it works on "
               "(none, one, or many on each side; stretches of many are summarised), and every link, end pointer, count, result and release it leaves behind is compared with the intended sequence.")
ASSUMPTIONS = ("nodes handed to an operation belong to the list and new nodes to none, as documented", "allocation succeeds")
NROOTS = 85


def job(root):
    p = common.tu("list.cpp", defs=("-DNDEBUG",))
    r = shape.ShapeRule(shape.configs(root))
    I = Interp(p, r, budget=60000)
    I.run(p.funcs[root], ts=(), setup=r.setup)
    return common.Mini(I, r.counts)


def run(rep):
    p = common.tu("list.cpp", defs=("-DNDEBUG",))
    names = sorted(n for n in p.funcs if n.startswith("root_"))
    rep.require(len(names) >= NROOTS, "linked structure entry points (%d of %d)" % (len(names), NROOTS))
    n = c = 0
    broken = []
    for root, (k, m) in zip(names, common.parallel(job, [(r,) for r in names])):
        if k == "broken":
            broken.append("%s: %s" % (root, m))
            continue
        rep.add_interp(m, root)
        rep.require(m.extra["exits"], "return of " + root)
        n += m.extra["links"] + m.extra["exits"]
        c += m.extra["configs"]
    rep.obligations = n
    rep.detail["operations"] = len(names)
    rep.detail["start_configurations"] = c
    rep.detail["floors"] = {"obligations": (n, 8000)}
    rep.detail["undecided_operations"] = broken
    for b in broken:
        print("UNDECIDED " + b)
    if len(broken) > len(names) // 5:
        raise common.AnalysisBroken("; ".join(broken[:3]))
    rep.rules = ["x.next == y iff y.prev == x along the whole sequence, ends are null, end pointers name the ends",
                 "the sequence after the operation is the one before it with exactly the named node added, removed or unchanged",
                 "counts follow", "a removed node is released once, to its allocator; no released node is followed"]
