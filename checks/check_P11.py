import common, avl
EXPLANATION = ("Shape analysis with heights: each recursive function of the tree is interpreted over every shape the balance invariant allows around the nodes it looks at; "
               "recursive calls are replaced by the function's contract (valid tree of the reported height holding the intended sequence), and the result is checked against that contract.")
ASSUMPTIONS = ("the comparison is a total order returning -1, 0 or 1", "allocation succeeds")


def job(i):
    p = common.tu("tree.cpp", defs=("-DNDEBUG",))
    I, r = avl.analyse(p, *avl.jobs(p)[i])
    return common.Mini(I, r.counts)


def run(rep):
    p = common.tu("tree.cpp", defs=("-DNDEBUG",))
    js = avl.jobs(p)
    rep.require(sum(1 for j in js if j[1].startswith("body")) >= 5, "recursive tree functions")
    rep.require(len(js) >= 17, "tree entry points")
    n = s = 0
    for j, (k, m) in zip(js, common.parallel(job, [(i,) for i in range(len(js))])):
        if k == "broken":
            raise common.AnalysisBroken("%s: %s" % (j[1], m))
        rep.add_interp(m, j[0])
        rep.require(m.extra["exits"], "return of " + j[0])
        n += m.extra["links"] + m.extra["exits"]
        s += m.extra["splits"]
    rep.obligations = n
    rep.detail["functions_against_contract"] = [j[1] for j in js]
    rep.detail["shape_case_splits"] = s
    rep.detail["floors"] = {"obligations": (n, 1000)}
    rep.rules = ["recorded balance = height(right) - height(left), within one", "in-order contents = previous contents with exactly the element added or removed",
                 "the search goes to the side the comparison names", "reported change of height is the real one", "the unlinked node is returned with its data and released once"]
