import signal
import common, blocks


def job(tag, root):
    p = common.tu("cont.cpp", defs=("-DNDEBUG",))

    def over(*a):
        raise common.AnalysisBroken("time limit")
    signal.signal(signal.SIGALRM, over)
    best = err = None
    for mode in blocks.MODES:
        signal.alarm(60 if best is None else 30)
        try:
            I, r = blocks.analyse(p, root, mode, blocks.BUDGET)
        except common.AnalysisBroken as e:
            err = e
            continue
        finally:
            signal.alarm(0)
        I.violations = {k: v for k, v in I.violations.items() if tag in v["what"].split("]")[0][1:].split(",")}
        best = (I, r)
        if not I.violations:
            break
    if best is None:
        raise err
    return common.Mini(best[0], best[1].counts)


def run(rep, tag, floor):
    p = common.tu("cont.cpp", defs=("-DNDEBUG",))
    names = blocks.names(p)
    rep.require(len(names) >= blocks.NROOTS, "container entry points (%d of %d)" % (len(names), blocks.NROOTS))
    n = ev = 0
    broken = []
    for root, (k, m) in zip(names, common.parallel(job, [(tag, r) for r in names])):
        if k == "broken":
            broken.append("%s: %s" % (root, m))
            continue
        rep.add_interp(m, root)
        rep.require(m.extra["exits"] or "noexit" in root, "return of " + root)
        n += m.extra[tag] + m.extra["exits"]
        ev += m.extra["events"]
    rep.obligations = n
    rep.detail["container_operations"] = len(names)
    rep.detail["events"] = ev
    rep.detail["floors"] = {"obligations": (n, floor)}
    rep.detail["undecided_operations"] = broken
    for b in broken:
        print("UNDECIDED " + b)
    if len(broken) > len(names) // 5:
        raise common.AnalysisBroken("; ".join(broken[:3]))
