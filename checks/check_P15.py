import common, hashes, os
from engine import Interp
EXPLANATION = ("Typestate analysis of Hash with one arbitrary slot: every operation is interpreted from every state of that slot (no table, slot beyond the table, empty, deleted, used), every access to the flag, "
               "key and value arrays is split by whether it is that slot, and what lives there, whose entry it is and the stored counts are compared at every return.")
ASSUMPTIONS = ("memory allocation does not fail and sizes do not overflow", "the capacity of a table is zero or a power of two of at least four", "hash and equality functions do not change the table",
               "constructors, assignments and destructors of the stored types do what their names say and do not throw", "an insertion finds a free slot (the probe sequence visits every slot)")
NROOTS = 90


def configs(root):
    op = root.split("_")[2]
    return 1 if op == "ctor" else 25 if op in ("assign", "assignmove") else 5


def job(root, cfg):
    p = common.tu("hash.cpp", defs=("-DNDEBUG",))
    r = hashes.rule(root)
    r.only = cfg
    I = Interp(p, r, budget=120000)
    I.run(p.funcs[root], ts=(), setup=r.setup)
    return common.Mini(I, r.counts)


def cost(root, cfg):
    k, op = root.split("_")[1:]
    return (op.startswith("insert") * 4 + (op in ("capacity", "assign", "copy")) * 2 + 1) * (2 if k[0] == "m" else 1) * (2 if cfg in (2, 4) else 1)


def run(rep):
    p = common.tu("hash.cpp", defs=("-DNDEBUG",))
    names = hashes.names(p)
    rep.require(len(names) >= NROOTS, "hash operations (%d of %d)" % (len(names), NROOTS))
    jobs = sorted([(r, c) for r in names for c in range(configs(r))], key=lambda j: (-cost(*j), j))
    n = ev = 0
    exits = {}
    for (root, cfg), (k, m) in zip(jobs, common.parallel(job, jobs)):
        if k == "broken":
            raise common.AnalysisBroken("%s/%d: %s" % (root, cfg, m))
        rep.add_interp(m, "%s/%d" % (root, cfg))
        exits[root] = exits.get(root, 0) + m.extra["exits"]
        n += m.extra["exits"] + m.extra["slots"]
        ev += m.extra["events"]
    for r in names:
        rep.require(exits[r], "return of " + r)
    rep.obligations = n + ev
    rep.detail["operations"] = len(names)
    rep.detail["start_configurations"] = len(jobs)
    rep.detail["slot_events"] = ev
    rep.detail["floors"] = {"exits": (n, 2000), "slot events": (ev, 20000)}
    rep.rules = ["a slot holds a live key (and value) exactly when it is marked used, and nothing is constructed over, assigned to or destroyed in a slot that is in the wrong state",
                 "rehashing and growing move every entry exactly once, key and value to the same slot", "the stored number of entries and of slots in use match what was added and removed",
                 "flags, keys and values are blocks of the size the capacity says, each released exactly once", "lookups and iteration arrive at used slots only and pass over none",
                 "results of insertion, removal, lookup and assignment tell what happened"]
