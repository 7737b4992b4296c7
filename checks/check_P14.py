import common, streams
from engine import Interp
EXPLANATION = ("Termination analysis of the parsers: every function of JSON, TOML, UBJSON and XML that reads a stream and loops is interpreted over an abstract stream (read position, next character, end-of-file and failure bits, "
               "exact for peek, get, tellg and seekg). A run of a loop after which position, stream state and everything its conditions depend on are the same is a run that repeats for ever, and is reported.")
ASSUMPTIONS = ("the stream ends: an input is finite and reading past its end fails (libstdc++ semantics of peek, get, tellg and seekg)",
               "loops whose end is decided by something other than the stream (a counter, the result of an opaque function) are left to that decision",
               "a parser called recursively may consume any amount; its own loops are checked as roots of their own")
NROOTS = 40


def job(root):
    p = common.tu("parse.cpp", defs=("-DNDEBUG",))
    f = p.funcs[root]
    r = streams.StreamRule(p)
    I = Interp(p, r, budget=400000)
    I.run(f, args=streams.arguments(f), ts=(), setup=r.setup)
    I.steps += r.counts["steps"]
    return common.Mini(I, {"loops": sorted(r.counts["loops"]), "arrivals": r.counts["arrivals"], "ops": r.counts["ops"], "exits": r.counts["exits"]})


def run(rep):
    p = common.tu("parse.cpp", defs=("-DNDEBUG",))
    names = streams.roots(p)
    rep.require(len(names) >= NROOTS, "parsing functions with loops (%d of %d)" % (len(names), NROOTS))
    n, loops, ops = 0, set(), 0
    for root, (k, m) in zip(names, common.parallel(job, [(r,) for r in names])):
        if k == "broken":
            raise common.AnalysisBroken("%s: %s" % (root, m))
        rep.add_interp(m, p.funcs[root].name[:120])
        n += m.extra["arrivals"]
        ops += m.extra["ops"]
        loops |= set(m.extra["loops"])
    rep.obligations = n
    rep.detail["loops"] = len(loops)
    rep.detail["stream_operations"] = ops
    rep.detail["floors"] = {"obligations": (n, 5000), "loops": (len(loops), 60)}
    rep.rules = ["every run of a loop over a stream moves the read position, changes the stream's state, or changes a value its conditions depend on", "this holds at the end of input and after a read error as well"]
