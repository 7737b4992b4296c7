"""Shared driver: run a check, compare with the known findings, write evidence, print verdict."""
import json, os, sys, time, traceback, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(VERIF, "rules"))
import gimple
from gimple import AnalysisBroken, Program

TUS = os.path.join(VERIF, "tus")
EVID = os.path.join(VERIF, "evidence")
_progs = {}


def tu(name, **kw):
    """parsed program of one driver translation unit (cached per process)"""
    k = (name, tuple(sorted((a, tuple(b) if isinstance(b, list) else b) for a, b in kw.items())))
    if k not in _progs:
        p = Program()
        path = name if name.startswith("/") else os.path.join(TUS, name)
        p.add(path, **kw)
        _progs[k] = p
    return _progs[k]


class Report:
    def __init__(self, prop):
        self.prop = prop
        self.violations = []      # dicts with what/site/function
        self.roots = 0
        self.functions = set()
        self.statements = 0
        self.states = 0
        self.obligations = 0
        self.notes = set()
        self.rules = []
        self.units = set()
        self.detail = {}

    def add_interp(self, I, root=None):
        self.roots += 1
        self.functions |= I.functions
        self.statements += I.sites
        self.states += I.steps
        self.notes |= I.notes
        for v in I.violations.values():
            v = dict(v)
            if root:
                v["root"] = root
            self.violations.append(v)

    def violation(self, what, site=None, function=None, **kw):
        d = {"what": what, "site": site, "function": function}
        d.update(kw)
        self.violations.append(d)

    def require(self, cond, what):
        """an anchor the analysis depends on is gone: neither verdict is possible"""
        if not cond:
            raise AnalysisBroken("anchor missing: " + what)


def ident(v):
    """stable identity of a violation: what + function (no line numbers)"""
    return "%s @ %s" % (v.get("key") or v["what"], strip_t(v.get("function") or ""))


def strip_t(f):
    import re
    out, d = "", 0
    for ch in f:
        if ch == "<":
            d += 1
        elif ch == ">":
            d = max(0, d - 1)
        elif d == 0:
            out += ch
    return out


def known_findings(prop):
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known: property=%s " % prop):
                body = l.split(" ", 2)[2]
                idt, _, desc = body.partition(" :: ")
                out[idt.strip()] = desc.strip()
    return out


def main(prop, fn, level="other", explanation="", assumptions=(), floors=None):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 1 and sys.argv[1] in ("quick", "thorough"):
        tier = sys.argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    rep = Report(prop)
    rep.tier = os.environ["VERIF_TIER"] = tier
    try:
        fn(rep)
        for what, (have, need) in (rep.detail.get("floors") or {}).items():
            if have < need:
                raise AnalysisBroken("analysed only %s %s, expected at least %s" % (have, what, need))
    except AnalysisBroken as e:
        if not rep.violations:
            print("ANALYSIS-BROKEN property=%s: %s" % (prop, e))
            sys.exit(2)
        rep.notes.add("analysis incomplete: %s" % e)
    known = known_findings(prop)
    bad, seen_known = [], {}
    seen = set()
    for v in rep.violations:
        i = ident(v)
        if i in known:
            seen_known.setdefault(i, v)
        elif i not in seen:
            seen.add(i)
            bad.append(v)
    os.makedirs(EVID, exist_ok=True)
    cov = {
        "explanation": explanation,
        "rules": rep.rules,
        "roots": rep.roots,
        "functions_analysed": len(rep.functions),
        "statements_interpreted": rep.statements,
        "abstract_states": rep.states,
        "obligations": rep.obligations,
        "known_findings": sorted(seen_known),
    }
    cov.update({k: v for k, v in rep.detail.items()})
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "wall_s": round(time.time() - t0, 2), "violations": len(bad), "assumptions": list(assumptions)}
    replay = os.path.join(EVID, "%s.violations.json" % prop)
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    if bad:
        with open(replay, "w") as f:
            json.dump(bad, f, indent=1, default=str)
    print("%s: %d roots, %d functions, %d statements, %d obligations, %.1fs" %
          (prop, rep.roots, len(rep.functions), rep.statements, rep.obligations, time.time() - t0))
    for i, v in seen_known.items():
        print("KNOWN-FINDING: property=%s %s :: %s" % (prop, i, known[i]))
    for v in bad:
        print("  %s  [%s in %s]" % (v["what"], v.get("site"), v.get("function")))
    if bad:
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        sys.exit(1)
    sys.exit(0)


def _job(a):
    fn, args = a
    try:
        return ("ok", fn(*args))
    except AnalysisBroken as e:
        return ("broken", str(e))


def parallel(fn, arglists, procs=8):
    """run fn over argument tuples in forked workers; results in order"""
    import multiprocessing as mp
    ctx = mp.get_context("fork")
    jobs = [(fn, a) for a in arglists]
    if len(jobs) == 1:
        rs = [_job(jobs[0])]
    else:
        with ctx.Pool(min(procs, len(jobs))) as pool:
            rs = pool.map(_job, jobs, chunksize=1)
    return rs


class Mini:
    """what a worker sends back about an interpreter run"""

    def __init__(self, I, extra=None):
        self.functions, self.sites, self.steps, self.notes = I.functions, I.sites, I.steps, I.notes
        self.violations = I.violations
        self.extra = extra
