"""Abstract semantics of the reader/writer lock word.

The word is abstracted by (writer bit, number of readers capped at 3).  Every atomic access forks over
the values the environment may have left there, constrained only by what this thread itself has
contributed; the code's own tests are then decided by constant folding.  The typestate is the
contribution of this thread: shared holds (valid / provisional), the writer bit, and whether the
exclusive hold has been confirmed (no other reader seen while owning the writer bit)."""
from engine import *
from gimple import AnalysisBroken

WFLAG = 1 << 63
M64 = (1 << 64) - 1


class WordRule(Rule):
    max_states = 400
    loop_exact = 400
    wrap64 = True

    def __init__(self, spec):
        self.spec = spec
        self.counts = {"atomic_ops": 0, "exits": 0, "observations": 0}

    # ts = (valid, prov, w, confirmed, acq)
    def isword(self, loc):
        return loc[0] == ("arg", "l")

    def inline(self, I, st, func):
        return True

    def env(self, ts, cap=3):
        v, p, w, c, acq, stuck = ts
        for wb in ((1,) if w else (0, 1)):
            for r in range(v + p, cap + 1):
                # a valid shared hold and a foreign confirmed writer cannot coexist; a foreign pending writer can
                yield wb, r

    def bad(self, I, st, site, what):
        I.report(st, site, what)

    def atomic(self, I, st, kind, loc, args, order, site):
        if not self.isword(loc):
            return None
        if loc[1] and loc[1][0] != "l":
            return None
        self.counts["atomic_ops"] += 1
        outs = []
        v, p, w, c, acq, stuck = st.ts
        if kind == "store":
            if self.spec == "ctor" and args[0] == ZERO:
                return [(st, None)]
            self.bad(I, st, site, "plain store to the lock word loses concurrent updates")
            return [(st, None)]
        for wb, r in self.env(st.ts):
            self.counts["observations"] += 1
            old = wb * WFLAG + r
            s2 = st.copy()
            res = mkint(old)
            new = None
            ordn = order
            if kind == "load":
                new = old
            elif kind == "fetch_add":
                new = (old + args[0][1]) & M64
            elif kind == "fetch_sub":
                new = (old - args[0][1]) & M64
            elif kind == "add_fetch":
                new = (old + args[0][1]) & M64
                res = mkint(new)
            elif kind == "sub_fetch":
                new = (old - args[0][1]) & M64
                res = mkint(new)
            elif kind == "fetch_and":
                new = old & (args[0][1] & M64)
            elif kind == "fetch_or":
                new = old | (args[0][1] & M64)
            elif kind == "fetch_xor":
                new = old ^ (args[0][1] & M64)
            elif kind == "and_fetch":
                new = old & (args[0][1] & M64)
                res = mkint(new)
            elif kind == "or_fetch":
                new = old | (args[0][1] & M64)
                res = mkint(new)
            elif kind == "xchg":
                new = args[0][1] & M64
            elif kind in ("bts", "btr"):
                if order == -1:
                    self.bad(I, st, site, "bit test of the lock word is not atomic (no lock prefix)")
                b = args[0][1]
                res = mkint((old >> b) & 1)
                new = old | (1 << b) if kind == "bts" else old & ~(1 << b)
            elif kind in ("cas", "casv", "casb"):
                exp = I.rawload(s2, I.ptr_loc(args[0])) if kind == "cas" else args[0]
                if isint(exp) and isint(args[1]):
                    if old == exp[1] & M64:
                        new = args[1][1] & M64
                        res = ONE if kind != "casv" else mkint(old)
                    else:
                        new = old
                        res = ZERO if kind != "casv" else mkint(old)
                        if kind == "cas":
                            I.rawstore(s2, I.ptr_loc(args[0]), mkint(old))
                    if isinstance(order, tuple):
                        ordn = order[0] if new != old or old == exp[1] & M64 else order[1]
                else:
                    raise AnalysisBroken("unmodelled exchange on the lock word")
            else:
                raise AnalysisBroken("unmodelled atomic '%s' on the lock word" % kind)
            ok = self.apply(I, s2, site, wb, r, new, ordn, kind)
            if ok:
                outs.append((s2, res))
        return outs

    def apply(self, I, st, site, wb, r, new, order, kind):
        v, p, w, c, acq, stuck = st.ts
        nwb, nr = new >> 63, new & (WFLAG - 1)
        isacq = order in (1, 2, 4, 5)
        isrel = order in (3, 4, 5)
        dr = nr - r
        if dr > 2:
            dr = -((1 << 63) - dr) if dr > 1 << 62 else dr
        released = False
        if dr < -1 or dr > 1:
            self.bad(I, st, site, "reader count changes by %d in one step" % dr)
            return False
        if dr == 1:
            if wb == 0 or w:
                v += 1
            else:
                p += 1
            acq = acq or isacq
        elif dr == -1:
            if p:
                p -= 1
            elif v:
                v -= 1
                released = True
            else:
                self.bad(I, st, site, "reader count decremented without holding a shared lock")
                return False
        if nwb != wb:
            if nwb:
                w = 1
                c = 0
                acq = isacq
            else:
                if not w:
                    self.bad(I, st, site, "clears the writer flag of another thread")
                    return False
                w = 0
                c = 0
                released = True
        if w and nr == v + p:
            c = 1
            acq = acq and True
            if not (isacq or kind in ("bts",)):
                acq = False
            elif isacq:
                acq = True
        if w and not c and nwb == wb and isacq and nr != v + p:
            pass
        if released and not isrel:
            self.bad(I, st, site, "lock released without release ordering")
        if v + p > 2:
            self.bad(I, st, site, "reader count leaks")
            return False
        if wb and not (w and wb == nwb) and not w and v + p and dr >= 0:
            here = site.loc
            if stuck == here:
                self.bad(I, st, site, "waits for another writer while holding a shared lock that writer waits for: deadlock")
                return False
            if stuck is None:
                stuck = here
        else:
            stuck = None
        st.ts = (v, p, w, c, acq, stuck)
        return True

    def mergekey(self, st):
        return st.ts

    def exit(self, I, st, val, site):
        self.counts["exits"] += 1
        v, p, w, c, acq, stuck = st.ts
        state = "X" if w and v + p == 0 and c else "U" if w and v + p == 1 and c else "S" if (v, p, w) == (1, 0, 0) else "-" if (v, p, w) == (0, 0, 0) else "?"
        want = self.spec
        name, pre, post, fail = want
        if fail is not None:
            if val is None or not isint(val):
                raise AnalysisBroken("undecided result of %s" % name)
            exp = post if val[1] else fail
        else:
            exp = post
        if state != exp:
            what = {"X": "exclusive hold", "U": "upgraded hold", "S": "shared hold", "-": "no hold",
                    "?": "an unconfirmed or partial hold (readers may still be inside, or a reader count leaked)"}
            self.bad(I, st, site, "%s %sreturns with %s instead of %s" % (
                name, "" if fail is None else ("reports success but " if val[1] else "reports failure but "), what[state], what[exp]))
        elif exp in ("X", "U", "S") and exp != pre and (pre, exp) != ("U", "S") and not acq:
            self.bad(I, st, site, "%s acquires without acquire ordering" % name)


START = {"-": (0, 0, 0, 0, False, None), "S": (1, 0, 0, 0, True, None), "X": (0, 0, 1, 1, True, None), "U": (1, 0, 1, 1, True, None)}
SPEC = [  # op, before, after, after when it reports failure
    ("Lock", "-", "X", None), ("AttemptLock", "-", "X", "-"), ("AttemptStrictLock", "-", "X", "-"), ("Unlock", "X", "-", None),
    ("RLock", "-", "S", None), ("AttemptRLock", "-", "S", "-"), ("RUnlock", "S", "-", None),
    ("Upgrade", "S", "U", None), ("AttemptUpgrade", "S", "U", "S"), ("Downgrade", "U", "S", None),
    ("ReaderCount", "-", "-", None), ("IsFree", "-", "-", None),
]
