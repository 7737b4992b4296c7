"""Tagged unions: which alternative lives in the storage, against what the tag says."""
import re
from engine import *
from shape import show
from own import Base, Cfg

T = ("X", "Y", "Z")
OPS = re.compile(r"_ZN1([XYZ])(C[12]Ev|C[12]ERKS_|C[12]EOS_|D[12]Ev|aSERKS_|aSEOS_)$")
a, b, r = ("arg", "a"), ("arg", "b"), ("arg", "r")


class VariantRule(Base):
    # ts = (config, occupants, dead); occupants: storage -> (type, value)
    def start(self, c):
        occ = dict(c.ext)
        return (tuple(sorted(occ.items())), frozenset())

    def noreturn(self, I, st, name, args, site):
        self.flag(I, st, site, "aborts")

    def where(self, x):
        """the variant (or outside object) an address belongs to"""
        if x[0] == "addr":
            return x[1][0] if x[1][1] in ((), ("_store",), ("_store", 0)) else x
        return x

    def call(self, I, st, name, func, args, site, lhs):
        m = OPS.match(name)
        if not m:
            return None
        self.counts["events"] += 1
        t, k = m.groups()
        occ = dict(st.ts[1])
        x = self.where(args[0])
        cur = occ.get(x)
        src = None
        if len(args) > 1:
            y = self.where(args[1])
            src = occ.get(y)
            if src is None or src[0] != t:
                self.flag(I, st, site, "takes an alternative the source does not hold")
                src = (t, "?")
        if k[0] == "C":
            if cur is not None:
                self.flag(I, st, site, "constructs an alternative over a live one")
            occ[x] = src or (t, "new")
        elif k[0] == "D":
            if cur is None:
                self.flag(I, st, site, "destroys an alternative that is not there")
            elif cur[0] != t:
                self.flag(I, st, site, "destroys an alternative as another type")
            occ.pop(x, None)
        else:
            if cur is None or cur[0] != t:
                self.flag(I, st, site, "assigns to an alternative that is not there")
            occ[x] = src
        st.ts = (st.ts[0], tuple(sorted(occ.items())), st.ts[2])
        return [(st, args[0] if k[0] == "a" else None)]

    def exit(self, I, st, val, site):
        c = self.configs[st.ts[0]]
        self.counts["exits"] += 1
        occ = dict(st.ts[1])
        for x in (a, b, r):
            self.counts["links"] += 1
            w = c.check.get(x)
            if occ.get(x) != w:
                self.flag(I, st, site, "%s holds %s, not %s" % (x[1], occ.get(x), w))
        self.cells(I, st, c, site, val)


def tagcell(v):
    return (v, ("_tag",))


def configs(op):
    out = []
    op, _, t = op.partition("_")
    alts = [(-1, None)] + list(enumerate(T))

    def C(name, occ, tags, want, wtags, **k):
        ext = {x: v for x, v in occ.items() if v}
        out.append(Cfg(name, {tagcell(x): mkint(n) for x, n in tags.items()}, {tagcell(x): mkint(n) for x, n in wtags.items()}, ext=ext, check=want, **k))
    if op == "ctor0":
        C("no object", {}, {}, {}, {r: -1})
    elif op in ("copy", "copync", "move"):
        for n, s in alts:
            v = s and (s, "b")
            C("from one holding %s" % s, {b: v}, {b: n}, {b: v, r: v}, {r: n, b: n})
    elif op == "dtor":
        for n, s in alts:
            C("holding %s" % s, {a: s and (s, "a")}, {a: n}, {}, {})
    elif op in ("assign", "assignnc", "assignmove"):
        for n, s in alts:
            for n2, s2 in alts:
                v = s2 and (s2, "b")
                C("holding %s, from one holding %s" % (s, s2), {a: s and (s, "a"), b: v}, {a: n, b: n2}, {a: v, b: v}, {a: n2, b: n2})
    elif op in ("assignself", "assignmoveself"):
        for n, s in alts:
            v = s and (s, "a")
            C("holding %s" % s, {a: v}, {a: n}, {a: v}, {a: n})
    elif op == "tag":
        for n, s in alts:
            v = s and (s, "a")
            C("holding %s" % s, {a: v}, {a: n}, {a: v}, {a: n}, ret=mkint(n))
    elif op in ("ctorcopy", "ctornc", "ctormove"):
        C("from a value", {("arg", "x"): (t, "x")}, {}, {r: (t, "x")}, {r: T.index(t)})
    elif op in ("setcopy", "setnc", "setmove"):
        for n, s in alts:
            C("holding %s" % s, {a: s and (s, "a"), ("arg", "x"): (t, "x")}, {a: n}, {a: (t, "x")}, {a: T.index(t)})
        C("from its own content", {a: (t, "a")}, {a: T.index(t)}, {a: (t, "a")}, {a: T.index(t)}, args={"x": ("addr", (a, ("_store",)))})
    elif op == "typeset":
        for n, s in alts:
            C("holding %s" % s, {a: s and (s, "a")}, {a: n}, {a: (t, "new")}, {a: T.index(t)})
    elif op == "is":
        for n, s in alts:
            v = s and (s, "a")
            C("holding %s" % s, {a: v}, {a: n}, {a: v}, {a: n}, ret=mkint(int(s == t)))
    elif op in ("get", "cget"):
        C("holding it", {a: (t, "a")}, {a: T.index(t)}, {a: (t, "a")}, {a: T.index(t)}, ret=("addr", (a, ("_store",))))
    elif op == "wit":
        C("layout", {}, {}, {}, {}, ret=ONE)
    elif op == "convertp":
        for n, s in alts[1:]:
            st = ("addr", (a, ("_store",)))
            C("holding %s" % s, {a: (s, "a")}, {a: n}, {a: (s, "a")}, {a: n}, ret=st)
    return out
