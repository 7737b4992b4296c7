"""Reference counts and ownership.

Counting pointers: every operation is interpreted from every combination of what its operands point to (nothing, one object, another
object, the same object, an operand that lives inside an object the operation may destroy) and of whether somebody else holds the object
too. The count of an object must be the number of holders afterwards, the object must be gone exactly when that is zero, and nothing may
be done with an object, or with what lives inside it, once it is gone.
Owning pointers: an object has at most one owner, is deleted exactly once when its last owner lets go, and no one who is not an owner
deletes it."""
import itertools
from engine import *
from shape import node, show
from gimple import AnalysisBroken

A, B = node("A"), node("B")
PA, PB, PR = (("arg", "a"), ("_p",)), (("arg", "b"), ("_p",)), (("arg", "r"), ("_p",))
IN = (A, ("in", "_p"))


class Cfg:
    def __init__(self, name, cells, want, **k):
        self.name, self.cells, self.want = name, cells, want
        self.args = k.get("args", {})
        self.ext = k.get("ext", {})          # holders elsewhere
        self.ret = k.get("ret")
        self.gone = k.get("gone", ())        # pointer objects destroyed by the operation
        self.fresh = k.get("fresh", ())      # objects nobody has grabbed yet
        self.deleted = k.get("deleted", ())
        self.facts = k.get("facts", ())
        self.check = k.get("check")


class Base(Rule):
    max_states = loop_exact = 10 ** 9
    affine = False

    def __init__(self, configs):
        self.configs = configs
        self.counts = {"configs": len(configs), "exits": 0, "links": 0, "events": 0}

    def asserts(self):
        return False

    def mergekey(self, st):
        return st.ts

    def flag(self, I, st, site, what):
        I.report(st, site, "%s [%s]" % (what, self.configs[st.ts[0]].name), key=(site.loc, what))

    def distinct(self, a, b):
        ks = ("node", "int", "addr", "arg")
        if a[0] == b[0] == "arg" and a != b:
            return True
        for x, y in ((a, b), (b, a)):
            if x[0] == "node" and y[0] in ks and x != y:
                return True
        return False

    def start(self, c):
        return ()

    def setup(self, I, st):
        out = []
        for i, c in enumerate(self.configs):
            s = st.copy()
            for l, v in c.cells.items():
                s.mem[l] = v
            for nm, v in c.args.items():
                I.bind_param(s, s.frames[-1].func, nm, v)
            s.ts = (i,) + self.start(c)
            I.tr(s, "start: " + c.name)
            for f in c.facts:
                I.assume(s, f, True, None)
            out.append(s)
        return out

    def dead(self, st):
        return st.ts[2]

    def load(self, I, st, loc, site):
        self.counts["events"] += 1
        if loc[0] in self.dead(st):
            self.flag(I, st, site, "reads from an object that has been destroyed")
        if loc[0][0] == "int":
            self.flag(I, st, site, "follows a null pointer")
        return None

    def store(self, I, st, loc, val, site):
        self.counts["events"] += 1
        if loc[0] in self.dead(st):
            self.flag(I, st, site, "writes to an object that has been destroyed")
        if loc[0][0] == "int":
            self.flag(I, st, site, "follows a null pointer")
        return None

    def cells(self, I, st, c, site, val):
        for loc, w in c.want.items():
            self.counts["links"] += 1
            v = I.rawload(st, loc)
            if v != w and I.truth(st, mkcmp("==", v, w)) is not True:
                self.flag(I, st, site, "after the operation %s is %s, not %s" % (show(loc), show(v), show(w)))
        if c.ret is not None and val != c.ret and I.truth(st, mkcmp("==", val, c.ret)) is not True:
            self.flag(I, st, site, "returns %s, not %s" % (show(val), show(c.ret)))


# ---------------------------------------------------------------- ref_ptr
class RefRule(Base):
    # ts = (config, counts, dead)
    def start(self, c):
        n = dict(c.ext)
        for x in (A, B):
            n.setdefault(x, 0)
        for v in c.cells.values():
            if v in n:
                n[v] += 1
        return (tuple(sorted(n.items())), frozenset())

    def add(self, I, st, x, n, site):
        ci, cnt, dead = st.ts
        cnt = dict(cnt)
        self.counts["events"] += 1
        if x not in cnt:
            self.flag(I, st, site, "counts a reference through something that is not an object")
            return ZERO
        if x in dead:
            self.flag(I, st, site, "counts a reference to an object that has been destroyed")
            return ZERO
        cnt[x] += n
        v = cnt[x]
        st.ts = (ci, tuple(sorted(cnt.items())), dead)
        if n < 0 and v <= 0:
            st.ts = st.ts[:2] + (dead | {x},)
            for l, w in [(l, w) for l, w in st.mem.items() if l[0] == x]:
                if l[1][-1] == "_p" and w in cnt:
                    self.add(I, st, w, -1, site)
        return mkint(v)

    def call(self, I, st, name, func, args, site, lhs):
        if name == "_ZN1R4GrabEv":
            return [(st, self.add(I, st, args[0], 1, site))]
        if name == "_ZN1R4GrabEi":
            if not isint(args[1]):
                raise AnalysisBroken("grab of an unknown number")
            return [(st, self.add(I, st, args[0], args[1][1], site))]
        if name == "_ZN1R4DropEv":
            return [(st, self.add(I, st, args[0], -1, site))]
        if name.startswith("_ZN1R"):
            self.flag(I, st, site, "destroys or creates an object itself")
            return [(st, None)]
        return None

    def exit(self, I, st, val, site):
        c = self.configs[st.ts[0]]
        self.counts["exits"] += 1
        ci, cnt, dead = st.ts
        cnt = dict(cnt)
        held = {x: c.ext.get(x, 0) for x in cnt}
        for l, v in st.mem.items():
            if l[1] and l[1][-1] == "_p" and l[0][0] in ("arg", "node") and l[0] not in dead and l[0] not in c.gone and v in held:
                held[v] += 1
        for x in cnt:
            self.counts["links"] += 1
            if x in dead:
                if held[x]:
                    self.flag(I, st, site, "an object that is still referred to has been destroyed")
            elif cnt[x] != held[x]:
                self.flag(I, st, site, "an object is counted %d times and has %d holders" % (cnt[x], held[x]))
            elif not cnt[x] and x not in c.fresh and x in c.cells.values():
                self.flag(I, st, site, "an object without holders stays")
        self.cells(I, st, c, site, val)


def ref_configs(op):
    out = []
    vals = {"nothing": ZERO, "A": A, "B": B}

    def exts():
        for ea in (0, 1):
            for eb in (0, 1):
                yield {A: ea, B: eb}

    def nm(e):
        return " (%s held elsewhere)" % " and ".join(sorted(x[1] for x in e if e[x]) or ["neither"])
    inside = {(B, ("in", "_p")): ZERO}
    if op == "ctor0":
        out.append(Cfg("no object", {}, {PR: ZERO}))
    elif op == "ctor":
        out.append(Cfg("null", {}, {PR: ZERO}, args={"p": ZERO}))
        for e in (0, 1, 2):
            out.append(Cfg("object held %d times" % e, {}, {PR: A}, args={"p": A}, ext={A: e}, fresh={A}))
    elif op in ("copy", "move"):
        for k in ("nothing", "A"):
            for e in (0, 1):
                v = vals[k]
                out.append(Cfg("from one to %s%s" % (k, nm({A: e})), {PB: v}, {PR: v, PB: v if op == "copy" else ZERO}, ext={A: e}))
    elif op == "dtor":
        for k in ("nothing", "A"):
            for e in (0, 1, 2):
                out.append(Cfg("to %s%s" % (k, nm({A: e})), {PA: vals[k]}, {}, ext={A: e}, gone={("arg", "a")}))
    elif op in ("get", "cget", "arrow", "star", "not", "eq", "ne"):
        for k in ("nothing", "A"):
            if op == "star" and k == "nothing":
                continue
            v = vals[k]
            for k2 in ("nothing", "A", "B") if op in ("eq", "ne") else ("-",):
                w = vals.get(k2)
                r = v
                if op == "not":
                    r = mkint(int(v == ZERO))
                if op in ("eq", "ne"):
                    r = mkint(int((v == w) == (op == "eq")))
                out.append(Cfg("to " + k, {PA: v}, {PA: v}, ret=r, ext={A: 0}, args={"p": w} if w else {}))
    elif op == "assignself":
        for k in ("nothing", "A"):
            for e in (0, 1):
                out.append(Cfg("to %s%s" % (k, nm({A: e})), {PA: vals[k]}, {PA: vals[k]}, ext={A: e}))
    elif op in ("assign", "assignmove"):
        for k in ("nothing", "A"):
            for k2 in ("nothing", "A", "B"):
                for e in exts():
                    v, w = vals[k], vals[k2]
                    out.append(Cfg("to %s, from one to %s%s" % (k, k2, nm(e)), {PA: v, PB: w}, {PA: w, PB: w if op == "assign" else ZERO}, ext=e))
        for k2 in ("nothing", "B"):
            for e in exts():
                w = vals[k2]
                want = {PA: w}
                if e[A]:
                    want[IN] = w if op == "assign" else ZERO
                out.append(Cfg("to A, from one inside A to %s%s" % (k2, nm(e)), {PA: A, IN: w}, want, ext=e, args={"b": ("addr", (A, ("in",)))}))
    elif op == "assignptr":
        for k in ("nothing", "A"):
            for k2 in ("nothing", "A", "B"):
                for e in exts():
                    v, w = vals[k], vals[k2]
                    out.append(Cfg("to %s, from a pointer to %s%s" % (k, k2, nm(e)), {PA: v}, {PA: w}, ext=e, args={"p": w}, fresh={A, B}))
    for c in out:
        for x in (A, B):
            c.cells.setdefault((x, ("in", "_p")), ZERO)
    return out


# ---------------------------------------------------------------- RefCounter
class CountRule(Base):
    # ts = (config, destroyed, dead)
    def start(self, c):
        return (0, frozenset())

    def call(self, I, st, name, func, args, site, lhs):
        if name in ("<virtual>", "_ZN1C11DestroyThisEv", "_ZN3bss10RefCounter11DestroyThisEv"):
            self.counts["events"] += 1
            ci, n, dead = st.ts
            if n:
                self.flag(I, st, site, "destroys the object twice")
            I.tr(st, "destroyed")
            st.ts = (ci, n + 1, dead | {args[0]})
            return [(st, None)]
        return None

    def exit(self, I, st, val, site):
        c = self.configs[st.ts[0]]
        self.counts["exits"] += 1
        if c.check:
            c.check(self, I, st, val, site)
        elif st.ts[1]:
            self.flag(I, st, site, "destroys the object")
        self.cells(I, st, c, site, val)


def cnt_configs(op):
    RA, RB, RR = ((("arg", x), ("_refs",)) for x in "abr")
    n = ("init", RA)
    if op == "grab":
        return [Cfg("any count", {RA: n}, {RA: lin_add(n, ONE)}, ret=lin_add(n, ONE))]
    if op == "grabn":
        k = lin_add(n, ("arg", "n"))
        return [Cfg("any count", {RA: n}, {RA: k}, ret=k)]
    if op == "ctor":
        return [Cfg("no object", {}, {RR: ZERO})]
    if op == "copy":
        return [Cfg("any count", {RB: ("init", RB)}, {RR: ZERO, RB: ("init", RB)})]
    if op == "assign":
        return [Cfg("any counts", {RA: n, RB: ("init", RB)}, {RA: n, RB: ("init", RB)})]

    def one(I, st):
        """is this the last reference? (the count is positive)"""
        m, two = lin_add(n, ONE, -1), mkint(2)
        for c, inv in ((mkcmp(">", m, ZERO), 1), (mkcmp(">", n, ONE), 1), (mkcmp(">=", m, ONE), 1), (mkcmp(">=", n, two), 1), (mkcmp("==", m, ZERO), 0), (mkcmp("==", n, ONE), 0)):
            t = I.truth(st, c)
            if t is not None:
                return t != bool(inv)
        return None

    def check(rule, I, st, val, site):
        rule.counts["links"] += 2
        if st.ts[1]:
            if one(I, st) is not True:
                rule.flag(I, st, site, "destroys an object that still has holders")
            if val != ZERO and I.truth(st, mkcmp("==", val, ZERO)) is not True:
                rule.flag(I, st, site, "reports references to a destroyed object")
        else:
            if one(I, st) is not False:
                rule.flag(I, st, site, "keeps an object without holders")
            v = I.rawload(st, RA)
            if v != lin_add(n, ONE, -1):
                rule.flag(I, st, site, "the count after the drop is not one less")
            if val != lin_add(n, ONE, -1):
                rule.flag(I, st, site, "does not return the count")
    out = [Cfg("any positive count", {RA: n}, {}, check=check, facts=[mkcmp("<", ZERO, n)])]
    return out


# ---------------------------------------------------------------- OwnerPtr
class OwnRule(Base):
    # ts = (config, (), dead)
    def start(self, c):
        return ((), frozenset())

    def call(self, I, st, name, func, args, site, lhs):
        if name == "_ZNK1DclEP1O":
            self.counts["events"] += 1
            x = args[1]
            if x == ZERO:
                return [(st, None)]
            if x[0] != "node":
                self.flag(I, st, site, "deletes something it does not point to")
            elif x in st.ts[2]:
                self.flag(I, st, site, "deletes an object twice")
            I.tr(st, "deleted " + show(x))
            st.ts = st.ts[:2] + (st.ts[2] | {x},)
            return [(st, None)]
        return None

    def exit(self, I, st, val, site):
        c = self.configs[st.ts[0]]
        self.counts["exits"] += 1
        self.counts["links"] += 1
        dead = st.ts[2]
        if dead - set(c.deleted):
            self.flag(I, st, site, "deletes an object it does not own or that is still owned")
        if set(c.deleted) - dead:
            self.flag(I, st, site, "an owned object is never deleted")
        self.cells(I, st, c, site, val)


def own_configs(op):
    def p(b, v, o):
        d = {(("arg", b), ("_p",)): v}
        if o is None:
            return d
        d[(("arg", b), ("_owner",))] = mkint(o)
        return d

    def m(*ds):
        r = {}
        for d in ds:
            r.update(d)
        return r
    states = [("nothing", ZERO, 0), ("a borrowed object", A, 0), ("an owned object", A, 1)]
    other = [("nothing", ZERO, 0), ("a borrowed object", B, 0), ("an owned object", B, 1)]
    out = []
    if op == "ctor0":
        return [Cfg("no object", {}, p("r", ZERO, 0))]
    if op == "ctor":
        return [Cfg("pointer", {}, p("r", A, 1), args={"p": A}), Cfg("null pointer", {}, p("r", ZERO, None), args={"p": ZERO})]
    if op == "ctorref":
        return [Cfg("object", {}, p("r", A, 0), args={"p": A})]
    for n, v, o in states:
        own = {A} if o else ()
        if op == "dtor":
            out.append(Cfg(n, p("a", v, o), {}, deleted=own))
        elif op == "get":
            out.append(Cfg(n, p("a", v, o), p("a", v, o), ret=v))
        elif op in ("copy", "move"):
            out.append(Cfg("from " + n, p("b", v, o), m(p("r", v, 0 if op == "copy" else o), p("b", v, o) if op == "copy" else {(("arg", "b"), ("_owner",)): ZERO})))
        elif op in ("assignself", "assignmoveself"):
            out.append(Cfg(n, p("a", v, o), p("a", v, o)))
        elif op in ("assignptr", "assignref"):
            for n2, v2 in (("nothing", ZERO), ("an object", B)):
                if v2 == ZERO and op == "assignref":
                    continue
                w = p("a", v2, int(op == "assignptr")) if v2 != ZERO else p("a", v2, None)
                out.append(Cfg("%s, from %s" % (n, n2), p("a", v, o), w, args={"p": v2}, deleted=own))
        elif op in ("assign", "assignmove"):
            for n2, v2, o2 in other:
                mv = op == "assignmove"
                w = m(p("a", v2, (o2 if mv else 0) if v2 != ZERO else None), {(("arg", "b"), ("_owner",)): mkint(0 if mv else o2)})
                out.append(Cfg("%s, from %s" % (n, n2), m(p("a", v, o), p("b", v2, o2)), w, deleted=own))
    return out


def rule(root):
    _, fam, op = root.split("_", 2)
    return {"ref": lambda: RefRule(ref_configs(op)), "cnt": lambda: CountRule(cnt_configs(op)), "own": lambda: OwnRule(own_configs(op))}[fam]()
