"""Linked structures as explicit heaps.

Every operation is analysed from every start configuration of the nodes it can reach: the node it works on with none, one or more
neighbours on each side. Stretches of nodes further away are gaps: they have an unknown number (at least one) of nodes, and a node is
taken out of them when the code walks into them. Loops that walk a gap are closed by folding the nodes they are done with."""
import re
from engine import *
from gimple import AnalysisBroken


def node(n):
    return ("node", n)


class Config:
    """a start configuration: cells of memory, and what the operation has to make of it"""
    def __init__(self, name, cells, want, **k):
        self.name, self.cells, self.want = name, cells, want
        self.args = k.get("args", {})
        self.free = k.get("free", frozenset())       # nodes released (gap names included)
        self.ret = k.get("ret")
        self.new = k.get("new", 0)                   # nodes allocated
        self.frees = k.get("frees", {})              # node -> allocator identity


class ShapeRule(Rule):
    max_states = loop_exact = 10 ** 9
    affine = False
    hooks = {}              # function name without template arguments -> summary

    def __init__(self, configs, allocre=r"_ZN6VAllocI(.*)E(8allocate|10deallocate)E"):
        self.configs = configs
        self.allocre = re.compile(allocre)
        self.counts = {"configs": len(configs), "exits": 0, "links": 0, "events": 0}

    def asserts(self):
        return False

    # ts = (config number, frozenset of freed nodes, number of nodes allocated, frozenset of notes)
    def setup(self, I, st):
        out = []
        for i, c in enumerate(self.configs):
            s = st.copy()
            for l, v in c.cells.items():
                s.mem[l] = v
            for nm, v in c.args.items():
                I.bind_param(s, s.frames[-1].func, nm, v)
            s.ts = (i, frozenset(), 0, frozenset())
            I.tr(s, "start: " + c.name)
            out.append(s)
        return out

    def distinct(self, a, b):
        ks = ("node", "gapf", "gapl", "int", "alloc", "addr", "arg")
        if a[0] == b[0] == "arg" and a != b:
            return True
        for x, y in ((a, b), (b, a)):
            if x[0] in ("node", "gapf", "gapl", "alloc") and y[0] in ks and x != y:
                if {x[0], y[0]} == {"gapf", "gapl"} and x[1] == y[1]:
                    return False        # a gap of one node
                return True
        return False

    def mergekey(self, st):
        return st.ts

    # ---- gaps
    def touch(self, I, st, base, site):
        """a gap pointer is about to be followed: take the node out of the gap"""
        k, g = base[0], base[1]
        n = 0
        while (node("%s.%d" % (g, n)),) in [(l[0],) for l in st.mem] or node("%s.%d" % (g, n)) in st.ts[1]:
            n += 1
        x = node("%s.%d" % (g, n))
        one, more = st.copy(), st.copy()
        other = ("gapl" if k == "gapf" else "gapf", g)
        for s, last in ((one, True), (more, False)):
            # cells that refer to this end now refer to the node
            s.substitute(base, x)
            if last:
                s.substitute(other, x)
            f = self.gapfields
            pf, pl = s.mem.pop((("gap", g), ("before",))), s.mem.pop((("gap", g), ("after",)))
            if last:
                s.mem[(x, f[0])] = pl
                s.mem[(x, f[1])] = pf
            elif k == "gapf":
                s.mem[(x, f[0])] = ("gapf", g)
                s.mem[(x, f[1])] = pf
                s.mem[(("gap", g), ("before",))] = x
                s.mem[(("gap", g), ("after",))] = pl
            else:
                s.mem[(x, f[1])] = ("gapl", g)
                s.mem[(x, f[0])] = pl
                s.mem[(("gap", g), ("before",))] = pf
                s.mem[(("gap", g), ("after",))] = x
        raise Split([one, more])

    gapfields = (("next",), ("prev",))

    def loophead(self, I, st, node_, back, site):
        """fold gap nodes that are done with"""
        ci, freed, n, notes = st.ts
        for x in sorted(freed):
            m = re.match(r"(.*)\.\d+$", x[1])
            if m and not self.referenced(st, x):
                freed = freed - {x}
                notes = notes | {("freed", m.group(1))}
                for l in [l for l in st.mem if l[0] == x]:
                    del st.mem[l]
                for l, v in list(st.mem.items()):
                    if v == x:
                        st.mem[l] = ("node", m.group(1) + "*")
        st.ts = (ci, freed, n, notes)

    def referenced(self, st, x):
        for f in st.frames:
            for v in f.env.values():
                if contains(v, x):
                    return True
        for l, v in st.mem.items():
            if l[0][0] in ("var", "arg") and contains(v, x):
                return True
        return False

    # ---- events
    def flag(self, I, st, site, what):
        I.report(st, site, "%s [%s]" % (what, self.configs[st.ts[0]].name), key=(site.loc, what))

    def load(self, I, st, loc, site):
        b = loc[0]
        if b[0] in ("gapf", "gapl"):
            self.touch(I, st, b, site)
        self.counts["events"] += 1
        if b in st.ts[1]:
            self.flag(I, st, site, "reads a node that has been released")
        if b == ZERO or b[0] == "int":
            self.flag(I, st, site, "follows a null link")
        return None

    def store(self, I, st, loc, val, site):
        b = loc[0]
        if b[0] in ("gapf", "gapl"):
            self.touch(I, st, b, site)
        self.counts["events"] += 1
        if b in st.ts[1]:
            self.flag(I, st, site, "writes to a node that has been released")
        if b == ZERO or b[0] == "int":
            self.flag(I, st, site, "writes through a null link")
        return None

    def call(self, I, st, name, func, args, site, lhs):
        h = self.hooks.get(re.sub(r"<.*", "", func.name) + "::" + func.name.rsplit("::", 1)[-1]) if func and self.hooks else None
        if h:
            return h(self, I, st, args, site)
        m = self.allocre.match(name)
        if m:
            self.counts["events"] += 1
            if m.group(2) == "8allocate":
                ci, freed, n, notes = st.ts
                x = ("alloc", "new%d" % n)
                st.ts = (ci, freed, n + 1, notes)
                if n > 8:
                    raise AnalysisBroken("allocation in a loop")
                return [(st, x)]
            x = args[1]
            if x[0] in ("gapf", "gapl"):
                self.touch(I, st, x, site)
            if x[0] not in ("node", "alloc"):
                self.flag(I, st, site, "releases something that is not a node")
                return [(st, None)]
            self.release(I, st, x, I.rawload(st, (args[0], ("_aid",))), site)
            return [(st, None)]
        return None

    def release(self, I, st, x, aid, site):
        ci, freed, n, notes = st.ts
        if x in freed:
            self.flag(I, st, site, "releases a node twice")
        st.ts = (ci, freed | {x}, n, notes)
        want = self.configs[ci].frees.get(x if x[0] != "node" else node(re.sub(r"\.\d+$", "", x[1])))
        if want is not None and aid is not None and aid != want and aid[0] != "undef":
            self.flag(I, st, site, "releases a node to an allocator it does not come from")

    def exit(self, I, st, val, site):
        c = self.configs[st.ts[0]]
        self.counts["exits"] += 1
        ci, freed, n, notes = st.ts
        ren = {}
        # names of nodes allocated are in order of allocation
        want = c.want
        if callable(want):
            want = want(self, I, st, val, site)
        if n != c.new:
            self.flag(I, st, site, "%d nodes are allocated where the operation adds %d" % (n, c.new))
            return
        gone = set(freed)
        for t, g in notes:
            gone.add(node(g))
        for x in list(gone):
            m = re.match(r"(.*)\.\d+$", x[1])
            if m:
                gone.discard(x)
                gone.add(node(m.group(1)))
        if gone != set(c.free):
            extra, miss = gone - set(c.free), set(c.free) - gone
            if extra:
                self.flag(I, st, site, "a node that stays in use is released")
            if miss:
                self.flag(I, st, site, "a removed node is never released")
        for g in {x[1] for x in c.free}:
            if (("gap", g), ("before",)) in st.mem:
                self.flag(I, st, site, "nodes of a cleared list are never released")
        for loc, w in want.items():
            self.counts["links"] += 1
            v = I.rawload(st, loc)
            if not self.same(I, st, v, w):
                self.flag(I, st, site, "after the operation %s is %s, not %s" % (show(loc), show(v), show(w)))
        if c.ret is not None and not self.same(I, st, val, c.ret):
            self.flag(I, st, site, "returns %s, not %s" % (show(val), show(c.ret)))

    def same(self, I, st, v, w):
        if v == w:
            return True
        if v is None or w is None:
            return False
        d = lin_add(v, w, -1)
        if isint(d) and d[1] and d[1] % 65536 == 0:
            return True         # counters are modular
        return I.truth(st, mkcmp("==", v, w)) is True


def show(v):
    if v is None:
        return "nothing"
    if v[0] == "int":
        return "null" if v[1] == 0 else str(v[1])
    if v[0] in ("node", "alloc"):
        return "'%s'" % v[1]
    if v[0] == "gapf":
        return "the first of '%s'" % v[1]
    if v[0] == "gapl":
        return "the last of '%s'" % v[1]
    if isinstance(v[0], tuple):
        b = show(v[0]) if v[0][0] != "arg" else v[0][1]
        return b + "." + ".".join(str(p) for p in v[1])
    if v[0] == "arg":
        return v[1]
    if v[0] == "init":
        return "the old value of " + show(v[1])
    return str(v)[:60]


# ---------------------------------------------------------------- doubly linked sequences
def stretch(n, name):
    """0, 1 or many nodes"""
    return {0: [], 1: [name + "0"], 2: [name + "0", "~" + name, name + "9"]}[n]


def first(s):
    return ("gapf", s[1:]) if s[0] == "~" else s if isinstance(s, tuple) else node(s)


def last(s):
    return ("gapl", s[1:]) if s[0] == "~" else s if isinstance(s, tuple) else node(s)


class Seq:
    """cells of a doubly linked sequence (elements: node names, ~gap, or values)"""
    nxt, prv = ("next",), ("prev",)
    nil = ZERO

    def __init__(self, nxt=("next",), prv=("prev",), nil=ZERO, addr=None, ref=None):
        self.nxt, self.prv, self.nil = nxt, prv, nil
        self.addr = addr or (lambda s: s if isinstance(s, tuple) else node(s))
        self.ref = ref or self.addr

    def f(self, s):
        return ("gapf", s[1:]) if s[0] == "~" else self.ref(s)

    def l(self, s):
        return ("gapl", s[1:]) if s[0] == "~" else self.ref(s)

    def cells(self, seq, root=None, last=None, prev=True):
        c = {}
        for i, s in enumerate(seq):
            a = self.l(seq[i - 1]) if i else self.nil
            b = self.f(seq[i + 1]) if i + 1 < len(seq) else self.nil
            if s[0] == "~":
                c[(("gap", s[1:]), ("before",))] = a if prev else ("any",)
                c[(("gap", s[1:]), ("after",))] = b
            else:
                c[(self.addr(s), self.nxt)] = b
                if prev:
                    c[(self.addr(s), self.prv)] = a
        if root is not None:
            c[root] = self.f(seq[0]) if seq else self.nil
        if last is not None:
            c[last] = self.l(seq[-1]) if seq else self.nil
        return c


def merge(*ds):
    r = {}
    for d in ds:
        r.update(d)
    return r


NEW = ("alloc", "new0")


def sides():
    for a in range(3):
        for b in range(3):
            yield stretch(a, "a"), stretch(b, "b")


def wholes():
    return [[], ["a0"], ["a0", "a9"], ["a0", "~a", "a9"]]


def ll_configs(op):
    alt = op.startswith("alt")
    S = Seq(("alt", "next"), ("alt", "prev")) if alt else Seq()
    if alt:
        op = op[3:]
    base, _, which = op.partition("_")
    R = (("arg", "root"), ()) if "r" in which else None
    L = (("arg", "last"), ()) if "l" in which else None
    out = []
    n = "n"
    if base in ("insert", "insertafter", "remove"):
        for a, b in sides():
            seq = a + ["t"] + b
            to = {"insert": a + [n, "t"] + b, "insertafter": a + ["t", n] + b, "remove": a + b}[base]
            out.append(Config("list " + " ".join(seq), S.cells(seq, R, L), S.cells(to, R, L), args={"t": node("t"), "n": node("n")}))
        if base == "remove":
            for seq in wholes():
                c = S.cells(seq, R, L)
                w = dict(c)
                c[(node("t"), S.nxt)] = c[(node("t"), S.prv)] = ZERO
                out.append(Config("unlinked node, list " + " ".join(seq), c, w, args={"t": node("t")}))
    else:
        for seq in wholes():
            if op == "addafter" and not seq:
                continue
            to = [n] + seq if base == "add" else seq + [n]
            args = {"n": node("n")}
            k = {}
            if op == "addafter":
                args["l"] = last(seq[-1])
                k["ret"] = node("n")
            out.append(Config("list " + " ".join(seq), S.cells(seq, R, L), S.cells(to, R, L), args=args, **k))
    return out


def list_configs(kind, op):
    """LinkedList<useLast, useSize>"""
    useL, useS = kind[1] == "1", kind[2] == "1"
    S = Seq()

    def obj(b, seq, ln, aid=True):
        A = ("arg", b)
        c = S.cells(seq, (A, ("_root",)), (A, ("_last",)) if useL else None)
        if useS:
            c[(A, ("_length",))] = ln
        if aid:
            c[(A, ("_aid",))] = ("init", (A, ("_aid",)))
        return c
    ln = ("init", (("arg", "a"), ("_length",)))
    lb = ("init", (("arg", "b"), ("_length",)))
    aid, bid = ("init", (("arg", "a"), ("_aid",))), ("init", (("arg", "b"), ("_aid",)))
    v = ("arg", "v")
    item = {(NEW, ("item",)): v}
    out = []
    if op in ("add", "insertfront"):
        for seq in wholes():
            end = op == "add" and useL or (op == "insertfront" and not seq)
            out.append(Config("list " + " ".join(seq), obj("a", seq, ln), merge(obj("a", seq + [NEW] if end else [NEW] + seq, lin_add(ln, ONE)), item), new=1, ret=NEW))
    elif op == "insert":
        for a, b in sides():
            out.append(Config("list " + " ".join(a + ["t"] + b), obj("a", a + ["t"] + b, ln), merge(obj("a", a + [NEW, "t"] + b, lin_add(ln, ONE)), item), new=1, ret=NEW, args={"t": node("t")}))
        for seq in wholes():
            out.append(Config("no target, list " + " ".join(seq), obj("a", seq, ln), merge(obj("a", seq + [NEW] if useL else [NEW] + seq, lin_add(ln, ONE)), item), new=1, ret=NEW, args={"t": ZERO}))
    elif op in ("remove", "removeit", "removefwd", "removeback"):
        for a, b in sides():
            k = {}
            if op == "removefwd":
                k["ret"] = first(b[0]) if b else ZERO
            if op == "removeback":
                k["ret"] = last(a[-1]) if a else ZERO
            out.append(Config("list " + " ".join(a + ["t"] + b), obj("a", a + ["t"] + b, ln), obj("a", a + b, lin_add(ln, ONE, -1)), free={node("t")}, frees={node("t"): aid}, args={"t": node("t")}, **k))
        if op in ("removefwd", "removeback"):
            for seq in wholes():
                out.append(Config("no node, list " + " ".join(seq), obj("a", seq, ln), obj("a", seq, ln), args={"t": ZERO}, ret=ZERO))
    elif op in ("clear", "dtor"):
        for seq in wholes():
            ns = frozenset(node(s.lstrip("~")) for s in seq)
            out.append(Config("list " + " ".join(seq), obj("a", seq, ln if seq else ZERO), obj("a", [], ZERO) if op == "clear" else {}, free=ns, frees={n: aid for n in ns}))
    elif op == "ctor":
        out.append(Config("no object", {}, obj("r", [], ZERO, False)))
    elif op == "selfmove":
        for seq in wholes():
            out.append(Config("list " + " ".join(seq), obj("a", seq, ln), obj("a", seq, ln), args={}))
    elif op == "moveassign":
        for seq in wholes():
            for s2 in ([], ["c0"], ["c0", "~c", "c9"]):
                ns = frozenset(node(s.lstrip("~")) for s in seq)
                w = merge(obj("a", s2, lb, False), obj("b", [], ZERO, False))
                w[(("arg", "a"), ("_aid",))] = bid
                out.append(Config("list %s, from %s" % (" ".join(seq), " ".join(s2)), merge(obj("a", seq, ln), obj("b", s2, lb)), w, free=ns, frees={n: aid for n in ns}))
    elif op == "movector":
        for s2 in wholes():
            w = merge(obj("r", s2, lb, False), obj("b", [], ZERO, False))
            w[(("arg", "r"), ("_aid",))] = bid
            out.append(Config("from list " + " ".join(s2), obj("b", s2, lb), w))
    elif op == "front":
        for seq in wholes():
            out.append(Config("list " + " ".join(seq), obj("a", seq, ln), obj("a", seq, ln), ret=first(seq[0]) if seq else ZERO))
    elif op in ("next", "prev"):
        for a, b in sides():
            seq = a + ["t"] + b
            to = (first(b[0]) if b else ZERO) if op == "next" else (last(a[-1]) if a else ZERO)
            out.append(Config("list " + " ".join(seq), S.cells(seq), merge(S.cells(seq), {(("arg", "o"), ("cur",)): to}), args={"t": node("t")}))
    return out


# ---------------------------------------------------------------- index-linked arrays
def la_configs(op, size=24, wide=64, obj=("arg", "a"), pre=(), aname="arr"):
    """LinkedArray: nodes are elements of one block, links are indices, -1 ends a list"""
    P = node(aname)
    idx = {"a0": 3, "a9": 7, "t": 11, "b0": 15, "b9": 19, "f0": 23, "f9": 29, "g0": 31}
    NIL = mkint((1 << wide) - 1)
    S = Seq(nil=NIL, addr=lambda s: lin_add(P, mkint(size * idx[s])), ref=lambda s: mkint(idx[s]))
    ln = ("init", (obj, pre + ("_length",)))

    def ob(seq, free, n):
        c = S.cells(seq, (obj, pre + ("_start",)), (obj, pre + ("_end",)))
        c.update(S.cells(free, (obj, pre + ("_freelist",)), prev=False))
        c[(obj, pre + ("_length",))] = n
        c[(obj, pre + ("_ref", "_array"))] = P
        return c
    out = []
    frees = (["f0"], ["f0", "~f", "f9"])
    val = {(S.addr("f0"), ("val",)): ("arg", "v")}
    new = mkint(idx["f0"])
    up, down = lin_add(ln, ONE), lin_add(ln, ONE, -1)

    def put(name, seq, free, to, args):
        out.append(Config(name + " list " + " ".join(seq), ob(seq, free, ln), merge(ob(to, free[1:], up), val), args=args, ret=new))
    for free in frees:
        if op in ("add", "addmove"):
            for seq in wholes():
                put("", seq, free, seq + ["f0"], {})
        elif op.startswith("insert"):
            for a, b in sides():
                put("", a + ["t"] + b, free, a + ["f0", "t"] + b if "before" in op else a + ["t", "f0"] + b, {"t": mkint(idx["t"])})
            for seq in wholes():
                put("no target,", seq, free, seq + ["f0"], {"t": NIL})
    if op == "add" or op.startswith("insert"):
        # no free node: the block grows
        cap = 40
        A = (obj, pre + ("_ref", "_capacity"))

        def grown(front, back):
            def want(rule, I, st, val, site):
                cap2 = I.rawload(st, A)
                left = I.rawload(st, (obj, pre + ("_freelist",)))
                if not (val is not None and isint(val) and isint(cap2) and cap <= val[1] < cap2[1]):
                    rule.flag(I, st, site, "the new element is not one of the nodes added by growing")
                    return {}
                seen = set()
                while left != NIL and isint(left) and left[1] not in seen:
                    seen.add(left[1])
                    left = I.rawload(st, (lin_add(P, mkint(size * left[1])), S.nxt))
                if left != NIL or seen != set(range(cap, cap2[1])) - {val[1]}:
                    rule.flag(I, st, site, "the free list does not hold exactly the unused nodes after growing")
                idx["g0"] = val[1]
                c = ob(front + ["g0"] + back, [], up)
                del c[(obj, pre + ("_freelist",))]
                c[(S.addr("g0"), ("val",))] = ("arg", "v")
                return c
            return want

        def full(name, seq, front, back, args):
            c = ob(seq, [], ln)
            c[A] = mkint(cap)
            out.append(Config(name + " full, list " + " ".join(seq), c, grown(front, back), args=args))
        if op == "add":
            for seq in wholes():
                full("", seq, seq, [], {})
        else:
            for a, b in sides():
                full("", a + ["t"] + b, *((a, ["t"] + b) if "before" in op else (a + ["t"], b)), args={"t": mkint(idx["t"])})
    if op == "setcapacity":
        A = (obj, pre + ("_ref", "_capacity"))
        for cap, n in ((40, 45), (40, 40), (40, 30), (0, 4)):
            for free in ([], ["f0"], ["f0", "~f", "f9"]) if cap else ([],):
                seq = ["a0", "~a", "a9"] if cap else []

                def want(rule, I, st, val, site, cap=cap, n=n, free=free, seq=seq):
                    c = ob(seq, free, ln)
                    left = I.rawload(st, (obj, pre + ("_freelist",)))
                    stop = S.f(free[0]) if free else NIL
                    seen = set()
                    while left != stop and isint(left) and left != NIL and left[1] not in seen:
                        seen.add(left[1])
                        left = I.rawload(st, (lin_add(P, mkint(size * left[1])), S.nxt))
                    if left != stop or seen != set(range(cap, max(n, cap))):
                        rule.flag(I, st, site, "the free list does not hold exactly the unused nodes after growing")
                    del c[(obj, pre + ("_freelist",))]
                    return c
                c = ob(seq, free, ln)
                c[A] = mkint(cap)
                out.append(Config("capacity %d to %d, free %s" % (cap, n, " ".join(free)), c, want, args={"n": mkint(n)}))
    if op == "clear":
        A = (obj, pre + ("_ref", "_capacity"))
        for seq in (["a0", "~a", "a9"], []):
            def want(rule, I, st, val, site):
                c = ob([], [], ZERO)
                left = I.rawload(st, (obj, pre + ("_freelist",)))
                seen = set()
                while isint(left) and left != NIL and left[1] not in seen:
                    seen.add(left[1])
                    left = I.rawload(st, (lin_add(P, mkint(size * left[1])), S.nxt))
                if left != NIL or seen != set(range(31)):
                    rule.flag(I, st, site, "the free list does not hold exactly the unused nodes after clearing")
                del c[(obj, pre + ("_freelist",))]
                return c
            c = ob(seq, ["f0", "~f", "f9"], ln)
            c[A] = mkint(31)
            out.append(Config("list " + " ".join(seq), c, want))
    if op == "remove":
        for free in ([],) + frees:
            for a, b in sides():
                seq = a + ["t"] + b
                c = ob(seq, free, ln)
                c[(S.addr("t"), ("val",))] = ("arg", "old")
                out.append(Config("list " + " ".join(seq), c, ob(a + b, ["t"] + free, down), args={"t": mkint(idx["t"])}, ret=("arg", "old")))
    if op in ("next", "prev"):
        for a, b in sides():
            seq = a + ["t"] + b
            to = (S.f(b[0]) if b else NIL) if op == "next" else (S.l(a[-1]) if a else NIL)
            out.append(Config("list " + " ".join(seq), ob(seq, ["f0"], ln), merge(ob(seq, ["f0"], ln), {(("arg", "o"), ()): to}), args={"t": mkint(idx["t"])}))
    return out


# ---------------------------------------------------------------- graphs
def gr_configs(op, size=32):
    """an edge is on the outgoing list of its source and on the incoming list (alt) of its target"""
    P = node("arr")
    A = ("arg", "a")
    ne = ("init", (A, ("_nedges",)))
    out_, in_ = Seq(), Seq(("alt", "next"), ("alt", "prev"))
    out = []

    def ob(o, i, f, t, n):
        c = out_.cells(o, (lin_add(P, mkint(size * f)), ("val", "to")))
        c.update(in_.cells(i, (lin_add(P, mkint(size * t)), ("val", "from"))))
        c[(A, ("_nodes", "_ref", "_array"))] = P
        c[(A, ("_nedges",))] = n
        return c
    for f, t in ((3, 7), (5, 5)):
        if op.startswith("addedge"):
            for o in wholes():
                for i in wholes():
                    i = [x.replace("a", "c") for x in i]
                    w = ob([NEW] + o, [NEW] + i, f, t, lin_add(ne, ONE))
                    w[(NEW, ("from",))] = mkint(f)
                    w[(NEW, ("to",))] = mkint(t)
                    k = {}
                    if op == "addedge":
                        w[(NEW, ("data",))] = ("init", (("arg", "e"), ()))
                    out.append(Config("%d->%d, outgoing %s, incoming %s" % (f, t, " ".join(o), " ".join(i)), ob(o, i, f, t, ne), w, new=1, ret=NEW, args={"f": mkint(f), "t": mkint(t)}))
        else:
            for a, b in sides():
                for x, y in sides():
                    x, y = [q.replace("a", "c") for q in x], [q.replace("b", "d") for q in y]
                    c = ob(a + ["e"] + b, x + ["e"] + y, f, t, ne)
                    c[(node("e"), ("from",))] = mkint(f)
                    c[(node("e"), ("to",))] = mkint(t)
                    out.append(Config("%d->%d, outgoing %s, incoming %s" % (f, t, " ".join(a + ["e"] + b), " ".join(x + ["e"] + y)), c, ob(a + b, x + y, f, t, lin_add(ne, ONE, -1)), free={node("e")}, args={"e": node("e")}))
    return out


def array_setcapacity(rule, I, st, args, site):
    """Array::SetCapacity grows the block in place (decided by the block properties)"""
    I.store(st, norm_loc((args[0], ("_capacity",))), args[1], site)
    return [(st, None)]


ShapeRule.hooks = {"bss::Array::SetCapacity": array_setcapacity}


def configs(nm):
    _, c, op = nm.split("_", 2)
    if c == "LL":
        return ll_configs(op)
    if c == "LA":
        return la_configs(op)
    if c == "GR":
        return gr_configs(op)
    return list_configs(c, op)
