"""Slots of a hash table.

The obligations are about every slot separately, so the analysis follows one arbitrary slot S (an unknown index that nothing else is
known about) and treats the others as unknown but legal. Every access to a table is split by whether its index is S. For S the analysis
knows the flag byte and whether a key and a value live there and which entry they belong to; for the whole table it counts constructions
against destructions and used slots, to compare with the stored counts."""
from engine import *
from engine import _lin, _unlin
from gimple import AnalysisBroken
from shape import node

S = ("slot", "S")
FIELDS = ("n_buckets", "size", "n_occupied", "upper_bound", "flags", "keys", "vals")
EMPTY, DELETED, USED = 2, 1, 0
ES = {"4KeyT": 8, "4ValT": 16}
KIND = {"4KeyT": "k", "4ValT": "v"}
WORD = {"k": "key", "v": "value"}
MANY = "many"


def arg(n):
    return ("arg", n)


def pow2(v):
    """a capacity, or one doubled"""
    d, k = _lin(v)
    if k or len(d) != 1:
        return False
    (t, c), = d.items()
    return t[0] == "num" and t[1] == "n" and c > 0 and c & (c - 1) == 0


class Cfg:
    def __init__(self, name, objs):
        self.name, self.objs = name, objs      # objs: arg name -> None (no table), "out" (S beyond the table), or flag


class HashRule(Rule):
    max_states = 6
    loop_exact = 1
    loop_entries = 1
    affine = True
    foldcmp = True
    loose_limits = True
    limit_terms = (S, lin_add(S, ONE))

    def __init__(self, kind, op):
        self.map, self.op = kind[0] == "m", op
        self.counts = {"configs": 0, "exits": 0, "events": 0, "slots": 0}
        self.configs = []
        self.only = None
        if not op.startswith(("insert", "capacity", "ctor", "copy", "assign")) or op == "assignmove":
            self.max_states, self.loop_entries = 60, 40

    def asserts(self):
        return False

    def mergekey(self, st):
        return st.ts, tuple(sorted(((l, v) for l, v in st.mem.items() if l[0][0] == "ghost" and l[0][1] in ("ov", "size")), key=skey))

    # ---- ts = (config, dk, dv, assigns, blocks, locals); blocks: (token, status, flag, live, content, used-base, used-delta)
    def get(self, st, b):
        for x in st.ts[4]:
            if x[0] == b:
                return dict(zip(("tok", "status", "flag", "live", "content", "ub", "ud"), x))
        return None

    def put(self, st, r):
        t = tuple(r[k] for k in ("tok", "status", "flag", "live", "content", "ub", "ud"))
        bl = tuple(t if x[0] == r["tok"] else x for x in st.ts[4])
        if t not in bl:
            bl += (t,)
        st.ts = st.ts[:4] + (tuple(sorted(bl, key=skey)),) + st.ts[5:]

    def new(self, st, tok, size, **k):
        r = dict(tok=tok, status="live", flag=None, live=False, content=None, ub=None, ud=0)
        r.update(k)
        st.mem[(("ghost", "size", tok), ())] = size
        self.put(st, r)

    def bump(self, st, i, n):
        ts = list(st.ts)
        if ts[i] != MANY:
            ts[i] = ts[i] + n
            if abs(ts[i]) > 1:
                ts[i] = MANY
        st.ts = tuple(ts)

    def local(self, st, loc):
        return dict(st.ts[5]).get(loc)

    def setlocal(self, st, loc, c):
        d = dict(st.ts[5])
        if c is None:
            d.pop(loc, None)
        else:
            d[loc] = c
        st.ts = st.ts[:5] + (tuple(sorted(d.items(), key=skey)),) + st.ts[6:]

    def flag(self, I, st, site, what):
        I.report(st, site, "%s [%s]" % (what, self.configs[st.ts[0]].name), key=(site.loc, what))

    # ---- values
    def nonneg(self, t):
        return t == S or t[0] in ("arg", "slot", "num", "ub") or t[0] == "op" and t[1] in ("&", ">>", "/", "%")

    def value_range(self, a):
        if a[0] == "num" and a[1] == "n":
            return 4, None
        if a[0] == "ub":
            return 1, None
        if a == S or a[0] in ("num", "arg"):
            return 0, None
        return None, None

    def distinct(self, a, b):
        for x, y in ((a, b), (b, a)):
            if x[0] == "node" and y[0] in ("node", "int", "addr", "arg") and x != y:
                return True
        return a[0] == b[0] == "arg" and a != b

    def axioms(self, terms, nonpos):
        out = []
        for t in terms:
            if t[0] == "smear":
                out.append(lin_add(t[1], t, -1))
            if t[0] == "op" and t[1] == "&":
                for m in t[2:]:
                    if m != t and nonpos(lin_scale(m, -1)):
                        out.append(lin_add(t, m, -1))
        return out

    def opvalue(self, I, st, op, av):
        if op == "+" and ("int", 4294967295) in av:
            return lin_add(av[0] if av[1] == ("int", 4294967295) else av[1], ONE, -1)
        if op == "|":
            # the bits below a power of two are all set already
            for a, b in (av, av[::-1]):
                if b[0] == "op" and b[1] == ">>" and b[2] == a and isint(b[3]) and b[3][1] == 1 and pow2(a):
                    return lin_add(lin_scale(a, 2), ONE, -1)
                if b[0] == "op" and b[1] == ">>" and b[2] == a and pow2(lin_add(a, ONE)):
                    return a
                if b[0] == "op" and b[1] == ">>" and b[2] == a and isint(b[3]) and b[3][1] == 1 and lin_add(a, mkint(2))[0] == "num" and pow2(lin_add(a, mkint(2))):
                    return lin_add(a, ONE)
                if b[0] == "op" and b[1] == ">>" and b[2] == a and isint(b[3]):
                    return ("smear", a[1], tuple(sorted(set(a[2]) | {b[3][1]}))) if a[0] == "smear" else ("smear", a, (b[3][1],))
        if op == "*" and any(x[0] == "flt" for x in av):
            f, x = (av[0], av[1]) if av[0][0] == "flt" else (av[1], av[0])
            if x[0] != "flt":
                return ("ub", x, f[1], "0")
        if op == "+" and any(x[0] == "flt" for x in av):
            f, x = (av[0], av[1]) if av[0][0] == "flt" else (av[1], av[0])
            if x[0] == "ub" and x[3] == "0":
                return ("ub", x[1], x[2], f[1])
        return None

    # ---- start states
    def setup(self, I, st):
        two = self.op in ("assign", "assignmove")
        states = [None, "out", EMPTY, DELETED, USED]
        names = {None: "no table", "out": "a slot beyond the table", EMPTY: "an empty slot", DELETED: "a deleted slot", USED: "a used slot"}
        objs = {"copy": ["b"], "move": ["b"], "ctor": []}.get(self.op, ["a", "b"] if two else ["a"])
        combos = [{}]
        for o in objs:
            combos = [dict(c, **{o: s}) for c in combos for s in states]
        out = []
        for c in combos:
            if self.only is not None and len(self.configs) != self.only:
                self.configs.append(Cfg("", c))
                continue
            i = len(self.configs)
            self.configs.append(Cfg(", ".join("%s: %s" % (o, names[c[o]]) for o in objs) or "new", c))
            s = st.copy()
            s.ts = (i, 0, 0, 0, (), (), None)
            I.tr(s, "start: " + self.configs[-1].name)
            for o, f in c.items():
                self.table(I, s, o, f)
            if self.op.startswith(("insert", "set", "fetch", "remove", "get", "iterator")):
                if not self.op.endswith("iter") and not self.op.startswith("setval"):
                    self.setlocal(s, (arg("k"), ()), "nk")
                if self.op.startswith(("insert", "set")):
                    self.setlocal(s, (arg("v"), ()), "nv")
            if self.op == "next":
                if c["a"] is None:
                    continue
                s.mem[(arg("it"), ("cur",))] = arg("i")
                s.mem[(arg("it"), ("src",))] = arg("a")
                s.facts[mkcmp("<", arg("i"), s.mem[(arg("a"), ("n_buckets",))])] = True
                s2 = s.copy()
                I.limits = {}
                out += I.assume(s2, mkcmp("<", arg("i"), S), True, None)
                I.assume(s, mkcmp("<", arg("i"), S), False, None)
            out.append(s)
        self.counts["configs"] = len(out)
        return out

    def table(self, I, s, o, f):
        base = arg(o)
        if f is None:
            for x in FIELDS:
                s.mem[(base, (x,))] = ZERO
            return
        n = ("num", "n", o)
        s.mem[(base, ("n_buckets",))] = n
        s.mem[(base, ("size",))] = ("num", "size", o)
        s.mem[(base, ("n_occupied",))] = ("num", "occ", o)
        s.mem[(base, ("upper_bound",))] = ("num", "ub", o)
        s.mem[(base, ("vals",))] = ZERO
        s.facts[mkcmp("<", mkint(3), n)] = True
        I.assume(s, mkcmp("<", S, n), f != "out", None)
        for fld, es in (("flags", 1), ("keys", 8), ("vals", 16)):
            if fld == "vals" and not self.map:
                continue
            tok = node(fld + "." + o)
            s.mem[(base, (fld,))] = tok
            k = {}
            if f != "out":
                if fld == "flags":
                    k["flag"] = f
                elif f == USED:
                    k.update(live=True, content="e" + o)
            if fld == "flags":
                k["ub"] = "init"
            self.new(s, tok, lin_scale(n, es), **k)

    # ---- where a pointer points
    def decompose(self, st, v):
        toks = {x[0] for x in st.ts[4]}
        if v[0] == "addr":
            if v[1][1] == ():
                return self.decompose(st, v[1][0])
            return None
        if v in toks:
            return v, ZERO
        if v[0] == "lin":
            for t, c in v[1]:
                if c == 1 and t in toks:
                    return t, lin_add(v, t, -1)
        return None

    def nonnull(self, st, v):
        return self.decompose(st, v) is not None

    def isS(self, I, st, idx, b, es):
        """is this the slot followed? (an index outside the block is never taken for it)"""
        if I.truth(st, mkcmp("<", lin_scale(S, es), st.mem[(("ghost", "size", b), ())])) is False:
            return False
        c = mkcmp("==", idx, S)
        t = I.truth(st, c)
        if t is None:
            s2 = st.copy()
            raise Split(I.assume(st, c, True, None) + I.assume(s2, c, False, None))
        st.ts = st.ts[:6] + (t,)
        return t

    def index(self, off, es):
        d, k = _lin(off)
        if k % es or any(c % es for c in d.values()):
            return None
        return _unlin({t: c // es for t, c in d.items()}, k // es)

    def inside(self, I, st, r, idx, es, site, what):
        pass

    def oth(self, st, b):
        return st.mem.get((("ghost", "oi", b), ())), st.mem.get((("ghost", "ov", b), ()))

    def setoth(self, st, b, idx, v):
        if idx is None:
            st.mem.pop((("ghost", "oi", b), ()), None)
            st.mem.pop((("ghost", "ov", b), ()), None)
        else:
            st.mem[(("ghost", "oi", b), ())] = idx
            st.mem[(("ghost", "ov", b), ())] = mkint(v)

    def usable(self, I, st, r, site, what):
        if r["status"] != "live":
            self.flag(I, st, site, "%s memory that has been released" % what)

    def possible(self, r):
        """states the other slots can be in"""
        if r["ub"] == "zero":
            return (EMPTY,) if r["ud"] == 0 else (USED, EMPTY)
        return (USED, DELETED, EMPTY)

    # ---- flags
    def load(self, I, st, loc, site):
        d = self.decompose(st, loc[0])
        if d is None or loc[1] != ():
            if loc[0][0] == "int":
                self.flag(I, st, site, "follows a null pointer")
            return None
        b, idx = d
        self.counts["events"] += 1
        r = self.get(st, b)
        if self.isS(I, st, idx, b, 1):
            self.usable(I, st, r, site, "reads")
            if r["flag"] is None:
                self.flag(I, st, site, "reads the state of a slot that was never set")
                raise Split([])
            return mkint(r["flag"])
        oi, ov = self.oth(st, b)
        if oi is not None and oi == idx:
            return ov
        outs = []
        for v in self.possible(r):
            s = st.copy()
            self.setoth(s, b, idx, v)
            outs.append(s)
        raise Split(outs)

    def store(self, I, st, loc, val, site):
        d = self.decompose(st, loc[0])
        if d is None or loc[1] != ():
            if loc[0][0] == "int":
                self.flag(I, st, site, "follows a null pointer")
            return None
        b, idx = d
        self.counts["events"] += 1
        if not isint(val) or val[1] & ~3:
            self.flag(I, st, site, "stores something that is not a slot state")
            return False
        v = val[1]
        v = USED if v == 0 else DELETED if v == 1 else EMPTY if v == 2 else 3
        r = self.get(st, b)
        if self.isS(I, st, idx, b, 1):
            self.usable(I, st, r, site, "writes")
            old = r["flag"]
            r["flag"] = v
        else:
            oi, ov = self.oth(st, b)
            old = ov[1] if oi is not None and oi == idx else None
            if old is None:
                outs = []
                for x in self.possible(r):
                    s = st.copy()
                    self.setoth(s, b, idx, x)
                    outs.append(s)
                raise Split(outs)
            self.setoth(st, b, idx, v)
        if v == DELETED and r["ub"] == "zero":
            r["ub"] = "zero, then deleted"
        n = (v != EMPTY) - (old != EMPTY) if old is not None else 0
        if n and r["ud"] != MANY:
            r["ud"] = r["ud"] + n if abs(r["ud"] + n) <= 1 and r["ub"] == "init" else MANY
        self.put(st, r)
        return False

    def loophead(self, I, st, nd, back, site):
        st.ts = st.ts[:6] + (None,)
        for x in st.ts[4]:
            self.setoth(st, x[0], None, None)
        # keep what is known about the order of S and the counters, not the single values
        env = st.frames[-1].env
        vals = [env.get(dst) for dst, _ in st.frames[-1].func.blocks[nd[1]].phis]
        vals += [v for l, v in st.mem.items() if l[0][0] == "var" or l[0] == arg("it")]
        for c in [c for c in st.facts if c[0] == "cmp" and c[1] == "==" and c[2] == S and isint(c[3])]:
            vals += [c[3], lin_add(c[3], ONE)]
        for v in vals:
            if v is not None and isint(v):
                c = mkcmp("<", S, v)
                t = I.truth(st, c)
                if t is not None and c[0] == "cmp":
                    st.facts[c] = t
        # a counter that runs down from the capacity: the order of S and where it stands
        keep = {}
        for v in {v for v in list(vals) + list(env.values()) if v is not None and v[0] == "lin" and v[2] and len(v[1]) == 1 and v[1][0][0][:2] == ("num", "n")}:
            for c in (mkcmp("<", S, v), mkcmp("<", v, S)):
                t = I.truth(st, c) if c[0] == "cmp" else None
                if t is not None:
                    keep[c] = t
        for c in [c for c in st.facts if c[0] == "cmp" and (c[1] == "==" and c[2] == S and isint(c[3]) or self.derived(c))]:
            del st.facts[c]
        st.facts.update(keep)
        # what was found out about indices that are no longer in use
        inuse = set()
        for v in list(vals) + list(env.values()):
            if v is not None:
                inuse |= set(_lin(v)[0])
        for c in [c for c in st.facts if c[0] == "cmp" and S in (c[2], c[3])]:
            x = c[3] if c[2] == S else c[2]
            ts = set(_lin(x)[0])
            if ts and not ts & inuse and not all(t[0] in ("num", "smear", "arg") for t in ts):
                del st.facts[c]

    def derived(self, c):
        """a relation between constants of the run other than the plain ones it starts with"""
        plain = True
        for x in c[2:4]:
            d, k = _lin(x)
            if any(t[0] not in ("slot", "num") for t in d):
                return False
            plain = plain and (x[0] != "lin" or len(d) == 1 and not k)
        return not plain or c[1] != "<" or c[2][0] == "num" and c[3] == S

    # ---- elements
    def where(self, I, st, p, es, site):
        """('S', block) | ('other', block, index) | ('loc', location)"""
        d = self.decompose(st, p)
        if d is None:
            if p[0] == "int":
                self.flag(I, st, site, "uses an element through a null pointer")
                raise Split([])
            return ("loc", I.ptr_loc(p))
        idx = self.index(d[1], es)
        if idx is None:
            self.flag(I, st, site, "uses an element at a position that is not a slot")
            raise Split([])
        if self.isS(I, st, idx, d[0], es):
            return ("S", d[0])
        return ("other", d[0], idx)

    def lost(self, I, st, c, site, how):
        if c is None or isinstance(c, tuple) or c in ("nk", "nv"):
            return
        if self.op in ("dtor", "clear", "assign", "assignmove"):
            return
        if self.op.startswith("remove"):
            return
        self.flag(I, st, site, "loses an entry of the table: " + how)

    def use(self, I, st, w, site, what):
        if w[0] == "S":
            r = self.get(st, w[1])
            self.usable(I, st, r, site, what)
            if not r["live"]:
                self.flag(I, st, site, "%s the %s of a slot that holds none" % (what, WORD[self.kind]))

    def take(self, I, st, w, site, move):
        """content of a source object"""
        self.use(I, st, w, site, "moves from" if move else "copies")
        if w[0] == "S":
            r = self.get(st, w[1])
            c = r["content"]
            if move:
                r["content"] = None
                self.put(st, r)
        elif w[0] == "other":
            c = "x"
        else:
            c = self.local(st, w[1])
            if move:
                self.setlocal(st, w[1], None)
        if move or c is None:
            return c
        return c if isinstance(c, tuple) else ("cp", c)

    def place(self, I, st, w, c):
        if c is not None and c != "x" and c != ("cp", "x"):
            st.mem[(("ghost", "placed", self.kind, c), ())] = w[2]

    def construct(self, I, st, w, c, site):
        if w[0] == "S":
            r = self.get(st, w[1])
            self.usable(I, st, r, site, "constructs in")
            if r["live"]:
                self.flag(I, st, site, "constructs a %s over one that is still there" % WORD[self.kind])
            r.update(live=True, content=c)
            self.put(st, r)
        elif w[0] == "other":
            self.place(I, st, w, c)
        else:
            self.setlocal(st, w[1], c)
            return
        self.bump(st, 1 if self.kind == "k" else 2, 1)

    def assignto(self, I, st, w, c, site):
        self.use(I, st, w, site, "assigns to")
        if w[0] == "S":
            r = self.get(st, w[1])
            if not (self.op.startswith(("insert", "set")) and c in ("nv", ("cp", "nv"))):
                self.lost(I, st, r["content"], site, "overwrites a %s that has not been moved away" % WORD[self.kind])
            r["content"] = c
            self.put(st, r)
        elif w[0] == "other":
            self.place(I, st, w, c)
        else:
            self.lost(I, st, self.local(st, w[1]), site, "overwrites a %s that has been taken out" % WORD[self.kind])
            self.setlocal(st, w[1], c)
            if w[1][0][0] == "arg":
                self.bump(st, 3, 1)
            return
        if c in ("nv", ("cp", "nv")):
            self.bump(st, 3, 1)

    def destroy(self, I, st, w, site):
        if w[0] == "S":
            r = self.get(st, w[1])
            self.usable(I, st, r, site, "destroys in")
            if not r["live"]:
                self.flag(I, st, site, "destroys a %s that is not there" % WORD[self.kind])
            self.lost(I, st, r["content"], site, "destroys a %s that has not been moved away" % WORD[self.kind])
            r.update(live=False, content=None)
            self.put(st, r)
        elif w[0] == "loc":
            self.lost(I, st, self.local(st, w[1]), site, "drops a %s that has been taken out" % WORD[self.kind])
            self.setlocal(st, w[1], None)
            return
        self.bump(st, 1 if self.kind == "k" else 2, -1)

    def call(self, I, st, name, func, args, site, lhs):
        import re
        m = re.match(r"_ZN(4KeyT|4ValT)(C[12]Ev|C[12]ERKS_|C[12]EOS_|aSERKS_|aSEOS_|D[12]Ev)$", name)
        if m:
            self.counts["events"] += 1
            es = ES[m.group(1)]
            self.kind = KIND[m.group(1)]
            k = m.group(2)
            w = self.where(I, st, args[0], es, site)
            if k[0] == "D":
                self.destroy(I, st, w, site)
                return [(st, None)]
            c = None
            if k[-3:] != "2Ev" and k[-3:] != "1Ev":
                src = self.where(I, st, args[1], es, site)
                c = self.take(I, st, src, site, "OS_" in k)
            if k[0] == "C":
                self.construct(I, st, w, c, site)
                return [(st, None)]
            self.assignto(I, st, w, c, site)
            return [(st, args[0])]
        if name == "_Z9key_equalRK4KeyTS1_" or name == "_Z8key_hashRK4KeyT":
            self.kind = "k"
            for a in args:
                self.use(I, st, self.where(I, st, a, 8, site), site, "compares" if "equal" in name else "hashes")
            return None
        if name.startswith("_ZN4Heap8allocate"):
            return [(st, self.allocate(I, st, args[1], args[2], args[3], site))]
        if name.startswith("_ZN4Heap10deallocate"):
            self.release(I, st, args[1], args[2], site)
            return [(st, None)]
        if name.startswith("_ZN4Heap"):
            return [(st, args[0])]
        if name in ("memset", "__builtin_memset"):
            return self.memset(I, st, args, site)
        if name in ("memcpy", "memmove", "__builtin_memcpy", "__builtin_memmove"):
            return self.memcpy(I, st, args, site)
        return None

    def allocate(self, I, st, n, prev, old, site):
        tok = node("new%d" % len(st.ts[4]))
        if prev == ZERO or I.truth(st, mkcmp("==", prev, ZERO)) is True:
            self.new(st, tok, n)
            return tok
        d = self.decompose(st, prev)
        if d is None or d[1] != ZERO:
            self.flag(I, st, site, "resizes something that is not a block of the table")
            raise Split([])
        r = self.get(st, d[0])
        self.usable(I, st, r, site, "resizes")
        sz = st.mem[(("ghost", "size", d[0]), ())]
        if sz != old and I.truth(st, mkcmp("==", sz, old)) is not True:
            self.flag(I, st, site, "resizes a block giving a size that is not its own")
        k = dict(flag=r["flag"], live=r["live"], content=r["content"], ub=r["ub"], ud=r["ud"])
        if r["live"] or r["flag"] is not None:
            # is the slot still part of the block?
            es = 1 if r["flag"] is not None else 16 if "vals" in d[0][1] or r.get("v") else self.esof(st, d[0])
            c = mkcmp("<", lin_scale(S, es), n)
            t = I.truth(st, c)
            if t is None:
                s2 = st.copy()
                raise Split(I.assume(st, c, True, None) + I.assume(s2, c, False, None))
            if t is False:
                if r["live"]:
                    self.flag(I, st, site, "cuts off a slot that still holds something")
                k.update(flag=None, live=False, content=None)
        self.new(st, tok, n, **k)
        if r["live"]:
            st.mem[(("ghost", "es", tok), ())] = mkint(self.esof(st, d[0]))
        r.update(status="gone", live=False, content=None, flag=None)
        self.put(st, r)
        return tok

    def esof(self, st, b):
        e = st.mem.get((("ghost", "es", b), ()))
        if e is not None:
            return e[1]
        return 16 if b[1].startswith("vals") else 8

    def release(self, I, st, p, n, site):
        if p == ZERO:
            return
        d = self.decompose(st, p)
        if d is None or d[1] != ZERO:
            self.flag(I, st, site, "releases something that is not a block of the table")
            return
        r = self.get(st, d[0])
        if r["status"] != "live":
            self.flag(I, st, site, "releases a block twice")
            return
        sz = st.mem[(("ghost", "size", d[0]), ())]
        if sz != n and I.truth(st, mkcmp("==", sz, n)) is not True:
            self.flag(I, st, site, "releases a block with a size that is not its own")
        if r["live"]:
            self.flag(I, st, site, "releases a block in which a slot still holds an object")
        r.update(status="gone", flag=None)
        self.put(st, r)

    def memset(self, I, st, args, site):
        p, v, n = args
        d = self.decompose(st, p)
        if d is None:
            loc = I.ptr_loc(p)
            if loc[0][0] == "arg" and loc[1] == () and v == ZERO:
                for f in FIELDS:
                    st.mem[(loc[0], (f,))] = ZERO
                return [(st, p)]
            return None
        r = self.get(st, d[0])
        self.usable(I, st, r, site, "fills")
        if not isint(v) or d[1] != ZERO:
            raise AnalysisBroken("fill of part of a table")
        sz = st.mem[(("ghost", "size", d[0]), ())]
        c = mkcmp("<", S, n)
        t = I.truth(st, c)
        if t is None:
            s2 = st.copy()
            raise Split(I.assume(st, c, True, None) + I.assume(s2, c, False, None))
        if t:
            r["flag"] = v[1] & 3
        full = sz == n or I.truth(st, mkcmp("==", sz, n)) is True
        r["ub"], r["ud"] = ("zero", 0) if full and v[1] == EMPTY else ("?", MANY)
        if not full and I.truth(st, mkcmp("<", sz, n)) is not False:
            self.flag(I, st, site, "fills more than the block holds")
        self.setoth(st, d[0], None, None)
        self.put(st, r)
        return [(st, p)]

    def memcpy(self, I, st, args, site):
        p, q, n = args
        d, s = self.decompose(st, p), self.decompose(st, q)
        if d is None and s is None:
            a, b = I.ptr_loc(p), I.ptr_loc(q)
            if a[0][0] == b[0][0] == "arg" and isint(n) and n[1] >= 40:
                for f in FIELDS:
                    st.mem[(a[0], (f,))] = st.mem.get((b[0], (f,)), ZERO)
                return [(st, p)]
            return None
        if d is None or s is None or d[1] != ZERO or s[1] != ZERO:
            raise AnalysisBroken("copy of part of a table")
        r, q = self.get(st, d[0]), self.get(st, s[0])
        self.usable(I, st, r, site, "writes")
        self.usable(I, st, q, site, "reads")
        for x, what in ((d[0], "writes"), (s[0], "reads")):
            sz = st.mem[(("ghost", "size", x), ())]
            if sz != n and I.truth(st, mkcmp("<", sz, n)) is not False:
                self.flag(I, st, site, what + " beyond the block while copying it")
        c = mkcmp("<", S, n)
        t = I.truth(st, c)
        if t is None:
            s2 = st.copy()
            raise Split(I.assume(st, c, True, None) + I.assume(s2, c, False, None))
        if t:
            r["flag"] = q["flag"]
            if q["live"] or r["live"]:
                self.flag(I, st, site, "copies objects bytewise")
        sz = st.mem[(("ghost", "size", d[0]), ())]
        full = sz == n or I.truth(st, mkcmp("==", sz, n)) is True
        r["ub"], r["ud"] = ("src:" + str(q["ub"]), q["ud"]) if full else ("?", MANY)
        self.setoth(st, d[0], None, None)
        self.put(st, r)
        return [(st, args[0])]

    # ---- at the end
    def eqv(self, I, st, a, b):
        return a == b or I.truth(st, mkcmp("==", a, b)) is True

    def exit(self, I, st, val, site):
        self.counts["exits"] += 1
        c = self.configs[st.ts[0]]
        dk, dv = st.ts[1], st.ts[2]
        objs = {"ctor": ["r"], "copy": ["r", "b"], "move": ["r", "b"], "assign": ["a", "b"], "assignmove": ["a", "b"], "dtor": []}.get(self.op, ["a"])
        held = set()
        for o in objs:
            held |= self.table_ok(I, st, o, c, site)
        for x in st.ts[4]:
            if x[1] == "live" and x[0] not in held:
                self.flag(I, st, site, "a block of memory is lost")
        if self.map and dk != dv:
            self.flag(I, st, site, "constructs and destroys different numbers of keys and values")
        for loc, cc in st.ts[5]:
            if loc[0][0] == "var":
                self.lost(I, st, cc, site, "an entry taken out is not put back")
        self.results(I, st, c, val, site)

    def fieldv(self, I, st, o, f):
        return I.rawload(st, (arg(o), (f,)))

    def table_ok(self, I, st, o, c, site):
        f = {x: self.fieldv(I, st, o, x) for x in FIELDS}
        who = {"a": "the table", "r": "the new table", "b": "the other table"}[o]
        n = f["n_buckets"]
        toks = {x[0] for x in st.ts[4]}
        need = ["flags", "keys"] + (["vals"] if self.map else [])
        self.counts["slots"] += 1
        if all(f[x] == ZERO for x in need):
            for x in ("n_buckets", "size", "n_occupied", "upper_bound"):
                if f[x] != ZERO and I.truth(st, mkcmp("==", f[x], ZERO)) is not True:
                    self.flag(I, st, site, "%s has no memory, but its %s is not zero" % (who, x))
            return set()
        if not self.map and f["vals"] != ZERO:
            self.flag(I, st, site, "a set has memory for values")
        blk = {}
        for x, es in (("flags", 1), ("keys", 8), ("vals", 16)):
            if x not in need:
                continue
            if f[x] not in toks:
                self.flag(I, st, site, "%s: %s is not a block of memory" % (who, x))
                return set()
            r = blk[x] = self.get(st, f[x])
            if r["status"] != "live":
                self.flag(I, st, site, "%s keeps memory that has been released" % who)
                return set()
            if not self.eqv(I, st, st.mem[(("ghost", "size", f[x]), ())], lin_scale(n, es)):
                self.flag(I, st, site, "%s: the memory for %s is not %d bytes for each slot" % (who, x, es))
        if len({f[x] for x in need}) != len(need):
            self.flag(I, st, site, "%s uses the same memory twice" % who)
        inn = I.truth(st, mkcmp("<", S, n))
        fl, kl = blk["flags"]["flag"], blk["keys"]["live"]
        vl = blk["vals"]["live"] if self.map else kl
        kc = blk["keys"]["content"]
        vc = blk["vals"]["content"] if self.map else kc
        if inn is None:
            inn = fl is not None
        if inn and fl is None:
            self.flag(I, st, site, "%s: the state of a slot is never set" % who)
            return {f[x] for x in need}
        if fl == 3:
            self.flag(I, st, site, "%s: a slot is marked both empty and deleted" % who)
        want = bool(inn) and fl == USED
        if kl != want:
            self.flag(I, st, site, "%s: %s" % (who, "a used slot holds no key" if want else "a key is left in a slot that is not used"))
        if self.map and vl != want:
            self.flag(I, st, site, "%s: %s" % (who, "a used slot holds no value" if want else "a value is left in a slot that is not used"))
        if want and kl and vl:
            self.pair(I, st, who, kc, vc, site)
        if o == "b" and self.op in ("copy", "assign"):
            own = {y: ("num", z, "b") for y, z in (("n_buckets", "n"), ("size", "size"), ("n_occupied", "occ"), ("upper_bound", "ub"))}
            if any(not self.eqv(I, st, f[x], v) for x, v in own.items()) or (fl if inn else None) != self.sflag(c, "b") or want and "eb" not in (kc, vc):
                self.flag(I, st, site, "copying changes the table that is copied")
        else:
            self.numbers(I, st, o, who, f, blk, c, want, fl, inn, site)
        return {f[x] for x in need}

    def pair(self, I, st, who, kc, vc, site):
        if kc is None or self.map and vc is None:
            self.flag(I, st, site, "%s: a used slot holds something that has been moved away" % who)
        elif self.map:
            base = lambda x: x[1] if isinstance(x, tuple) else x
            k, v = base(kc), base(vc)
            if v == "nv":
                return
            if (k, v) != ("nk", "nv") and k != v:
                self.flag(I, st, site, "%s: a slot holds the key of one entry and the value of another" % who)

    def numbers(self, I, st, o, who, f, blk, c, want, fl, inn, site):
        n = f["n_buckets"]
        eq = lambda a, b: self.eqv(I, st, a, b)
        other = [x for x in c.objs if x != o or self.op in ("copy",)]
        srcs = []
        for x in c.objs:
            if c.objs[x] is not None:
                srcs.append((x, {y: ("num", z, x) for y, z in (("n_buckets", "n"), ("size", "size"), ("n_occupied", "occ"), ("upper_bound", "ub"))}))
        same = [(x, v) for x, v in srcs if eq(n, v["n_buckets"]) and self.sflag(c, x) == (fl if inn else None)]
        own = dict(srcs).get(o)
        init = own["size"] if own else ZERO
        d = st.ts[1]
        ok = d != MANY and self.op not in ("assign", "copy") and eq(f["size"], lin_add(init, mkint(d))) and self.op != "clear"
        ok = ok or (f["size"] == ZERO and not want)
        ok = ok or any(eq(f["size"], v["size"]) for x, v in same if x != o or not d)
        if not ok:
            self.flag(I, st, site, "%s: the number of entries is not what was added and removed" % who)
        u = blk["flags"]
        ok = (f["n_occupied"] == ZERO and fl in (EMPTY, None))
        ok = ok or (u["ub"] == "init" and u["ud"] != MANY and own is not None and eq(f["n_occupied"], lin_add(own["n_occupied"], mkint(u["ud"]))))
        ok = ok or (u["ub"] == "zero" and fl != DELETED and eq(f["n_occupied"], f["size"]))
        ok = ok or any(eq(f["n_occupied"], v["n_occupied"]) for x, v in same if x != o)
        if not ok:
            self.flag(I, st, site, "%s: the number of slots in use is not what the slots say" % who)
        ub = f["upper_bound"]
        ok = any(eq(n, v["n_buckets"]) and eq(ub, v["upper_bound"]) for x, v in srcs)
        if ub[0] == "ub" and eq(ub[1], n):
            try:
                k, a = float(ub[2]), float(ub[3])
                ok = ok or (0 < k < 1 and a >= 0 and int(4 * k + a) < 4 and int(4 * k + a) > 0)
            except ValueError:
                pass
        if not ok:
            self.flag(I, st, site, "%s: the limit on slots in use does not leave a slot empty" % who)

    def sflag(self, c, o):
        x = c.objs.get(o)
        return x if x not in (None, "out") else None

    def content_of(self, I, st, o, which):
        t = self.fieldv(I, st, o, which)
        r = self.get(st, t)
        return r

    def results(self, I, st, c, val, site):
        op = self.op
        dk = st.ts[1]
        if op.startswith("remove"):
            if val not in (ZERO, ONE):
                t = I.truth(st, val)
                val = val if t is None else ONE if t else ZERO
            if dk not in (0, -1) or val != mkint(-dk):
                self.flag(I, st, site, "removes %s entries and returns %s" % (dk if dk == MANY else -dk, "true" if val == ONE else "false" if val == ZERO else "an unknown value"))
            return
        if op in ("copy", "assign", "move", "assignmove"):
            o = "r" if op in ("copy", "move") else "a"
            want = ("cp", "eb") if op in ("copy", "assign") else "eb"
            got = {}
            for k, fld in (("k", "keys"), ("v", "vals")):
                r = self.get(st, self.fieldv(I, st, o, fld)) if k == "k" or self.map else None
                got[k] = r["content"] if r is not None and r["live"] else None
                if (k == "k" or self.map) and got[k] != (want if self.sflag(c, "b") == USED else None):
                    self.flag(I, st, site, "the result does not hold the %s of the other table's slot" % WORD[k])
        if op == "assignself" and self.sflag(c, "a") == USED:
            self.survives(I, st, site)
        flg = self.sflag(c, "a")
        has = c.objs.get("a") is not None
        n = ("num", "n", "a") if has else ZERO
        if op in ("iterator", "begin", "next", "existsiter", "get", "pointer"):
            if dk:
                self.flag(I, st, site, "a lookup adds or removes an entry")
        if op in ("iterator", "begin", "next"):
            self.lands(I, st, val, n, has, flg, site)
        if op in ("get", "pointer"):
            if val == ZERO:
                if op == "pointer" and flg == USED and self.eqv(I, st, arg("i"), S):
                    self.flag(I, st, site, "does not find the value of a used slot")
                return
            d = self.decompose(st, val)
            if d is None or not self.eqv(I, st, d[0], self.fieldv(I, st, "a", "vals")):
                self.flag(I, st, site, "returns something that is not a value of the table")
                return
            self.lands(I, st, self.index(d[1], 16), None, has, flg, site)
        if op == "existsiter":
            i = arg("i")
            t = I.truth(st, val) if val not in (ZERO, ONE) else val == ONE
            if self.eqv(I, st, st.eqs.get(i, i), S):
                if t is not (flg == USED):
                    self.flag(I, st, site, "does not tell whether the slot is used")
            elif t and has:
                self.lands(I, st, st.eqs.get(i, i), None, has, flg, site)
            elif t:
                self.flag(I, st, site, "finds an entry in a table without slots")
        if op in ("begin", "next"):
            i = st.eqs.get(arg("i"), arg("i"))
            if op == "next" and I.truth(st, mkcmp("<", i, val)) is not True:
                self.flag(I, st, site, "does not advance")
            after = True if op == "begin" else I.truth(st, mkcmp("<", i, S))
            if flg == USED and after is not False and I.truth(st, mkcmp("<", S, val)) is not False:
                self.flag(I, st, site, "passes over a used slot")
        if op.startswith("set") or op == "fetch":
            t = val == ONE if val in (ZERO, ONE) else I.truth(st, val)
            if st.ts[3] not in (0, 1) or t is not bool(st.ts[3]):
                self.flag(I, st, site, "the result does not tell whether a value was assigned")
        if op.startswith("insert"):
            if dk not in (0, 1):
                self.flag(I, st, site, "adds %s entries" % dk)
                return
            if self.eqv(I, st, val, S):
                r = self.get(st, self.fieldv(I, st, "a", "flags"))
                if r is None or r["flag"] != USED:
                    self.flag(I, st, site, "returns a slot that is not used")
                if self.map and self.get(st, self.fieldv(I, st, "a", "vals"))["content"] not in ("nv", ("cp", "nv")):
                    self.flag(I, st, site, "does not put the value into the slot it returns")
                if dk and self.get(st, self.fieldv(I, st, "a", "keys"))["content"] not in ("nk", ("cp", "nk")):
                    self.flag(I, st, site, "does not put the key into the slot it returns")
            else:
                for k, cc, need in (("v", "nv", self.map), ("k", "nk", dk == 1)):
                    if need:
                        p = [st.mem.get((("ghost", "placed", k, x), ())) for x in (cc, ("cp", cc))]
                        p = [x for x in p if x is not None]
                        if not p or not any(self.eqv(I, st, x, val) for x in p):
                            self.flag(I, st, site, "does not put the %s into the slot it returns" % WORD[k])
        if op.startswith(("insert", "capacity")) and flg == USED:
            self.survives(I, st, site)

    def survives(self, I, st, site):
        at = {}
        for k, fld in (("k", "keys"), ("v", "vals")):
            if k == "v" and not self.map:
                continue
            r = self.get(st, self.fieldv(I, st, "a", fld))
            if r is not None and r["content"] == "ea":
                at[k] = S
            elif k == "v" and r is not None and r["content"] in ("nv", ("cp", "nv")) and at["k"] == S:
                at[k] = S           # the value of the key was replaced
            else:
                at[k] = st.mem.get((("ghost", "placed", k, "ea"), ()))
            if at[k] is None:
                self.flag(I, st, site, "the %s of an entry is lost" % WORD[k])
                return
        if self.map and not self.eqv(I, st, at["k"], at["v"]):
            self.flag(I, st, site, "the key and the value of an entry end up in different slots")

    def lands(self, I, st, idx, n, has, flg, site):
        if not has:
            if idx != ZERO:
                self.flag(I, st, site, "finds an entry in a table without slots")
            return
        if n is not None and self.eqv(I, st, idx, n):
            return
        if self.eqv(I, st, idx, S):
            if flg != USED:
                self.flag(I, st, site, "arrives at a slot that is not used")
            return
        oi, ov = self.oth(st, self.fieldv(I, st, "a", "flags"))
        if oi is None or oi != idx and not self.eqv(I, st, oi, idx) or ov != ZERO:
            self.flag(I, st, site, "may arrive at a slot that is not used")


def names(p):
    return sorted(n for n in p.funcs if n.startswith("root_"))


def rule(name):
    _, kind, op = name.split("_")
    return HashRule(kind, op)
