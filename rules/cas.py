"""Tagged compare-and-swap discipline of the lock-free free lists and of the bucket recycle list.

ts = (owned, published): pointers this thread exclusively owns / has given to a shared list."""
from engine import *
from gimple import AnalysisBroken
import re


class CasRule(Rule):
    max_states = 24
    loop_exact = 1

    def __init__(self, ownership, entry_owned=None, returns=False):
        self.ownership = ownership
        self.entry = entry_owned
        self.returns = returns
        self.orig = {}
        self.counts = {"cas": 0, "pops": 0, "pushes": 0, "observations": 0, "exits": 0}

    def inline(self, I, st, func):
        n = func.name
        if n.startswith("std::") or n.startswith("__gnu_cxx"):
            return bool(re.match(r"std::(__atomic_base|atomic|atomic_flag|forward|move|pair|swap|__addressof|addressof|memory_order|operator)", n))
        return True

    def call(self, I, st, name, func, args, site, lhs):
        n = func.name if func else name
        m = re.match(r"^bss::RWLock::(~?\w+)$", n)
        if m:
            op = m.group(1)
            if op.startswith("Attempt"):
                s2 = st.copy()
                return [(st, ONE), (s2, ZERO)]
            return [(st, I.fresh(st, ("rw", site.loc)) if lhs is not None else None)]
        if n.startswith("bss::GreedyAlloc::Alloc"):
            tok = I.fresh(st, ("greedy", site.loc), "alloc")
            st.ts = (st.ts[0] | {tok}, st.ts[1])
            return [(st, tok)]
        if re.match(r"^bss::Hash(Ins|Base)?(<.*>)?::", n) and func is not None:
            # the size -> free list table: a lookup yields the list of that size
            if lhs is None:
                return [(st, None)]
            return [(st, I.fresh(st, ("hash", site.loc)))]
        if n.endswith("_verifyDEBUG") or n.endswith("_validPointer"):
            return [(st, ONE)]
        if name == "malloc":
            tok = I.fresh(st, ("malloc", site.loc), "alloc")
            st.ts = (st.ts[0] | {tok}, st.ts[1])
            return [(st, tok)]
        if name == "free":
            own = {o for o in st.ts[0] if not contains(args[0], o)}
            for p in st.ts[1]:
                if args[0] == p:
                    I.report(st, site, "frees a block that is on a shared list")
            st.ts = (frozenset(own), st.ts[1])
            return [(st, None)]
        return None

    def used(self, I, st, loc, site):
        for p in st.ts[1]:
            if loc[0] == p or (loc[0][0] == "lin" and contains(loc[0], p)):
                I.report(st, site, "block accessed after it was put on a shared list")

    def load(self, I, st, loc, site):
        if site is not None:
            self.used(I, st, loc, site)
        return None

    def store(self, I, st, loc, val, site):
        self.used(I, st, loc, site)

    def link_of(self, st, I, p):
        """what is stored in the link word of block p"""
        out = set()
        for path in ((), ("next",)):
            v = st.mem.get((p, path))
            if v is not None:
                out.add(v)
        return out

    def atomic(self, I, st, kind, loc, args, order, site):
        if kind not in ("casv", "casb", "cas"):
            return None
        width = I.cur_width
        base_tag = None
        if kind == "cas":
            old, new = I.rawload(st, I.ptr_loc(args[0])), args[1]
        else:
            old, new = args
        if width != "16":
            # a tagged pointer exchanged in parts
            if loc[1] and loc[1][-1] in ("p", "tag"):
                I.report(st, site, "tagged pointer exchanged without its tag")
            return None
        self.counts["cas"] += 1
        s2 = st.copy()
        tok = I.fresh(s2, ("casf", site.loc))
        op, ot = mksel(old, ("p",)), mksel(old, ("tag",))
        np, nt = mksel(new, ("p",)), mksel(new, ("tag",))
        if old == new or (op == np and ot == nt):
            self.counts["observations"] += 1
        else:
            d = lin_add(nt, ot, -1)
            if not (isint(d) and d[1] > 0):
                I.report(st, site, "exchange does not advance the tag of the value it observed (ABA)")
            own, pub = st.ts
            if np in (("init", (op, ())), ("init", (op, ("next",)))) or np in self.link_of(st, I, op) and op != ZERO and not self.pushed(st, I, np, op):
                # pop
                self.counts["pops"] += 1
                if I.truth(st, mkcmp("==", op, ZERO)) is not False:
                    I.report(st, site, "takes the head of a list that may be empty")
                if self.ownership:
                    own = own | {op}
                pub = frozenset(x for x in pub if x != op)
            elif self.pushed(st, I, np, op):
                self.counts["pushes"] += 1
                if self.ownership:
                    mine = [o for o in own if contains(np, o) or self.origin(np) == o]
                    if not mine:
                        I.report(st, site, "puts a block on the shared list that this thread does not own (twice, or never taken)")
                    own = own - set(mine)
                pub = pub | {np}
            elif np == ZERO and self.empty_chain(st):
                pass
            else:
                I.report(st, site, "installs a head that is neither the successor of the observed head nor a block linked to it")
            st.ts = (own, frozenset(x for x in pub if not has_old(x)))
        if kind == "cas":
            I.rawstore(s2, I.ptr_loc(args[0]), tok)
            return [(st, ONE), (s2, ZERO)]
        if kind == "casb":
            return [(st, ONE), (s2, ZERO)]
        c = mkcmp("==", tok, subst(old, tok, ("old", tok)))
        if c[0] == "cmp":
            s2.facts[c] = False
        return [(st, old), (s2, tok)]

    def pushed(self, st, I, np, op):
        """some block of the chain starting at np has its link word set to the observed head"""
        if np == ZERO:
            return False
        root = self.origin(np)
        for (b, path), v in st.mem.items():
            if path in ((), ("next",)) and v == op and b[0] not in ("var", "g") and (b == np or self.origin(b) == root and root is not None):
                return True
        return False

    def origin(self, v):
        """allocation or argument a pointer is derived from"""
        for x in subterms(v):
            if x and x[0] in ("alloc", "arg") and len(x) > 1:
                return x
            if x and x[0] == "old":
                x = x[1]
            if x and x[0] == "w" and self.orig.get(x):
                return self.orig[x]
        if v[0] == "w":
            return self.orig.get(v) or None
        return v

    def join_value(self, I, a, b, va, vb, tok):
        o = {self.origin(x) for x in (va, vb) if x != ZERO and x != tok}
        if tok in (va, vb):
            o.add(self.orig.get(tok))
        o = o.pop() if len(o) == 1 else False
        if tok in self.orig and self.orig[tok] != o:
            o = False
        self.orig[tok] = o
        return None

    def empty_chain(self, st):
        """a chunk of zero elements adds nothing"""
        return any(f.func.name.endswith("_initChunk") for f in st.frames)

    def exit(self, I, st, val, site):
        self.counts["exits"] += 1
        if not self.ownership:
            return
        own, pub = st.ts
        if self.returns:
            mine = [o for o in own if val is not None and contains(val, o)]
            if not mine:
                I.report(st, site, "hands out a block this thread did not exclusively take")
            own = own - set(mine)
            for p in pub:
                if val is not None and val == p:
                    I.report(st, site, "hands out a block that is still on the shared list")
        left = [o for o in own if not any(contains(v, o) for l, v in st.mem.items() if l[0][0] not in ("var",))]
        if left:
            I.report(st, site, "a block taken from the list or the system is neither handed out nor put back")


ROOTS = [  # root, ownership, argument owned at entry, returns a block
    ("root_BlockMT_allocate", True, None, True),
    ("root_BlockMT_deallocate", True, "p", False),
    ("root_BlockMT_ctor", True, None, False),
    ("root_CacheAlloc_Alloc", True, None, True),
    ("root_CacheAlloc_Dealloc", True, "p", False),
    ("root_RingAlloc_Alloc", False, None, False),
    ("root_RingAlloc_Dealloc", False, None, False),
    ("root_RingAlloc_Clear", False, None, False),
    ("root_RingAlloc_ctor", False, None, False),
]
