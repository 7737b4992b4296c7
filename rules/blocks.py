"""Ownership of allocated blocks, lifetime of their elements and bounds of every access, for array-like containers.

A block is named by the pointer value that denotes it. Its ghost cells (base ("ghost", "blk", token)):
  size      number of bytes allocated           aid   identity of the allocator it came from
  seg k s/e settled live ranges (byte offsets)   run kind s/e   the range a loop (or a single event) is extending
The typestate lists the blocks that exist, with their status."""
from engine import *
from gimple import AnalysisBroken
import os
import re

import engine
engine.SHIFT_IS_MUL = True      # unsigned sizes do not overflow (assumption)
MAXSEG = 5


class Obj:
    """one container object handed to (or built by) a root"""
    def __init__(self, base, ptr, cap, length, esize, aid=("_aid",), state="valid"):
        self.base, self.ptr, self.cap, self.len, self.esize, self.aid, self.state = base, ptr, cap, length, esize, aid, state


class CircObj(Obj):
    """live elements are the `length` ones ending at `cur`, modulo the capacity"""
    def __init__(self, base, ptr, cap, length, cur, esize, **k):
        Obj.__init__(self, base, ptr, cap, length, esize, **k)
        self.cur = cur


class BlockRule(Rule):
    max_states = 40
    foldcmp = True
    loose_limits = True
    loop_exact = 1
    loop_entries = 12
    affine = True
    only = None             # analyse this start state only
    strict = False          # elements must not be relocated bitwise
    tracked = True          # elements have lifetimes
    elem = "Elem"

    def __init__(self, objs, strict, tracked, esize=8):
        self.objs, self.strict, self.tracked, self.esize = objs, strict, tracked, esize
        self.counts = {"events": 0, "exits": 0, "own": 0, "life": 0, "bounds": 0}

    # ---- values
    def nonneg(self, t):
        if t[0] == "arg":
            return True
        if t[0] == "init":
            return bool(t[1][1]) and t[1][1][-1] in ("_capacity", "_length", "_M_len", "length")
        if t[0] == "op" and t[1] == ">>":
            return all(c > 0 and self.nonneg(x) for x, c in _lin(t[2])[0].items()) and _lin(t[2])[1] >= 0
        if t[0] == "op" and t[1] in ("&", "/", "%"):
            return True
        return False

    def asserts(self):
        return False

    def mergekey(self, st):
        return (st.ts, tuple(sorted((l for l in st.mem if l[0][0] == "ghost" and l[1] and l[1][0] == "seg"), key=skey)),
                tuple(I_ptr(st, o) for o in self.objs), tuple(st.mem.get((("ghost", "kind"), o.base)) for o in self.objs if isinstance(o, CircObj)))

    def le(self, I, st, a, b):
        return a == b or I.truth(st, mkcmp("<", b, a)) is False

    def lt(self, I, st, a, b):
        return I.truth(st, mkcmp("<", a, b)) is True

    def eq(self, I, st, a, b):
        return a == b or I.truth(st, mkcmp("==", a, b)) is True or (self.le(I, st, a, b) and self.le(I, st, b, a))

    def g(self, st, tok, *path):
        return st.mem.get((("ghost", "blk", tok), path))

    def sg(self, st, tok, val, *path):
        st.mem[(("ghost", "blk", tok), path)] = val

    def dg(self, st, tok, *path):
        st.mem.pop((("ghost", "blk", tok), path), None)

    # ---- blocks
    def status(self, st, tok):
        return dict(st.ts).get(tok)

    def setstatus(self, st, tok, v):
        d = dict(st.ts)
        if v is None:
            d.pop(tok, None)
        else:
            d[tok] = v
        st.ts = tuple(sorted(d.items(), key=skey))

    def newblock(self, st, tok, size, aid, live=None):
        self.setstatus(st, tok, "live")
        self.sg(st, tok, size, "size")
        self.sg(st, tok, aid, "aid")
        if live is not None and live != ZERO:
            self.sg(st, tok, ZERO, "seg", 0, "s")
            self.sg(st, tok, live, "seg", 0, "e")

    def decompose(self, st, v):
        """pointer -> (block token, byte offset)"""
        if v[0] == "addr":
            b, path = v[1]
            r = self.decompose(st, b)
            if r:
                return r
            return None
        d = dict(st.ts)
        if v in d:
            return v, ZERO
        if v[0] == "lin":
            for t, c in v[1]:
                if c == 1 and t in d:
                    return t, lin_add(v, t, -1)
        return None

    def nonnull(self, st, v):
        r = self.decompose(st, v)
        return r is not None and self.status(st, r[0]) == "live"

    def segs(self, st, tok):
        out = []
        for k in range(MAXSEG):
            s = self.g(st, tok, "seg", k, "s")
            if s is not None:
                out.append((s, self.g(st, tok, "seg", k, "e")))
        return out

    def setsegs(self, st, tok, segs):
        for k in range(MAXSEG):
            self.dg(st, tok, "seg", k, "s")
            self.dg(st, tok, "seg", k, "e")
        for k, (s, e) in enumerate(segs[:MAXSEG]):
            self.sg(st, tok, s, "seg", k, "s")
            self.sg(st, tok, e, "seg", k, "e")

    # ---- element events
    def event(self, I, st, tok, kind, lo, hi, site):
        """[lo, hi) of block tok is constructed (kind +) or destroyed (kind -)"""
        self.counts["life"] += 1
        for k in ("+", "-"):
            s = self.g(st, tok, "run", k, "s")
            if s is None:
                continue
            e = self.g(st, tok, "run", k, "e")
            if k == kind:
                if self.eq(I, st, lo, e):
                    self.sg(st, tok, hi, "run", k, "e")
                    return
                if self.eq(I, st, hi, s):
                    self.sg(st, tok, lo, "run", k, "s")
                    return
            self.settle(I, st, tok, site, (k,))
        self.sg(st, tok, lo, "run", kind, "s")
        self.sg(st, tok, hi, "run", kind, "e")

    def settle(self, I, st, tok, site, kinds=("+", "-")):
        for k in kinds:
            s = self.g(st, tok, "run", k, "s")
            if s is None:
                continue
            e = self.g(st, tok, "run", k, "e")
            self.dg(st, tok, "run", k, "s")
            self.dg(st, tok, "run", k, "e")
            self.apply(I, st, tok, k, s, e, site)

    def norm(self, I, st, segs):
        segs = [(s, e) for s, e in segs if not self.eq(I, st, s, e)]
        out = []
        for s, e in segs:
            for i, (a, c) in enumerate(out):
                if self.eq(I, st, c, s):
                    out[i] = (a, e)
                    break
                if self.eq(I, st, e, a):
                    out[i] = (s, c)
                    break
            else:
                out.append((s, e))
        if len(out) < len(segs) and len(out) > 1:
            return self.norm(I, st, out)
        return out

    def apply(self, I, st, tok, kind, s, e, site):
        if self.eq(I, st, s, e):
            return
        segs = self.segs(st, tok)
        if kind == "+":
            for a, c in segs:
                if not (self.le(I, st, e, a) or self.le(I, st, c, s)):
                    self.flag(I, st, site, "life", "an element is constructed where one may already be alive")
                    break
            segs.append((s, e))
            if not self.le(I, st, ZERO, s) or not self.le(I, st, e, self.g(st, tok, "size")):
                self.flag(I, st, site, "bounds", "an element is constructed outside the allocated block")
            self.counts["bounds"] += 1
        else:
            for i, (a, c) in enumerate(segs):
                if self.le(I, st, a, s) and self.le(I, st, e, c):
                    segs[i:i + 1] = [(a, s), (e, c)]
                    break
            else:
                self.flag(I, st, site, "life", "something that may not be a live element is destroyed")
                # the range may cover several live ranges
        self.setsegs(st, tok, self.norm(I, st, segs))

    def islive(self, I, st, tok, lo, hi):
        if self.eq(I, st, lo, hi):
            return True
        s = self.g(st, tok, "run", "-", "s")
        if s is not None:
            e = self.g(st, tok, "run", "-", "e")
            if not (self.le(I, st, hi, s) or self.le(I, st, e, lo)):
                return False
        cand = self.segs(st, tok)
        s = self.g(st, tok, "run", "+", "s")
        if s is not None:
            cand = self.norm(I, st, cand + [(s, self.g(st, tok, "run", "+", "e"))])
        return any(self.le(I, st, a, lo) and self.le(I, st, hi, c) for a, c in cand)

    def uselive(self, I, st, ptr, n, site, what):
        r = self.decompose(st, ptr)
        if r is None:
            return
        tok, off = r
        self.counts["life"] += 1
        if self.status(st, tok) == "freed":
            self.flag(I, st, site, "own,bounds", "%s a block that has been released" % what)
        elif self.tracked and not self.islive(I, st, tok, off, lin_add(off, n)):
            self.flag(I, st, site, "life", "%s something that may not be a live element" % what)

    def flag(self, I, st, site, tag, what):
        I.report(st, site, "[%s] %s" % (tag, what))

    def inbounds(self, I, st, ptr, n, site, what):
        r = self.decompose(st, ptr)
        if r is None:
            return None
        tok, off = r
        self.counts["bounds"] += 1
        if self.status(st, tok) == "freed":
            self.flag(I, st, site, "own,bounds", "%s a block that has been released" % what)
        elif not (self.le(I, st, ZERO, off) and self.le(I, st, lin_add(off, n), self.g(st, tok, "size"))):
            self.flag(I, st, site, "bounds", "%s memory outside the allocated block" % what)
        return r

    # ---- engine hooks
    def inline(self, I, st, func):
        n = func.name
        if re.match(r"(std::)?(move_backward|move|copy|copy_backward)<.*\*", n) and "iterator" not in n:
            pass
        return True

    def prejoin(self, I, a, b):
        """a range that exists on one side only is empty on the other"""
        ka = {l for l in a.mem if l[0][0] == "ghost" and l[1] and l[1][0] == "run"}
        kb = {l for l in b.mem if l[0][0] == "ghost" and l[1] and l[1][0] == "run"}
        if ka != kb:
            a2, b2 = a.copy(), b.copy()
            for x, y, miss in ((a2, b2, kb - ka), (b2, a2, ka - kb)):
                for l in miss:
                    if l[1][2] == "s":
                        # where the range starts when it grows upwards, where it ends when it grows downwards
                        v = y.mem[l]
                        if self.downwards(x, y):
                            v = y.mem[(l[0], l[1][:2] + ("e",))]
                        x.mem[l] = v
                        x.mem[(l[0], l[1][:2] + ("e",))] = v
            return a2, b2
        return a, b

    def downwards(self, x, y):
        """do the loop variables fall from x (before) to y (after)?"""
        up = down = 0
        for fx, fy in zip(x.frames, y.frames):
            for k, v in fx.env.items():
                w = fy.env.get(k)
                if w is not None and w != v and "undef" not in (v[0], w[0]) and "pack" not in (v[0], w[0]):
                    d = lin_add(w, v, -1)
                    if isint(d):
                        up += d[1] > 0
                        down += d[1] < 0
        return down > up

    def loophead(self, I, st, node, back, site):
        if not back:
            for tok, s in st.ts:
                if s == "live":
                    self.settle(I, st, tok, self.lastsite)

    def alloc(self, I, st, n, prev, old, aid, site, esize):
        self.counts["own"] += 1
        size = lin_scale(n, esize)
        live = []
        src = None
        if prev != ZERO:
            src = self.release(I, st, prev, lin_scale(old, esize), aid, site, "reallocates", realloc=True)
        tok = I.fresh(st, ("block", site.loc), "alloc")
        if src is not None:
            live = self.norm(I, st, self.segs(st, src))
            if live and self.strict:
                self.flag(I, st, site, "life", "live elements are moved bitwise to another block")
            for s, e in live:
                if not self.le(I, st, e, size):
                    self.flag(I, st, site, "life", "live elements are cut off by shrinking their block")
        self.setstatus(st, ("old", tok), None)
        self.newblock(st, tok, size, aid)
        self.setsegs(st, tok, live)
        if src is not None:
            self.setsegs(st, src, [])
        return [(st, tok)]

    def axioms(self, terms, nonpos):
        """x >> a >= x >> b for a <= b; y <= 2^a * (x >> a) + 2^a - 1 and 2^a * (x >> a) <= x for x >= 0 (as expressions <= 0)"""
        ops = [t for t in terms if t[0] == "op" and t[1] == ">>" and isint(t[3])]
        out = [lin_add(y, x, -1) for x in ops for y in ops if x[2] == y[2] and x[3][1] < y[3][1]]
        for t in terms:
            if t[0] == "op" and t[1] in (">>", "/") and isint(t[3]) and t[3][1] > 0:
                n = 1 << t[3][1] if t[1] == ">>" else t[3][1]
                if nonpos(lin_scale(t[2], -1)):
                    out.append(lin_add(t, t[2], -1))
                    out.append(lin_add(lin_scale(t, n), t[2], -1))
                    out.append(lin_add(lin_add(t[2], lin_scale(t, n), -1), mkint(1 - n)))
        return out

    def release(self, I, st, p, size, aid, site, what, realloc=False):
        self.counts["own"] += 1
        r = self.decompose(st, p)
        if r is None:
            if I.truth(st, mkcmp("==", p, ZERO)) is True:
                return None
            self.flag(I, st, site, "own", "%s a pointer that is not an allocated block" % what)
            return None
        tok, off = r
        if off != ZERO:
            self.flag(I, st, site, "own", "%s a pointer into the middle of a block" % what)
            return None
        if self.status(st, tok) == "freed":
            self.flag(I, st, site, "own", "%s a block that has already been released" % what)
            return None
        self.settle(I, st, tok, site)
        if size is not None and size != ZERO and not self.eq(I, st, size, self.g(st, tok, "size")):
            self.flag(I, st, site, "own", "%s a block with another size than it was allocated with" % what)
        if aid is not None and not self.eq(I, st, aid, self.g(st, tok, "aid")):
            self.flag(I, st, site, "own", "%s a block through another allocator than it came from" % what)
        if not realloc and self.tracked:
            if self.norm(I, st, self.segs(st, tok)):
                self.flag(I, st, site, "life", "%s a block whose elements may still be alive" % what)
            self.setsegs(st, tok, [])
        self.setstatus(st, tok, "freed")
        return tok

    def aidof(self, I, st, this):
        return I.rawload(st, norm_loc((this, ("_aid",))) if this[0] != "addr" else (this[1][0], this[1][1] + ("_aid",)))

    def call(self, I, st, name, func, args, site, lhs):
        self.lastsite = site
        n = func.name if func else name
        m = re.match(r"_ZN6VAllocI(.*)E(8allocate|10deallocate)E", name)
        if m:
            self.counts["events"] += 1
            es = self.esizeof(m.group(1))
            aid = self.aidof(I, st, args[0])
            if m.group(2) == "8allocate":
                return self.alloc(I, st, args[1], args[2], args[3], aid, site, es)
            self.release(I, st, args[1], lin_scale(args[2], es), aid, site, "releases")
            return [(st, None)]
        m = re.match(r"_ZN4Elem(C[12]|D[12]|aS)E(.*)$", name)
        if m:
            self.counts["events"] += 1
            es = mkint(self.esize)
            r = self.decompose(st, args[0])
            k = m.group(1)
            if len(args) > 1 and k[0] in "Ca" and m.group(2)[:1] in "RO":
                self.uselive(I, st, args[1], es, site, "copies or moves")
            if r:
                tok, off = r
                if self.status(st, tok) == "freed":
                    self.flag(I, st, site, "own,bounds", "%s an element in a block that has been released" % {"C": "constructs", "D": "destroys", "a": "assigns"}[k[0]])
                elif k[0] == "C":
                    self.event(I, st, tok, "+", off, lin_add(off, es), site)
                elif k[0] == "D":
                    self.event(I, st, tok, "-", off, lin_add(off, es), site)
                else:
                    self.uselive(I, st, args[0], es, site, "assigns to")
            return [(st, args[0] if k == "aS" else None)]
        if n in ("memcpy", "memmove", "memset", "__builtin_memcpy", "__builtin_memmove", "__builtin_memset"):
            self.counts["events"] += 1
            k = args[2]
            d = self.decompose(st, args[0])
            s = self.decompose(st, args[1]) if "set" not in n else None
            if d is None and s is None:
                return None
            if d:
                self.inbounds(I, st, args[0], k, site, "writes")
            if s:
                self.inbounds(I, st, args[1], k, site, "reads")
            if self.tracked and "set" not in n and (d or s):
                self.relocate(I, st, d, s, k, site)
            return [(st, args[0])]
        return None

    def relocate(self, I, st, d, s, k, site):
        """bits of [s, s+k) become the elements [d, d+k)"""
        if s is None or d is None:
            self.flag(I, st, site, "life", "elements are copied bitwise")
            return
        if self.eq(I, st, k, ZERO):
            return
        if self.strict:
            self.flag(I, st, site, "life", "live elements are moved bitwise")
        self.settle(I, st, s[0], site)
        if d[0] != s[0]:
            self.settle(I, st, d[0], site)
        self.event(I, st, s[0], "-", s[1], lin_add(s[1], k), site)
        self.settle(I, st, s[0], site)
        self.event(I, st, d[0], "+", d[1], lin_add(d[1], k), site)
        self.settle(I, st, d[0], site)

    def esizeof(self, t):
        return self.esize

    def store(self, I, st, loc, val, site):
        b = loc[0]
        if b[0] in ("lin", "alloc", "init") or b in dict(st.ts):
            r = self.decompose(st, b)
            if r:
                self.counts["events"] += 1
                self.inbounds(I, st, b, mkint(self.esize), site, "writes")
                return False
        return None

    def load(self, I, st, loc, site):
        b = loc[0]
        if b[0] in ("lin", "alloc", "init"):
            r = self.decompose(st, b)
            if r:
                self.inbounds(I, st, b, mkint(self.esize), site, "reads")
                return ("init", loc)
        return None

    def modulo(self, I, st, x, m, site):
        """the remainder x % m, by cases, when x is within two periods"""
        if isint(x) and isint(m) or not self.lt(I, st, ZERO, m):
            return None
        if not self.le(I, st, lin_scale(m, -1), x) or not self.lt(I, st, x, lin_scale(m, 2)):
            return None
        outs = []
        if not self.lt(I, st, lin_scale(m, -1), x):
            low = mkcmp("<", lin_scale(m, -1), x)
            outs += [(s, ZERO) for s in I.assume(st.copy(), low, False, site)]
            sts = I.assume(st, low, True, site)
            if not sts:
                return outs
            st = sts[0]
        for s in I.assume(st.copy(), mkcmp("<", x, m), True, site):
            outs.append((s, x))                 # negative or already reduced
        for s in I.assume(st.copy(), mkcmp("<", x, m), False, site):
            outs.append((s, lin_add(x, m, -1)))
        r = []
        for s, v in outs:
            neg = mkcmp("<", v, ZERO)
            if I.truth(s, neg) is None:
                for t in (True, False):
                    r += [(y, v) for y in I.assume(s.copy(), neg, t, site)]
            else:
                r.append((s, v))
        return r

    def setup(self, I, st):
        states = [st]
        for i, o in enumerate(self.objs):
            for q in self.objs[:i]:
                if o.base != q.base and o.base[0] == "arg" and q.base[0] == "arg":
                    c = mkcmp("==", o.base, q.base)
                    st.facts[c] = False  # the same object twice has entry points of its own
        for o in self.objs:
            if o.state == "raw":
                continue
            nxt = []
            for s in states:
                z = s.copy()
                for path in (o.ptr, o.cap, o.len):
                    if path is not None:
                        z.mem[(o.base, path)] = ZERO
                nxt.append(z)
                tok = ("init", (o.base, o.ptr))
                cap = ("init", (o.base, o.cap))
                aid = ("init", (o.base, o.aid))
                s.facts[mkcmp("==", tok, ZERO)] = False
                s.facts[("cmp", "<", ZERO, cap)] = True
                if isinstance(o, CircObj):
                    z.mem[(o.base, o.cur)] = mkint(-1)
                    nxt += self.circular(I, s, o, tok, cap, aid)
                    continue
                ln = ("init", (o.base, o.len)) if o.len else cap
                if o.len:
                    s.facts[("cmp", "<", cap, ln)] = False
                self.newblock(s, tok, lin_scale(cap, o.esize), aid, lin_scale(ln, o.esize) if self.tracked else None)
                nxt.append(s)
            states = nxt
        return states if self.only is None else [states[self.only]]

    def circular(self, I, s, o, tok, cap, aid):
        """empty, full, contiguous and wrapped start states"""
        cur, ln, out = ("init", (o.base, o.cur)), ("init", (o.base, o.len)), []
        end = lin_add(cur, ONE)
        start = lin_add(end, ln, -1)
        for kind in ("empty", "full", "contiguous", "wrapped"):
            x = s.copy()
            self.newblock(x, tok, lin_scale(cap, o.esize), aid, None)
            conds = [(mkcmp("<", cur, cap), True)]
            segs = []
            if kind == "empty":
                conds += [(mkcmp("<", cur, mkint(-1)), False), (mkcmp("==", ln, ZERO), True)]
            else:
                conds += [(mkcmp("<", cur, ZERO), False), (mkcmp("<", ZERO, ln), True)]
                if kind == "full":
                    conds.append((mkcmp("==", ln, cap), True))
                    segs = [(ZERO, cap)]
                else:
                    conds += [(mkcmp("<", ln, cap), True), (mkcmp("<", start, ZERO), kind == "wrapped")]
                    segs = [(start, end)] if kind == "contiguous" else [(ZERO, end), (lin_add(cap, start), cap)]
            sts = [x]
            for c, t in conds:
                sts = [y for q in sts for y in I.assume(q, c, t, None)]
            for q in sts:
                q.mem[(("ghost", "kind"), o.base)] = ("str", kind)
                if self.tracked:
                    self.setsegs(q, tok, [(lin_scale(a, o.esize), lin_scale(b, o.esize)) for a, b in segs])
                out.append(q)
        return out

    def circular_exit(self, I, st, o, p, cap, ln, site, who):
        cur = I.rawload(st, (o.base, o.cur))
        if not (self.le(I, st, mkint(-1), cur) and self.lt(I, st, cur, cap)):
            self.flag(I, st, site, "bounds", "the position of '%s' may lie outside its block" % who)
        if not self.tracked:
            return
        segs = self.norm(I, st, self.segs(st, p))
        end = lin_scale(lin_add(cur, ONE), o.esize)
        start = lin_add(end, lin_scale(ln, o.esize), -1)
        size = lin_scale(cap, o.esize)
        forms = [[(start, end)], [(ZERO, size)], [(ZERO, end), (lin_add(size, start), size)]]
        ok = self.eq(I, st, ln, ZERO) and not segs
        for n, f in enumerate(forms):
            for g in (f, f[::-1])[:len(f)]:
                if not ok and len(segs) == len(g) and all(self.eq(I, st, a, c) and self.eq(I, st, b, d) for (a, b), (c, d) in zip(segs, g)):
                    ok = n != 1 or self.eq(I, st, ln, cap)
        if not ok:
            self.flag(I, st, site, "life", "the live elements of '%s' are not exactly the length elements ending at its position" % who)

    def exit(self, I, st, val, site):
        self.counts["exits"] += 1
        owned = {}
        for tok, s in st.ts:
            if s == "live":
                self.settle(I, st, tok, site)
        for o in self.objs:
            if o.state == "gone":
                continue
            p = I.rawload(st, (o.base, o.ptr))
            cap = I.rawload(st, (o.base, o.cap))
            ln = I.rawload(st, (o.base, o.len)) if o.len else cap
            who = o.base[1]
            if p == ZERO or I.truth(st, mkcmp("==", p, ZERO)) is True:
                if not self.eq(I, st, cap, ZERO) or not self.eq(I, st, ln, ZERO):
                    self.flag(I, st, site, "own,bounds", "'%s' is left without a block but with a nonzero capacity or length" % who)
                continue
            stt = self.status(st, p)
            if stt is None:
                self.flag(I, st, site, "own,bounds", "'%s' is left pointing to something that is not an allocated block" % who)
                continue
            if stt == "freed":
                self.flag(I, st, site, "own,bounds", "'%s' is left pointing to a released block" % who)
                continue
            if p in owned:
                self.flag(I, st, site, "own", "'%s' and '%s' are left owning the same block" % (owned[p], who))
                continue
            owned[p] = who
            if not self.eq(I, st, lin_scale(cap, o.esize), self.g(st, p, "size")):
                self.flag(I, st, site, "own,bounds", "the capacity of '%s' is not that of its block" % who)
            if not self.eq(I, st, I.rawload(st, (o.base, o.aid)), self.g(st, p, "aid")):
                self.flag(I, st, site, "own", "'%s' owns a block that did not come from its allocator" % who)
            if o.len and not self.le(I, st, ln, cap):
                self.flag(I, st, site, "bounds", "the length of '%s' may exceed its capacity" % who)
            if isinstance(o, CircObj):
                self.circular_exit(I, st, o, p, cap, ln, site, who)
            elif self.tracked:
                end = lin_scale(ln, o.esize)
                segs = self.norm(I, st, self.segs(st, p))
                if not (self.eq(I, st, end, ZERO) and not segs) and not (len(segs) == 1 and self.eq(I, st, segs[0][0], ZERO) and self.eq(I, st, segs[0][1], end)):
                    self.flag(I, st, site, "life", "the live elements of '%s' are not exactly its first length elements" % who)
        for tok, s in st.ts:
            if s == "live" and tok not in owned:
                self.flag(I, st, site, "own", "a block is leaked: nothing owns it any more")


def I_ptr(st, o):
    return st.mem.get((o.base, o.ptr))


from engine import _lin
KINDS = {"Simple": (False, False), "Construct": (False, True), "Safe": (True, True), "Move": (True, True)}


BUDGET = 20000
NROOTS = 445
ROOT_RE = re.compile(r"root_(Simple|Construct|Safe|Move)_(AR|DA|ST|RQ|BH|CA|QU)_(\w+)$")


def names(p):
    return sorted(nm for nm in p.funcs if ROOT_RE.match(nm))


# a property holds if it does in one of these abstractions
MODES = ({}, {"counters": True}, {"loop_exact": 2})


def rule(p, nm, mode={}):
    f = p.funcs[nm]
    m = ROOT_RE.match(nm)
    strict, tracked = KINDS[m.group(1)]
    c, op = m.group(2), m.group(3)
    objs = []
    pre = ("_array",) if c == "ST" else ()
    for a, ty in f.params:
        if a not in ("a", "b", "r"):
            continue
        k = dict(state="raw" if a == "r" else "gone" if op == "dtor" else "valid", aid=pre + ("_aid",))
        b = ("arg", a)
        if c in ("CA", "QU"):
            objs.append(CircObj(b, ("_array",), ("_capacity",), ("_length",), ("_cur",), 8, **k))
        else:
            objs.append(Obj(b, pre + ("_array",), pre + ("_capacity",), None if c == "AR" else pre + ("_length",), 8, **k))
    r = BlockRule(objs, strict, tracked)
    for k, v in mode.items():
        setattr(r, k, v)
    return r


def analyse(p, nm, mode, budget):
    """one interpreter per start state of two-object operations on circular containers, one for all otherwise"""
    r = rule(p, nm, mode)
    circ = [o for o in r.objs if isinstance(o, CircObj) and o.state != "raw"]
    if not circ:
        I = Interp(p, r, budget=budget)
        I.run(p.funcs[nm], ts=(), setup=r.setup)
        return I, r
    tot = None
    for k in range(5 ** len(circ)):
        if len(circ) == 2 and k in (19, 23, 24) and os.environ.get("VERIF_TIER", "quick") != "thorough":
            continue        # both objects in their most complicated states: the other combinations cover each of them
        q = rule(p, nm, mode)
        q.only = k
        I = Interp(p, q, budget=budget)
        I.run(p.funcs[nm], ts=(), setup=q.setup)
        if tot is None:
            tot = (I, q)
        else:
            J, r = tot
            J.functions |= I.functions
            J.notes |= I.notes
            J.sites += I.sites
            J.steps += I.steps
            J.violations.update(I.violations)
            for c in r.counts:
                r.counts[c] += q.counts[c]
    return tot


def roots(p):
    for nm in names(p):
        yield nm, rule(p, nm)
