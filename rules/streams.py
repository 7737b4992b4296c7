"""Input streams: every loop of a parser either moves the read position or changes something its conditions depend on."""
import re
from engine import *
from own import ZERO, ONE

MINUS1 = mkint(-1)
STREAM = ("sym", "stream")
NAMES = re.compile(r"[\w.]*_\d+(?:\(D\))?")
I_ = "_ZNSi"
CTOR = re.compile(r"C[12]E")
IOS = "_ZNKSt9basic_iosIcSt11char_traitsIcEE"
FPOS_C = re.compile(r"_ZNSt4fposI11__mbstate_tEC[12]El$")
FPOS_V = "_ZNKSt4fposI11__mbstate_tEcvlEv"
SPACE = {9, 10, 11, 12, 13, 32}
CLASS = {"isspace": lambda c: c in SPACE, "isdigit": lambda c: 48 <= c <= 57, "isalpha": lambda c: chr(c).isalpha() and c < 128,
         "isalnum": lambda c: c < 128 and chr(c).isalnum(), "isxdigit": lambda c: c < 128 and chr(c) in "0123456789abcdefABCDEF",
         "isupper": lambda c: 65 <= c <= 90, "islower": lambda c: 97 <= c <= 122, "ispunct": lambda c: 33 <= c < 127 and not chr(c).isalnum(),
         "isprint": lambda c: 32 <= c < 127, "iscntrl": lambda c: c < 32 or c == 127, "isgraph": lambda c: 33 <= c < 127, "isblank": lambda c: c in (9, 32)}


def streamy(func):
    if "lambda" in func.name:
        return True
    r = _streamy.get(func.mangled)
    if r is None:
        r = any("istream" in str(t) or "Serializer" in str(t) or "ifstream" in str(t) for _, t in func.params)
        r = r or any(s.kind == "call" and s.a[1].startswith(I_) for b in func.blocks.values() for s in b.stmts)
        _streamy[func.mangled] = r
    return r


def given(func):
    """functions that read a stream they are given (one with a stream of its own is a separate root)"""
    return "lambda" in func.name or any("istream" in str(t) or "Serializer" in str(t) or "ifstream" in str(t) for _, t in func.params)


def leaf(func):
    """small helpers without calls or loops"""
    r = _leaf.get(func.mangled)
    if r is None:
        analyse_cfg(func)
        r = _leaf[func.mangled] = len(func.blocks) <= 4 and not func.loopheads and not any(s.kind == "call" for b in func.blocks.values() for s in b.stmts)
    return r


_streamy, _leaf = {}, {}
CALL = -7
VAGUE = ("t", 0, "la", ("sym", "vague"))


def roots(prog):
    """functions of the library that read a stream and loop"""
    out = []
    for n, f in prog.funcs.items():
        if "TOMLWrapper" in f.name or "EvaluateType<bss::Variant" in f.name:
            continue    # further instances of the same loops; they are followed into where they are called
        if "bss::" in f.name and not f.name.startswith("std::") and streamy(f):
            analyse_cfg(f)
            if f.loopheads and any(s.kind == "call" and s.a[1].startswith((I_, "_ZStrsI")) for b in f.blocks.values() for s in b.stmts):
                out.append(n)
    return sorted(out)


def has_arg(t):
    """an initial value of something the parser was given (and so reachable again)"""
    return not any(x and x[0] in ("t", "old", "w") for x in subterms(t))


def ren(ts, a, b):
    if ts == a:
        return b
    if isinstance(ts, tuple):
        return ts if ts and ts[0] == "old" else tuple(ren(x, a, b) for x in ts)
    return ts


def arguments(func):
    return [STREAM if "istream" in str(t) else ("arg", "e") if "Serializer" in str(t) else None for n, t in func.params if n != "<retval>"]


class StreamRule(Rule):
    """ts = (streams, saved, snaps)
    streams: (id, position, lookahead, eof, fail) per stream; saved: (position, lookahead) of told positions;
    snaps: (frame context, loop head, state there, undecided) per loop being run"""
    max_states = 40
    loop_exact = 12
    max_depth = 12

    def __init__(self, prog, shared=None, stack=()):
        self.prog = prog
        self.br, self.pd = {}, {}
        # summaries of the functions that read the stream, shared between the interpretations
        self.summaries = shared if shared is not None else {}
        self.stack = stack
        self.entry = None
        self.outcomes = None
        self.locals = set()     # streams made by a function that is given none: they take the place of the parser's
        self.counts = {"loops": set(), "arrivals": 0, "ops": 0, "exits": 0, "steps": 0}
        self.rel = {}

    # ---- start
    def setup(self, I, st):
        la = ("t", 0, "la", STREAM)
        pos = ("pos0",)
        ctx = st.frames[-1].ctx
        if self.entry is None:
            out = []
            for eof, fail in ((0, 0), (1, 0), (0, 1)):
                s = st.copy()
                s.ts = (((STREAM, pos, MINUS1 if eof else la, eof, fail),), (), ())
                out.append(s)
            return out
        (a, eof, fail), facts, cells, _ = self.entry
        st.ts = (((STREAM, pos, a, eof, fail),), (), ((ctx, CALL, 0, False, (pos,)),))
        for c, b in facts:
            st.facts[c] = b
        for l, v in cells:
            st.mem[l] = v
        return [st]

    def summary(self, I, st, func, args):
        """how a function leaves the stream it is given: [(next character, facts, eof, fail, moved, undecided, result, cells)]"""
        r = self.rec(st, STREAM)
        la = ("t", 0, "la", STREAM)
        a = r[2] if isint(r[2]) else la
        facts = frozenset((subst(c, r[2], la), b) for c, b in st.facts.items() if not isint(r[2]) and contains(c, r[2])
                          and all(t == r[2] or not (t and t[0] in ("t", "old", "w", "init", "arg")) for t in subterms(c)))
        if r[3] or r[4]:
            facts = frozenset()
            a = MINUS1 if r[3] else la
        cells = frozenset((l, v) for l, v in st.mem.items() if l[0] == ("arg", "e") and isint(v))
        ps = [x for x in func.params if x[0] != "<retval>"]
        av = []
        for i, (nm, ty) in enumerate(ps):
            v = args[i] if i < len(args) else None
            if v is None:
                av.append(None)
            elif "istream" in str(ty):
                av.append(STREAM)
            elif "Serializer" in str(ty):
                av.append(("arg", "e"))
            else:
                av.append(v if isint(v) or v[0] == "str" else None)
        if r[2] == VAGUE and not (r[3] or r[4]):
            a = VAGUE
            facts = frozenset((c, b) for c, b in st.facts.items() if contains(c, VAGUE) and all(t == VAGUE or not (t and t[0] in ("t", "old", "w", "init", "arg")) for t in subterms(c)))
        entry = ((a, r[3], r[4]), facts, cells, tuple(av))
        k = (func.mangled, entry)
        if k in self.summaries:
            return self.summaries[k]
        rule = type(self)(self.prog, self.summaries, self.stack + (func,) + tuple(f.func for f in st.frames))
        rule.entry, rule.outcomes = entry, set()
        J = Interp(self.prog, rule, budget=400000)
        J.run(func, args=av, ts=(), setup=rule.setup)
        I.functions |= J.functions
        self.counts["steps"] += J.steps + rule.counts["steps"]
        I.sites += J.sites
        for x, v in J.violations.items():
            I.violations.setdefault(x, v)
        for n in ("arrivals", "ops"):
            self.counts[n] += rule.counts[n]
        self.counts["loops"] |= rule.counts["loops"]
        self.summaries[k] = sorted(self.collapse(rule.outcomes), key=repr)
        return self.summaries[k]

    def collapse(self, outs):
        """many ways out: keep what they have in common (the next character is then of no known provenance: branches on it are undecided)"""
        if len(outs) <= 12:
            return outs
        groups = {}
        for o in outs:
            a, facts, eof, fail, moved, undecided, val, cells = o
            groups.setdefault((a, eof, fail, moved, undecided, val), []).append(o)
        res = set()
        for (a, eof, fail, moved, undecided, val), os in groups.items():
            if len(os) == 1:
                res.add(os[0])
                continue
            facts = frozenset.intersection(*[o[1] for o in os])
            cells = frozenset.intersection(*[o[7] for o in os])
            if len({o[1] for o in os}) > 1:
                if moved:
                    a = ("vague",)
                else:
                    undecided = True
            res.add((a, facts, eof, fail, moved, undecided, val, cells))
        return res

    def apply(self, I, st, func, args, tag, lhs):
        out = []
        la = ("t", 0, "la", STREAM)
        for a, facts, eof, fail, moved, undecided, val, cells in self.summary(I, st, func, args):
            s = st.copy()
            if moved:
                self.advance(I, s, STREAM, tag)
            r = self.rec(s, STREAM)
            if a == ("vague",):
                a = VAGUE
                I.retire(s, a)
                s.facts = {c: b for c, b in s.facts.items() if not contains(c, ("old", a))}
                self.put(s, r[:2] + (a,) + r[3:])
                r = self.rec(s, STREAM)
            cur = r[2]
            if isint(a) and not isint(cur) and not (eof or fail):
                ok = I.assume(s, mkcmp("==", cur, a), True, None)
                if not ok:
                    continue
                s = ok[0]
            r = self.rec(s, STREAM)
            self.put(s, (STREAM, r[1], a if isint(a) else r[2], eof, fail))
            if not isint(a) and not isint(r[2]):
                for c, b in facts:
                    s.facts[subst(c, la, r[2])] = b
            if undecided:
                self.opened(s)
            for l, v in cells:
                s.mem[l] = v
            for x in args:
                if x[0] == "addr" and x[1][0][0] == "var":
                    if not self.is_stream(s, x):
                        I.havoc(s, x[1], I.fresh(s, ("out", skey(x)) + tag))
            out.append((s, None if lhs is None else val if val is not None else I.fresh(s, ("ret",) + tag)))
        return out

    def inline(self, I, st, func):
        return leaf(func) or self.own(st, func)

    def own(self, st, func):
        """functions reading a stream made here are followed into; those reading the parser's stream are summarised"""
        return given(func) and any(r[0] != STREAM for r in st.ts[0])

    # ---- stream records
    def rec(self, st, sid):
        for r in st.ts[0]:
            if r[0] == sid:
                return r
        r = (sid, ("pos0", sid), ("t", 0, "la", sid), 0, 0)
        st.ts = (tuple(sorted(st.ts[0] + (r,), key=lambda x: skey(x[0]))),) + st.ts[1:]
        return r

    def put(self, st, r):
        st.ts = (tuple(r if x[0] == r[0] else x for x in st.ts[0]),) + st.ts[1:]

    def sid(self, v):
        if v[0] == "addr":
            v = v[1][0]
        if v in self.locals:
            return STREAM
        if v[0] == "lin":
            for t, _ in v[1]:
                if t[0] in ("addr", "arg", "sym", "var"):
                    return self.sid(t)
            return self.sid(v[1][0][0])
        return v

    def opened(self, st):
        if any(not s[3] for s in st.ts[2]):
            st.ts = (st.ts[0], st.ts[1], tuple((c, b, k, True, p) for c, b, k, _, p in st.ts[2]))

    def advance(self, I, st, sid, tag):
        """the read position moves on: nothing is known of what comes next"""
        pos, la = ("t", 0, "pos", sid), ("t", 0, "la", sid)
        I.retire(st, pos)
        I.retire(st, la)
        # of an older generation nothing needs to be remembered
        old = ("old", la)
        st.facts = {c: b for c, b in st.facts.items() if not contains(c, old)}
        self.rec(st, sid)
        self.put(st, (sid, pos, la, 0, 0))
        return la

    def look(self, I, st, sid):
        """[(state, lookahead or None at the end)] with both cases apart"""
        r = self.rec(st, sid)
        la = r[2]
        if isint(la):
            return [(st, None if la == MINUS1 else la)]
        out = []
        s2 = st.copy()
        for s in I.assume(s2, mkcmp("==", la, MINUS1), True, None):
            self.put(s, self.rec(s, sid)[:2] + (MINUS1,) + self.rec(s, sid)[3:])
            out.append((s, None))
        for s in I.assume(st, mkcmp("==", la, MINUS1), False, None):
            for lo in I.assume(s, mkcmp("<", la, ZERO), False, None):
                for x in I.assume(lo, mkcmp("<", la, mkint(256)), True, None):
                    out.append((x, la))
        return out

    def bits(self, st, sid, eof=None, fail=None):
        r = self.rec(st, sid)
        self.put(st, r[:3] + (r[3] if eof is None else eof, r[4] if fail is None else fail))

    def peek(self, I, st, sid):
        r = self.rec(st, sid)
        if r[3] or r[4]:
            self.bits(st, sid, fail=1)
            return [(st, MINUS1)]
        out = []
        for s, c in self.look(I, st, sid):
            if c is None:
                self.bits(s, sid, eof=1)
                out.append((s, MINUS1))
            else:
                out.append((s, c))
        return out

    def get(self, I, st, sid, tag):
        r = self.rec(st, sid)
        if r[3] or r[4]:
            self.bits(st, sid, fail=1)
            return [(st, MINUS1)]
        out = []
        for s, c in self.look(I, st, sid):
            if c is None:
                self.bits(s, sid, eof=1, fail=1)
                out.append((s, MINUS1))
            else:
                ch = c
                if not isint(c):
                    ch = I.fresh(s, ("ch", sid) + tag)
                    if not s.substitute(c, ch):
                        continue
                    s.ts = I.rename_ts(s.ts, c, ch)
                self.advance(I, s, sid, tag)
                out.append((s, ch))
        return out

    def some(self, I, st, sid, tag, unread=True, ends=True, fails=True, undecided=False):
        """an operation that reads an unknown amount"""
        out = []
        if undecided:
            self.opened(st)
        if unread:
            out.append(st.copy())
        s = st.copy()
        self.advance(I, s, sid, tag)
        out.append(s)
        if ends:
            s = st.copy()
            self.advance(I, s, sid, tag)
            r = self.rec(s, sid)
            self.put(s, r[:2] + (MINUS1, 1, 0))
            out.append(s)
        if fails:
            s = st.copy()
            self.advance(I, s, sid, tag)
            self.bits(s, sid, fail=1)
            out.append(s)
        return out

    # ---- memory
    def load(self, I, st, loc, site):
        p = loc[1]
        if not p:
            b = loc[0]
            if b[0] == "str":
                b = ("lin", ((b, 1),), 0)
            if b[0] == "lin" and len(b[1]) == 1 and b[1][0][0][0] == "str" and b[1][0][1] == 1:
                txt = b[1][0][0][1].encode("latin-1", "replace").decode("unicode_escape") + "\0"
                if 0 <= b[2] < len(txt):
                    return mkint(ord(txt[b[2]]) if ord(txt[b[2]]) < 128 else ord(txt[b[2]]) - 256)
        if p and isinstance(p[-1], str) and p[-1].startswith("_vptr.basic_i"):
            return ("sym", "vtable")
        if contains(loc[0], ("sym", "vtable")):
            return ZERO
        if p and p[-1] == "in" and loc[0][0] != "var":
            return STREAM
        if p == ("out",) and loc[0] == ("arg", "e"):
            return ZERO     # parsing, not writing
        return None

    def distinct(self, a, b):
        return True if (a == STREAM and b == ZERO) or (b == STREAM and a == ZERO) else False

    # ---- calls
    def call(self, I, st, name, func, args, site, lhs):
        tag = (name, site.loc or "", site.text)
        if name in CLASS:
            v = args[0]
            if isint(v):
                return [(st, mkint(int(v[1] >= 0 and CLASS[name](v[1]))))]
            return [(st, ("op", name, v))]
        if FPOS_C.match(name):
            I.rawstore(st, I.ptr_loc(args[0]), args[1])
            return [(st, None)]
        if name == FPOS_V:
            return [(st, I.rawload(st, I.ptr_loc(args[0])))]
        if name.startswith(IOS):
            k = name[len(IOS):]
            sid = self.sid(args[0])
            r = self.rec(st, sid)
            if k == "ntEv" or k == "4failEv":
                return [(st, mkint(r[4]))]
            if k == "cvbEv":
                return [(st, mkint(1 - r[4]))]
            if k == "4eofEv":
                return [(st, mkint(r[3]))]
            if k == "4goodEv":
                return [(st, mkint(int(not (r[3] or r[4]))))]
            if k == "3badEv":
                return [(st, ZERO)]
        if name.startswith("_ZNSt9basic_iosIcSt11char_traitsIcEE5clearE"):
            sid = self.sid(args[0])
            self.bits(st, sid, eof=0, fail=0)
            self.opened(st)
            return [(st, None)]
        if name.startswith("_ZNSt9basic_iosIcSt11char_traitsIcEE8setstateE"):
            self.bits(st, self.sid(args[0]), fail=1)
            return [(st, None)]
        if name.startswith(I_) and args:
            k = name[len(I_):]
            sid = self.sid(args[0])
            if k[:2] in ("C1", "C2", "D0", "D1", "D2"):
                return None
            self.counts["ops"] += 1
            r = self.rec(st, sid)
            good = not (r[3] or r[4])
            if k == "4peekEv":
                return self.peek(I, st, sid)
            if k == "3getEv":
                return self.get(I, st, sid, tag)
            if k == "3getERc":
                out = []
                for s, v in self.get(I, st, sid, tag):
                    if v != MINUS1:
                        I.rawstore(s, I.ptr_loc(args[1]), v)
                    out.append((s, args[0]))
                return out
            if k == "5tellgEv":
                if not good:
                    self.bits(st, sid, fail=1)
                    return [(st, MINUS1)]
                if any(p == r[1] for p, _ in st.ts[1]):
                    return [(st, r[1])]
                # told positions get names of their own: they can be returned to
                pos = I.fresh(st, ("told",) + tag)
                st.ts = I.rename_ts(st.ts, r[1], pos)
                la = r[2]
                if not isint(la):
                    la = I.fresh(st, ("la",) + tag)
                    st.substitute(r[2], la)
                    st.ts = I.rename_ts(st.ts, r[2], la)
                st.ts = (st.ts[0], tuple(sorted(set(st.ts[1]) | {(pos, la)}, key=skey)), st.ts[2])
                return [(st, pos)]
            if k.startswith("5seekgESt4fpos"):
                if r[4] or args[1] == MINUS1:
                    self.bits(st, sid, eof=0, fail=1)
                    return [(st, args[0])]
                for p, la in st.ts[1]:
                    if p == args[1] and p[0] != "old":
                        self.put(st, (sid, p, la, 0, 0))
                        return [(st, args[0])]
                return [(s, args[0]) for s in self.some(I, st, sid, tag, undecided=True)]
            if k.startswith("4readE"):
                n = args[2]
                if n == ZERO:
                    return [(st, args[0])]
                if not good:
                    self.bits(st, sid, fail=1)
                    return [(st, args[0])]
                b = self.sid(args[1])
                loc = I.ptr_loc(args[1])
                out = []
                for s in self.some(I, st, sid, tag, unread=not isint(n), ends=False):
                    r2 = self.rec(s, sid)
                    if r2[4]:
                        self.put(s, r2[:2] + (MINUS1, 1, 1))
                    if loc[0][0] == "var":
                        I.havoc(s, loc, I.fresh(s, ("out",) + tag))
                    out.append((s, args[0]))
                return out
            if k.startswith("rsE") or k.startswith("7getlineE") or k.startswith("10_M_extract"):
                return self.extract(I, st, sid, tag, args, good)
            if k.startswith("6ignoreE"):
                if not good:
                    self.bits(st, sid, fail=1)
                    return [(st, args[0])]
                return [(s, args[0]) for s in self.some(I, st, sid, tag, fails=False, unread=False)] + self.endof(I, st, sid, args[0])
            return [(s, args[0]) for s in self.some(I, st, sid, tag, undecided=True)]
        if (name.startswith("_ZStrsI") or name.startswith("_ZSt7getlineI") or name.startswith("_ZSt2wsI")) and args:
            sid = self.sid(args[0])
            r = self.rec(st, sid)
            return self.extract(I, st, sid, tag, args, not (r[3] or r[4]), ws=name.startswith("_ZSt2ws"))
        if name.startswith("_ZNSt7__cxx1119basic_istringstream") or name.startswith("_ZNSt14basic_ifstream") or name.startswith("_ZNSt7__cxx1118basic_stringstream"):
            if args and args[0][0] == "addr" and args[0][1][0][0] == "var" and CTOR.search(name) and len(st.frames) == 1 and not given(st.frames[0].func):
                self.locals.add(args[0][1][0])
                st.ts = (((STREAM, ("pos0",), ("t", 0, "la", STREAM), 0, 0),), (), st.ts[2])
            return [(st, None)]
        if func is not None and leaf(func):
            return None
        if self.touches(st, args) or func is not None and "lambda" in func.name:
            if func is not None and given(func) and func not in self.stack and not any(f.func is func for f in st.frames):
                if self.only(st, args) == STREAM:
                    return self.apply(I, st, func, args, tag, lhs)
                return None
            return [(s, I.fresh(s, ("ret",) + tag) if lhs is not None else None) for s in self.some(I, st, self.only(st, args), tag, undecided=True)]
        return None

    def endof(self, I, st, sid, v):
        out = []
        for s, c in self.look(I, st.copy(), sid):
            if c is None:
                self.bits(s, sid, eof=1)
                out.append((s, v))
        return out

    def extract(self, I, st, sid, tag, args, good, ws=False):
        if not good:
            self.bits(st, sid, fail=1)
            return [(st, args[0])]
        out = []
        for s in self.some(I, st, sid, tag, unread=ws, fails=not ws):
            for a in args[1:]:
                if a[0] == "addr" and a[1][0][0] == "var":
                    I.havoc(s, a[1], I.fresh(s, ("out",) + tag))
            out.append((s, args[0]))
        s = st.copy()
        self.bits(s, sid, fail=1)
        out.append((s, args[0]))
        return out + self.endof(I, st, sid, args[0])

    def touches(self, st, args):
        return any(self.is_stream(st, a) for a in args)

    def is_stream(self, st, a):
        if a == STREAM or a == ("arg", "e"):
            return True
        s = self.sid(a)
        if any(r[0] == s for r in st.ts[0]):
            return True
        return (s, ("in",)) in st.mem or s[0] == "ser"

    def only(self, st, args):
        for a in args:
            s = self.sid(a)
            if any(r[0] == s for r in st.ts[0]):
                return s
        return STREAM

    # ---- conditions
    def cond(self, I, st, c):
        if isint(c) or I.truth(st, c) is not None:
            return
        las = {r[2] for r in st.ts[0]}
        for t in subterms(c):
            # (characters are decided by the input and the position: the same again from the same position)
            if t and t[0] in ("t", "w", "old", "mix", "undef", "out") and (t == VAGUE or t not in las and not (t[0] == "t" and t[2] in ("la", "ch"))):
                self.undecided(st, I.curblk)
                return

    def on_switch(self, I, st, v):
        if not isint(v):
            self.cond(I, st, mkcmp("==", v, mkint(-12345)))

    def undecided(self, st, bb):
        """a branch on something unknown: the loops whose course it can change are no longer certain to repeat"""
        fr = st.frames[-1]
        local = self.branch(fr.func, bb)
        if local is None:
            self.opened(st)
        elif local:
            if any(not s[3] and s[0] == fr.ctx and s[1] in local for s in st.ts[2]):
                st.ts = (st.ts[0], st.ts[1], tuple((c, b, k, o or (c == fr.ctx and b in local), p) for c, b, k, o, p in st.ts[2]))

    def branch(self, f, bb):
        """None: the branch can matter to any loop; otherwise the loop heads of f it matters to"""
        k = (f.mangled, bb)
        if k in self.br:
            return self.br[k]
        self.br[k] = r = self.branch1(f, bb)
        return r

    def branch1(self, f, bb):
        pd = self.postdom(f)
        ps = pd[bb] - {bb}
        p = None
        for x in ps:
            if all(y in pd[x] for y in ps):
                p = x
        if p is None:
            return None
        region, work = set(), [x for x in f.blocks[bb].succ if x != p]
        while work:
            x = work.pop()
            if x not in region:
                region.add(x)
                work += [y for y in f.blocks[x].succ if y != p]
        defs = {d for d, _ in f.blocks[p].phis}
        used = set(defs)
        for x in region:
            b = f.blocks[x]
            defs |= {d for d, _ in b.phis}
            for s in b.stmts:
                if s.kind == "call":
                    func = self.prog.funcs.get(s.a[1])
                    if s.a[1].startswith((I_, "_ZStrsI", "_ZSt7getlineI")) or (func is not None and streamy(func)) or s.a[1][0] == "_" and s.a[1][1:].isdigit():
                        return None
                elif s.kind not in ("assign", "nop", "label"):
                    return None
                if s.kind == "assign" and not (s.a[0] and s.a[0][0] == "ssa"):
                    return None
                if s.a and s.a[0] and s.a[0][0] == "ssa":
                    defs.add(s.a[0][1])
                elif s.kind == "call" and s.a[0] is not None:
                    return None
            if b.term is not None and b.term.kind == "return":
                return None
        for b in f.blocks.values():
            if b.id in region:
                continue
            for d, argm in b.phis:
                used |= {e[1] for e in argm.values() if e and e[0] == "ssa"}
            for s in b.stmts + ([b.term] if b.term is not None else []):
                used |= set(NAMES.findall(s.text))
        if defs & used & self.relevant(f):
            return None
        return {h for h in f.loopheads if bb in f.loopbody[h] and (h in region or p not in f.loopbody[h])}

    def postdom(self, f):
        r = self.pd.get(f.mangled)
        if r is None:
            al = set(f.blocks)
            r = {b: set(al) if f.blocks[b].succ else {b} for b in al}
            ch = True
            while ch:
                ch = False
                for b in al:
                    ss = f.blocks[b].succ
                    if ss:
                        n = set.intersection(*[r[x] for x in ss]) | {b}
                        if n != r[b]:
                            r[b] = n
                            ch = True
            self.pd[f.mangled] = r
        return r

    def assume(self, I, st, c, truth, site):
        # character classes agree with the character
        if c[0] == "cmp" and c[1] == "==" and truth and isint(c[3]) and not isint(c[2]):
            for n, f in CLASS.items():
                t = mkcmp("==", ("op", n, c[2]), ZERO)
                b = st.facts.get(t)
                if b is not None and b == (c[3][1] >= 0 and f(c[3][1])):
                    return False
        return True

    # ---- loops
    def relevant(self, f):
        """the local values a function's conditions depend on"""
        r = self.rel.get(f.mangled)
        if r is None:
            use = {}
            r = set()
            work = []
            for b in f.blocks.values():
                for d, argm in b.phis:
                    use.setdefault(d, []).extend(e[1] for e in argm.values() if e and e[0] == "ssa")
                for s in b.stmts:
                    ids = NAMES.findall(s.text)
                    if s.kind == "assign" and s.a[0] and s.a[0][0] == "ssa":
                        use.setdefault(s.a[0][1], []).extend(ids)
                    elif s.kind == "call":
                        func = self.prog.funcs.get(s.a[1])
                        if func is None and not s.a[1].startswith("_ZNS") or func is not None and streamy(func):
                            work += ids
                        if s.a[0] and s.a[0][0] == "ssa":
                            use.setdefault(s.a[0][1], []).extend(ids)
                    else:
                        work += ids
                t = b.term
                if t is not None:
                    work += NAMES.findall(t.text)
            while work:
                x = work.pop()
                if x not in r:
                    r.add(x)
                    work += use.get(x, [])
            self.rel[f.mangled] = r
        return r

    def image(self, st):
        fr = []
        for i, f in enumerate(st.frames):
            rel = self.relevant(f.func)
            fr.append((f.ctx, frozenset((k, v) for k, v in f.env.items() if k in rel)))
        return (tuple(fr), frozenset(st.mem.items()), frozenset(st.facts.items()), frozenset(st.eqs.items()), st.ts[0])

    def loophead(self, I, st, node, back, site):
        fr = st.frames[-1]
        ctx, bb = fr.ctx, node[1]
        live = {f.ctx: f.func for f in st.frames}
        snaps = {(c, b): (k, o, p) for c, b, k, o, p in st.ts[2] if c in live and b != CALL}
        pos = tuple(r[1] for r in st.ts[0])
        img = hash(self.image(st))
        self.counts["loops"].add((fr.func.name, bb))
        self.counts["arrivals"] += 1
        old = snaps.get((ctx, bb))
        if back and old and old[0] == img and not old[1] and old[2] == pos:
            f = fr.func
            t = f.blocks[bb].term
            s = (f.blocks[bb].stmts or [t])[0]
            st0 = I.site(st, s)
            r = st.ts[0]
            I.report(st, st0, "a run of this loop leaves the stream where it was, and nothing its conditions depend on changed: it never ends (%s)" % self.describe(st))
        # loops this one is nested in keep their own; the ones inside start again
        snaps = {k: v for k, v in snaps.items() if k[0] != ctx or k[1] == bb or bb in fr.func.loopbody[k[1]]}
        snaps[(ctx, bb)] = (img, False, pos)
        st.ts = (st.ts[0], st.ts[1], tuple(x for x in st.ts[2] if x[1] == CALL) + tuple(sorted(((c, b, k, o, p) for (c, b), (k, o, p) in snaps.items()), key=lambda x: x[:2])))

    def describe(self, st):
        out = []
        for r in st.ts[0]:
            la = "the end of input" if r[2] == MINUS1 else "character %d" % r[2][1] if isint(r[2]) else "some character"
            out.append("at %s%s%s" % (la, ", end of file seen" if r[3] else "", ", stream failed" if r[4] else ""))
        return "; ".join(out[:2])

    def mergekey(self, st):
        # forget what no longer matters: loops left, positions and values nothing refers to
        live = {f.ctx: f for f in st.frames}
        top = st.frames[-1]
        at = self.at
        snaps = tuple(s for s in st.ts[2] if s[0] in live and (s[1] == CALL or s[0] != top.ctx or at[0] != top.ctx or at[1] in top.func.loopbody[s[1]]))
        seen = set()
        for f in st.frames:
            for v in f.env.values():
                seen |= subterms(v)
        for v in st.mem.values():
            seen |= subterms(v)
        saved = tuple(x for x in st.ts[1] if x[0] in seen)
        if len(saved) != len(st.ts[1]) or len(snaps) != len(st.ts[2]):
            st.ts = (st.ts[0], saved, snaps)
        told = {p for p, _ in saved}
        for r in st.ts[0]:
            if len(r[1]) > 2 and r[1][0] == "t" and r[1][2] == "told" and r[1] not in told:
                g, l = ("t", 0, "pos", r[0]), ("t", 0, "la", r[0])
                if not tscontains(st.ts, g):
                    st.ts = ren(st.ts, r[1], g)
                    if not isint(r[2]) and r[2] != l and not tscontains(st.ts, l) and not any(contains(c, l) for c in st.facts) and l not in seen:
                        st.substitute(r[2], l)
                        st.ts = ren(st.ts, r[2], l)
        las = {r[2] for r in st.ts[0]} | {l for _, l in st.ts[1]}
        for c in list(st.facts):
            sub = subterms(c)
            if any(l in sub and not isint(l) for l in las):
                continue
            if not any(t and t[0] in ("t", "old", "w", "init", "arg", "sym", "undef") for t in sub):
                del st.facts[c]
                continue
            if any(t and t[0] in ("t", "old", "w", "init") and t not in seen and not (t[0] == "init" and has_arg(t)) for t in sub):
                del st.facts[c]
        return (st.ts[0], st.ts[1], tuple(s[3] for s in st.ts[2]), frozenset((c, b) for c, b in st.facts.items() if any(contains(c, l) for l in las if not isint(l))))

    def widen_ts(self, old, new):
        a = set(old[2])
        return (new[0], new[1], tuple(s for s in new[2] if s in a))

    def exit(self, I, st, val, site):
        self.counts["exits"] += 1
        if self.outcomes is not None:
            r = self.rec(st, STREAM)
            base = [x for x in st.ts[2] if x[1] == CALL]
            la = ("t", 0, "la", STREAM)
            facts = frozenset()
            if not isint(r[2]):
                facts = frozenset((subst(c, r[2], la), b) for c, b in st.facts.items() if contains(c, r[2])
                                  and all(t == r[2] or not (t and t[0] in ("t", "old", "w", "init", "arg")) for t in subterms(c)))
            cells = frozenset((l, v) for l, v in st.mem.items() if l[0] == ("arg", "e") and isint(v))
            self.outcomes.add((r[2] if isint(r[2]) else ("vague",) if r[2] == VAGUE and base[0][4] != (r[1],) else la, facts, r[3], r[4], base[0][4] != (r[1],), base[0][3], val if val is not None and isint(val) else None, cells))
