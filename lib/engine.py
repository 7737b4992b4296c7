"""Disjunctive abstract interpretation of GIMPLE SSA (see gimple.py).

A set of abstract states is propagated over the interprocedural control-flow graph (callees are
entered at the call, so code moved into a helper is analysed exactly like code written in place)
until a fixpoint is reached.  A state holds value names (tokens), a memory of access paths, branch
facts and the typestate of the rule.  At loop heads and at joins with too many states, states with
the same typestate are joined: whatever differs becomes a token.  No code is run and no solver is
used: conditions are decided only by constant folding and by looking up facts.
"""
import heapq
import re
import sys
from math import gcd
from gimple import analyse_cfg, AnalysisBroken, Stmt, parse_operand, NORETURN

sys.setrecursionlimit(20000)

ZERO = ("int", 0)
ONE = ("int", 1)


SHIFT_IS_MUL = False


def mkint(n):
    return ("int", n)


def isint(v):
    return v[0] == "int"


# ---------------------------------------------------------------- values
def _lin(v):
    """-> (dict term->coef, const)"""
    if v[0] == "int":
        return {}, v[1]
    if v[0] == "lin":
        return dict(v[1]), v[2]
    return {v: 1}, 0


_sk = {}


def skey(v):
    k = _sk.get(v)
    if k is None:
        k = repr(v)
        if len(_sk) > 400000:
            _sk.clear()
        _sk[v] = k
    return k


def _unlin(d, k):
    d = {t: c for t, c in d.items() if c}
    if not d:
        return ("int", k)
    if k == 0 and len(d) == 1:
        (t, c), = d.items()
        if c == 1:
            return t
    return ("lin", tuple(sorted(d.items(), key=lambda x: skey(x[0]))), k)


def lin_add(a, b, sign=1):
    da, ka = _lin(a)
    db, kb = _lin(b)
    for t, c in db.items():
        da[t] = da.get(t, 0) + sign * c
    return _unlin(da, ka + sign * kb)


def lin_scale(a, n):
    d, k = _lin(a)
    return _unlin({t: c * n for t, c in d.items()}, k * n)


def depth(v):
    if not isinstance(v, tuple):
        return 0
    m = 0
    for x in v[1:]:
        if isinstance(x, tuple):
            m = max(m, depth(x))
    return m + 1


CMPS = ("==", "!=", "<", "<=", ">", ">=")
NARROW = {"char": 8, "signed int": 32, "signed short": 16, "unsigned short": 16, "short": 16, "wchar_t": 32, "char16_t": 16, "char32_t": 32, "signed char": 8, "unsigned char": 8, "short int": 16, "short unsigned int": 16, "int": 32,
          "unsigned int": 32, "uint8_t": 8, "int8_t": 8, "uint16_t": 16, "int16_t": 16, "uint32_t": 32, "int32_t": 32}


WIDE = {"long int": 64, "signed long": 64, "unsigned long": 64, "long": 64, "sizetype": 64, "long unsigned int": 64, "size_t": 64, "ssize_t": 64, "int64_t": 64, "uint64_t": 64, "long long int": 64,
        "long long unsigned int": 64}


def mkop(op, args):
    """normalising term constructor"""
    if op == "+":
        a, b = args
        if isint(b) and b[1] >= 1 << 63:
            b = ("int", b[1] - (1 << 64))
        return lin_add(a, b)
    if op == "-":
        return lin_add(args[0], args[1], -1)
    if op == "neg":
        return lin_scale(args[0], -1)
    if op == "*":
        a, b = args
        if isint(a):
            a, b = b, a
        if isint(b):
            return lin_scale(a, b[1])
        return ("op", "*") + tuple(sorted(args, key=skey))
    if op in CMPS:
        return mkcmp(op, args[0], args[1])
    if all(isint(x) for x in args):
        v = [x[1] for x in args]
        try:
            if op == "&":
                return mkint(v[0] & v[1])
            if op == "|":
                return mkint(v[0] | v[1])
            if op == "^":
                return mkint(v[0] ^ v[1])
            if op == "<<" and 0 <= v[1] < 128:
                return mkint(v[0] << v[1])
            if op == ">>" and 0 <= v[1] < 128:
                return mkint(v[0] >> v[1])
            if op == "/" and v[1]:
                q = abs(v[0]) // abs(v[1])
                return mkint(q if (v[0] < 0) == (v[1] < 0) else -q)
            if op == "%" and v[1]:
                r = abs(v[0]) % abs(v[1])
                return mkint(-r if v[0] < 0 else r)
            if op == "~":
                return mkint(~v[0])
            if op == "!":
                return mkint(int(not v[0]))
            if op == "MIN_EXPR":
                return mkint(min(v))
            if op == "MAX_EXPR":
                return mkint(max(v))
        except Exception:
            pass
    if op in ("/", "/[ex]") and isint(args[1]) and args[1][1] > 0 and args[0][0] == "lin":
        n = args[1][1]
        if all(c % n == 0 for _, c in args[0][1]) and args[0][2] % n == 0:
            d, k = _lin(args[0])
            return _unlin({t: c // n for t, c in d.items()}, k // n)
    if op == "<<" and isint(args[1]) and 0 <= args[1][1] < 32 and args[0][0] in ("lin", "init", "arg", "w"):
        return lin_scale(args[0], 1 << args[1][1]) if SHIFT_IS_MUL else ("op", op) + tuple(args)
    if op == "!":
        return mkcmp("==", args[0], ZERO)
    if op in ("&", "|", "^") and len(args) == 2:
        a, b = args
        # boolean connectives over comparisons
        if isint(a):
            a, b = b, a
        if isint(b):
            if op == "&":
                if b[1] == 0:
                    return ZERO
                if b[1] == -1:
                    return a
                if a[0] in ("cmp", "not") and b[1] == 1:
                    return a
            if op in ("|", "^") and b[1] == 0:
                return a
        if a == b and op in ("&", "|"):
            return a
        if op == "^" and a == b:
            return ZERO
        if op in ("&", "|") and a[0] in ("cmp", "and", "or", "not") and b[0] in ("cmp", "and", "or", "not"):
            return ("and" if op == "&" else "or", a, b)
        args = tuple(sorted((a, b), key=skey))
    return ("op", op) + tuple(args)


def mknot(c):
    if isint(c):
        return mkint(int(not c[1]))
    if c[0] == "not":
        return c[1]
    if c[0] == "and":
        return ("or", mknot(c[1]), mknot(c[2]))
    if c[0] == "or":
        return ("and", mknot(c[1]), mknot(c[2]))
    if c[0] in ("cmp",):
        return ("not", c)
    return mkcmp("==", c, ZERO)


def mkcmp(op, a, b):
    """canonical comparison: ('cmp','==',x,y) or ('cmp','<',x,y), possibly under 'not'"""
    if op == "!=":
        return mknot(mkcmp("==", a, b))
    if op == ">":
        return mkcmp("<", b, a)
    if op == "<=":
        return mknot(mkcmp("<", b, a))
    if op == ">=":
        return mknot(mkcmp("<", a, b))
    if op == "==":
        for x, y in ((a, b), (b, a)):
            if isint(y) and x[0] in ("cmp", "not", "and", "or"):
                if y[1] == 0:
                    return mknot(x)
                if y[1] == 1:
                    return x
                return ZERO
    d = lin_add(a, b, -1)
    if isint(d):
        return mkint(int(d[1] == 0 if op == "==" else d[1] < 0))
    if op == "==":
        # distinct named objects never compare equal
        if a[0] == "addr" and b[0] == "addr" and a[1][0] != b[1][0] and a[1][0][0] in ("var", "g") and b[1][0][0] in ("var", "g"):
            return ZERO
        if (a[0] == "addr" and a[1][0][0] in ("var", "g") and b == ZERO) or (b[0] == "addr" and b[1][0][0] in ("var", "g") and a == ZERO):
            return ZERO
        if a[0] == "addr" and b == ZERO and a[1][1]:
            return ZERO
        if skey(b) < skey(a):
            a, b = b, a
        if isint(a):
            a, b = b, a
    return ("cmp", op, a, b)


def subst(v, old, new):
    if v == old:
        return new
    if not isinstance(v, tuple) or not v:
        return v
    h = v[0]
    if h in ("int", "str", "flt", "old"):
        return v
    if h == "lin":
        out = ("int", v[2])
        ch = False
        for t, c in v[1]:
            t2 = subst(t, old, new)
            ch = ch or t2 is not t
            out = lin_add(out, lin_scale(t2, c))
        return out if ch else v
    r = tuple(subst(x, old, new) if isinstance(x, tuple) else x for x in v)
    if all(x is y for x, y in zip(r, v)):
        return v
    if h == "cmp":
        return mkcmp(v[1], r[2], r[3])
    if h == "not":
        return mknot(r[1])
    if h in ("and", "or"):
        return mklogic(h, r[1], r[2])
    if h == "op":
        return mkop(v[1], r[2:])
    if h == "sel":
        return mksel(r[1], r[2])
    if h == "addr":
        # base became an address: flatten
        return mkaddr(r[1])
    if h == "init":
        return mkinit_loc(r[1])
    return r


def mklogic(h, a, b):
    if isint(a):
        if h == "and":
            return b if a[1] else ZERO
        return ONE if a[1] else b
    if isint(b):
        return mklogic(h, b, a)
    return (h, a, b)


def norm_loc(loc):
    base, path = loc
    if base[0] == "addr":
        b2, p2 = base[1]
        return (b2, p2 + path)
    return loc


def mkaddr(loc):
    loc = norm_loc(loc)
    if loc[1] == () and loc[0][0] not in ("var", "g"):
        return loc[0]
    return ("addr", loc)


def mkinit_loc(loc):
    return ("init", norm_loc(loc))


def mksel(v, path):
    if not path:
        return v
    if isint(v):
        return v if v[1] == 0 else ("sel", v, path)
    if v[0] == "init":
        return ("init", (v[1][0], v[1][1] + path))
    if v[0] == "sel":
        return ("sel", v[1], v[2] + path)
    if v[0] == "pack":
        best = None
        for p, x in v[1]:
            if p == path:
                # may still have deeper cells
                deeper = [(q, y) for q, y in v[1] if len(q) > len(p) and q[:len(p)] == p]
                if deeper:
                    return ("pack", tuple((q[len(p):], y) for q, y in deeper), x)
                return x
            if len(p) < len(path) and path[:len(p)] == p:
                if best is None or len(p) > len(best[0]):
                    best = (p, x)
        deeper = [(q, y) for q, y in v[1] if len(q) > len(path) and q[:len(path)] == path]
        dflt = mksel(best[1], path[len(best[0]):]) if best else mksel(v[2], path)
        if deeper:
            return ("pack", tuple((q[len(path):], y) for q, y in deeper), dflt)
        return dflt
    return ("sel", v, path)


_sub = {}


def subterms(v):
    """all tuples inside v (v included); what lies under an 'old' marker is not visible"""
    r = _sub.get(v)
    if r is None:
        acc = {v}
        if not (v and v[0] == "old"):
            for x in v:
                if isinstance(x, tuple):
                    acc |= subterms(x)
                elif isinstance(x, frozenset):
                    for y in x:
                        if isinstance(y, tuple):
                            acc |= subterms(y)
        r = frozenset(acc)
        if len(_sub) > 300000:
            _sub.clear()
        _sub[v] = r
    return r


def contains(v, t):
    if v is t:
        return True
    if not isinstance(v, tuple):
        return False
    return t in subterms(v)


# ---------------------------------------------------------------- state
class Frame:
    __slots__ = ("func", "ctx", "env", "ret", "retslot", "loops")

    def __init__(self, func, ctx, env, ret, retslot=None, loops=()):
        self.func, self.ctx, self.env, self.ret, self.retslot, self.loops = func, ctx, env, ret, retslot, loops
        # ret = (bb, idx, lhs) in the caller


class State:
    __slots__ = ("frames", "mem", "facts", "eqs", "ts", "trace", "epoch")

    def copy(self):
        s = State()
        s.frames = [Frame(f.func, f.ctx, dict(f.env), f.ret, f.retslot, f.loops) for f in self.frames]
        s.mem = dict(self.mem)
        s.facts = dict(self.facts)
        s.eqs = dict(self.eqs)
        s.ts = self.ts
        s.trace = self.trace
        s.epoch = self.epoch
        return s

    def key(self):
        return (tuple((f.ctx, f.loops, frozenset(f.env.items())) for f in self.frames), frozenset(self.mem.items()),
                frozenset(self.facts.items()), frozenset(self.eqs.items()), self.ts)

    # -- substitution over everything
    def substitute(self, old, new):
        for f in self.frames:
            for k, v in f.env.items():
                f.env[k] = subst(v, old, new)
            if f.retslot is not None:
                f.retslot = subst(f.retslot, old, new)
        m2 = {}
        for loc, v in self.mem.items():
            l2 = loc
            if contains(loc, old):
                l2 = norm_loc(subst_loc(loc, old, new))
            v2 = subst(v, old, new)
            if l2 in m2 and m2[l2] != v2:
                v2 = ("mix",) + l2
            m2[l2] = v2
        self.mem = m2
        f2 = {}
        for c, b in self.facts.items():
            c2 = subst(c, old, new)
            if isint(c2):
                if bool(c2[1]) != b:
                    return False
                continue
            if c2[0] == "not":
                c2, b = c2[1], not b
            if c2[0] != "cmp":
                continue
            if f2.get(c2, b) != b:
                return False
            f2[c2] = b
        self.facts = f2
        self.eqs = {k: subst(v, old, new) for k, v in self.eqs.items()}
        return True


def subst_loc(loc, old, new):
    return (subst(loc[0], old, new), tuple(subst(p, old, new) if isinstance(p, tuple) else p for p in loc[1]))


class Site:
    __slots__ = ("func", "loc", "text", "chain")

    def __init__(self, func, loc, text, chain):
        self.func, self.loc, self.text, self.chain = func, loc, text, chain

    def __str__(self):
        return "%s in %s" % (self.loc, self.func)


class Rule:
    """Default hooks; a rule overrides what it needs."""
    max_states = 24          # per (node, merge key) before joining
    loop_exact = 2           # visits of a loop head kept apart before widening
    max_depth = 60
    loop_entries = 8         # (affine rules) ways into a loop kept apart
    alias_kill = False

    def inline(self, I, st, func):
        return True

    def call(self, I, st, name, func, args, site, lhs):
        """None: default handling.  Otherwise list of (state, value)."""
        return None

    def atomic(self, I, st, kind, loc, args, order, site):
        """None: default result.  Otherwise list of (state, value)."""
        return None

    def load(self, I, st, loc, site):
        """None: default.  Otherwise a value."""
        return None

    def store(self, I, st, loc, val, site):
        return None

    def unknown(self, I, st, name, args, site):
        pass

    def exit(self, I, st, val, site):
        pass

    def assume(self, I, st, cond, truth, site):
        return True

    def mergekey(self, st):
        return st.ts

    def loophead(self, I, st, node, back, site):
        pass

    def widen_ts(self, old, new):
        return new

    def asserts(self):
        return "assume"


class Split(Exception):
    """raised by a rule: the current statement is executed again in each of these states"""
    def __init__(self, states):
        self.states = states


class Interp:
    def __init__(self, prog, rule, budget=400000):
        self._lc = {}
        self.prog, self.rule = prog, rule
        self.budget = budget
        self.steps = 0
        self.violations = {}
        self.ctxs = {}
        self.functions = set()
        self.sites = 0
        self.notes = set()
        self.unknown_calls = {}

    # ---- reporting
    def report(self, st, site, what, key=None):
        chain = site.chain
        loc = site.loc
        k = key or (loc, what)
        if k in self.violations:
            return
        tr = []
        t = st.trace
        while t is not None and len(tr) < 200:
            tr.append(t[1])
            t = t[0]
        tr.reverse()
        self.violations[k] = {"what": what, "site": loc, "function": site.func, "statement": site.text,
                              "call_chain": chain, "path": tr[-60:]}

    def ctx(self, parent, key):
        k = (parent, key)
        c = self.ctxs.get(k)
        if c is None:
            c = len(self.ctxs) + 1
            self.ctxs[k] = c
        return c

    def site(self, st, stmt):
        chain = []
        rfn, rloc = None, None
        for f in st.frames:
            chain.append(f.func.name)
        # innermost frame located in the repository
        loc = stmt.loc
        fn = st.frames[-1].func.name
        if not (loc and "/bss-util/" in loc):
            for i in range(len(st.frames) - 1, 0, -1):
                r = st.frames[i].ret
                l = r[3] if r else None
                if l and "/bss-util/" in l:
                    loc = l
                    fn = st.frames[i - 1].func.name
                    break
        return Site(fn, loc, stmt.text, chain)

    # ---- expression evaluation
    def lval(self, st, e, site):
        """reference expr -> loc"""
        k = e[0]
        fr = st.frames[-1]
        if k == "var":
            nm = e[1]
            if nm in fr.func.types and nm not in fr.func.static_vars:
                if nm == "<retval>" and fr.retslot is not None:
                    return norm_loc((fr.retslot, ()))
                if nm in st_byref(fr.func):
                    pass
                return (("var", fr.ctx, nm), ())
            if nm.startswith("D.") or nm == "<retval>":
                return (("var", fr.ctx, nm), ())
            if nm in fr.func.static_vars:
                return (("g", fr.func.mangled + "::" + nm), ())
            return (("g", nm), ())
        if k == "ssa":
            # reference to an SSA aggregate value: pseudo location
            v = self.val(st, e, site)
            return (("ssaval", v), ())
        if k == "deref":
            p = self.val(st, e[1], site)
            if e[2]:
                p = lin_add(p, mkint(e[2]))
            return self.ptr_loc(p)
        if k == "fld":
            b, path = self.lval(st, e[1], site)
            f = e[2]
            if f.startswith("D."):
                return (b, path)
            if f in ("_M_i", "_M_b", "_M_p"):
                return (b, path)
            return (b, path + (f,))
        if k == "idx":
            b, path = self.lval(st, e[1], site)
            i = self.val(st, e[2], site)
            return (b, path + (("ix", i),))
        if k == "view":
            return self.lval(st, e[1], site)
        if k == "bits":
            b, path = self.lval(st, e[1], site)
            return (b, path + (("bits", e[2], e[3]),))
        if k == "cast":
            return self.lval(st, e[2], site)
        if k == "str":
            return (("str", e[1]), ())
        if k == "addr":
            return self.ptr_loc(self.val(st, e, site))
        return (("opq", repr(e)), ())

    def ptr_loc(self, p):
        if p[0] == "addr":
            return p[1]
        return (p, ())

    def val(self, st, e, site):
        k = e[0]
        if k == "int":
            return e
        if k in ("flt", "str"):
            return e
        if k == "ssa":
            fr = st.frames[-1]
            v = fr.env.get(e[1])
            if v is None:
                nm = e[1]
                if nm.endswith("(D)"):
                    base = nm[:-3].rsplit("_", 1)[0]
                    if fr.retslot is not None and (base in ("<retval>", "") or byref_result(fr.func, base)):
                        return fr.retslot
                    v = ("undef", fr.ctx, base)
                else:
                    v = ("undef", fr.ctx, nm)
            return v
        if k == "addr":
            if e[1][0] == "str" or (e[1][0] == "idx" and e[1][1][0] == "str" and e[1][2] == ZERO):
                return e[1] if e[1][0] == "str" else e[1][1]
            return mkaddr(self.lval(st, e[1], site))
        if k == "cast":
            v = self.val(st, e[2], site)
            return self.cast(st, e[1], v, e[2])
        if k == "op":
            if e[1] == "?:":
                c = self.truth(st, self.cond_of(self.val(st, e[2][0], site)))
                a, b = self.val(st, e[2][1], site), self.val(st, e[2][2], site)
                if c is True:
                    return a
                if c is False:
                    return b
                return ("op", "?:", self.val(st, e[2][0], site), a, b)
            av = tuple(self.val(st, x, site) for x in e[2])
            h = getattr(self.rule, "opvalue", None)
            v = h(self, st, e[1], av) if h else None
            if v is None:
                v = mkop(e[1], av)
            if depth(v) > 12:
                return ("deep", hash(v))
            return v
        if k == "zero":
            return ZERO
        if k == "clobber":
            return ("undef", 0, "clobber")
        if k in ("ctor", "opaque"):
            return ("opq", e[1])
        if k == "view" and e[1][0] in ("ssa", "int"):
            return self.val(st, e[1], site)
        # memory reference
        loc = self.lval(st, e, site)
        return self.load(st, loc, site)

    def cast(self, st, ty, v, src):
        if isint(v):
            b = NARROW.get(ty)
            if not b and getattr(self.rule, "wrap64", False):
                b = WIDE.get(ty)
            if b:
                n = v[1] & ((1 << b) - 1)
                if not ty.startswith("u") and "unsigned" not in ty and ty not in ("size_t", "sizetype", "char16_t", "char32_t") and n >= 1 << (b - 1):
                    n -= 1 << b
                return mkint(n)
            if ty in ("long unsigned int", "size_t", "sizetype", "uint64_t") and v[1] < 0:
                return v
            return v
        if v[0] in ("cmp", "not", "and", "or") and getattr(self.rule, "foldcmp", False):
            t = self.truth(st, v)
            if t is not None:
                return ONE if t else ZERO
        b = NARROW.get(ty)
        if b and v[0] not in ("cmp", "not", "and", "or") and self.rule_trunc():
            st_ty = self.expr_type(st, src)
            sb = NARROW.get(st_ty, 64) if st_ty != "bool" else 1
            if st_ty is not None and sb > b and "*" not in st_ty and not st_ty.startswith("enum"):
                return ("trunc", b, v)
        return v

    def expr_type(self, st, e):
        if e[0] in ("ssa", "var"):
            return ssa_type(st.frames[-1].func, e[1])
        if e[0] == "cast":
            return e[1]
        return None

    def rule_trunc(self):
        return getattr(self.rule, "keep_trunc", False)

    # ---- memory
    def load(self, st, loc, site):
        r = self.rule.load(self, st, loc, site)
        if r is not None:
            return r
        return self.rawload(st, loc)

    def rawload(self, st, loc):
        base, path = loc
        if base[0] == "ssaval":
            return mksel(base[1], path)
        if base[0] == "ghost":
            return st.mem.get(loc, ZERO)
        v = st.mem.get(loc)
        sub = [(l[1][len(path):], x) for l, x in st.mem.items()
               if l[0] == base and len(l[1]) > len(path) and l[1][:len(path)] == path]
        if v is None:
            for n in range(len(path) - 1, -1, -1):
                p = st.mem.get((base, path[:n]))
                if p is not None:
                    v = mksel(p, path[n:])
                    break
        if v is None:
            v = ("init", loc)
            v = st.eqs.get(v, v)
        if sub:
            return ("pack", tuple(sorted(sub, key=skey)), v)
        return v

    def store(self, st, loc, val, site, quiet=False):
        if not quiet:
            r = self.rule.store(self, st, loc, val, site)
            if r is False:
                return
        self.rawstore(st, loc, val)

    def rawstore(self, st, loc, val):
        base, path = loc
        n = len(path)
        dead = [l for l in st.mem if l[0] == base and len(l[1]) >= n and l[1][:n] == path]
        for l in dead:
            del st.mem[l]
        if self.rule.alias_kill and path:
            for l in list(st.mem):
                if l[0] != base and l[1] and l[1][-1] == path[-1] and self.mayalias(st, l[0], base):
                    if st.mem[l] != val:
                        st.mem[l] = ("alias", l, loc)
        if val[0] == "pack":
            st.mem[loc] = val[2]
            for p, x in val[1]:
                st.mem[(base, path + p)] = x
        else:
            st.mem[loc] = val

    def mayalias(self, st, a, b):
        if a == b:
            return True
        ka, kb = a[0], b[0]
        if ka in ("var", "g", "str") or kb in ("var", "g", "str"):
            return False
        if ka == "alloc" or kb == "alloc":
            return False
        c = mkcmp("==", a, b)
        t = self.truth(st, c)
        return t is not False

    def havoc(self, st, loc, tok):
        """forget everything stored below a location"""
        base, path = loc
        n = len(path)
        for l in [l for l in st.mem if l[0] == base and l[1][:n] == path]:
            del st.mem[l]
        st.mem[loc] = tok

    def fresh(self, st, site_key, kind="t"):
        tok = (kind, st.frames[-1].ctx) + site_key
        self.retire(st, tok)
        return tok

    def retire(self, st, tok):
        """an older generation of the same token becomes ('old',tok)"""
        if self.occurs(st, tok):
            old = ("old", tok)
            if self.occurs(st, old):
                # merge generations: drop all facts about the summary
                st.facts = {c: b for c, b in st.facts.items() if not contains(c, old)}
                st.eqs = {k: v for k, v in st.eqs.items() if not contains(k, old) and not contains(v, old)}
            st.substitute(tok, old)
            st.eqs = {k: v for k, v in st.eqs.items() if not contains(k, old)}
            ts = self.rename_ts(st.ts, tok, old)
            st.ts = ts

    def rename_ts(self, ts, a, b):
        if ts == a:
            return b
        if isinstance(ts, tuple):
            if ts and ts[0] == "old":
                return ts
            r = tuple(self.rename_ts(x, a, b) for x in ts)
            return ts if all(x is y for x, y in zip(r, ts)) else r
        if isinstance(ts, frozenset):
            return frozenset(self.rename_ts(x, a, b) for x in ts)
        return ts

    def occurs(self, st, tok):
        for f in st.frames:
            for v in f.env.values():
                if contains(v, tok):
                    return True
        for l, v in st.mem.items():
            if contains(v, tok) or contains(l, tok):
                return True
        for c in st.facts:
            if contains(c, tok):
                return True
        for k, v in st.eqs.items():
            if contains(k, tok) or contains(v, tok):
                return True
        return tscontains(st.ts, tok)

    # ---- conditions
    def cond_of(self, v):
        """value -> condition (truthiness)"""
        if v[0] in ("cmp", "not", "and", "or"):
            return v
        return mknot(mkcmp("==", v, ZERO))

    def truth(self, st, c):
        if isint(c):
            return bool(c[1])
        if c[0] == "not":
            t = self.truth(st, c[1])
            return None if t is None else not t
        if c[0] == "and":
            a, b = self.truth(st, c[1]), self.truth(st, c[2])
            if a is False or b is False:
                return False
            return True if a and b else None
        if c[0] == "or":
            a, b = self.truth(st, c[1]), self.truth(st, c[2])
            if a or b:
                return True
            return False if a is False and b is False else None
        if c[0] != "cmp":
            return None
        f = st.facts.get(c)
        if f is not None:
            return f
        _, op, a, b = c
        facts = st.facts
        if op == "==":
            if facts.get(("cmp", "<", a, b)) is True or facts.get(("cmp", "<", b, a)) is True:
                return False
            if a[0] == "alloc" and b == ZERO:
                return False
            if b == ZERO and a[0] == "lin" and getattr(self.rule, "nonnull", None) and self.rule.nonnull(st, a):
                return False
            r = self.distinct(st, a, b)
            if r:
                return False
            if isint(b):
                lo, hi = self.range(st, a)
                if lo is not None and b[1] < lo or hi is not None and b[1] > hi:
                    return False
        else:
            if facts.get(("cmp", "<", b, a)) is True:
                return False
            if facts.get(mkcmp("==", a, b)) is True:
                return False
            if isint(b):
                lo, hi = self.range(st, a)
                if hi is not None and hi < b[1]:
                    return True
                if lo is not None and lo >= b[1]:
                    return False
            if isint(a):
                lo, hi = self.range(st, b)
                if lo is not None and lo > a[1]:
                    return True
                if hi is not None and hi <= a[1]:
                    return False
        if getattr(self.rule, "affine", False):
            return self.lintruth(st, op, a, b)
        return None

    def lctx(self, st):
        """facts as linear expressions known to be <= 0, indexed by term and sign"""
        key = frozenset(st.facts.items())
        c = self._lc.get(key)
        if c is not None:
            return c
        if len(self._lc) > 64:
            self._lc.clear()
        c = self._lc[key] = LinCtx()
        out, ne = [], []
        for f, t in st.facts.items():
            if f[0] != "cmp":
                continue
            d = lin_add(f[2], f[3], -1)
            if f[1] == "<":
                out.append(gcdnorm(lin_add(d, ONE) if t else lin_scale(d, -1)))
            elif t:
                out.append(gcdnorm(d))
                out.append(gcdnorm(lin_scale(d, -1)))
            else:
                ne.append(d)
        for x in dict.fromkeys(out):
            c.add(x)
        for d in ne:
            for e in (d, lin_scale(d, -1)):
                if self.le0c(c, *_lin(e), 2):
                    c.add(gcdnorm(lin_add(e, ONE)))
                    c.memo.clear()
                    break
        return c

    def le0(self, st, e, depth=3):
        """e <= 0 by adding up at most `depth` known bounds"""
        if isint(e):
            return e[1] <= 0
        return self.le0c(self.lctx(st), *_lin(e), depth)

    def le0c(self, ctx, d, k, depth):
        if not d:
            return k <= 0
        g = 0
        for c in d.values():
            g = gcd(g, abs(c))
        if g > 1:
            d = {t: c // g for t, c in d.items()}
            k = -((-k) // g)
        key = (frozenset(d.items()), k, depth)
        r = ctx.memo.get(key)
        if r is None:
            r = ctx.memo[key] = self.le0d(ctx, d, k, depth)
        return r

    def le0d(self, ctx, d, k, depth):
        nn = getattr(self.rule, "nonneg", None)
        if nn and k <= 0 and all(c < 0 and nn(t) for t, c in d.items()):
            return True
        if depth <= 0:
            return False
        ax = getattr(self.rule, "axioms", None)
        ax = [_lin(x) for x in ax(d, lambda x: self.le0c(ctx, *_lin(x), min(depth - 1, 2)))] if ax else ()
        for t, c in d.items():
            # the bound must cancel a term that stands in the way
            cand = ctx.idx.get((t, c > 0), ())
            if ax:
                cand = list(cand) + [b for b in ax if b[0].get(t, 0) and (b[0][t] > 0) == (c > 0)]
            for df, kf in cand:
                if c % df[t]:
                    continue
                m = c // df[t]
                r = dict(d)
                for u, x in df.items():
                    y = r.get(u, 0) - m * x
                    if y:
                        r[u] = y
                    else:
                        r.pop(u, None)
                if len(r) <= len(d) + 1 and self.le0c(ctx, r, k - m * kf, depth - 1):
                    return True
        return False

    def lintruth(self, st, op, a, b):
        d = lin_add(a, b, -1)
        if op == "<":
            if self.le0(st, lin_add(d, ONE)):
                return True
            if self.le0(st, lin_scale(d, -1)):
                return False
            return None
        if self.le0(st, lin_add(d, ONE)) or self.le0(st, lin_add(lin_scale(d, -1), ONE)):
            return False
        if self.le0(st, d) and self.le0(st, lin_scale(d, -1)):
            return True
        return None

    def distinct(self, st, a, b):
        """values that can never be equal (fresh allocations vs. older pointers)"""
        h = getattr(self.rule, "distinct", None)
        if h:
            return h(a, b)
        for x, y in ((a, b), (b, a)):
            if x[0] == "alloc" and y[0] in ("alloc", "init", "addr", "arg") and x != y:
                return True
        return False

    def range(self, st, a):
        lo = hi = None
        if isint(a):
            return a[1], a[1]
        r = getattr(self.rule, "value_range", None)
        if r:
            lo, hi = r(a)
        for c, b in st.facts.items():
            if c[0] != "cmp" or c[1] != "<":
                continue
            if c[2] == a and isint(c[3]):
                n = c[3][1]
                if b:
                    hi = n - 1 if hi is None else min(hi, n - 1)
                else:
                    lo = n if lo is None else max(lo, n)
            elif c[3] == a and isint(c[2]):
                n = c[2][1]
                if b:
                    lo = n + 1 if lo is None else max(lo, n + 1)
                else:
                    hi = n if hi is None else min(hi, n)
        # excluded end points
        ch = True
        while ch:
            ch = False
            if lo is not None and st.facts.get(mkcmp("==", a, mkint(lo))) is False:
                lo += 1
                ch = True
            if hi is not None and st.facts.get(mkcmp("==", a, mkint(hi))) is False:
                hi -= 1
                ch = True
        return lo, hi

    def is_atom(self, v):
        return v[0] in ("init", "arg", "t", "w", "sel", "old", "undef", "alias", "ret", "cas", "ld", "sym")

    def assume(self, st, c, truth, site):
        """returns list of states (refined) - possibly empty"""
        if isint(c):
            return [st] if bool(c[1]) == truth else []
        if c[0] == "not":
            return self.assume(st, c[1], not truth, site)
        if c[0] in ("and", "or"):
            conj = (c[0] == "and") == truth
            if conj:
                out = []
                for s in self.assume(st, c[1], truth, site):
                    out += self.assume(s, c[2], truth, site)
                return out
            s2 = st.copy()
            return self.assume(st, c[1], truth, site) + [
                y for x in self.assume(s2, c[1], not truth, site) for y in self.assume(x, c[2], truth, site)]
        t = self.truth(st, c)
        if t is not None:
            if t and c[0] == "cmp" and c[1] == "<" and getattr(self.rule, "affine", False):
                # decided already, but still a limit for induction variables
                self.limits.setdefault(st.frames[-1].ctx, set()).update((c[2], c[3]))
            return [st] if t == truth else []
        if c[0] == "cmp" and c[1] == "==" and truth and c[3] == ZERO and c[2][0] == "lin" and c[2][2] == 0:
            nn = getattr(self.rule, "nonneg", None)
            if nn and all(nn(t) for t, _ in c[2][1]) and (all(k > 0 for _, k in c[2][1]) or all(k < 0 for _, k in c[2][1])):
                out = [st]
                for t, _ in c[2][1]:
                    out = [y for x in out for y in self.assume(x, mkcmp("==", t, ZERO), True, site)]
                return out
        if self.rule.assume(self, st, c, truth, site) is False:
            return []
        if c[0] == "cmp" and c[1] == "==" and truth:
            a, b = c[2], c[3]
            # replace the younger atom by the other
            if self.is_atom(a) and not contains(b, a):
                old, new = a, b
                if self.is_atom(b) and not self.prefer(a, b):
                    old, new = b, a
            elif self.is_atom(b) and not contains(a, b):
                old, new = b, a
            else:
                st.facts[c] = True
                return [st]
            if not st.substitute(old, new):
                return []
            st.ts = self.rename_ts(st.ts, old, new)
            if old[0] in ("init", "sel", "arg", "sym"):
                st.eqs[old] = new
            return [st]
        st.facts[c] = truth
        # single remaining value of a range
        if c[1] == "<" or not truth:
            pass
        return [st]

    def prefer(self, a, b):
        """True when a should be replaced by b"""
        rank = {"int": 0, "arg": 1, "sym": 1, "init": 2, "alloc": 0, "sel": 4}
        ra, rb = rank.get(a[0], 5), rank.get(b[0], 5)
        if ra != rb:
            return ra > rb
        if depth(a) != depth(b):
            return depth(a) > depth(b)
        return skey(a) > skey(b)

    # ---- execution
    def run(self, func, args=None, setup=None, ts=None):
        analyse_cfg(func)
        st = State()
        st.frames = []
        st.mem, st.facts, st.eqs = {}, {}, {}
        st.trace = None
        st.epoch = 0
        st.ts = ts
        ctx = self.ctx(0, func.mangled)
        st.frames.append(Frame(func, ctx, {}, None))
        self.functions.add(func.mangled)
        for i, (nm, ty) in enumerate(func.params):
            v = args[i] if args and i < len(args) and args[i] is not None else ("arg", nm)
            self.bind_param(st, func, nm, v)
        starts = [st]
        if setup:
            r = setup(self, st)
            if r is not None:
                starts = r
        self.visited = {}
        self.entries = {}
        self.limits = {}
        self.widened = set()
        self.work = []
        self.serial = 0
        for s in starts:
            self.push((ctx, func.entry, 0), s, 0)
        self.loop()

    def bind_param(self, st, func, nm, v):
        fr = st.frames[-1]
        # SSA default definitions of the parameter and its memory cell
        for d in default_defs(func).get(nm, ()):
            fr.env[d] = v
        st.mem[(("var", fr.ctx, nm), ())] = v
        if v[0] == "pack":
            self.rawstore(st, (("var", fr.ctx, nm), ()), v)

    def push(self, node, st, pred):
        """arrive at node with state; join/widen with what is already there"""
        fr = st.frames[-1]
        f = fr.func
        bb, idx = node[1], node[2]
        if idx == 0:
            live = f._live[bb]
            # phi assignment
            blk = f.blocks[bb]
            if blk.phis and pred is not None:
                site = None
                vals = []
                for dst, argm in blk.phis:
                    e = argm.get(pred)
                    vals.append((dst, self.val(st, e, None) if e is not None else ("undef", fr.ctx, dst)))
                fr.env = {k: v for k, v in fr.env.items() if k in live or k.endswith("(D)")}
                for d, v in vals:
                    fr.env[d] = v
            else:
                phid = {d for d, _ in blk.phis}
                fr.env = {k: v for k, v in fr.env.items() if k in live or k in phid or k.endswith("(D)")}
        self.gc(st)
        if (node[0], (bb, idx)) in self.widened:
            self.age(st, node[0], (bb, idx))
        head = idx == 0 and bb in f.loopheads
        if head:
            back = pred is not None and (pred, bb) in f.backedges
            if getattr(self.rule, "counters", False):
                # iteration counter of this loop (last resort base of affine relations)
                it = "#it%d(D)" % bb
                fr.env[it] = lin_add(fr.env[it], ONE) if back and it in fr.env else ZERO
        if idx == 0 and fr.loops and getattr(self.rule, "counters", False):
            for k in [k for k in fr.env if k.startswith("#it") and bb not in f.loopbody[int(k[3:-3])]]:
                del fr.env[k]
        if head:
            self.rule.loophead(self, st, node, back, None)
        self.rule.at = node
        mk = self.rule.mergekey(st)
        if getattr(self.rule, "affine", False):
            if idx == 0 and fr.loops:
                fr.loops = tuple((h, i) for h, i in fr.loops if bb in f.loopbody[h])
            if head and not back:
                # every way into a loop is a loop of its own (up to a limit)
                outer = tuple(x for x in fr.loops if x[0] != bb)
                fr.loops = outer + ((bb, -1),)
                ek = st.key()
                ents = self.entries.setdefault((node, mk, tuple(x.loops for x in st.frames)), [])
                if ek not in ents and len(ents) < self.rule.loop_entries:
                    ents.append(ek)
                fr.loops = outer + ((bb, ents.index(ek) if ek in ents else len(ents) - 1),)
            mk = (mk, tuple(x.loops for x in st.frames))
        vis = self.visited.setdefault(node, {})
        lst = vis.setdefault(mk, [])
        key = st.key()
        for k, s, n in lst:
            if k == key:
                return
        limit = self.rule.loop_exact if head else self.rule.max_states
        if len(lst) < limit:
            lst.append((key, st, 1))
            self.todo(node, st, mk, key)
            return
        # join with the last (widened) entry
        at = len(lst) - 1
        if not head:
            # prefer one that agrees on the constants (flags computed by short-circuit conditions)
            sig = constsig(st)
            same = [i for i, x in enumerate(lst) if constsig(x[1]) == sig]
            if same:
                at = same[-1]
            elif len(lst) < 2 * limit:
                lst.append((key, st, 1))
                self.todo(node, st, mk, key)
                return
        k0, s0, n0 = lst[at]
        self.first_join = n0 == 1
        j = self.join(s0, st, node)
        kj = j.key()
        if kj == k0:
            return
        for k, s, n in lst:
            if k == kj:
                return
        if n0 > 200:
            if getattr(self, "debug", False):
                for f1, f2 in zip(s0.frames, j.frames):
                    for k in f1.env:
                        if f1.env.get(k) != f2.env.get(k):
                            print("env", k, f1.env.get(k), f2.env.get(k))
                for l in set(s0.mem) | set(j.mem):
                    if s0.mem.get(l) != j.mem.get(l):
                        print("mem", l, s0.mem.get(l), "=>", j.mem.get(l))
                for c in set(s0.facts) | set(j.facts):
                    if s0.facts.get(c) != j.facts.get(c):
                        print("fact", c, s0.facts.get(c), "=>", j.facts.get(c))
                print("eqs", s0.eqs, j.eqs)
            raise AnalysisBroken("no convergence at %s bb%d" % (f.name, bb))
        lst[at] = (kj, j, n0 + 1)
        self.todo(node, j, mk, kj)

    def todo(self, node, st, mk, key):
        fs = st.frames
        pos = tuple((fs[i].func.rpo.get(fs[i + 1].ret[0], 0), fs[i + 1].ret[1]) for i in range(len(fs) - 1)) + ((fs[-1].func.rpo.get(node[1], 0), node[2]),)
        self.serial += 1
        heapq.heappush(self.work, (pos, self.serial, node, mk, key, st.copy()))

    def age(self, st, ctx, at):
        """a widening token of this node whose cell has been overwritten since now names an older value"""
        toks = set()
        for f in st.frames:
            for v in f.env.values():
                wtoks(v, ctx, at, toks)
        for l, v in st.mem.items():
            wtoks(l, ctx, at, toks)
            wtoks(v, ctx, at, toks)
        for c in st.facts:
            wtoks(c, ctx, at, toks)
        for k, v in st.eqs.items():
            wtoks(k, ctx, at, toks)
            wtoks(v, ctx, at, toks)
        wtoks(st.ts, ctx, at, toks)
        for t in sorted(toks, key=skey):
            c = t[3]
            if c[0] == "e":
                cur = st.frames[c[1]].env.get(c[2]) if c[1] < len(st.frames) else None
            else:
                cur = st.mem.get((c[1], c[2]))
            if cur == t:
                continue
            if cur is not None and getattr(self.rule, "affine", False):
                d = lin_add(cur, t, -1)
                if isint(d):
                    # advanced by a constant: re-express everything through the new value
                    if st.substitute(t, lin_add(t, d, -1)):
                        continue
            self.retire(st, t)

    def gc(self, st):
        """drop memory cells of dead frames"""
        live = {f.ctx for f in st.frames}
        dead = [l for l in st.mem if l[0][0] == "var" and l[0][1] not in live]
        for l in dead:
            del st.mem[l]
        # heap cells of objects nothing refers to any more
        stale = [l for l in st.mem if l[0][0] in ("old", "w", "t", "init", "lin", "alloc", "sel") and has_old(l[0])]
        if stale:
            seen = set()
            for f in st.frames:
                for v in f.env.values():
                    seen |= subterms(v)
            sset = set(stale)
            for l, v in st.mem.items():
                if l not in sset:
                    seen |= subterms(v)
            if isinstance(st.ts, tuple):
                seen |= subterms(st.ts)
            ch = True
            keep = set()
            while ch:
                ch = False
                for l in stale:
                    if l not in keep and any(t in seen for t in old_atoms(l[0])):
                        keep.add(l)
                        seen |= subterms(st.mem[l])
                        ch = True
            for l in stale:
                if l not in keep:
                    del st.mem[l]
            st.facts = {c: b for c, b in st.facts.items() if not has_old(c) or all(t in seen for t in old_atoms(c))}

    def join(self, a, b, node):
        pj = getattr(self.rule, "prejoin", None)
        if pj:
            a, b = pj(self, a, b)
        s = State()
        s.trace = b.trace
        s.ts = self.rule.widen_ts(a.ts, b.ts) if a.ts != b.ts else a.ts
        s.epoch = b.epoch
        ctx, bb = node[0], (node[1], node[2])
        self.widened.add((ctx, bb))

        def pick(cell, va, vb):
            if va == vb:
                return va
            return ("?", cell, va, vb)
        frames = []
        cells = []
        for i, (fa, fb) in enumerate(zip(a.frames, b.frames)):
            env = {}
            for k in fa.env:
                if k in fb.env:
                    va, vb = fa.env[k], fb.env[k]
                    if va == vb:
                        env[k] = va
                    else:
                        cells.append((("e", i, k), va, vb))
            frames.append(Frame(fa.func, fa.ctx, env, fa.ret, fa.retslot, fa.loops))
        mem = {}
        locs = set(a.mem) | set(b.mem)
        for l in locs:
            va = a.mem.get(l)
            vb = b.mem.get(l)
            if va is None or vb is None:
                if l[0][0] == "var":
                    # local cell: absent means undefined on that side, unless a prefix is present
                    if va is None:
                        va = self.rawload(a, l)
                    if vb is None:
                        vb = self.rawload(b, l)
                else:
                    if va is None:
                        va = self.rawload(a, l)
                    if vb is None:
                        vb = self.rawload(b, l)
                if va[0] == "pack" or vb[0] == "pack":
                    va = va if va[0] != "pack" else va[2]
                    vb = vb if vb[0] != "pack" else vb[2]
            if va == vb:
                mem[l] = va
            else:
                cells.append((("m",) + l, va, vb))
        groups = {}
        for c, va, vb in cells:
            groups.setdefault((va, vb), []).append(c)
        facts_new = {}
        ia, ib = factindex(a), factindex(b)
        names = {pr: ("w", ctx, bb, min(cs, key=skey)) for pr, cs in groups.items()}
        aff = self.affine(groups, names) if getattr(self.rule, "affine", False) else {}
        for (va, vb), cs in groups.items():
            tok = names[(va, vb)]
            au = aff.get((va, vb)) or antiunify(va, vb, names, True)
            if au is not None:
                for c in cs:
                    if c[0] == "e":
                        frames[c[1]].env[c[2]] = au
                    else:
                        mem[(c[1], c[2])] = au
                continue
            if getattr(self.rule, "join_value", None):
                t2 = self.rule.join_value(self, a, b, va, vb, tok)
                if t2 is not None:
                    tok = t2
            for c in cs:
                if c[0] == "e":
                    frames[c[1]].env[c[2]] = tok
                else:
                    mem[(c[1], c[2])] = tok
            if tok[0] == "w":
                self.transfer(a, b, va, vb, tok, facts_new, ia, ib)
        s.frames, s.mem = frames, mem
        owntoks = {("w", ctx, bb, min(cs, key=skey)) for cs in groups.values()}

        def own(c):
            return not owntoks.isdisjoint(subterms(c))
        s.facts = {}
        for c, v in a.facts.items():
            if b.facts.get(c) == v or (c[0] == "cmp" and self.truth(b, c) == v):
                if not own(c):
                    s.facts[c] = v
        for c, v in b.facts.items() if self.first_join or not getattr(self.rule, "affine", False) else ():
            if c not in s.facts and self.truth(a, c) == v and not own(c):
                s.facts[c] = v
        s.facts.update(facts_new)
        s.eqs = {k: v for k, v in a.eqs.items() if b.eqs.get(k) == v}
        return s

    def affine(self, groups, names):
        """cells that change by constant amounts: all are expressed through one of them"""
        deltas = {}
        for (va, vb) in groups:
            if va[0] in ("pack", "undef") or vb[0] in ("pack", "undef"):
                continue
            d = lin_add(vb, va, -1)
            if isint(d) and d[1]:
                deltas[(va, vb)] = d[1]
        if len(deltas) < 2:
            return self.offsets(groups, names, {})
        own = [pr for pr in deltas if pr[0] == names[pr]]
        base = min(own or deltas, key=lambda pr: (abs(deltas[pr]), isit(names[pr]), isinstance(pr[0], tuple) and not isint(pr[0]), skey(names[pr])))
        out = {}
        for pr, d in deltas.items():
            if pr == base or d % deltas[base]:
                continue
            k = d // deltas[base]
            out[pr] = lin_add(lin_scale(names[base], k), lin_add(pr[0], lin_scale(base[0], k), -1))
        return self.offsets(groups, names, out)

    def offsets(self, groups, names, out):
        """cells that differ from another one by the same amount on both sides"""
        byk = {}
        for pr in sorted(groups, key=lambda p: skey(names[p])):
            if pr in out or pr[0][0] in ("pack", "undef") or pr[1][0] in ("pack", "undef"):
                continue
            k = _lin(pr[0])[1]
            key = (lin_add(pr[0], mkint(k), -1), lin_add(pr[1], mkint(k), -1))
            if key in byk:
                b, kb = byk[key]
                out[pr] = lin_add(names[b], mkint(k - kb))
            else:
                byk[key] = (pr, k)
        return out

    def transfer(self, a, b, va, vb, tok, out, ia, ib):
        """facts that hold for va in a and for vb in b hold for the joined token"""
        if getattr(self.rule, "affine", False):
            for t in getattr(self.rule, "limit_terms", ()) if "undef" not in (va[0], vb[0]) else ():
                for sg in (1, -1):
                    if self.le0(b, lin_scale(lin_add(vb, t, -1), sg)) and self.le0(a, lin_scale(lin_add(va, t, -1), sg)):
                        out[mkcmp("<", t, tok) if sg > 0 else mkcmp("<", tok, t)] = False
            d = lin_add(vb, va, -1)
            if not isint(d) and "undef" not in (va[0], vb[0]) and getattr(self.rule, "loose_limits", False):
                cand = {va}
                for s in (a, b):
                    for c in s.facts:
                        if c[0] == "cmp" and c[1] == "<":
                            cand |= {c[2], c[3]}
                cand |= self.limits.get(tok[1], set())
                for t in cand:
                    if contains(t, tok):
                        continue
                    for sg in (1, -1):
                        if self.le0(b, lin_scale(lin_add(vb, t, -1), sg)) and self.le0(a, lin_scale(lin_add(va, t, -1), sg)):
                            c = mkcmp("<", t, tok) if sg > 0 else mkcmp("<", tok, t)
                            if c[0] == "cmp":
                                out[c] = False
            if isint(d) and va[0] != "undef":
                # monotone so far: bounded by where it started (re-validated at every later join)
                lo = va if d[1] > 0 else vb
                if not contains(lo, tok):
                    c = mkcmp("<", tok, va) if d[1] > 0 else mkcmp("<", va, tok)
                    if c[0] == "cmp":
                        out[c] = False
                # limits: what the value was compared with on the way round
                cand = set()
                for c in b.facts:
                    if c[0] == "cmp":
                        dd, _ = _lin(lin_add(c[2], c[3], -1))
                        for t in dd:
                            cand.add(t)
                        for t in (c[2], c[3]):
                            cand.add(t)
                            cand.add(lin_add(t, ONE, -1))
                cand |= self.limits.get(tok[1], set())
                if isit(tok):
                    for c in b.facts:
                        if c[0] == "cmp":
                            q = gcdnorm(lin_add(c[3], c[2], -1))
                            cand |= {q, lin_scale(q, -1), lin_add(q, ONE, -1)}
                if d[1] < 0 and getattr(self.rule, "loose_limits", False) and self.le0(a, lin_scale(va, -1)) and self.le0(b, lin_scale(vb, -1)):
                    c = mkcmp("<", tok, ZERO)
                    if c[0] == "cmp":
                        out[c] = False
                sg = 1 if d[1] > 0 else -1
                best = {}
                for t in cand:
                    if isint(t) or contains(t, tok) or (isint(lin_add(t, vb, -1)) and not isint(vb)):
                        continue
                    dt, kt = _lin(t)
                    key = frozenset(dt.items())
                    if key in best and best[key][0] * sg <= kt * sg:
                        continue        # a tighter limit of the same form is known
                    if self.le0(b, lin_scale(lin_add(vb, t, -1), sg)) and self.le0(a, lin_scale(lin_add(va, t, -1), sg)):
                        best[key] = (kt, t)
                for _, t in best.values():
                    c = mkcmp("<", t, tok) if sg > 0 else mkcmp("<", tok, t)
                    if c[0] == "cmp":
                        out[c] = False
        for s, v, o, ov, ix in ((a, va, b, vb, ia), (b, vb, a, va, ib)):
            if isint(v):
                continue
            for c in ix.get(v, ()):
                t = s.facts[c]
                c_other = subst(c, v, ov)
                if self.truth(o, c_other) == t:
                    c2 = subst(c, v, tok)
                    t2 = t
                    if c2[0] == "not":
                        c2, t2 = c2[1], not t2
                    if c2[0] == "cmp":
                        out[c2] = t2
        # both are non-null
        za, zb = self.truth(a, mkcmp("==", va, ZERO)), self.truth(b, mkcmp("==", vb, ZERO))
        if za is False and zb is False:
            out[mkcmp("==", tok, ZERO)] = False

    def loop(self):
        while self.work:
            _, _, node, mk, key, st = heapq.heappop(self.work)
            if not any(k == key for k, _, _ in self.visited[node][mk]):
                continue            # superseded by a wider state
            self.steps += 1
            if self.steps > self.budget:
                raise AnalysisBroken("budget exhausted")
            self.block(node, st)

    def tr(self, st, what):
        st.trace = (st.trace, what)

    def block(self, node, st):
        fr = st.frames[-1]
        f = fr.func
        bb, idx = node[1], node[2]
        blk = f.blocks[bb]
        self.stmts(blk, idx, st)

    def stmts(self, blk, idx, st):
        pos = [idx]
        try:
            self.stmts1(blk, idx, st, pos)
        except Split as e:
            for s2 in e.states:
                self.stmts(blk, pos[0], s2)

    def stmts1(self, blk, idx, st, pos):
        """execute from statement idx of blk; fork on multi-outcome calls"""
        while idx < len(blk.stmts):
            pos[0] = idx
            s = blk.stmts[idx]
            self.sites += 1
            site = self.site(st, s)
            k = s.kind
            if k == "assign":
                r = s.a[1]
                h = getattr(self.rule, "modulo", None) if r[0] == "op" and r[1] == "%" else None
                if h:
                    outs = h(self, st, self.val(st, r[2][0], site), self.val(st, r[2][1], site), site)
                    if outs is not None:
                        for s2, v in outs:
                            self.assign(s2, s.a[0], v, site)
                            self.stmts(blk, idx + 1, s2)
                        return
                l = s.a[0]
                if r[0] == "fld" and l[0] == "fld" and r[2].startswith("D.") and l[2].startswith("D."):
                    fs = subfields(self.prog).get(r[2])
                    if fs:      # assignment of a base class subobject: its fields only
                        a, b = self.lval(st, l, site), self.lval(st, r, site)
                        for f in sorted(fs):
                            self.store(st, (a[0], a[1] + (f,)), self.load(st, (b[0], b[1] + (f,)), site), site)
                        idx += 1
                        continue
                if r[0] == "op" and r[1] == "~" and self.expr_type(st, r[2][0]) in ("bool", "_Bool"):
                    v = mknot(self.cond_of(self.val(st, r[2][0], site)))
                else:
                    v = self.val(st, r, site)
                self.assign(st, s.a[0], v, site)
            elif k == "clobber":
                loc = self.lval(st, s.a[0], site)
                h = getattr(self.rule, "clobber", None)
                if h:
                    h(self, st, loc, site)
                if loc[0][0] == "var":
                    n = len(loc[1])
                    for l in [l for l in st.mem if l[0] == loc[0] and l[1][:n] == loc[1]]:
                        del st.mem[l]
            elif k == "call":
                outs = self.call(st, s, blk, idx, site)
                if outs is None:
                    return          # inlined or noreturn: continuation scheduled
                if len(outs) == 1 and outs[0][0] is st:
                    self.finish_call(st, s, outs[0][1], site)
                else:
                    for s2, v in outs:
                        self.finish_call(s2, s, v, site)
                        self.stmts(blk, idx + 1, s2)
                    return
            elif k == "asm":
                outs = self.asm(st, s, site)
                if len(outs) == 1:
                    st = outs[0]
                else:
                    for s2 in outs:
                        self.stmts(blk, idx + 1, s2)
                    return
            elif k == "opaque":
                self.notes.add("opaque statement: " + s.text[:80])
            idx += 1
        pos[0] = idx
        self.terminator(blk, st)

    def assign(self, st, lhs, v, site):
        if lhs[0] == "ssa":
            if v[0] == "int" and getattr(self.rule, "wrap64", False):
                ty = ssa_type(st.frames[-1].func, lhs[1])
                if ty in WIDE or ty in NARROW:
                    v = self.cast(st, ty, v, lhs)
            st.frames[-1].env[lhs[1]] = v
        else:
            self.store(st, self.lval(st, lhs, site), v, site)

    def finish_call(self, st, s, v, site):
        lhs = s.a[0]
        if lhs is not None:
            if v is None:
                v = self.fresh(st, ("ret", site_id(s, st)))
            if v == ("inplace",):
                return
            self.assign(st, lhs, v, site)

    def terminator(self, blk, st):
        fr = st.frames[-1]
        f = fr.func
        t = blk.term
        k = t.kind
        if k == "goto":
            self.push((fr.ctx, t.a[0], 0), st, blk.id)
        elif k == "if":
            site = self.site(st, t)
            c = self.cond_of(self.val(st, t.a[0], site))
            h = getattr(self.rule, "cond", None)
            self.curblk = blk.id
            if h:
                h(self, st, c)      # may split the state
            tv = self.truth(st, c)
            if tv is not False:
                s1 = st.copy() if tv is None else st
                for s in self.assume(s1, c, True, site):
                    if tv is None:
                        self.tr(s, "%s: (%s) true" % (t.loc, t.text))
                    self.push((fr.ctx, t.a[1], 0), s, blk.id)
            if tv is not True:
                for s in self.assume(st, c, False, site):
                    if tv is None:
                        self.tr(s, "%s: (%s) false" % (t.loc, t.text))
                    self.push((fr.ctx, t.a[2], 0), s, blk.id)
        elif k == "switch":
            site = self.site(st, t)
            v = self.val(st, t.a[0], site)
            h = getattr(self.rule, "on_switch", None)
            self.curblk = blk.id
            if h:
                h(self, st, v)
            rest = [st.copy()]
            for lo, hi, tgt in t.a[1]:
                nxt = []
                for s0 in rest:
                    c = mkcmp("==", v, mkint(lo)) if lo == hi else mklogic("and", mkcmp(">=", v, mkint(lo)), mkcmp("<=", v, mkint(hi)))
                    vv = c
                    for s1 in self.assume(s0.copy(), vv, True, site):
                        self.tr(s1, "%s: switch case %s" % (t.loc, lo))
                        self.push((fr.ctx, tgt, 0), s1, blk.id)
                    nxt += self.assume(s0, vv, False, site)
                rest = nxt
            for s0 in rest:
                self.tr(s0, "%s: switch default" % t.loc)
                self.push((fr.ctx, t.a[2], 0), s0, blk.id)
        elif k == "return":
            site = self.site(st, t)
            v = self.val(st, t.a[0], site) if t.a[0] is not None else None
            self.ret(st, v, site)
        elif k == "resx":
            pass
        elif k == "unreachable":
            pass

    def ret(self, st, v, site):
        fr = st.frames[-1]
        if len(st.frames) == 1:
            self.rule.exit(self, st, v, site)
            return
        h = getattr(self.rule, "leave", None)
        if h:
            h(self, st, fr.func, v, site)
        st.frames.pop()
        bb, idx, stmt, _ = fr.ret
        caller = st.frames[-1]
        lhs = stmt.a[0]
        if lhs is not None and fr.retslot is None:
            if v is None:
                v = ("undef", fr.ctx, "ret")
            self.assign(st, lhs, v, self.site(st, stmt))
        self.push((caller.ctx, bb, idx + 1), st, None)

    # ---- calls
    ATOMIC_PREFIX = ("__atomic_", "__sync_")

    def call(self, st, s, blk, idx, site):
        lhs, callee, argse, rso = s.a
        args = [self.val(st, a, site) for a in argse]
        name = callee
        self.callee_val = None
        if name.startswith("OBJ_TYPE_REF"):
            name = "<virtual>"
        elif callee in st.frames[-1].env or callee.endswith("(D)") or (callee[0] == "_" and callee[1:].isdigit()):
            fv = self.val(st, parse_operand(callee), site)
            if fv[0] == "addr" and fv[1][0][0] == "g" and not fv[1][1]:
                name = fv[1][0][1]
            elif fv[0] == "g":
                name = fv[1]
            else:
                name = "<indirect>"
                self.callee_val = fv
        if name in NORETURN:
            h = getattr(self.rule, "noreturn", None)
            if h:
                h(self, st, name, args, site)
            return None
        func = self.prog.funcs.get(name)
        if func is None:
            func = self.prog.funcs.get(ALIAS_RE.sub(r"\g<1>2\2", name))
        r = self.rule.call(self, st, name, func, args, site, lhs)
        if r is not None:
            return r
        if name.startswith("__atomic_") or name.startswith("__sync_"):
            return self.atomic(st, name, args, s, site)
        r = self.builtin(st, name, args, s, site)
        if r is not None:
            return r
        if func is not None and len(st.frames) < self.rule.max_depth and self.rule.inline(self, st, func):
            depthrec = sum(1 for f in st.frames if f.func is func)
            if depthrec == 0:
                self.enter(st, func, args, s, blk, idx, rso, site)
                return None
        self.unknown_calls[name] = self.unknown_calls.get(name, 0) + 1
        self.rule.unknown(self, st, name, args, site)
        # locals passed by address may be written
        for a in args:
            if a[0] == "addr" and a[1][0][0] == "var":
                tok = self.fresh(st, ("out", site_id(s, st), skey(a)))
                self.havoc(st, a[1], tok)
        return [(st, self.fresh(st, ("ret", site_id(s, st))) if lhs is not None else None)]

    def enter(self, st, func, args, s, blk, idx, rso, site):
        analyse_cfg(func)
        self.functions.add(func.mangled)
        caller = st.frames[-1]
        ctx = self.ctx(caller.ctx, (blk.id, idx, func.mangled))
        lhs = s.a[0]
        retslot = None
        if lhs is not None and lhs[0] != "ssa" and uses_retslot(func):
            retslot = mkaddr(self.lval(st, lhs, site))
        fr = Frame(func, ctx, {}, (blk.id, idx, s, s.loc), retslot)
        h = getattr(self.rule, "enter", None)
        if h:
            h(self, st, func, args, site)
        st.frames.append(fr)
        ps = func.params
        if ps and ps[0][0] == "<retval>":
            ps = ps[1:]
        for i, (nm, ty) in enumerate(ps):
            v = args[i] if i < len(args) else ("undef", ctx, nm)
            self.bind_param(st, func, nm, v)
        self.push((ctx, func.entry, 0), st, 0)

    def atomic(self, st, name, args, s, site):
        loc = self.ptr_loc(args[0]) if args else None
        sid = site_id(s, st)
        n = name
        for suf in ("_16", "_8", "_4", "_2", "_1"):
            if n.endswith(suf):
                n = n[:-len(suf)]
                break
        width = name[len(n) + 1:]

        def order(i):
            return args[i][1] if i < len(args) and isint(args[i]) else 5
        kind, ord_, rest = None, 5, ()
        if n == "__atomic_load":
            kind, ord_ = "load", order(1)
        elif n == "__atomic_store":
            kind, rest, ord_ = "store", (args[1],), order(2)
        elif n == "__atomic_exchange":
            kind, rest, ord_ = "xchg", (args[1],), order(2)
        elif n.startswith("__atomic_fetch_"):
            kind, rest, ord_ = n[9:], (args[1],), order(2)
        elif n.startswith("__atomic_") and n.endswith("_fetch"):
            kind, rest, ord_ = n[9:], (args[1],), order(2)
        elif n == "__atomic_compare_exchange":
            kind, rest, ord_ = "cas", (args[1], args[2]), (order(4), order(5))
        elif n == "__atomic_test_and_set":
            kind, ord_ = "tas", order(1)
        elif n == "__atomic_clear":
            kind, ord_ = "clear", order(1)
        elif n in ("__atomic_thread_fence", "__atomic_signal_fence"):
            return [(st, None)]
        elif n == "__sync_val_compare_and_swap":
            kind, rest = "casv", (args[1], args[2])
        elif n == "__sync_bool_compare_and_swap":
            kind, rest = "casb", (args[1], args[2])
        elif n.startswith("__sync_fetch_and_"):
            kind, rest = "fetch_" + n[17:], (args[1],)
        elif n == "__sync_lock_test_and_set":
            kind, rest = "xchg", (args[1],)
        elif n == "__sync_synchronize":
            return [(st, None)]
        elif n.startswith("__atomic_always") or n.startswith("__atomic_is_lock"):
            return [(st, ONE)]
        else:
            return [(st, None)]
        return self.atomic_event(st, kind, loc, rest, ord_, site, sid, width)

    def atomic_event(self, st, kind, loc, rest, ord_, site, sid, width=None):
        self.cur_width = width
        r = self.rule.atomic(self, st, kind, loc, rest, ord_, site)
        if r is not None:
            return r
        if kind == "load":
            return [(st, self.fresh(st, ("ld",) + sid))]
        if kind in ("store", "clear"):
            return [(st, None)]
        if kind == "tas":
            s2 = st.copy()
            return [(st, ZERO), (s2, ONE)]
        if kind == "cas":
            s2 = st.copy()
            tok = self.fresh(s2, ("casf",) + sid)
            eloc = self.ptr_loc(rest[0])
            self.rawstore(s2, eloc, tok)
            return [(st, ONE), (s2, ZERO)]
        if kind in ("casv", "casb"):
            s2 = st.copy()
            if kind == "casb":
                return [(st, ONE), (s2, ZERO)]
            tok = self.fresh(s2, ("casf",) + sid)
            c = mkcmp("==", tok, subst(rest[0], tok, ("old", tok)))
            if c[0] == "cmp":
                s2.facts[c] = False
            return [(st, rest[0]), (s2, tok)]
        return [(st, self.fresh(st, ("rmw",) + sid))]

    def asm(self, st, s, site):
        tmpl, outs, ins, clob = s.a
        t = tmpl.lower()
        sid = site_id(s, st)
        mem = None
        for c, e in outs:
            if "m" in c and "r" not in c:
                mem = e
        if mem is None:
            for c, e in ins:
                if c.strip() == "m":
                    mem = e
        h = getattr(self.rule, "asmstmt", None)
        if h:
            r = h(self, st, tmpl, outs, ins, clob, site)
            if r is not None:
                return r
        if mem is not None and ("bts" in t or "btr" in t):
            kind = "bts" if "bts" in t else "btr"
            loc = self.lval(st, mem, site)
            bit = None
            for c, e in ins:
                if "r" in c or "i" in c:
                    bit = self.val(st, e, site)
            dst = None
            for c, e in outs:
                if "=" in c and e != mem:
                    dst = e
            res = self.rule.atomic(self, st, kind, loc, (bit,), -1 if "lock" not in t else 5 if "memory" in clob else 0, site)
            if res is None:
                s2 = st.copy()
                res = [(st, ZERO), (s2, ONE)]
            out = []
            for s1, v in res:
                if dst is not None:
                    self.assign(s1, dst, v, site)
                out.append(s1)
            return out
        if mem is not None and ("xadd" in t or "xchg" in t):
            loc = self.lval(st, mem, site)
            kind = "fetch_add" if "xadd" in t else "xchg"
            dst, src = None, None
            for c, e in outs:
                if "r" in c:
                    dst = e
                    src = e
            for c, e in ins:
                if c.strip() != "m":
                    src = e
            v = self.val(st, src, site) if src is not None else ZERO
            r = self.atomic_event(st, kind, loc, (v,), 5, site, sid)
            out = []
            for s1, x in r:
                if dst is not None:
                    self.assign(s1, dst, x, site)
                out.append(s1)
            return out
        for c, e in outs:
            if e[0] == "opaque":
                continue
            self.assign(st, e, self.fresh(st, ("asm",) + sid), site)
        return [st]

    # ---- libc / builtin models
    def builtin(self, st, name, args, s, site):
        sid = site_id(s, st)
        if name in ("malloc", "_Znwm", "_Znam", "calloc", "aligned_alloc", "memalign", "_ZnwmSt11align_val_t", "_mm_malloc"):
            tok = ("alloc", st.frames[-1].ctx) + sid
            self.retire(st, tok)
            if name == "calloc":
                st.mem[(tok, ())] = ZERO
            return [(st, tok)]
        if name in ("memset", "__builtin_memset"):
            loc = self.ptr_loc(args[0])
            if args[1] == ZERO:
                self.store(st, loc, ZERO, site)
            else:
                self.store(st, loc, ("fill", args[1]) if not isint(args[1]) else ("fillc", args[1][1]), site)
            return [(st, args[0])]
        if name in ("memcpy", "memmove", "__builtin_memcpy", "__builtin_memmove"):
            src = self.ptr_loc(args[1])
            v = self.load(st, src, site)
            self.store(st, self.ptr_loc(args[0]), v, site)
            return [(st, args[0])]
        if name in ("__builtin_expect",):
            return [(st, args[0])]
        if name in ("__builtin_alloca", "__builtin_alloca_with_align"):
            tok = ("alloc", st.frames[-1].ctx) + sid
            self.retire(st, tok)
            return [(st, tok)]
        if name in ("__builtin_unreachable",):
            return []
        if name.startswith("_ZnwmPv") or name.startswith("_ZnamPv"):
            return [(st, args[1])]
        return None


def subfields(prog):
    """anonymous base class subobjects (D.n) -> the fields their class's methods touch"""
    m = getattr(prog, "_subfields", None)
    if m is not None:
        return m
    cls = {}
    of = {}
    for f in prog.funcs.values():
        c = f.name.rsplit("::", 1)[0] if "::" in f.name else None
        env = {}
        for b in f.blocks.values():
            for s in b.stmts:
                for x in re.findall(r"\bthis_\d+\(D\)->(\w+)", s.text):
                    if c and x != "D":
                        cls.setdefault(c, set()).add(x)
                y = re.match(r"(_\d+) = &\w+(?:\(D\))?->(D\.\d+)$", s.text)
                if y:
                    env[y.group(1)] = y.group(2)
                if s.kind == "call" and s.a[2]:
                    a = s.a[2][0]
                    g = prog.funcs.get(s.a[1])
                    if a[0] == "ssa" and a[1] in env and g is not None and "::" in g.name:
                        of.setdefault(env[a[1]], set()).add(g.name.rsplit("::", 1)[0])
    m = {}
    for d, cs in of.items():
        fs = set()
        for c in cs:
            fs |= cls.get(c, set())
        if fs and len(cs) == 1:
            m[d] = fs
    prog._subfields = m
    return m


def constsig(st):
    return frozenset((k, v) for k, v in st.frames[-1].env.items() if v[0] == "int")


def isit(tok):
    return tok[0] == "w" and tok[3][0] == "e" and tok[3][2].startswith("#it")


class LinCtx:
    __slots__ = ("idx", "memo")

    def __init__(self):
        self.idx, self.memo = {}, {}

    def add(self, e):
        if isint(e):
            return
        d, k = _lin(e)
        for t, c in d.items():
            self.idx.setdefault((t, c > 0), []).append((d, k))


def gcdnorm(e):
    """e <= 0 divided by the common factor of its coefficients"""
    if e[0] != "lin":
        return e
    g = 0
    for _, c in e[1]:
        g = gcd(g, abs(c))
    if g <= 1:
        return e
    return _unlin({t: c // g for t, c in e[1]}, -((-e[2]) // g))


def has_old(v):
    return any(x and x[0] == "old" for x in subterms(v))


def old_atoms(v):
    return [x for x in subterms(v) if x and x[0] == "old"]


def antiunify(a, b, names, top=False):
    """common shape of two terms whose differing parts are the values of joined cells; None if there is none"""
    if a == b:
        return a
    if not top:
        t = names.get((a, b))
        if t is not None:
            return t
    if a[0] != b[0] or len(a) != len(b):
        return None
    h = a[0]
    if h == "lin":
        if a[2] != b[2] or len(a[1]) != len(b[1]):
            return None
        out = ("int", a[2])
        for (x, c), (y, d) in zip(a[1], b[1]):
            if c != d:
                return None
            z = antiunify(x, y, names)
            if z is None:
                return None
            out = lin_add(out, lin_scale(z, c))
        return out
    if h in ("init", "addr"):
        base = antiunify(a[1][0], b[1][0], names)
        if base is None or a[1][1] != b[1][1]:
            return None
        return (mkinit_loc if h == "init" else mkaddr)((base, a[1][1]))
    if h == "sel" and a[2] == b[2]:
        x = antiunify(a[1], b[1], names)
        return None if x is None else mksel(x, a[2])
    return None


def factindex(st):
    ix = {}
    for c in st.facts:
        if c[0] == "cmp":
            for x in subterms(c):
                ix.setdefault(x, []).append(c)
    return ix


def wtoks(v, ctx, at, out):
    if isinstance(v, tuple):
        for x in subterms(v):
            if len(x) == 4 and x[0] == "w" and x[1] == ctx and x[2] == at:
                out.add(x)
    elif isinstance(v, frozenset):
        for x in v:
            wtoks(x, ctx, at, out)


ALIAS_RE = re.compile(r"([CD])1([EI])")


def ssa_type(func, name):
    t = func.types.get(name)
    if t is None:
        n = name[:-3] if name.endswith("(D)") else name
        t = func.types.get(n) or func.types.get(n.rsplit("_", 1)[0])
    return t


def tscontains(ts, tok):
    if ts == tok:
        return True
    if isinstance(ts, (tuple, frozenset)):
        if isinstance(ts, tuple) and ts and ts[0] == "old":
            return False
        return any(tscontains(x, tok) for x in ts)
    return False


def site_id(s, st):
    return (s.loc or "", s.idx)


_dd = {}


def default_defs(func):
    r = _dd.get(id(func))
    if r is None:
        r = {}
        names = set()
        from gimple import stmt_uses, expr_uses
        for b in func.blocks.values():
            for st in b.stmts + [b.term]:
                names |= stmt_uses(st)
            for d, a in b.phis:
                for e in a.values():
                    expr_uses(e, names)
        for n in names:
            if n.endswith("(D)"):
                r.setdefault(n[:-3].rsplit("_", 1)[0], []).append(n)
        anon = [nm for nm, _ in func.params if nm.startswith("D.") or nm.startswith("<anon")]
        less = sorted(r.get("", ()), key=lambda n: int(re.sub(r"\D", "", n) or 0))
        if anon and less and (len(anon) == len(less) or len(anon) == 1):
            for nm, d in zip(anon, less):
                r.setdefault(nm, []).append(d)
        _dd[id(func)] = r
        func.static_vars.add("\0keep") if False else None
        _keep.append(func)
    return r


_keep = []
_rs = {}


def byref_result(func, nm):
    """an aggregate never has SSA names: such a name stands for the address of the caller's result object"""
    if not nm or nm in [q for q, _ in func.params]:
        return False
    ty = func.types.get(nm)
    return ty is None or (bool(re.match(r"(const )?(struct|class|union)\b", ty)) and not re.search(r"[*&]\s*(const)?$", ty))


def uses_retslot(func):
    r = _rs.get(id(func))
    if r is None:
        dd = default_defs(func)
        known = {nm for nm, _ in func.params} | set(func.types)
        anon = any(nm.startswith("D.") or nm.startswith("<anon") for nm in known)
        r = "<retval>" in dd or ("" in dd and not anon) or any(byref_result(func, k) for k in dd)
        _rs[id(func)] = r
        _keep.append(func)
    return r


def st_byref(func):
    return ()
