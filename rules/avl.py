"""Height-balanced search trees with recursive operations.

The heap is a tree of nodes the code has looked at; everything below is an opaque subtree with a symbolic height and a place in the
in-order sequence. Looking at an opaque subtree splits into: empty, or a node with two opaque subtrees of any heights the invariant
allows. A recursive call is replaced by the contract of the function (induction on the height); the body of the function is then
checked against that same contract."""
import re
from engine import *
from gimple import AnalysisBroken
from shape import node, show

H = ("hsym", "h")


class TS(tuple):
    pass


class TreeRule(Rule):
    max_states = loop_exact = 10 ** 9
    affine = False
    LEFT, RIGHT, KEY, BAL = ("_left",), ("_right",), ("_key",), ("_balance",)

    def __init__(self, what, data, contracts=()):
        self.what, self.data = what, data
        self.contracts = contracts      # function base name -> summary
        self.counts = {"configs": 0, "exits": 0, "events": 0, "links": 0, "splits": 0, "contracts": 0}

    def asserts(self):
        return False

    # ---- state: dict packed in st.ts
    def get(self, st):
        return dict(st.ts)

    def put(self, st, d):
        st.ts = tuple(sorted(d.items()))

    def distinct(self, a, b):
        ks = ("node", "int", "alloc", "addr", "sub")
        for x, y in ((a, b), (b, a)):
            if x[0] in ("node", "alloc", "spine", "minof") and y[0] in ks and x != y and y[0] != "sub":
                return True
        return a[0] == b[0] == "arg" and a != b

    def content(self, I, st, x):
        if self.data:
            return (I.rawload(st, (x, self.KEY + ("first",))), I.rawload(st, (x, self.KEY + ("second",))))
        return (I.rawload(st, (x, self.KEY)),)

    def keyof(self, x):
        return ("k", x[1])

    def newnode(self, st, name, l, r, bal):
        x = node(name)
        st.mem[(x, self.LEFT)] = l
        st.mem[(x, self.RIGHT)] = r
        st.mem[(x, self.BAL)] = mkint(bal)
        if self.data:
            st.mem[(x, self.KEY + ("first",))] = ("k", name)
            st.mem[(x, self.KEY + ("second",))] = ("d", name)
            return x, (("k", name), ("d", name))
        st.mem[(x, self.KEY)] = ("k", name)
        return x, (("k", name),)

    def open(self, st, sub):
        """the cases of an opaque subtree"""
        self.counts["splits"] += 1
        d = self.get(st)
        hs = dict(d["h"])
        e = hs[sub[1]]
        c, k = _lin(e)
        out = []
        # empty
        if (not c and k == 0) or c:
            s = st.copy()
            d2 = dict(d)
            h2 = dict(hs)
            if c:
                v = -k
                h2 = {n: subst(x, H, mkint(v)) for n, x in h2.items()}
            if all(_lin(x)[0] or _lin(x)[1] >= 0 for x in h2.values()):
                del h2[sub[1]]
                d2["h"] = tuple(sorted(h2.items()))
                d2["h0"] = subst(d["h0"], H, mkint(-k)) if c else d["h0"]
                d2["seq"] = tuple(t for t in d["seq"] if t != sub)
                self.put(s, d2)
                s.substitute(sub, ZERO)
                out.append(s)
        if c or k > 0:
            for bal in (0, -1, 1):
                hl = lin_add(e, mkint(1 if bal <= 0 else 2), -1)
                hr = lin_add(e, mkint(1 if bal >= 0 else 2), -1)
                if isint(hl) and hl[1] < 0 or isint(hr) and hr[1] < 0:
                    continue
                s = st.copy()
                n = sub[1]
                l, r = ("sub", n + "l"), ("sub", n + "r")
                s.substitute(sub, node(n))
                x, ct = self.newnode(s, n, l, r, bal)
                d2 = dict(d)
                h2 = dict(hs)
                del h2[n]
                h2[n + "l"], h2[n + "r"] = hl, hr
                d2["h"] = tuple(sorted(h2.items()))
                q = []
                for t in d["seq"]:
                    q += [l, ct, r] if t == sub else [t]
                d2["seq"] = tuple(q)
                self.put(s, d2)
                out.append(s)
        raise Split(out)

    def walk(self, I, st, v, seen=()):
        """(height, in-order sequence, problem) of the tree at v"""
        if v == ZERO:
            return ZERO, [], None
        if v[0] == "sub":
            hs = dict(self.get(st)["h"])
            if v[1] not in hs:
                return None, [], "a link leads to a subtree that was taken apart"
            return hs[v[1]], [v], None
        if v[0] not in ("node", "alloc"):
            return None, [], "a link is %s" % show(v)
        if v in seen:
            return None, [], "a node is its own descendant"
        if v in self.get(st)["freed"]:
            return None, [], "a released node is still in the tree"
        hl, sl, p = self.walk(I, st, I.rawload(st, (v, self.LEFT)), seen + (v,))
        if p:
            return None, [], p
        hr, sr, p = self.walk(I, st, I.rawload(st, (v, self.RIGHT)), seen + (v,))
        if p:
            return None, [], p
        diff = lin_add(hr, hl, -1)
        if not isint(diff):
            return None, [], "heights cannot be compared"
        if abs(diff[1]) > 1:
            return None, [], "node '%s' is out of balance (%+d)" % (v[1], diff[1])
        b = I.rawload(st, (v, self.BAL))
        if b != diff:
            return None, [], "node '%s' records balance %s but has %d" % (v[1], show(b) if b != ZERO else "0", diff[1])
        return lin_add(hr if diff[1] >= 0 else hl, ONE), sl + [self.content(I, st, v)] + sr, None

    def fold(self, I, st, loc, site, who):
        """make the subtree at loc opaque (before a recursive call)"""
        v = I.rawload(st, loc)
        if v[0] == "sub":
            return v
        h, s, p = self.walk(I, st, v)
        if p:
            self.flag(I, st, site, "%s is given a subtree that is not valid: %s" % (who, p))
            return None
        d = self.get(st)
        q = list(d["seq"])
        n = "f%d" % d["nf"]
        t = ("sub", n)
        if s:
            for i in range(len(q) - len(s) + 1):
                if q[i:i + len(s)] == s:
                    q[i:i + len(s)] = [t]
                    break
            else:
                raise AnalysisBroken("subtree handed to %s is not part of the sequence" % who)
        else:
            x = loc[0]
            if x[0] != "node":
                q = [t]
            else:
                i = q.index(self.content(I, st, x))
                q.insert(i if loc[1] == self.LEFT else i + 1, t)
        d["seq"] = tuple(q)
        hs = dict(d["h"])
        hs[n] = h
        d["h"] = tuple(sorted(hs.items()))
        d["nf"] += 1
        self.put(st, d)
        st.mem[loc] = t
        return t

    def flag(self, I, st, site, what):
        if site is None or site.loc is None:
            site = self.lastsite
        I.report(st, site, what, key=(site.loc, what))

    # ---- events
    def load(self, I, st, loc, site):
        self.deref(I, st, loc, site)
        v = I.rawload(st, loc)
        if v[0] == "sub" and loc[0][0] != "var":
            self.open(st, v)
        if loc[0][0] == "minof" and loc[1][:1] == self.KEY:
            return ("mindata" if loc[1][1:] == ("second",) else "minkey", loc[0][1])
        if self.what == "top_get" and loc[0][0] == "node" and loc[1] in (self.LEFT, self.RIGHT):
            d = self.get(st)
            d["last"] = loc
            self.put(st, d)
        return None

    def deref(self, I, st, loc, site):
        b = loc[0]
        self.counts["events"] += 1
        self.lastsite = site
        if b[0] == "sub":
            self.open(st, b)
        if b[0] == "spine" and loc[1] == self.LEFT:
            # the last node of the left edge, or another one
            s = st.copy()
            m = ("minof", b[1])
            s.substitute(b, m)
            s.mem[(m, self.LEFT)] = ZERO
            t = st.copy()
            t.mem[(b, self.LEFT)] = b
            if (b, self.LEFT) not in st.mem:
                raise Split([s, t])
        if b in self.get(st)["freed"]:
            self.flag(I, st, site, "uses a node that has been released")
        if b[0] == "int":
            self.flag(I, st, site, "follows a null link")

    def store(self, I, st, loc, val, site):
        self.deref(I, st, loc, site)
        if loc[0][0] in ("spine", "minof"):
            raise AnalysisBroken("writes to a node of the left edge")
        return None

    def cond(self, I, st, c):
        for t in subterms(c):
            if t[0] == "sub":
                self.open(st, t)

    def loophead(self, I, st, nd, back, site):
        fr = st.frames[-1]
        if self.what == "top_get":
            # searching: what has been passed does not matter any more, what lies ahead is any subtree
            d = self.get(st)
            if back and d.get("last"):
                loc = d["last"]
                ks = [y for (x, y), r in d["cmp"] if x == self.content(I, st, loc[0])[0]] + [x for (x, y), r in d["cmp"] if y == self.content(I, st, loc[0])[0]]
                for k in ks or [None]:
                    self.side(I, st, loc, k, self.lastsite)
            if back:
                for k, v in list(fr.env.items()):
                    if v[0] in ("node", "sub") or v == ZERO and d.get("last"):
                        fr.env[k] = ("sub", "S")
                for l in [l for l in st.mem if l[0][0] == "node"]:
                    del st.mem[l]
                for l, v in list(st.mem.items()):
                    if l[0][0] == "arg" and v[0] in ("node", "sub"):
                        st.mem[l] = ("sub", "Z")
                d.update(h=(("S", H),), h0=H, seq=(("sub", "S"),), cmp=(), last=None)
                self.put(st, d)
                self.again = True
            return
        # walking down the left edge of a subtree: fold what has been opened
        for k, v in list(fr.env.items()):
            if v[0] == "spine":
                st.mem.pop((v, self.LEFT), None)
            if v[0] != "node":
                continue
            # find a node whose right link leads down left links to v
            for l, w in list(st.mem.items()):
                if l[1] == self.RIGHT and l[0][0] == "node":
                    y, chain = w, []
                    while y[0] == "node" and y not in chain:
                        chain.append(y)
                        if y == v:
                            break
                        y = I.rawload(st, (y, self.LEFT))
                    if chain and chain[-1] == v and self.pristine(I, st, w):
                        t = self.fold(I, st, l, site, "loop")
                        for f in st.frames:
                            for k2, v2 in list(f.env.items()):
                                if v2 in chain:
                                    f.env[k2] = ("spine", t[1]) if v2 == v else ("undef", 0, k2)
                        for x in self.nodes(I, st, w):
                            for c in [c for c in st.mem if c[0] == x]:
                                del st.mem[c]
                        return

    def nodes(self, I, st, v):
        if v[0] != "node":
            return []
        return [v] + self.nodes(I, st, I.rawload(st, (v, self.LEFT))) + self.nodes(I, st, I.rawload(st, (v, self.RIGHT)))

    def pristine(self, I, st, v):
        h, s, p = self.walk(I, st, v)
        return p is None

    def call(self, I, st, name, func, args, site, lhs):
        if name.startswith("_Z3CMP"):
            self.counts["events"] += 1
            d = self.get(st)
            a, b = I.ptr_loc(args[0]), I.ptr_loc(args[1])
            x, y = self.keyval(I, st, a, site), self.keyval(I, st, b, site)
            out = []
            for r in (-1, 0, 1):
                old = dict(d["cmp"]).get((x, y))
                inv = dict(d["cmp"]).get((y, x))
                if old is not None and old != r or inv is not None and inv != -r:
                    continue
                if x == y and r:
                    continue
                s = st.copy()
                d2 = dict(d)
                d2["cmp"] = tuple(sorted(set(d["cmp"]) | {((x, y), r)}))
                self.put(s, d2)
                I.tr(s, "%s: comparison %d" % (site.loc, r))
                out.append((s, mkint(r)))
            return out
        m = re.match(r"_ZN6VAllocI(.*)E(8allocate|10deallocate)E", name)
        if m:
            self.counts["events"] += 1
            d = self.get(st)
            if m.group(2) == "8allocate":
                x = ("alloc", "new%d" % d["new"])
                d["new"] += 1
                self.put(st, d)
                if d["new"] > 4:
                    raise AnalysisBroken("allocation in a loop")
                return [(st, x)]
            x = args[1]
            if x in d["freed"]:
                self.flag(I, st, site, "releases a node twice")
            if x[0] not in ("node", "alloc"):
                self.flag(I, st, site, "releases %s" % show(x))
            d["freed"] = tuple(sorted(set(d["freed"]) | {x}))
            self.put(st, d)
            return [(st, None)]
        if func is not None:
            n = func.name.rsplit("::", 1)[-1]
            c = self.contracts.get(n) if self.contracts else None
            if c:
                self.counts["contracts"] += 1
                return c(self, I, st, args, site)
        return None

    def keyval(self, I, st, loc, site):
        b = loc[0]
        if b[0] == "sub":
            self.open(st, b)
        if b[0] == "minof":
            return ("minkey", b[1])
        if b[0] == "spine":
            raise AnalysisBroken("key of a node of the left edge")
        if b[0] == "int":
            self.flag(I, st, site, "compares with a null node")
        return I.rawload(st, loc)

    # ---- contracts
    def side(self, I, st, loc, key, site):
        """the search has to go to the side the comparison says"""
        x = loc[0]
        if x[0] != "node":
            return
        k = self.content(I, st, x)[0]
        d = dict(self.get(st)["cmp"])
        r = d.get((k, key))
        if r is None and (key, k) in d:
            r = -d[(key, k)]
        if r is None and key[0] == "minkey":
            return          # the smallest key of the right subtree is looked for there
        if r == 0 or r is None or (r < 0) != (loc[1] == self.LEFT):
            self.flag(I, st, site, "the search goes to the wrong side of a node")

    def insert(self, I, st, args, site):
        key, loc, ch = args[1], I.ptr_loc(args[2]), I.ptr_loc(args[3])
        self.side(I, st, loc, key, site)
        t = self.fold(I, st, loc, site, "insert")
        if t is None:
            return []
        out = []
        for grown, found in ((0, True), (0, False), (1, False)):
            s = st.copy()
            d = self.get(s)
            if found:
                I.rawstore(s, ch, ZERO)
                out.append((s, ZERO))
                continue
            hs = dict(d["h"])
            n = "i%d" % d["nf"]
            u = ("sub", n)
            hs[n] = lin_add(hs.pop(t[1]), mkint(grown))
            d["h"] = tuple(sorted(hs.items()))
            d["seq"] = tuple(u if x == t else x for x in d["seq"])
            d["nf"] += 1
            d["did"] = d["did"] + (("insert", key),)
            self.put(s, d)
            I.rawstore(s, loc, u)
            I.rawstore(s, ch, mkint(grown))
            x = node("ret%d" % d["nf"])
            out.append((s, x))
        return out

    def remove(self, I, st, args, site):
        keyloc, loc, ch = I.ptr_loc(args[1]), I.ptr_loc(args[2]), I.ptr_loc(args[3])
        key = self.keyval(I, st, keyloc, site)
        ismin = key[0] == "minkey"
        self.side(I, st, loc, key, site)
        t = self.fold(I, st, loc, site, "remove")
        if t is None:
            return []
        if ismin and ("sub", key[1]) != t:
            self.flag(I, st, site, "the key removed is not the smallest of the subtree")
        out = []
        for shrunk, found in ((0, False), (0, True), (1, True)):
            if ismin and not found:
                continue
            s = st.copy()
            d = self.get(s)
            if not found:
                I.rawstore(s, ch, ZERO)
                out.append((s, ZERO))
                continue
            hs = dict(d["h"])
            n = "m%d" % d["nf"]
            u = ("sub", n)
            hs[n] = lin_add(hs.pop(t[1]), mkint(shrunk), -1)
            d["h"] = tuple(sorted(hs.items()))
            x = node("ret%d" % d["nf"])
            rk, rd = ("k", "ret"), ("d", "ret")
            if ismin:
                ct = (key, ("mindata", t[1])) if self.data else (key,)
                d["seq"] = tuple(y for q in d["seq"] for y in ((ct, u) if q == t else (q,)))
                rd = ("mindata", t[1])
            else:
                d["seq"] = tuple(u if q == t else q for q in d["seq"])
                d["did"] = d["did"] + (("remove", key),)
            if self.data:
                s.mem[(x, self.KEY + ("first",))] = rk
                s.mem[(x, self.KEY + ("second",))] = rd
            else:
                s.mem[(x, self.KEY)] = rk
            d["nf"] += 1
            d["retdata"] = rd
            self.put(s, d)
            I.rawstore(s, loc, u)
            I.rawstore(s, ch, mkint(shrunk))
            out.append((s, x))
        return out

    def clear(self, I, st, args, site):
        v = args[1]
        d = self.get(st)
        if v == ZERO:
            return [(st, None)]
        h, s, p = self.walk(I, st, v)
        if p:
            self.flag(I, st, site, "clears a tree that is not valid: " + p)
            return []
        ts = {t if t[0] == "sub" else node(t[0][1]) for t in s}
        if ts & set(d["freed"]):
            self.flag(I, st, site, "clears a subtree twice")
        d["freed"] = tuple(sorted(set(d["freed"]) | ts))
        self.put(st, d)
        return [(st, None)]

    # ---- roots
    def start(self, st, roots):
        """roots: list of (location, name)"""
        d = {"h": (), "h0": ZERO, "seq": (), "freed": (), "new": 0, "nf": 0, "cmp": (), "did": (), "retdata": None, "cfg": 0}
        hs = {}
        for loc, n in roots:
            st.mem[loc] = ("sub", n)
            hs[n] = H
            d["seq"] = d["seq"] + (("sub", n),)
        d["h"] = tuple(sorted(hs.items()))
        d["h0"] = H
        self.put(st, d)
        self.counts["configs"] += 1
        if self.what == "body_clear":
            try:
                self.open(st, ("sub", "T"))
            except Split as e:
                return e.states
        return [st]

    def exit(self, I, st, val, site):
        self.counts["exits"] += 1
        getattr(self, "exit_" + self.what)(I, st, val, site)

    def check(self, I, st, v, seq, site):
        """the tree at v is valid and holds seq; returns its height"""
        self.counts["links"] += 1
        h, s, p = self.walk(I, st, v)
        if p:
            self.flag(I, st, site, p)
            return None
        if list(s) != list(seq):
            self.flag(I, st, site, "elements are lost, duplicated or out of order: %s instead of %s" % (order(s), order(seq)))
            return None
        return h

    P, CH = (("arg", "slot"), ()), (("arg", "chg"), ())

    def exit_body_insert(self, I, st, val, site):
        d = self.get(st)
        seq = list(d["seq"])
        v = I.rawload(st, self.P)
        ch = I.rawload(st, self.CH)
        grew = d["new"] or d["did"]
        if d["new"]:
            x = ("alloc", "new0")
            if val != x:
                self.flag(I, st, site, "a new node is made but not returned")
            key = self.content(I, st, x)
            if key[0] != ("arg", "key"):
                self.flag(I, st, site, "the new node does not get the key")
            seq = [key]
        elif d["did"] and (val is None or val[0] != "node" or not val[1].startswith("ret")):
            self.flag(I, st, site, "the node made further down is not returned")
        if not grew and val != ZERO:
            self.flag(I, st, site, "returns a node although nothing was inserted")
        h = self.check(I, st, v, seq, site)
        if h is not None:
            self.delta(I, st, h, d["h0"], ch, 1, site)
        if d["freed"]:
            self.flag(I, st, site, "releases a node")

    def delta(self, I, st, h, h0, ch, sign, site):
        diff = lin_add(h, h0, -1)
        if ch == ZERO or isint(ch):
            if diff != mkint(sign * ch[1]):
                self.flag(I, st, site, "reports a change of height by %d where it is %s" % (sign * ch[1], diff[1] if isint(diff) else "unknown"))
        else:
            self.flag(I, st, site, "the change of height is not reported")

    def exit_body_remove(self, I, st, val, site):
        d = self.get(st)
        v = I.rawload(st, self.P)
        ch = I.rawload(st, self.CH)
        seq = list(d["seq"])
        eq = [x for (x, y), r in d["cmp"] if r == 0]
        gone = None
        if eq:
            gone = [c for c in seq if isinstance(c[0], tuple) and c[0] in eq]
            seq = [c for c in seq if c not in gone]
            if not gone:
                self.flag(I, st, site, "an element is removed more than once")
                return
        if val is None or (val == ZERO) != (not eq and not d["did"]):
            self.flag(I, st, site, "the result does not say whether an element was removed")
        elif val != ZERO:
            h, s, p = self.walk(I, st, v)
            if not p and val in self.nodes2(I, st, v):
                self.flag(I, st, site, "the node returned is still in the tree")
            if self.data:
                got = I.rawload(st, (val, self.KEY + ("second",)))
                want = gone[0][1] if gone else d["retdata"]
                if got != want:
                    self.flag(I, st, site, "the node returned does not carry the removed element's data")
        h = self.check(I, st, v, seq, site)
        if h is not None:
            self.delta(I, st, h, d["h0"], ch, -1, site)
        if d["freed"]:
            self.flag(I, st, site, "releases a node")

    def nodes2(self, I, st, v):
        if v[0] not in ("node", "alloc"):
            return []
        return [v] + self.nodes2(I, st, I.rawload(st, (v, self.LEFT))) + self.nodes2(I, st, I.rawload(st, (v, self.RIGHT)))

    def all(self, d):
        return {t if t[0] == "sub" else node(t[0][1]) for t in d["seq"]}

    def exit_body_clear(self, I, st, val, site):
        d = self.get(st)
        if set(d["freed"]) != self.all(d):
            self.flag(I, st, site, "not every node of the tree is released")

    A = ("arg", "a")

    def exit_top_insert(self, I, st, val, site):
        d = self.get(st)
        self.counts["links"] += 1
        if len(d["did"]) > 1 or any(k != ("arg", "k") for _, k in d["did"]):
            self.flag(I, st, site, "inserts more than once, or another key")
        if bool(d["did"]) != (val != ZERO):
            self.flag(I, st, site, "the result is not the node inserted")
        self.check(I, st, I.rawload(st, (self.A, ("_root",))), d["seq"], site)
        if self.data and val != ZERO:
            v = I.rawload(st, (val, self.KEY + ("second",)))
            if v != ("init", (("arg", "d"), ())):
                self.flag(I, st, site, "the node inserted does not get the data")
        if d["freed"]:
            self.flag(I, st, site, "releases a node")

    def exit_top_remove(self, I, st, val, site):
        d = self.get(st)
        if any(k != ("arg", "k") for _, k in d["did"]):
            self.flag(I, st, site, "removes another key")
        self.check(I, st, I.rawload(st, (self.A, ("_root",))), d["seq"], site)
        if len(d["freed"]) != len(d["did"]):
            self.flag(I, st, site, "the removed node is not released exactly once")
        if I.truth(st, I.cond_of(val)) is not bool(d["did"]):
            self.flag(I, st, site, "the result does not say whether an element was removed")

    def exit_top_replace(self, I, st, val, site):
        d = self.get(st)
        did = dict(d["did"])
        self.check(I, st, I.rawload(st, (self.A, ("_root",))), d["seq"], site)
        if did.get("remove", ("arg", "k")) != ("arg", "k") or did.get("insert", ("arg", "n")) != ("arg", "n"):
            self.flag(I, st, site, "replaces another key")
        if len(d["freed"]) != ("remove" in did):
            self.flag(I, st, site, "the removed node is not released exactly once")
        if "remove" in did and "insert" in did and self.data:
            ins = [l[0] for l, v in st.mem.items() if l[1] == self.KEY + ("second",) and l[0][0] == "node" and v == d["retdata"] and l[0] not in d["freed"]]
            if not ins:
                self.flag(I, st, site, "the data does not move to the new key")

    def exit_top_clear(self, I, st, val, site):
        d = self.get(st)
        self.exit_body_clear(I, st, val, site)
        self.counts["links"] += 1
        if self.what == "top_clear" and I.rawload(st, (self.A, ("_root",))) != ZERO:
            self.flag(I, st, site, "the tree still refers to released nodes")

    exit_top_dtor = exit_top_clear

    def exit_top_move(self, I, st, val, site):
        d = self.get(st)
        to = self.A if (self.A, ("_root",)) in st.mem else ("arg", "r")
        old = {t for t in self.all(d) if t[1].startswith("T")}
        if set(d["freed"]) != old:
            self.flag(I, st, site, "the previous contents are not released")
        got, left = I.rawload(st, (to, ("_root",))), I.rawload(st, (("arg", "b"), ("_root",)))
        h, q, p = self.walk(I, st, got)
        if p or {t if t[0] == "sub" else node(t[0][1]) for t in q} != self.all(d) - old or left != ZERO:
            self.flag(I, st, site, "the contents are not handed over")
        if I.rawload(st, (to, ("_aid",))) != ("init", (("arg", "b"), ("_aid",))):
            self.flag(I, st, site, "the nodes are handed over without the allocator they come from")

    def exit_top_get(self, I, st, val, site):
        d = self.get(st)
        eq = [x for (x, y), r in d["cmp"] if r == 0]
        self.counts["links"] += 1
        if not eq:
            if val != ZERO:
                self.flag(I, st, site, "an element is found although no key compared equal")
            return
        want = [c for c in d["seq"] if isinstance(c[0], tuple) and c[0] in eq]
        if val == ZERO or not want:
            self.flag(I, st, site, "an element with an equal key is not found")
            return
        if I.rawload(st, I.ptr_loc(val)) != want[0][1]:
            self.flag(I, st, site, "another element is found")


def order(s):
    return "[" + " ".join(t[1] if t[0] == "sub" else t[0][1] if t[0][0] in ("k", "minkey") else show(t[0]) for t in s) + "]"


from engine import _lin


CONTRACTS = {"_insert": TreeRule.insert, "_remove": TreeRule.remove, "_clear": TreeRule.clear}
TOP = (("AV_insert", "insert", "a"), ("AD_insert", "insert", "a"), ("AD_insertmove", "insert", "a"), ("AV_remove", "remove", "a"),
       ("AD_remove", "remove", "a"), ("AV_replace", "replace", "a"), ("AD_replace", "replace", "a"), ("AD_clear", "clear", "a"), ("AD_dtor", "dtor", "a"),
       ("AD_moveassign", "move", "ab"), ("AD_movector", "move", "b"), ("AD_getref", "get", "a"))


def jobs(p):
    """(function, what, data, arguments, roots)"""
    out = []
    slot = ("arg", "slot")
    for n, f in sorted(p.funcs.items()):
        m = re.match(r"bss::AVLTree<.*>::(_insert|_remove|_clear)$", f.name)
        if m:
            a = {"_insert": [None, ("arg", "key"), slot, ("arg", "chg")], "_remove": [None, ("arg", "keyp"), slot, ("arg", "chg")], "_clear": [None, ("sub", "T")]}[m.group(1)]
            data = re.match(r"bss::AVLTree<long unsigned int, long unsigned int,", f.name) is not None
            out.append((n, "body" + m.group(1), data, a, [((slot, ()), "T")]))
    for r, w, objs in TOP:
        if "root_" + r in p.funcs:
            out.append(("root_" + r, "top_" + w, r[:2] == "AD", None, [((("arg", x), ("_root",)), "T" if x == "a" else "U") for x in objs]))
    return out


def analyse(p, n, what, data, args, roots, budget=60000):
    r = TreeRule(what, data, CONTRACTS)
    I = Interp(p, r, budget=budget)
    I.run(p.funcs[n], args=args, ts=(), setup=lambda I, st: r.start(st, roots))
    return I, r
