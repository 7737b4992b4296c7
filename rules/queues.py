"""Event-order rules for the concurrent queues: what has been done to the node before other threads can see it.

ts = (events, locks): events = tuple of (name, node) in program order (consecutive duplicates collapsed)."""
from engine import *
from gimple import AnalysisBroken
import re

ACQ, REL = (1, 2, 4, 5), (3, 4, 5)


class QueueRule(Rule):
    max_states = 24
    loop_exact = 1

    def __init__(self, kind, op, length):
        self.kind, self.op, self.length = kind, op, length
        self.counts = {"events": 0, "exits": 0}

    def ev(self, st, name, node=None):
        self.counts["events"] += 1
        e = st.ts[0]
        x = (name, node)
        if self.init() and name not in ("destroy", "dealloc"):
            return
        if e.count(x) >= 2:
            return
        if name == "destroy":     # only the node being reclaimed matters
            e = tuple(y for y in e if y[0] != "destroy")
        if name == "dealloc" and self.op != "Pop":
            e = tuple(y for y in e if y[0] != "dealloc")
        st.ts = (e + (x,), st.ts[1])

    def loophead(self, I, st, node, back, site):
        e = tuple(y for y in st.ts[0] if not (y[1] is not None and y[0] in ("destroy", "dealloc") and (self.op != "Pop" or has_old(y[1]))))
        st.ts = (e, st.ts[1])

    def mergekey(self, st):
        return st.ts

    def inline(self, I, st, func):
        n = func.name
        if n.startswith("std::") or n.startswith("__gnu_cxx"):
            return bool(re.match(r"std::(__atomic_base|atomic|atomic_flag|forward|move|pair|swap|__addressof|addressof|memory_order|operator)", n))
        return True

    def call(self, I, st, name, func, args, site, lhs):
        n = func.name if func else name
        if re.search(r"::allocate$", n) and n.startswith("bss::"):
            tok = I.fresh(st, ("node", site.loc), "alloc")
            self.ev(st, "alloc", tok)
            return [(st, tok)]
        if re.search(r"::deallocate$", n) and n.startswith("bss::"):
            p = args[1]
            self.node_use(I, st, p, site, "dealloc")
            self.ev(st, "dealloc", p)
            return [(st, None)]
        m = re.match(r"^_ZN4Item(C[12]|D[12]|aS)E?(.*)$", name)
        if m:
            k = m.group(1)
            if k[0] == "C":
                tgt = I.ptr_loc(args[0])
                if tgt[0][0] != "var" and tgt[1] and tgt[1][-1] == "item":
                    self.touch(I, st, tgt[0], site)
                    src = args[1] if len(args) > 1 else None
                    self.ev(st, "construct" if src is not None else "construct0", tgt[0])
                return [(st, None)]
            if k[0] == "D":
                tgt = I.ptr_loc(args[0])
                if tgt[0][0] != "var":
                    if ("destroy", tgt[0]) in st.ts[0] and tgt[0][0] != "old":
                        I.report(st, site, "element destroyed twice")
                    self.node_use(I, st, tgt[0], site, "destroy")
                    self.ev(st, "destroy", tgt[0])
                return [(st, None)]
            if k == "aS":
                dst, src = I.ptr_loc(args[0]), I.ptr_loc(args[1])
                if dst[0] == ("arg", "i"):
                    self.node_use(I, st, src[0], site, "take")
                    if self.kind == "micro" and not any(l[1] and l[1][-1] == "_cflag" for l in st.ts[1]):
                        I.report(st, site, "item taken from its node without holding the consumer flag")
                    self.ev(st, "take", src[0])
                return [(st, args[0])]
        return None

    def touch(self, I, st, node, site):
        if ("publish", node) in st.ts[0]:
            I.report(st, site, "node modified after other threads can see it")

    def node_use(self, I, st, node, site, what):
        if ("dealloc", node) in st.ts[0]:
            I.report(st, site, "node used after it was released (%s)" % what)
        if what == "dealloc" and not any(e == ("destroy", node) for e in st.ts[0]):
            I.report(st, site, "node released without destroying its element")
        if what in ("destroy", "dealloc") and self.op in ("Pop", "Push"):
            if node[0] == "alloc" or ("publish", node) in st.ts[0]:
                I.report(st, site, "destroys the node it has just published")
            # only nodes already passed by the consumer
            if self.kind == "spsc":
                if self.op == "Pop":
                    I.report(st, site, "consumer releases a node the producer still owns")
                elif not self.passed(I, st, node):
                    I.report(st, site, "releases a node the consumer has not passed yet")
            else:
                if not any(n == "advance" for n, _ in st.ts[0]):
                    I.report(st, site, "releases the head node before the queue has moved past it")

    def passed(self, I, st, node):
        for c, t in st.facts.items():
            if not t and c[1] == "==" and node in (c[2], c[3]):
                o = c[3] if c[2] == node else c[2]
                if any(x and x[0] == "t" and "div" in x for x in subterms(o)):
                    return True
        return False

    def fld(self, loc):
        return loc[1][-1] if loc[1] else None

    def load(self, I, st, loc, site):
        if site is None:
            return None
        base = loc[0]
        if base[0] not in ("var", "g", "str", "ssaval") and loc[1] and ("dealloc", base) in st.ts[0] and base != ("arg", "a"):
            I.report(st, site, "node used after it was released (read)")
        return None

    def store(self, I, st, loc, val, site):
        self.write(I, st, loc, val, -2, site)

    def write(self, I, st, loc, val, order, site):
        f = self.fld(loc)
        if loc[0][0] in ("var", "g"):
            return
        if f == "next":
            if loc[0][0] == "alloc" and val == ZERO:
                self.touch(I, st, loc[0], site)
                self.ev(st, "terminate", loc[0])
            elif val[0] == "alloc":
                if self.kind == "micro":
                    self.publish(I, st, val, order, site)
                self.ev(st, "link", val)
        elif f == "_last":
            if self.kind == "spsc":
                if self.op == "Pop":
                    I.report(st, site, "consumer modifies the producer's end")
                self.publish(I, st, val, order, site)
            elif not self.init() and not any(l[1] and l[1][-1] == "_pflag" for l in st.ts[1]):
                I.report(st, site, "tail pointer written without the producer flag")
            self.ev(st, "tail", val)
        elif f == "_div":
            if self.op == "Push":
                I.report(st, site, "producer modifies the consumer's end")
            if self.kind == "spsc" and order not in REL:
                I.report(st, site, "consumer position published without release ordering")
            self.ev(st, "advance", val)
        elif f == "_first":
            if self.op == "Pop":
                I.report(st, site, "consumer modifies the producer's garbage pointer")

    def init(self):
        return self.op not in ("Push", "Pop", "Peek")

    def publish(self, I, st, val, order, site):
        if self.init():
            return
        if order not in REL:
            I.report(st, site, "node published without release ordering")
        ev = st.ts[0]
        if not any(n == "construct" and x == val for n, x in ev):
            I.report(st, site, "node published before its element is constructed")
        if ("terminate", val) not in ev:
            I.report(st, site, "node published before its link is initialised")
        if self.kind == "spsc" and ("link", val) not in ev:
            I.report(st, site, "node published before it is linked")
        if ("publish", val) in ev:
            I.report(st, site, "node published twice")
        self.ev(st, "publish", val)

    def atomic(self, I, st, kind, loc, args, order, site):
        f = self.fld(loc)
        if kind == "tas":
            s2 = st.copy()
            st.ts = (st.ts[0], st.ts[1] | {loc})
            return [(st, ZERO), (s2, ONE)]
        if kind == "clear":
            st.ts = (st.ts[0], st.ts[1] - {loc})
            return [(st, None)]
        if kind == "load":
            if loc[0][0] not in ("var", "g") and ("dealloc", loc[0]) in st.ts[0] and loc[0] != ("arg", "a"):
                I.report(st, site, "node used after it was released (read)")
            if f in ("_div", "_last"):
                foreign = (f == "_div") == (self.op == "Push")
                tok = I.fresh(st, ("div" if f == "_div" else "last", site.loc))
                if foreign and self.op in ("Push", "Pop") and order not in ACQ:
                    I.report(st, site, "the other side's position is read without acquire ordering")
                if not foreign and self.kind == "spsc":
                    # our own end: only this thread changes it
                    v = I.rawload(st, loc)
                    return [(st, v)]
                return [(st, tok)]
            if f == "next":
                if self.kind == "micro" and order not in ACQ:
                    I.report(st, site, "link read without acquire ordering")
                return [(st, I.rawload(st, loc))]
            return None
        if kind == "store":
            self.write(I, st, loc, args[0], order, site)
            I.rawstore(st, loc, args[0])
            return [(st, None)]
        if f == "_length":
            d = None
            if kind in ("fetch_add", "add_fetch") and args[0] == ONE or kind in ("fetch_sub", "sub_fetch") and isint(args[0]) and args[0][1] in (-1, (1 << 64) - 1):
                d = "inc"
            if kind in ("fetch_sub", "sub_fetch") and args[0] == ONE or kind in ("fetch_add", "add_fetch") and isint(args[0]) and args[0][1] in (-1, (1 << 64) - 1):
                d = "dec"
            self.ev(st, d or "length?")
            return None
        return None

    def count(self, ev, name):
        return sum(1 for n, _ in ev if n == name)

    def exit(self, I, st, val, site):
        self.counts["exits"] += 1
        ev = st.ts[0]

        def need(name, n, what):
            if self.count(ev, name) != n:
                I.report(st, site, what)
        if self.op == "Push":
            need("publish", 1, "push returns without publishing exactly one node")
            need("alloc", 1, "push does not allocate exactly one node")
            need("link", 1, "push returns without linking the node exactly once")
            need("tail", 1, "push returns without advancing the tail exactly once")
            if self.length:
                need("inc", 1, "length not incremented exactly once by a push")
            need("dec", 0, "length decremented by a push")
        elif self.op == "Pop":
            if val is None or not isint(val):
                raise AnalysisBroken("undecided result of Pop")
            if val[1]:
                need("take", 1, "pop reports success without taking exactly one item")
                need("advance", 1, "pop reports success without advancing the queue exactly once")
                t = [x for n, x in ev if n == "take"]
                a = [x for n, x in ev if n == "advance"]
                if t and a and t[0] != a[0]:
                    I.report(st, site, "the item taken is not the one the queue advances to")
                if self.length:
                    need("dec", 1, "length not decremented exactly once by a successful pop")
                if self.kind == "micro":
                    need("dealloc", 1, "the old head node is not released exactly once")
                if t and not self.nonempty(I, st, t[0]):
                    I.report(st, site, "an item is taken without establishing that the queue is not empty")
            else:
                for n in ("take", "advance", "dealloc", "destroy"):
                    need(n, 0, "pop reports an empty queue but changes it (%s)" % n)
                if self.length:
                    need("dec", 0, "length decremented by a failed pop")

    def nonempty(self, I, st, node):
        if I.truth(st, mkcmp("==", node, ZERO)) is False and self.kind == "micro":
            return True
        if self.kind == "spsc":
            for c, t in st.facts.items():
                if c[1] == "==" and not t and any(x and x[0] == "t" and "last" in x for x in subterms(c)):
                    return True
        return False


ROOTS = [
    ("root_LocklessQueue_Push", "spsc", "Push", True), ("root_LocklessQueue_PushMove", "spsc", "Push", True),
    ("root_LocklessQueueV_Push", "spsc", "Push", False),
    ("root_LocklessQueue_Pop", "spsc", "Pop", True), ("root_LocklessQueueV_Pop", "spsc", "Pop", False),
    ("root_MicroLockQueue_Push", "micro", "Push", True), ("root_MicroLockQueue_PushMove", "micro", "Push", True),
    ("root_MicroLockQueueV_Push", "micro", "Push", False),
    ("root_MicroLockQueue_Pop", "micro", "Pop", True), ("root_MicroLockQueueV_Pop", "micro", "Pop", False),
    ("root_LocklessQueue_dtor", "spsc", "dtor", True), ("root_MicroLockQueue_dtor", "micro", "dtor", True),
    ("root_LocklessQueue_ctor", "spsc", "ctor", True), ("root_MicroLockQueue_ctor", "micro", "ctor", True),
]
