"""Lock typestate and lock-guarded state (rules for the allocators and queues)."""
from engine import *
from gimple import analyse_cfg
import re

RW = {"Lock": ("acq", "W"), "AttemptLock": ("try", "W"), "AttemptStrictLock": ("try", "W"), "Unlock": ("rel", "W"),
      "RLock": ("acq", "R"), "AttemptRLock": ("try", "R"), "RUnlock": ("rel", "R"),
      "Upgrade": ("up", None), "AttemptUpgrade": ("tryup", None), "Downgrade": ("down", None)}

# guarded field -> (sibling lock field, access -> modes allowed)
SH = frozenset("RWUSF")
EX = frozenset("WUSF")      # S: upgraded by an operation that may have let other writers in, nothing looked at since
GUARDS = {
    "greedy": {"_root": ("_lock", {"load": SH, "store": EX, "rmw": EX}),
               "_curpos": ("_lock", {"load": SH, "store": EX, "rmw": SH})},
    "cache": {"_cache": ("_cachelock", {"load": SH, "store": EX, "rmw": SH})},
    "ring": {"_cur": ("_lock", {"load": SH, "store": EX, "rmw": EX}),
             "_list": ("_lock", {"load": EX, "store": EX, "rmw": EX}),
             "_lastsize": ("_lock", {"load": EX, "store": EX, "rmw": EX})},
    "bucket": {"reserved": ("lock", {"load": SH, "store": EX, "rmw": SH})},
    "micro": {"_div": ("_cflag", {"load": EX, "store": EX, "rmw": EX}),
              "_last": ("_pflag", {"load": EX, "store": EX, "rmw": EX})},
    "blockmt": {"_root": ("_flag", {"load": None, "store": EX, "rmw": EX})},
}


class LockRule(Rule):
    """ts = (frozenset of (lock loc, mode), inherited)"""
    max_states = 24
    loop_exact = 1

    def __init__(self, family, owner_path=(), init=False, inherit=None, exit_hold=None, pairing=True, guards=()):
        self.family = family
        self.init = init            # object under construction / exclusively owned
        self.guards = guards
        self.exit_hold = exit_hold
        self.pairing = pairing
        self.counts = {"lock_ops": 0, "guarded": 0, "exits": 0}
        self.order = set()
        self.owned = set()

    # -- helpers
    def held(self, st):
        return dict(st.ts[0])

    def setheld(self, st, h):
        st.ts = (frozenset(h.items()),) + st.ts[1:]

    def nm(self, loc):
        return ".".join(str(p) for p in loc[1]) or "?"

    def bad(self, I, st, site, what):
        if self.pairing:
            I.report(st, site, what)

    def inline(self, I, st, func):
        n = func.name
        if n.startswith("std::") or n.startswith("__gnu_cxx"):
            return bool(re.match(r"std::(__atomic_base|atomic|atomic_flag|forward|move|pair|swap|__addressof|addressof|memory_order|operator)", n))
        return True

    def lockop(self, I, st, op, mode, loc, site):
        self.counts["lock_ops"] += 1
        h = self.held(st)
        cur = h.get(loc)
        if op == "acq" or op == "up":
            for l, m in h.items():
                if l != loc:
                    self.order.add((self.nm(l), self.nm(loc), site.loc))
        if op == "acq":
            if cur:
                self.bad(I, st, site, "lock '%s' acquired while already held (%s): self-deadlock" % (self.nm(loc), cur))
            h[loc] = mode
            self.setheld(st, h)
            return [(st, None)]
        if op == "try":
            s2 = st.copy()
            if cur and cur != "X":
                self.bad(I, st, site, "lock '%s' acquired while already held (%s)" % (self.nm(loc), cur))
            h[loc] = mode
            self.setheld(st, h)
            return [(st, ONE), (s2, ZERO)]
        if op == "rel":
            if cur is None and st.ts[1] and mode == "R":
                st.ts = (st.ts[0], st.ts[1] - 1) + st.ts[2:]
                return [(st, None)]
            if cur != mode:
                self.bad(I, st, site, "lock '%s' released in %s mode but it is %s" % (
                    self.nm(loc), {"R": "shared", "W": "exclusive", "F": "flag"}[mode],
                    {None: "not held", "R": "held shared", "W": "held exclusive", "U": "held upgraded", "S": "held upgraded", "F": "held"}[cur]))
            h.pop(loc, None)
            self.setheld(st, h)
            return [(st, None)]
        if op in ("up", "tryup"):
            if cur != "R":
                self.bad(I, st, site, "lock '%s' upgraded without being held shared" % self.nm(loc))
            out = []
            if op == "tryup":
                s2 = st.copy()
                out.append((s2, ZERO))
            h[loc] = "U" if op == "tryup" else "S"
            self.setheld(st, h)
            return [(st, ONE if op == "tryup" else None)] + out
        if op == "down":
            if cur not in ("U", "S"):
                self.bad(I, st, site, "lock '%s' downgraded without having been upgraded" % self.nm(loc))
            h[loc] = "R"
            self.setheld(st, h)
            return [(st, None)]

    def call(self, I, st, name, func, args, site, lhs):
        n = func.name if func else name
        m = re.match(r"^bss::RWLock::(~?\w+)$", n)
        if m:
            op = m.group(1)
            loc = I.ptr_loc(args[0])
            if op in RW:
                o, mode = RW[op]
                return self.lockop(I, st, o, mode, loc, site)
            if op in ("RWLock", "~RWLock"):
                return [(st, None)]
            return [(st, I.fresh(st, ("rw", site.loc)) if lhs is not None else None)]
        if name in ("free", "realloc"):
            p = args[0]
            self.free(I, st, p, site)
            return [(st, I.fresh(st, ("re", site.loc), "alloc") if name == "realloc" else None)]
        if n.startswith("bss::Semaphore::"):
            return [(st, None)]
        m = re.match(r"^bss::Hash<.*>::(Iterator|Exists|Get|GetValue|GetKey|operator\[\]|\w*[fF]ind)$", re.sub(r"\(.*", "", n))
        if m and args and "cache" in self.guards:
            i = self.find_cache(*I.ptr_loc(args[0]))
            if i is not None:
                self.looked(st, (i[0], i[1] + ("_cachelock",)))
        return None

    def looked(self, st, lloc):
        h = self.held(st)
        if h.get(lloc) == "S":
            h[lloc] = "U"
            self.setheld(st, h)

    def free(self, I, st, p, site):
        h = self.held(st)
        for l in list(h):
            if l[0] == p or (p[0] == "addr" and l[0] == p[1][0]):
                if "bucket" in self.guards and h[l] not in ("W", "U", "S"):
                    self.bad(I, st, site, "bucket freed without holding its lock exclusively")
                del h[l]
        self.setheld(st, h)

    def clobber(self, I, st, loc, site):
        """end of lifetime of an object: its locks are gone"""
        h = self.held(st)
        ch = False
        for l in list(h):
            if l[0] == loc[0] and l[1][:len(loc[1])] == loc[1]:
                # only at the very end of a destructor of the whole object
                fn = st.frames[-1].func.name
                if "~" in fn:
                    del h[l]
                    ch = True
        if ch:
            self.setheld(st, h)

    # -- guarded state
    def guard(self, I, st, loc, acc, site):
        if self.init:
            return
        base, path = loc
        if base[0] in ("var", "g", "str", "alloc"):
            return
        for fam in self.guards:
            for fld, (lk, modes) in GUARDS[fam].items():
                if fam == "cache" and fld == "_cache":
                    i = self.find_cache(base, path)
                    if i is None:
                        continue
                    lloc = (i[0], i[1] + (lk,))
                elif fld in path:
                    k = path.index(fld)
                    if fam in ("micro", "blockmt") and k + 1 < len(path):
                        continue
                    if fam == "ring" and k + 1 < len(path):
                        continue
                    lloc = (base, path[:k] + (lk,))
                else:
                    continue
                need = modes.get(acc)
                if need is None:
                    continue
                self.counts["guarded"] += 1
                cur = self.held(st).get(lloc)
                if cur not in need:
                    I.report(st, site, "%s of '%s' while its lock '%s' is %s" % (
                        {"load": "read", "store": "write", "rmw": "atomic update"}[acc], fld, lk,
                        {None: "not held", "R": "only held shared"}.get(cur, cur)))
                elif cur == "S":
                    if acc == "load" and fam != "cache":
                        self.looked(st, lloc)
                    elif acc == "store":
                        I.report(st, site, "write of '%s' decided by what was seen before its lock '%s' was upgraded (the upgrade lets other writers in)" % (fld, lk))

    def find_cache(self, base, path):
        if "_cache" in path:
            return (base, path[:path.index("_cache")])
        # pointer derived from a field of the hash table
        return find_path(base, "_cache")

    def load(self, I, st, loc, site):
        self.guard(I, st, loc, "load", site)
        if loc[0][0] not in ("var", "g", "str", "ssaval") and loc[1] and loc[1][-1] in ("_freelist", "p", "tag", "_cur", "_gc") and site is not None \
                and "_freelist" in loc[1]:
            return I.fresh(st, ("vol", site.loc) + loc[1])
        return None

    def store(self, I, st, loc, val, site):
        self.guard(I, st, loc, "store", site)

    def atomic(self, I, st, kind, loc, args, order, site):
        acc = "load" if kind == "load" else "store" if kind in ("store", "clear") else "rmw"
        if kind == "tas":
            self.counts["lock_ops"] += 1
            s2 = st.copy()
            h = self.held(st)
            if h.get(loc):
                # test-and-set on a flag we already hold can never succeed
                self.bad(I, st, site, "flag '%s' acquired while already held: self-deadlock" % self.nm(loc))
            h[loc] = "F"
            self.setheld(st, h)
            return [(st, ZERO), (s2, ONE)]
        if kind == "clear" or (kind == "store" and loc in self.held(st)):
            self.counts["lock_ops"] += 1
            if self.init and loc not in self.held(st):
                return [(st, None)]
            return self.lockop(I, st, "rel", "F", loc, site)
        if kind in ("casv", "casb", "cas") and loc[1] and loc[1][-1] == "_gc":
            return self.gc_cas(I, st, kind, loc, args, site)
        self.guard(I, st, loc, acc, site)
        return None

    def gc_cas(self, I, st, kind, loc, args, site):
        if kind == "cas":
            old = I.rawload(st, I.ptr_loc(args[0]))
            new = args[1]
        else:
            old, new = args
        s2 = st.copy()
        tok = I.fresh(s2, ("casf", site.loc))
        # success
        op, np = mksel(old, ("p",)), mksel(new, ("p",))
        if old != new:
            h = self.held(st)
            nlk = (np, ("lock",))
            if nlk in h:
                if h[nlk] not in ("W",):
                    self.bad(I, st, site, "bucket put on the recycle list without its lock held exclusively")
                del h[nlk]
            elif np == ("init", (op, ("next",))) or np == I.rawload(st, (op, ("next",))):
                h[(op, ("lock",))] = "W"      # taken off the list: exclusive ownership is received
            else:
                self.bad(I, st, site, "bucket put on the recycle list without its lock held exclusively")
            self.setheld(st, h)
        if kind == "cas":
            I.rawstore(s2, I.ptr_loc(args[0]), tok)
            return [(st, ONE), (s2, ZERO)]
        if kind == "casb":
            return [(st, ONE), (s2, ZERO)]
        c = mkcmp("==", tok, subst(old, tok, ("old", tok)))
        if c[0] == "cmp":
            s2.facts[c] = False
        return [(st, old), (s2, tok)]

    def exit(self, I, st, val, site):
        self.counts["exits"] += 1
        h = self.held(st)
        if st.ts[1]:
            self.bad(I, st, site, "returns without releasing the shared hold the block represents")
        if self.exit_hold == "bucketR":
            bk = [l for l, m in h.items() if l[1] == ("lock",) and m == "R"]
            if len(bk) != 1 or len(h) != 1:
                self.bad(I, st, site, "an allocation must return holding exactly the shared lock of its bucket, holds: %s" %
                         (sorted("%s:%s" % (self.nm(l), m) for l, m in h.items()) or "nothing"))
            else:
                # the header of the returned block must name that bucket
                b = bk[0][0]
                if not any(l[1] == ("p",) and v == b and l[0][0] != "var" for l, v in st.mem.items()):
                    self.bad(I, st, site, "block header does not record the bucket whose lock is held")
            return
        if self.exit_hold == "any-bucketR":
            h = {l: m for l, m in h.items() if not (l[1] == ("lock",) and m == "R")}
        for l, m in sorted(h.items(), key=lambda x: skey(x[0])):
            self.bad(I, st, site, "returns with lock '%s' still held (%s)" % (self.nm(l), {"R": "shared", "W": "exclusive", "U": "upgraded", "S": "upgraded", "F": "flag"}[m]))


def find_path(v, fld):
    """an access path through field fld inside a value; -> (base, path-before-fld)"""
    if isinstance(v, tuple):
        if len(v) == 2 and v[0] in ("init", "addr") and isinstance(v[1], tuple) and len(v[1]) == 2 and isinstance(v[1][1], tuple) and fld in v[1][1]:
            return (v[1][0], v[1][1][:v[1][1].index(fld)])
        for x in v:
            if isinstance(x, tuple):
                r = find_path(x, fld)
                if r is not None:
                    return r
    return None


ROOTS = [
    # root, guards, init, inherit, exit_hold
    ("root_GreedyAlloc_Alloc", ("greedy",), False, 0, None),
    ("root_GreedyAlloc_Dealloc", ("greedy",), False, 0, None),
    ("root_GreedyAlloc_Clear", ("greedy",), False, 0, None),
    ("root_GreedyAlloc_dtor", ("greedy",), False, 0, None),
    ("root_GreedyAlloc_ctor", ("greedy",), True, 0, None),
    ("root_GreedyAlloc_movector", ("greedy",), True, 0, None),
    ("root_GreedyAlloc_moveassign", ("greedy",), True, 0, None),
    ("root_GreedyPolicy_allocate", ("greedy",), False, 0, None),
    ("root_GreedyPolicy_deallocate", ("greedy",), False, 0, None),
    ("root_CacheAlloc_Alloc", ("greedy", "cache"), False, 0, None),
    ("root_CacheAlloc_Dealloc", ("greedy", "cache"), False, 0, None),
    ("root_CacheAlloc_moveassign", ("greedy", "cache"), True, 0, None),
    ("root_CachePolicy_allocate", ("greedy", "cache"), False, 0, None),
    ("root_CachePolicy_deallocate", ("greedy", "cache"), False, 0, None),
    ("root_RingAlloc_Alloc", ("ring", "bucket"), False, 0, "bucketR"),
    ("root_RingAlloc_Dealloc", ("ring", "bucket"), False, 1, None),
    ("root_RingAlloc_Clear", ("ring", "bucket"), False, 0, None),
    ("root_RingAlloc_dtor", ("ring", "bucket"), True, 0, None),
    ("root_RingAlloc_ctor", ("ring", "bucket"), True, 0, None),
    ("root_RingAlloc_movector", ("ring", "bucket"), True, 0, None),
    ("root_RingAlloc_moveassign", ("ring", "bucket"), True, 0, None),
    ("root_BlockMT_allocate", ("blockmt",), False, 0, None),
    ("root_BlockMT_deallocate", ("blockmt",), False, 0, None),
    ("root_BlockMT_dtor", ("blockmt",), True, 0, None),
    ("root_BlockMT_ctor", ("blockmt",), True, 0, None),
    ("root_BlockMT_movector", ("blockmt",), True, 0, None),
    ("root_BlockMT_moveassign", ("blockmt",), True, 0, None),
    ("root_MicroLockQueue_Push", ("micro",), False, 0, None),
    ("root_MicroLockQueue_PushMove", ("micro",), False, 0, None),
    ("root_MicroLockQueue_Pop", ("micro",), False, 0, None),
    ("root_MicroLockQueue_Peek", ("micro",), False, 0, None),
    ("root_MicroLockQueue_ctor", ("micro",), True, 0, None),
    ("root_MicroLockQueue_dtor", ("micro",), True, 0, None),
    ("root_MicroLockQueueV_Push", ("micro",), False, 0, None),
    ("root_MicroLockQueueV_Pop", ("micro",), False, 0, None),
    ("root_ThreadPool_AddTask", ("micro",), False, 0, None),
    ("root_ThreadPool_AddFunc", ("ring", "bucket", "micro"), False, 0, "any-bucketR"),
    ("root_ThreadPool_Wait", ("micro",), False, 0, None),
]
