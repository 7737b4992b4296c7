"""Task accounting of the thread pool: what is reserved, queued, signalled, run and retired on every path.

Ghost counters live in memory cells (("ghost", name), ()) so that loops keep them related to induction variables."""
from engine import *
from gimple import AnalysisBroken
import re

ACQ, REL = (1, 2, 4, 5), (3, 4, 5)
TASKF, TASKA = ("task", "fn"), ("task", "arg")


class PoolRule(Rule):
    max_states = 24
    loop_exact = 1
    affine = True

    def __init__(self, op):
        self.op = op
        self.counts = {"events": 0, "exits": 0}

    def nonneg(self, t):
        return t[0] == "arg" or t[0] == "init" and t[1][1] and t[1][1][-1] == "_length"

    def mergekey(self, st):
        return tuple(x for x in st.ts if x[0] != "run" and x[0] != "tasks") if isinstance(st.ts, tuple) else st.ts

    def widen_ts(self, a, b):
        d = dict(a)
        return tuple(sorted(((k, v if d.get(k) == v else None) for k, v in b), key=repr))

    # -- typestate as sorted (key, value) pairs
    def get(self, st, k, d=None):
        return dict(st.ts).get(k, d)

    def put(self, st, k, v):
        d = dict(st.ts)
        d[k] = v
        st.ts = tuple(sorted(d.items(), key=repr))

    def ghost(self, st, k):
        return st.mem.get((("ghost", k), ()), ZERO)

    def add(self, st, k, v):
        st.mem[(("ghost", k), ())] = lin_add(self.ghost(st, k), v)

    def provelt(self, I, st, a, b):
        return I.truth(st, mkcmp("<", a, b)) is True

    def provege(self, I, st, a, b):
        return I.truth(st, mkcmp("<", a, b)) is False

    def inline(self, I, st, func):
        n = func.name
        if n.startswith("std::") or n.startswith("__gnu_cxx"):
            return bool(re.match(r"std::(__atomic_base|atomic|atomic_flag|forward|move|pair|swap|__addressof|addressof|memory_order|operator|ref|_Head|_Tuple|tuple|get)", n))
        return True

    def ev(self):
        self.counts["events"] += 1

    def pool(self, loc):
        return loc[1] and loc[1][-1] in ("_tasks", "_run")

    def call(self, I, st, name, func, args, site, lhs):
        n = func.name if func else name
        if name == "<indirect>":
            self.ev()
            if self.op in ("worker", "Wait", "dtor"):
                if I.callee_val != TASKF or args != [TASKA]:
                    I.report(st, site, "calls something other than the task it took from the queue")
                if self.get(st, "task") != "popped":
                    I.report(st, site, "task function called %s" % ("twice" if self.get(st, "task") == "ran" else "without having taken a task"))
                self.put(st, "task", "ran")
                return [(st, None)]
            if self.op == "callfn":
                self.seq(I, st, site, "call")
            return [(st, None)]
        m = re.match(r"bss::MicroLockQueue<.*>::(\w+)$", n) or re.match(r"bss::LocklessQueue<.*>::(\w+)$", n)
        if m and m.group(1) in ("Push", "Pop", "Peek"):
            self.ev()
            self.accessed(I, st, site)
            if m.group(1) == "Push":
                self.pushed(I, st, args[1], site)
                return [(st, None)]
            if m.group(1) == "Pop":
                self.idle(I, st, site, "takes the next task")
                s2 = st.copy()
                self.put(st, "task", "popped")
                self.put(st, "drained", False)
                I.rawstore(st, I.ptr_loc(args[1]), ("pack", ((("first",), TASKF), (("second",), TASKA)), ("task", "x")))
                self.put(s2, "drained", True)
                self.put(s2, "popped_any", True)
                self.put(st, "popped_any", True)
                return [(st, ONE), (s2, ZERO)]
        if re.search(r"bss::Semaphore::Notify$", n) and self.op != "notify":
            self.ev()
            self.accessed(I, st, site)
            k = args[1]
            self.add(st, "notified", k)
            if self.op in ("AddTask", "AddFunc"):
                if not self.provege(I, st, self.ghost(st, "pushed"), self.ghost(st, "notified")):
                    I.report(st, site, "workers are signalled before the tasks are queued")
            if self.op == "dtor" and not self.get(st, "negated"):
                I.report(st, site, "workers are woken before they are told to stop")
            return [(st, ONE)]
        if re.search(r"bss::Semaphore::Wait$", n) and self.op != "semwait":
            self.ev()
            self.accessed(I, st, site)
            self.idle(I, st, site, "sleeps")
            if self.get(st, "drained") is False:
                I.report(st, site, "sleeps although the queue may still hold tasks")
            return [(st, ONE)]
        if name == "sem_post":
            self.ev()
            s2 = st.copy()
            self.add(st, "posted", ONE)
            self.put(s2, "failed", True)
            return [(st, ZERO), (s2, mkint(-1))]
        if name == "sem_wait":
            self.ev()
            s2 = st.copy()
            self.put(st, "waited", True)
            return [(st, ZERO), (s2, mkint(-1))]
        if re.match(r"std::thread::thread<", n) or n.endswith("std::thread::_M_start_thread"):
            self.ev()
            self.add(st, "threads", ONE)
            if not self.provege(I, st, self.ghost(st, "run"), self.ghost(st, "threads")):
                I.report(st, site, "a worker thread is started before it is counted")
            return [(st, None)]
        if re.match(r"bss::RingAlloc\w*(<.*>)?::(Alloc|AllocT<.*>)$", n):
            self.ev()
            tok = I.fresh(st, ("block", site.loc), "alloc")
            self.put(st, "block", tok)
            return [(st, tok)]
        if re.match(r"bss::RingAlloc\w*(<.*>)?::Dealloc$", n):
            self.ev()
            if self.op == "callfn":
                if args[1] != ("arg", "p"):
                    I.report(st, site, "releases something other than the stored call")
                if not contains(args[0], ("arg", "p")):
                    I.report(st, site, "returns the block to an allocator other than the one recorded with it")
                self.seq(I, st, site, "release")
            return [(st, None)]
        if re.match(r"bss::StoreFunction<.*>::StoreFunction$", n):
            self.put(st, "built", args[0])
            return [(st, None)]
        if re.match(r"bss::StoreFunction<.*>::Call$", n) and self.op == "callfn":
            self.seq(I, st, site, "call")
            return [(st, None)]
        if re.match(r"bss::StoreFunction<.*>::~StoreFunction$", n) and self.op == "callfn":
            self.seq(I, st, site, "destroy")
            return [(st, None)]
        if re.match(r"bss::(DynArray|Array)<bss::Thread.*>::~", n) and self.op == "dtor":
            self.final(I, st, site)
            self.put(st, "joined", True)
            return [(st, None)]
        if re.match(r"bss::(MicroLockQueue|LocklessQueue|RingAlloc\w*)<?.*::(~|MicroLockQueue$|RingAllocVoid$|LocklessQueue$)", n):
            if self.op == "dtor" and "~" in n and self.get(st, "stopped") is not True:
                self.final(I, st, site)
            return [(st, None)]
        if func and re.match(r"bss::ThreadPool::AddTask$", n) and self.op == "AddFunc":
            self.ev()
            blk = self.get(st, "block")
            if args[2] != blk:
                I.report(st, site, "the queued call is not the one that was stored")
            b = self.get(st, "built")
            if b is None or not contains(b, blk):
                I.report(st, site, "the call is queued before it is stored")
            v = [x for l, x in st.mem.items() if l[0] == blk and l[1] == ("second",)]
            if not v or not contains(v[0], ("arg", "a")):
                I.report(st, site, "the call is queued before its allocator is recorded")
            if len(args) > 3 and args[3] != ONE:
                I.report(st, site, "a stored call is queued other than once (it releases itself after running)")
            if self.get(st, "queued"):
                I.report(st, site, "a stored call is queued twice")
            self.put(st, "queued", True)
            return [(st, None)]
        return None

    def seq(self, I, st, site, what):
        self.ev()
        s = self.get(st, "seq", ())
        want = ("call", "destroy", "release")
        if len(s) >= 3 or want[len(s)] != what:
            I.report(st, site, "stored call: %s out of order (after %s)" % (what, ", ".join(s) or "nothing"))
        self.put(st, "seq", s + (what,) if len(s) < 3 else s)

    def load(self, I, st, loc, site):
        if self.op == "callfn" and loc[0] == ("arg", "p") and "release" in self.get(st, "seq", ()):
            I.report(st, site, "stored call used after it was released")
        return None

    def store(self, I, st, loc, val, site):
        if self.op == "callfn" and loc[0] == ("arg", "p") and "release" in self.get(st, "seq", ()):
            I.report(st, site, "stored call used after it was released")
        if self.op == "AddFunc" and self.get(st, "queued") and loc[0] == self.get(st, "block"):
            I.report(st, site, "stored call modified after it was queued")

    def accessed(self, I, st, site):
        if self.get(st, "left"):
            I.report(st, site, "worker touches the pool after reporting that it has stopped")

    def idle(self, I, st, site, what):
        t = self.get(st, "task")
        if t == "popped":
            I.report(st, site, "%s although the task it took has not been run" % what)
        elif t == "ran":
            I.report(st, site, "%s although the finished task is still counted as pending" % what)
        if t == "ran" or t == "popped":
            self.put(st, "task", None)

    def pushed(self, I, st, ref, site):
        self.add(st, "pushed", ONE)
        v = I.rawload(st, I.ptr_loc(ref))
        f, a = mksel(v, ("first",)), mksel(v, ("second",))
        if self.op == "AddTask" and (f != ("arg", "f") or a != ("arg", "p")):
            I.report(st, site, "the queued task is not the function and argument given")
        if not self.provege(I, st, self.ghost(st, "reserved"), self.ghost(st, "pushed")):
            I.report(st, site, "a task is queued before it is counted as pending")

    def delta(self, kind, args):
        v = args[0]
        if isint(v) and v[1] >= 1 << 63:
            v = mkint(v[1] - (1 << 64))
        if kind in ("fetch_add", "add_fetch"):
            return v
        if kind in ("fetch_sub", "sub_fetch"):
            return lin_scale(v, -1)
        return None

    def atomic(self, I, st, kind, loc, args, order, site):
        if not self.pool(loc):
            return None
        f = loc[1][-1]
        self.ev()
        self.accessed(I, st, site)
        if kind == "load":
            tok = I.fresh(st, ("ld", f, site.loc))
            if order not in ACQ and self.op not in ("AddTask",):
                self.put(st, f[1:], None)
            else:
                self.put(st, f[1:], tok)
            return [(st, tok)]
        d = self.delta(kind, args)
        if f == "_tasks":
            if self.op in ("AddTask", "AddFunc") and d is not None:
                self.add(st, "reserved", d)
                return None
            if self.op in ("worker", "Wait", "dtor") and d is not None:
                if d != mkint(-1):
                    I.report(st, site, "one finished task changes the pending count by something other than one")
                t = self.get(st, "task")
                if t == "popped":
                    I.report(st, site, "task counted as finished before it has run")
                elif t != "ran":
                    I.report(st, site, "a task is counted as finished without having been run")
                if order not in REL:
                    I.report(st, site, "completion of a task is announced without release ordering")
                self.put(st, "task", None)
                return None
            if kind == "store" and self.op == "ctor":
                return None
            I.report(st, site, "pending-task count changed outside its protocol")
            return None
        # _run
        if d is not None:
            if self.op in ("AddThreads", "ctor") and d == ONE:
                self.add(st, "run", ONE)
                return None
            if self.op in ("AddThreads", "ctor"):
                self.add(st, "run", d)
                return None
            if self.op == "worker":
                r = self.get(st, "run")
                if d != ONE:
                    I.report(st, site, "a stopping worker changes the stop count by something other than one")
                if r is None or I.truth(st, mkcmp("<", ZERO, r)) is not False:
                    I.report(st, site, "a worker stops although it was not told to")
                self.idle(I, st, site, "stops")
                self.add(st, "left", ONE)
                self.put(st, "left", True)
                return None
        if kind in ("store", "xchg") and self.op == "dtor":
            r = self.get(st, "run")
            self.waited(I, st, site, "workers are told to stop while tasks are still pending")
            if r is None or args[0] != lin_scale(r, -1):
                I.report(st, site, "the stop count is not the negated number of workers")
            self.put(st, "negated", True)
            self.put(st, "run", None)
            return None
        I.report(st, site, "worker count changed outside its protocol")
        return None

    def waited(self, I, st, site, what):
        self.idle(I, st, site, "finishes")
        t = self.get(st, "tasks")
        if t is None or (I.truth(st, mkcmp("<", ZERO, t)) is not False and I.truth(st, mkcmp("==", t, ZERO)) is not True):
            if t != ZERO:
                I.report(st, site, what)

    def final(self, I, st, site):
        """before the members go away"""
        if not self.get(st, "negated"):
            I.report(st, site, "pool torn down without telling the workers to stop")
        g = self.ghost(st, "notified")
        r = self.get(st, "run")
        if r is None or I.truth(st, mkcmp("<", r, ZERO)) is not False:
            I.report(st, site, "pool torn down before every worker reported that it has stopped")
        if isint(g):
            I.report(st, site, "pool torn down without waking the workers")
        elif not any(x[0] == "init" and x[1][1] and "_threads" in x[1][1] for x in subterms(g)):
            I.report(st, site, "pool torn down without waking every worker")
        self.put(st, "stopped", True)

    def rename_run(self):
        pass

    def exit(self, I, st, val, site):
        self.counts["exits"] += 1
        op = self.op
        if op == "AddTask":
            res, pu, no = self.ghost(st, "reserved"), self.ghost(st, "pushed"), self.ghost(st, "notified")
            n = ("arg", "n")
            if not self.provege(I, st, pu, res):
                I.report(st, site, "fewer tasks are queued than are counted as pending")
            if not self.provege(I, st, no, pu):
                I.report(st, site, "tasks are queued without signalling the workers for each of them")
            z = I.truth(st, mkcmp("==", n, ZERO))
            n = st.eqs.get(n, n)
            if z is not True and n != ZERO and lin_add(res, n, -1) != ZERO:
                I.report(st, site, "the number of tasks counted is not the number requested")
        elif op == "AddFunc":
            if not self.get(st, "queued"):
                I.report(st, site, "the stored call is never queued")
        elif op in ("AddThreads", "ctor"):
            ru, th = self.ghost(st, "run"), self.ghost(st, "threads")
            if not self.provege(I, st, th, ru):
                I.report(st, site, "more workers are counted than started")
            n = ("arg", "n")
            n = st.eqs.get(n, n)
            if not self.provege(I, st, th, n) or not self.provege(I, st, n, th):
                I.report(st, site, "the number of workers started is not the number requested")
        elif op == "Wait":
            self.waited(I, st, site, "returns before every pending task has finished")
        elif op == "worker":
            if self.ghost(st, "left") != ONE:
                I.report(st, site, "a stopping worker does not report exactly once")
        elif op == "dtor":
            if not self.get(st, "stopped"):
                self.final(I, st, site)
            if not self.get(st, "joined"):
                I.report(st, site, "pool torn down without joining its threads")
        elif op == "callfn":
            if self.get(st, "seq", ()) != ("call", "destroy", "release"):
                I.report(st, site, "a stored call is not called, destroyed and released exactly once")
        elif op == "notify":
            if val == ONE or I.truth(st, I.cond_of(val)) is True:
                p, n = self.ghost(st, "posted"), ("arg", "n")
                n = st.eqs.get(n, n)
                if not self.provege(I, st, p, n) or not self.provege(I, st, n, p):
                    I.report(st, site, "reports success without raising the semaphore by the requested amount")
            elif not self.get(st, "failed"):
                I.report(st, site, "reports failure although nothing failed")
        elif op == "semwait":
            if I.truth(st, I.cond_of(val)) is not False and not self.get(st, "waited"):
                I.report(st, site, "reports success without having lowered the semaphore")


ROOTS = [("root_ThreadPool_AddTask", "AddTask"), ("root_ThreadPool_AddFunc", "AddFunc"), ("root_ThreadPool_AddThreads", "AddThreads"),
         ("root_ThreadPool_Wait", "Wait"), ("root_ThreadPool_dtor", "dtor"), ("root_ThreadPool_worker", "worker"),
         ("root_ThreadPool_callfn", "callfn"), ("root_ThreadPool_ctor", "ctor"), ("root_Semaphore_Notify", "notify"), ("root_Semaphore_Wait", "semwait")]
