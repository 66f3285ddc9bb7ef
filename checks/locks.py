"""What the two threads of a session may assume about each other (C19).

One PUT is followed (x, arbitrary).  The state both threads see:
  q          x is in the queue                      (lock P: queues.puts.mutex)
  tau        pass of the background thread that took x; 0: none
  taken      passes that have taken the queue       (P; only the background thread)
  completed  passes whose results are stored        (lock A: async_puts.mutex; background)
  cleared    `completed` when done_check was last cleared   (A; only the user's thread)
  ret        x's result has been handed to the user (A; only the user's thread)
Invariants: 0 <= cleared <= completed <= taken <= completed + 1, tau <= taken,
q => tau = 0 and not ret, ret => tau <= completed; with A: done_check
if and only if completed > cleared, and the stored results hold x's exactly if
1 <= tau <= completed and not ret.
Taking a lock: everything it protects changes as the other thread may change it
(`env`), the invariants hold.  Releasing it, waiting: the invariants are
obligations, and so is that only this thread's own kind of change was made.
What a queue or a list of results holds of x is a truth value that moves with
the object (vectors, lists by contract); dropping it is an error."""
from collections import namedtuple
from engine.session import *
from engine.loops import LoopSpec, RegionInv, new_nodes
from engine import terms as T
from checks.msgs import *
from checks.queues import clock, Reset, MAXDS, CALLS, call_name, u_call
from checks import queues
from checks.stores import plain
from engine.exec import find_loops
from checks import flush
from checks.flush import Opaque, isnull, logging_off

SOURCES = list(dict.fromkeys(flush.SOURCES + queues.SOURCES + ["src/hxhim/destroy.cpp", "specs/locks.cpp"]))
S = namedtuple("S", "q tau taken completed cleared ret")
QV = "std::vector<std::list<Message::Request::BPut*,std::allocator<Message::Request::BPut*>>,std::allocator<std::list<Message::Request::BPut*,std::allocator<Message::Request::BPut*>>>>::"
LB = "std::list<Message::Request::BPut*,std::allocator<Message::Request::BPut*>>::"
WAIT = "std::condition_variable::wait(std::unique_lock<std::mutex>&)"


def inv(s):
    return T.and_(T.le(0, s.cleared), T.le(s.cleared, s.completed), T.le(s.completed, s.taken), T.le(s.taken, T.add(s.completed, 1)),
                  T.le(0, s.tau), T.le(s.tau, s.taken), T.implies(s.q, T.and_(T.eq(s.tau, 0), T.not_(s.ret))), T.implies(s.ret, T.le(s.tau, s.completed)))


def env(role, a, b, held):
    """what the other thread may have done between a and b, while `held` is held"""
    P, A = "P" in held, "A" in held
    if role == "user":            # ... the background thread
        f = [T.eq(b.ret, a.ret), T.eq(b.cleared, a.cleared), T.le(a.taken, b.taken), T.le(a.completed, b.completed),
             T.implies(a.q, T.or_(T.and_(b.q, T.eq(b.taken, a.taken), T.eq(b.tau, a.tau)),
                                  T.and_(T.not_(b.q), T.eq(b.tau, T.add(a.taken, 1)), T.lt(a.taken, b.taken)))),
             T.implies(T.not_(a.q), T.and_(T.not_(b.q), T.eq(b.tau, a.tau)))]
        if P:
            f += [T.eq(b.taken, a.taken), T.eq(b.q, a.q), T.eq(b.tau, a.tau)]
        if A:
            f += [T.eq(b.completed, a.completed)]
    else:                         # ... the user's thread
        f = [T.eq(b.taken, a.taken), T.eq(b.completed, a.completed), T.eq(b.tau, a.tau), T.implies(a.ret, b.ret), T.le(a.cleared, b.cleared),
             T.implies(T.and_(b.ret, T.not_(a.ret)), T.or_(T.eq(a.tau, 0), T.le(a.tau, a.completed)))]
        if P:
            f += [T.eq(b.q, a.q)]
        if A:
            f += [T.eq(b.cleared, a.cleared), T.implies(T.le(1, a.tau), T.eq(b.ret, a.ret))]
    return T.and_(*f)


def alone(st):
    """the other thread does not run (yet, or any more)"""
    return st.ghost.get("alone", (False,))[0]


class Threads:
    def __init__(self, u, role, **fields):
        self.u, ex = u, u.ex
        self.ex, self.role = ex, role
        ex.demangle_all()
        clock(u)
        logging_off(u)
        o = self.o = lambda n: u.const("off_hp_" + n)
        f = {o("total"): (I64, ex.var("total", 1, MAXDS)), o("max_queued"): (I64, ex.var("max_queued", 0, 2 ** 60)), o("comm_rank"): (I32, ex.var("rank", 0, 2 ** 31 - 1)), o("async"): (I8, I(1))}
        for k, v in fields.items():
            f[o(k)] = v
        self.hp = ex.new_region("hp", "param", I(u.const("size_hp")), StructBase("hp", f))
        self.hx = Ptr(ex.new_region("hx", "param", I(u.const("size_hx")), StructBase("hx", {u.const("off_hx_p"): (PTRT, Ptr(self.hp, 0))})), 0)
        self.locks = {o("puts_mutex"): "P", o("async_mutex"): "A"}
        self.conds = {o("start_processing"): "P", o("done"): "A"}
        self.fields = {o("puts_count"): (8, "P"), o("flushed"): (1, "P"), o("puts"): (u.const("size_puts"), "P"), o("results"): (8, "A"), o("done_check"): (1, "A")}
        self.closing = False
        ex.access = self.access
        t = {"vector": self.new, "~vector": self.drop, "operator=": self.move, "clear": self.clear, "resize": self.resize, "swap": self.swap,
             "begin": self.first, "end": self.last, "cbegin": self.first, "cend": self.last, "size": self.size, "empty": lambda ex, st, a: T.eq(self.size(ex, st, a), 0)}
        flush.methods(ex, QV, t, "the queues")
        for nm, d in ex.demangled.items():
            if plain(d).startswith((QV + "operator=(std::vector", QV + "vector(std::vector")) and plain(d).endswith("const&)"):
                ex.contracts[nm] = flush.not_covered("a copy of the queues", d)
        self.N, self.LS = ex.var("lists", 0, MAXDS), u.const("size_list")
        self.lists = ex.new_region("lists", "heap", T.mulc(self.N, self.LS), Opaque("a list of batches"))
        flush.methods(ex, LB, {"begin": self.head, "end": self.tail, "cbegin": self.head, "cend": self.tail, "clear": self.empty}, "a list of batches")
        for nm, d in ex.demangled.items():
            p = plain(d)
            if d == "std::mutex::lock()":
                ex.contracts[nm] = self.lock
            elif d == "std::mutex::unlock()":
                ex.contracts[nm] = self.unlock
            elif d == WAIT:
                ex.contracts[nm] = self.wait
            elif d in ("std::condition_variable::notify_all()", "std::condition_variable::notify_one()"):
                ex.contracts[nm] = self.notify
            elif d.startswith("std::atomic<bool>::operator bool() const") or d.startswith("std::atomic<bool>::load("):
                ex.contracts[nm] = self.running
            elif d.startswith("hxhim::Results* hxhim::process<Message::Request::BPut,"):
                ex.contracts[nm] = self.process
            elif d.startswith("hxhim::Results* construct<hxhim::Results>"):
                ex.contracts[nm] = lambda ex, st, a: self.make(st, T.FALSE)
            elif d.startswith("hxhim::Results::Append("):
                ex.contracts[nm] = self.append
            elif d.startswith(("void destruct<hxhim::Results>(", "hxhim::Results::Destroy(")):
                ex.contracts[nm] = self.destroy
            elif d.startswith("void destruct<Message::Request::BPut>("):
                ex.contracts[nm] = self.released
            elif d == "std::atomic<bool>::operator=(bool)" or d.startswith("std::atomic<bool>::store("):
                ex.contracts[nm] = self.sets
            elif d.startswith("std::thread::thread<void (&)(hxhim_t*), hxhim_t*&"):
                ex.contracts[nm] = self.begin
            elif d == "std::thread::operator=(std::thread&&)":
                ex.contracts[nm] = self.keep
            elif d == "std::thread::~thread()":
                ex.contracts[nm] = self.forget
        ex.contracts.setdefault(WAIT, self.wait)
        for d in ("std::condition_variable::notify_all()", "std::condition_variable::notify_one()"):
            ex.contracts.setdefault(d, self.notify)
        ex.contracts["std::thread::join()"] = self.join
        ex.loopspec = self.loop
        for n, w in (("std::mutex", "excludes the other thread; what it protects may have changed when it is taken"), ("std::condition_variable", "waiting releases the lock, returns with it; may wake for no reason"),
                     ("hxhim::process", "contract (C16): sends everything in the queues once, returns its results"), ("hxhim::Results", "lists of results by contract (C15)"), ("std::vector of queues", "moves, clears, resizes, swaps as the standard says")):
            ex.trusted.setdefault(n, w)

    # -------------------------------------------------------------- the state
    def fresh(self, st, what="s"):
        n = st.ghost.get("n", (0,))[0] + 1
        st.ghost["n"] = (n,)
        e = "%s%d." % (what, n)
        self.ex.tick()
        return S(T.var(e + "q", "Bool"), *(self.ex.var(e + k, 0, 2 ** 62) for k in ("tau", "taken", "completed", "cleared")), T.var(e + "ret", "Bool")), e

    def start(self, st, held=()):
        """an arbitrary state that satisfies the invariants"""
        s, e = self.fresh(st, "start")
        self.ex.assume(st, inv(s))
        st.ghost["S"], st.ghost["held"], st.ghost["base"] = s, held, s
        st.ghost["lists"] = st.ghost["vecs"] = ()
        st.ghost["asked"] = st.ghost["stop"] = (False, False)
        st.ghost["alone"] = (False,)
        return s

    def field(self, st, name, v, ty):
        self.ex.put(st, self.hp, Node(st.mem.get(self.hp), "S", I(self.o(name)), I(self.ex.mod_size(ty)), v, ty))

    def now(self, st, name, ty):
        return self.ex.load(st, Ptr(self.hp, self.o(name)), ty, check=False)

    def interfere(self, st):
        """the other thread runs"""
        if alone(st):
            return
        s0, held = st.ghost["S"], st.ghost["held"]
        s, e = self.fresh(st)
        self.guarantee(st)
        self.ex.assume(st, T.and_(inv(s), env(self.role, s0, s, held)))
        st.ghost["S"] = st.ghost["base"] = s

    def guarantee(self, st):
        """what this thread did since the other one last ran is what that one expects of it"""
        if alone(st):
            return
        free = tuple(m for m in ("A", "P") if m not in st.ghost["held"])
        self.ex.oblig(st, env("background" if self.role == "user" else "user", st.ghost["base"], st.ghost["S"], free), "the other thread is not surprised")
        st.ghost["base"] = st.ghost["S"]

    def acquired(self, st, m, again=False):
        """what the lock protects is as the other thread left it"""
        ex = self.ex
        if alone(st):
            return
        s, n = st.ghost["S"], "l%d." % st.ghost["n"][0]
        if m == "P":
            self.field(st, "puts_count", ex.var(n + "count", 0, 2 ** 60), I64)
            self.field(st, "flushed", ex.var(n + "flushed", 0, 1), I8)
            st.ghost["request"] = (ex.var(n + "flushed", 0, 1), s.taken)
        else:
            done = ex.var(n + "done", 0, 1)
            ex.assume(st, T.eq(T.ne(done, 0), T.lt(s.cleared, s.completed)))
            tok = T.and_(T.le(1, s.tau), T.le(s.tau, s.completed), T.not_(s.ret))
            if ex.decide(st, T.var(n + "some", "Bool")):
                self.field(st, "results", self.make(st, tok), PTRT)
            else:
                ex.assume(st, T.not_(tok))
                self.field(st, "results", NULL, PTRT)
            self.field(st, "done_check", done, I8)
            st.ghost["done at"] = done
            # what was asked for has been done; or was asked for before this lock was taken
            if not again or ex.decide(st, T.ne(done, 0)):
                st.ghost["asked"] = (False, False)

    def releasing(self, st, m):
        """what the lock protects is left in order"""
        ex = self.ex
        if alone(st):
            return
        s = st.ghost["S"]
        if m == "P":
            asked, taken = st.ghost["request"]
            ex.oblig(st, T.implies(T.and_(T.ne(asked, 0), T.eq(self.now(st, "flushed", I8), 0)), T.lt(taken, s.taken) if self.role != "user" else T.FALSE), "the wish for a pass stands until the queue is taken")
            if self.role == "user" and ex.proved(st, T.ne(self.now(st, "flushed", I8), 0)):
                st.ghost["asked"] = (True, st.ghost["asked"][1])
                st.ghost["stop"] = (True, st.ghost["stop"][1])
            return
        done = self.now(st, "done_check", I8)
        p = ex.resolve(self.now(st, "results", PTRT))
        tok = T.FALSE
        if not isnull(p):
            r, tok = self.get(st, p, "the stored results are a list of results")
            st.ghost["lists"] = tuple(x for x in st.ghost["lists"] if x[0] is not r)
        if self.role == "user":
            ex.oblig(st, T.implies(T.ne(done, 0), T.ne(st.ghost["done at"], 0)), "only the background thread reports that it is done")
            had = T.and_(T.le(1, s.tau), T.le(s.tau, s.completed), T.not_(s.ret))
            s = s._replace(ret=T.or_(s.ret, T.and_(had, T.not_(tok))), cleared=T.ite(T.eq(done, 0), s.completed, s.cleared))
        else:
            mine = [x for x in st.ghost["lists"] if x[0] not in st.dead]
            if st.ghost.get("processed", (False,))[0] and not mine:
                s = s._replace(completed=s.taken)
        st.ghost["S"] = s
        ex.oblig(st, inv(s), "the counters of both threads stay consistent")
        ex.oblig(st, T.eq(T.ne(done, 0), T.lt(s.cleared, s.completed)), "done is reported once the results are stored, not before")
        ex.oblig(st, T.eq(tok, T.and_(T.le(1, s.tau), T.le(s.tau, s.completed), T.not_(s.ret))), "the results of every finished pass are stored until a flush takes them")
        if self.role != "user" and ex.proved(st, T.and_(T.ne(done, 0), T.eq(s.completed, s.taken))):
            st.ghost["told"] = (True,)
            if st.ghost.get("notified", (False,))[0] is None:
                st.ghost["notified"] = (True,)
        elif st.ghost.get("notified", (False,))[0] is None:
            st.ghost["notified"] = (False,)

    # ------------------------------------------------------------- the locks
    def which(self, st, p, table, what):
        p = self.ex.resolve(p)
        if isinstance(p, Ptr) and p.r is self.hp and T.is_const(p.off) and T.cval(p.off) in table:
            return table[T.cval(p.off)]
        raise Unsupported("%s the contract does not know" % what)

    def lock(self, ex, st, a):
        m = self.which(st, a[0], self.locks, "a lock")
        held = st.ghost["held"]
        ex.oblig(st, T.B(m not in held), "a lock is not taken twice")
        ex.oblig(st, T.B(not (m == "A" and "P" in held)), "locks are taken in one order")
        if m in held:
            raise Dead()
        self.interfere(st)
        self.acquired(st, m)
        st.ghost["held"] = held + (m,)
        return None

    def unlock(self, ex, st, a):
        m = self.which(st, a[0], self.locks, "a lock")
        held = st.ghost["held"]
        ex.oblig(st, T.B(m in held), "only a lock that is held is released")
        if m not in held:
            raise Dead()
        self.releasing(st, m)
        self.guarantee(st)
        st.ghost["held"] = tuple(x for x in held if x != m)
        return None

    def wait(self, ex, st, a):
        m = self.which(st, a[0], self.conds, "a condition")
        ul = ex.resolve(a[1])
        k = self.which(st, ex.load(st, ul, PTRT), self.locks, "a lock")
        held = st.ghost["held"]
        ex.oblig(st, T.B(k == m), "the condition goes with its lock")
        ex.oblig(st, T.B(held == (m,)), "waiting releases the only lock that is held")
        if held != (m,):
            raise Dead()
        if m == "P":
            ex.oblig(st, T.eq(self.now(st, "flushed", I8), 0), "a flush wakes the background thread")
        else:
            ex.oblig(st, T.eq(self.now(st, "done_check", I8), 0), "the wait for the background thread ends when it is done")
            ex.oblig(st, T.B(st.ghost["asked"] == (True, True)), "the background thread was told to run before it is waited for")
        if not self.closing:
            ex.oblig(st, T.eq(st.ghost.get("ran", I0), 1), "nobody waits once the session is closing")
        self.releasing(st, m)
        self.guarantee(st)
        st.ghost["held"] = ()
        self.interfere(st)
        self.acquired(st, m, True)
        st.ghost["held"] = (m,)
        return None

    def notify(self, ex, st, a):
        m = self.which(st, a[0], self.conds, "a condition")
        if self.role == "user" and m == "P":
            asked, _ = st.ghost["asked"]
            # with the lock held: whoever wakes looks only after it is released
            st.ghost["asked"] = (asked, asked or "P" in st.ghost["held"])
            st.ghost["stop"] = (st.ghost["stop"][0], st.ghost["stop"][0] or "P" in st.ghost["held"])
        if self.role != "user" and m == "A":
            if st.ghost.get("told", (False,))[0]:
                st.ghost["notified"] = (True,)
            elif "A" in st.ghost["held"]:
                st.ghost["notified"] = (None,)         # whoever wakes looks only after the lock is released
        return None

    def running(self, ex, st, a):
        if self.which(st, a[0], {self.o("running"): "running"}, "a flag") and self.role == "user":
            v = I(0) if self.closing else I(1)
        else:
            v = ex.fresh("running", 0, 1)
        st.ghost["ran"] = v
        return T.eq(v, 1)

    def sets(self, ex, st, a):
        self.which(st, a[0], {self.o("running"): "running"}, "a flag")
        st.ghost["runs"] = (a[1],)
        return a[1]

    # ------------------------------------------------------------ the thread
    def begin(self, ex, st, a):
        """the background thread starts: from here on it may do anything it does at any time"""
        ex.trusted.setdefault("std::thread", "runs the function it is given, once; join() returns when that has returned")
        fn = ex.resolve(a[1])
        ex.oblig(st, T.B(isinstance(fn, FuncPtr) and ex.dn(fn.name).startswith("async_put_thread(")), "the thread runs async_put_thread")
        ex.oblig(st, ex.ptr_eq(st, ex.load(st, ex.resolve(a[2]), PTRT), self.hx), "the thread works on this session")
        r = st.ghost.get("runs", (I0,))[0]
        ex.oblig(st, r if r.sort == "Bool" else T.ne(r, 0), "the session runs before the thread looks")
        ex.oblig(st, T.B(alone(st)), "one background thread")
        ex.oblig(st, T.B(isnull(ex.resolve(self.now(st, "results", PTRT)))), "no results are stored yet")
        ex.oblig(st, T.eq(self.now(st, "done_check", I8), 0), "nothing is done yet")
        ex.oblig(st, T.B(st.ghost["held"] == ()), "no lock is held")
        st.ghost["alone"] = (False,)
        st.ghost["base"] = st.ghost["S"]
        st.ghost["thread"] = (ex.resolve(a[0]),)
        return None

    def keep(self, ex, st, a):
        ex.oblig(st, ex.ptr_eq(st, a[1], st.ghost["thread"][0]) if "thread" in st.ghost and st.ghost["thread"][0] is not None else T.FALSE, "the thread is kept")
        ex.oblig(st, ex.ptr_eq(st, a[0], Ptr(self.hp, self.o("thread"))), "the thread is kept by the session")
        st.ghost["thread"] = (None,)
        return ex.resolve(a[0])

    def forget(self, ex, st, a):
        ex.oblig(st, T.B(st.ghost.get("thread", (None,))[0] is None), "a running thread is not dropped")
        return None

    def join(self, ex, st, a):
        ex.trusted.setdefault("std::thread", "runs the function it is given, once; join() returns when that has returned")
        ex.oblig(st, ex.ptr_eq(st, a[0], Ptr(self.hp, self.o("thread"))), "the session's thread")
        ex.oblig(st, T.B(not alone(st)), "a thread is waited for once")
        ex.oblig(st, T.B(self.closing), "the session is closing: the thread ends")
        ex.oblig(st, T.B(st.ghost["held"] == ()), "no lock is held")
        ex.oblig(st, T.B(st.ghost["stop"] == (True, True)), "the thread was woken after the session stopped running")
        self.interfere(st)
        s = st.ghost["S"]
        ex.assume(st, T.eq(s.taken, s.completed))        # as async_put_thread leaves it
        self.acquired(st, "P")
        self.acquired(st, "A")
        st.ghost["alone"] = (True,)
        return None

    def access(self, st, r, off, size):
        if r is not self.hp or alone(st):
            return
        if not T.is_const(off):
            raise Unsupported("the session is accessed at a place that is not known")
        off = T.cval(off)
        for at, (n, m) in self.fields.items():
            if off < at + n and at < off + size and m not in st.ghost["held"]:
                self.ex.fail(st, "what both threads use is accessed under its lock only")

    # ------------------------------------------------- queues and their content
    def key(self, st, p):
        p = self.ex.resolve(p)
        if not (isinstance(p, Ptr) and T.is_const(p.off)):
            raise Unsupported("which queues?")
        if p.r is self.hp:
            if T.cval(p.off) != self.o("puts"):
                raise Unsupported("queues the contract does not know")
            if not alone(st):
                self.ex.oblig(st, T.B("P" in st.ghost["held"]), "the queue of PUTs is accessed under its lock only")
            return "queue"
        return (p.r, T.cval(p.off))

    def content(self, st, k):
        if k == "queue":
            return st.ghost["S"].q
        for x, c in st.ghost["vecs"]:
            if x == k:
                return c
        raise Unsupported("queues the contract does not know")

    def put(self, st, k, c):
        if k == "queue":
            st.ghost["S"] = st.ghost["S"]._replace(q=c)
        else:
            st.ghost["vecs"] = tuple(x for x in st.ghost["vecs"] if x[0] != k) + ((k, c),)

    def take(self, st, k):
        """what is in the queues leaves them"""
        c = self.content(st, k)
        if k == "queue" and self.role != "user":
            s = st.ghost["S"]
            self.ex.oblig(st, T.eq(s.taken, s.completed), "one pass is completed before the next one takes the queue")
            t = T.add(s.taken, 1)
            st.ghost["S"] = s._replace(q=T.FALSE, tau=T.ite(s.q, t, s.tau), taken=t)
            st.ghost["processed"] = st.ghost["told"] = st.ghost["notified"] = (False,)
        else:
            self.put(st, k, T.FALSE)
        return c

    def new(self, ex, st, a):
        k = self.key(st, a[0])
        if len(a) > 1:
            if isinstance(ex.resolve(a[1]), (Ptr, IPtr)):
                self.put(st, k, self.take(st, self.key(st, a[1])))
            else:
                self.put(st, k, T.FALSE)
        else:
            self.put(st, k, T.FALSE)
        return None

    def nothing(self, st, k):
        self.ex.oblig(st, T.not_(self.content(st, k)), "nothing queued is dropped")

    def drop(self, ex, st, a):
        self.nothing(st, self.key(st, a[0]))
        return None

    def move(self, ex, st, a):
        d, s = self.key(st, a[0]), self.key(st, a[1])
        self.nothing(st, d)
        self.put(st, d, self.take(st, s))
        return ex.resolve(a[0])

    def swap(self, ex, st, a):
        d, s = self.key(st, a[0]), self.key(st, a[1])
        q, l = (d, s) if d == "queue" else (s, d)
        if q == "queue":
            self.nothing(st, l)
            self.put(st, l, self.take(st, q))
        else:
            x, y = self.content(st, q), self.content(st, l)
            self.put(st, q, y)
            self.put(st, l, x)
        return None

    def clear(self, ex, st, a):
        k = self.key(st, a[0])
        self.nothing(st, k)
        self.put(st, k, T.FALSE)
        return None

    # dropping what is queued, batch by batch
    def batches(self, st, p):
        p = self.ex.resolve(p)
        if not (isinstance(p, Ptr) and p.r is self.lists):
            raise Unsupported("a list of batches the contract does not know")
        q, d = self.ex.split_index(st, p.off, self.LS)
        if q is None or d != 0:
            raise Unsupported("a list of batches the contract does not know")
        if not alone(st):
            self.ex.oblig(st, T.B("P" in st.ghost["held"]), "the queue of PUTs is accessed under its lock only")
        return q

    def first(self, ex, st, a):
        if self.key(st, a[0]) != "queue":
            raise Unsupported("queues the contract does not know")
        return Ptr(self.lists, I0)

    def size(self, ex, st, a):
        self.key(st, a[0])
        return self.N

    def last(self, ex, st, a):
        if self.key(st, a[0]) != "queue":
            raise Unsupported("queues the contract does not know")
        return Ptr(self.lists, T.mulc(self.N, self.LS))

    def count(self, q):
        n = T.app("batches", (T.toint(q),))
        self.ex.setrange(n, 0, 2 ** 38)
        return n

    def node(self, st, q, j):
        k = flush.pair(q, j)
        end = Ptr(self.lists, T.mulc(q, self.LS))
        nxt = lambda ex, s: self.node(s, q, T.add(j, 1)) if ex.decide(s, T.lt(T.add(j, 1), self.count(q))) else end
        return Ptr(self.ex.family("batch.node", k, I(24), StructBase("batch.node", {0: (PTRT, nxt), 16: (PTRT, Ptr(self.ex.family("batch", k, None, Opaque("a batch"), kind="pheap"), 0))}, (k,)), kind="pheap"), 0)

    def head(self, ex, st, a):
        q = self.batches(st, a[0])
        st.ghost["walk"] = (q,)
        return self.node(st, q, I0) if ex.decide(st, T.lt(0, self.count(q))) else Ptr(self.lists, T.mulc(q, self.LS))

    def tail(self, ex, st, a):
        return Ptr(self.lists, T.mulc(self.batches(st, a[0]), self.LS))

    def empty(self, ex, st, a):
        self.batches(st, a[0])
        self.nothing(st, "queue")
        return None

    def released(self, ex, st, a):
        if not alone(st):
            self.ex.oblig(st, T.B("P" in st.ghost["held"]), "the queue of PUTs is accessed under its lock only")
        self.nothing(st, "queue")
        return None

    def resize(self, ex, st, a):
        self.key(st, a[0])
        return None

    def process(self, ex, st, a):
        ex.oblig(st, ex.ptr_eq(st, a[0], self.hx), "the session")
        k = self.key(st, a[1])
        if k == "queue" and self.role != "user":
            raise Unsupported("the background thread works on the queue itself")
        c = self.take(st, k)
        st.ghost["processed"] = (True,)
        return self.make(st, c)

    # -------------------------------------------------------- lists of results
    def make(self, st, c):
        r = self.ex.alloc(st, I(self.u.const("size_res_list")), "heap", "results", Opaque("the results"))
        st.ghost["lists"] = st.ghost["lists"] + ((r, c),)
        return Ptr(r, 0)

    def get(self, st, p, what="results are used by one thread at a time"):
        p = self.ex.resolve(p)
        for r, c in st.ghost["lists"]:
            if isinstance(p, Ptr) and p.r is r:
                self.ex.oblig(st, T.B(r not in st.dead), "a list is not used after its release")
                return r, c
        self.ex.fail(st, what)
        raise Dead()

    def set(self, st, r, c):
        st.ghost["lists"] = tuple(x for x in st.ghost["lists"] if x[0] is not r) + ((r, c),)

    def append(self, ex, st, a):
        r, c = self.get(st, a[0])
        if isnull(ex.resolve(a[1])):
            return None
        r2, c2 = self.get(st, a[1])
        ex.oblig(st, T.not_(T.and_(c, c2)), "no result comes twice")
        self.set(st, r, T.or_(c, c2))
        self.set(st, r2, T.FALSE)
        return None

    def destroy(self, ex, st, a):
        if isnull(ex.resolve(a[0])):
            return None
        r, c = self.get(st, a[0])
        if not self.closing:
            ex.oblig(st, T.not_(c), "no result is dropped")
        ex.free(st, Ptr(r, 0))
        return None

    # ----------------------------------------------------------------- loops
    def loop(self, ex, st, f, L):
        def waits(l):
            return any(i.op in ("call", "invoke") and self.callee(i) == WAIT for b in l.body for i in f.fn.blocks[b].ins)
        inner = [l for l in loops_of(f.fn) if l.header != L.header and set(l.body) < set(L.body)]
        if waits(L) and not any(waits(l) for l in inner):
            return Waiting(self, st)
        if self.main and not ex.running:
            return self.main
        return Walk(self, st)

    main = None

    def callee(self, i):
        n = i.a.get("fn") or i.a.get("callee")
        n = n[1] if isinstance(n, tuple) else n
        return self.ex.dn(n) if isinstance(n, str) else None


def loops_of(fn):
    return list(find_loops(fn).values()) if isinstance(find_loops(fn), dict) else list(find_loops(fn))


GHOSTS = ("alone", "request", "base", "walk", "stop", "S", "held", "lists", "vecs", "asked", "n", "processed", "told", "notified", "done at", "ran")


class Shared(RegionInv):
    """the session's own fields: a wait changes what locks protect (see Waiting.head), nothing else"""

    def __init__(self, t):
        self.t = t

    def produce(self, ex, st, r, it, entry):
        pass

    def check(self, ex, st, r, it, entry, head):
        if head is None:
            return
        for q in new_nodes(st.mem.get(r), head)[0]:
            if not (q.k == "S" and T.is_const(q.off) and any(o <= T.cval(q.off) < o + n for o, (n, m) in self.t.fields.items())):
                raise Unsupported("waiting changes the session")


class Walk(LoopSpec):
    """through the batches of one list, or through the lists"""
    logs = ("walk",)

    def __init__(self, t, st):
        self.t, self.q = t, st.ghost.get("walk", (None,))[0]

    def pointer(self, ex, st, key, v0):
        v = ex.resolve(v0)
        if not isinstance(v, Ptr) or v.r.kind == "stack" or self.q is None:
            return None
        return flush.At(lambda st, j: self.t.node(st, self.q, j), self.t.count(self.q), Ptr(self.t.lists, T.mulc(self.q, self.t.LS)))


class Waiting(LoopSpec):
    """waiting for a condition: any number of times"""
    force = True
    logs = GHOSTS

    def __init__(self, t, st):
        self.t, self.held, self.s0 = t, st.ghost["held"], None

    def region_inv(self, ex, st, r):
        return Shared(self.t) if r is self.t.hp else None

    def head(self, ex, st, it):
        t = self.t
        for m in self.held:
            t.releasing(st, m)
        t.guarantee(st)
        self.s0 = st.ghost["S"]
        st.ghost["held"] = ()
        t.interfere(st)
        for m in self.held:
            t.acquired(st, m, True)
        st.ghost["held"] = self.held

    def back(self, ex, st, it):
        t = self.t
        ex.oblig(st, T.B(st.ghost["held"] == self.held), "the same locks are held")
        ex.oblig(st, env(t.role, self.s0, st.ghost["S"], ()), "the other thread's changes compose")


class Pass(LoopSpec):
    """the background thread: one pass, from any state"""
    force = True
    logs = GHOSTS

    def __init__(self, t):
        self.t = t

    def region_inv(self, ex, st, r):
        return Reset() if r is self.t.hp else None

    def head(self, ex, st, it):
        s = self.t.start(st)
        ex.assume(st, T.eq(s.taken, s.completed))
        st.ghost["processed"] = st.ghost["told"] = st.ghost["notified"] = (False,)

    def back(self, ex, st, it):
        self.t.idle(st)
        ex.oblig(st, T.B(st.ghost["notified"][0] is True), "whoever waits is told")


def idle(t, st):
    ex = t.ex
    ex.oblig(st, T.B(st.ghost["held"] == ()), "locks are released")
    s = st.ghost["S"]
    ex.oblig(st, T.eq(s.taken, s.completed), "what was taken has been sent and its results stored")
    for r, c in st.ghost["lists"]:
        if r not in st.dead:
            ex.oblig(st, T.not_(c), "no result is left behind")


Threads.idle = idle


def u_background(u):
    """async_put_thread"""
    t = Threads(u, "background")
    t.main = Pass(t)
    fn = u.fn("async_put_thread(hxhim_t*)")
    st = u.state()
    s = t.start(st)
    u.ex.assume(st, T.eq(s.taken, s.completed))
    u.run(fn, st, [t.hx], lambda st: t.idle(st))


def u_flush(closing):
    def f(u):
        t = Threads(u, "user")
        t.closing = closing
        ex = u.ex
        fn = u.fn("hxhim::FlushPuts(hxhim_t*)")
        st = u.state()
        s = t.start(st)

        def post(st):
            ex.oblig(st, T.B(st.ghost["held"] == ()), "locks are released")
            r, c = t.get(st, st.ret, "a list of results is returned")
            issued = T.and_(T.or_(s.q, T.le(1, s.tau)), T.not_(s.ret))
            ex.oblig(st, T.implies(c, issued), "every result is of a PUT that has not been answered yet")
            if not closing:
                ex.oblig(st, T.implies(issued, c), "the flush answers every PUT issued before it")
            ex.oblig(st, T.not_(st.ghost["S"].q), "the queue is empty")
            for x, d in st.ghost["lists"]:
                if x is not r and x not in st.dead:
                    ex.oblig(st, T.not_(d), "no result is left behind")
        u.run(fn, st, [t.hx], post)
    return f


# ------------------------------------------------- calls that queue PUTs
def discipline(u, s):
    """a call that queues PUTs: the queue is touched with its lock held, unless there is no background thread"""
    ex, o = u.ex, s.o
    on = ex.var("async", 0, 1)
    s.fields[o("async")] = (I8, on)
    locks = {o("puts_mutex"): "P", o("async_mutex"): "A"}
    fields = {o("puts_count"): (8, "P"), o("flushed"): (1, "P"), o("puts"): (u.const("size_puts"), "P"), o("results"): (8, "A"), o("done_check"): (1, "A")}
    held = lambda st: st.ghost.get("held", ())

    def which(st, p):
        p = ex.resolve(p)
        if isinstance(p, Ptr) and p.r is s.hp and T.is_const(p.off) and T.cval(p.off) in locks:
            return locks[T.cval(p.off)]
        raise Unsupported("a lock the contract does not know")

    def lock(ex, st, a):
        m, h = which(st, a[0]), held(st)
        ex.oblig(st, T.B(m not in h), "a lock is not taken twice")
        ex.oblig(st, T.B(not (m == "A" and "P" in h)), "locks are taken in one order")
        st.ghost["held"] = h + (m,)
        return None

    def unlock(ex, st, a):
        m, h = which(st, a[0]), held(st)
        ex.oblig(st, T.B(m in h), "only a lock that is held is released")
        st.ghost["held"] = tuple(x for x in h if x != m)
        return None

    def guarded(st, m, what):
        if m not in held(st):
            ex.oblig(st, T.eq(on, 0), what)

    def access(st, r, off, size):
        if r is not s.hp:
            return
        if not T.is_const(off):
            raise Unsupported("the session is accessed at a place that is not known")
        for at, (n, m) in fields.items():
            if T.cval(off) < at + n and at < T.cval(off) + size:
                guarded(st, m, "what both threads use is accessed under its lock only")
    ex.access = access
    for n, d in ex.demangled.items():
        if d == "std::mutex::lock()":
            ex.contracts[n] = lock
        elif d == "std::mutex::unlock()":
            ex.contracts[n] = unlock
        elif d.startswith("hxhim::serial_puts("):
            def serial(ex, st, a):
                ex.trusted.setdefault("hxhim::serial_puts", "contract: works on the queue and on the stored results without a lock")
                ex.oblig(st, T.eq(on, 0), "the queue is worked on without a lock only if there is no background thread")
                return None
            ex.contracts[n] = serial
    fn = ex.find_fn("hxhim::PutImpl")
    queue = ex.contracts[fn.name]

    def put(ex, st, a):
        guarded(st, "P", "PUTs are queued under the lock of the queue")
        return queue(ex, st, a)
    ex.contracts[fn.name] = put
    return lambda st: ex.oblig(st, T.B(held(st) == ()), "locks are released")


def u_start(u):
    """init::async_puts: the thread finds everything in order"""
    t = Threads(u, "user", results=(PTRT, NULL), done_check=(I8, I0), **{"async": (I8, u.ex.var("async", 0, 1))})
    ex = u.ex
    st = u.state()
    st.ghost["S"] = S(T.FALSE, I0, I0, I0, I0, T.FALSE)
    st.ghost["held"] = st.ghost["lists"] = st.ghost["vecs"] = ()
    st.ghost["asked"] = st.ghost["stop"] = (False, False)
    st.ghost["alone"] = (True,)

    def post(st):
        ex.oblig(st, T.B(st.ghost["held"] == ()), "locks are released")
        r = st.ghost.get("runs", (I0,))[0]
        ex.oblig(st, r if r.sort == "Bool" else T.ne(r, 0), "the session runs")
        ex.oblig(st, T.eq(T.B(not alone(st)), T.ne(ex.var("async", 0, 1), 0)), "there is a background thread if it was asked for")
        ex.oblig(st, T.eq(st.ret, u.const("hx_success")), "success")
    u.run(u.fn("hxhim::init::async_puts(hxhim_t*)"), st, [t.hx], post)


def u_stop(on):
    """destroy::async_puts: the thread has ended, nothing is left"""
    def f(u):
        t = Threads(u, "user", **{"async": (I8, I(1 if on else 0))})
        t.closing = True
        ex = u.ex
        st = u.state()
        s = t.start(st)
        ex.assume(st, T.not_(s.q))          # Close has flushed (FlushPuts), nothing can be queued since
        def nobody(st):
            t.acquired(st, "A")
            st.ghost["alone"] = (True,)
        sts = [st] if on else [x for x, _ in ex.with_forks([st], nobody)]

        def post(st):
            ex.oblig(st, T.B(st.ghost["held"] == ()), "locks are released")
            ex.oblig(st, T.B(alone(st)), "the thread has ended")
            ex.oblig(st, T.B(isnull(ex.resolve(t.now(st, "results", PTRT)))), "no results are kept")
            for r, c in st.ghost["lists"]:
                ex.oblig(st, T.B(r in st.dead), "results are released")
        for st in sts:
            u.run(u.fn("hxhim::destroy::async_puts(hxhim_t*)"), st, [t.hx], post)
    return f


def u_lemmas(u):
    """what one thread may assume about the other composes"""
    ex = u.ex

    def st(n):
        return S(T.var(n + "q", "Bool"), *(ex.var(n + k, 0, 2 ** 62) for k in ("tau", "taken", "completed", "cleared")), T.var(n + "ret", "Bool"))
    a, b, c = st("a."), st("b."), st("c.")
    for role in ("user", "background"):
        for held in ((), ("P",), ("A",), ("A", "P")):
            what = "%s thread%s: the other thread's changes " % (role, "".join(" with " + h for h in held))
            u.lemma(what + "may be none", env(role, a, a, held), [inv(a)])
            u.lemma(what + "compose", env(role, a, c, held), [inv(a), inv(b), inv(c), env(role, a, b, held), env(role, b, c, held)])
            if held:
                u.lemma(what + "are fewer", env(role, a, b, ()), [inv(a), inv(b), env(role, a, b, held)])


# ------------------------------------------------------------ statistics
def u_statistics(u):
    """process runs in both threads: what it counts is protected by one lock"""
    ex = u.ex
    ex.demangle_all()
    seen = {}
    for X in flush.KINDS:
        p = flush.Process(u, X)

        def lock(ex, st, a):
            m = ex.resolve(a[0])
            if not (isinstance(m, Ptr) and T.is_const(m.off)):
                raise Unsupported("which lock?")
            m = (m.r.name, T.cval(m.off))
            h = st.ghost.get("mutexes", ())
            ex.oblig(st, T.B(m not in h), "a lock is not taken twice")
            st.ghost["mutexes"] = h + (m,)
            return None

        def unlock(ex, st, a):
            m = ex.resolve(a[0])
            m = (m.r.name, T.cval(m.off))
            h = st.ghost.get("mutexes", ())
            ex.oblig(st, T.B(m in h), "only a lock that is held is released")
            st.ghost["mutexes"] = tuple(x for x in h if x != m)
            return None

        def guarded(h, what):
            def f(ex, st, a):
                held = set(st.ghost.get("mutexes", ()))
                ex.oblig(st, T.B(bool(held)), what)
                if held:
                    seen["locks"] = seen.get("locks", held) & held
                    ex.oblig(st, T.B(bool(seen["locks"])), "every count is protected by the same lock")
                return h(ex, st, a)
            return f
        place = lambda ex, st, a: Ptr(ex.new_region("statistic", "pheap", I(64), UFBase("statistic")), 0)
        for n, d in ex.demangled.items():
            q = plain(d)
            if d == "std::mutex::lock()":
                ex.contracts[n] = lock
            elif d == "std::mutex::unlock()":
                ex.contracts[n] = unlock
            elif q.startswith("std::map<") and q.endswith(("::operator[](hxhim_op_t const&)", "::operator[](hxhim_op_t&&)", "::operator[](int const&)", "::operator[](int&&)")):
                ex.contracts[n] = guarded(place, "packets are counted under a lock")
            elif q.startswith("std::list<unsigned long,") and "::push_back(" in q or q.startswith(("void std::list<unsigned long,", "unsigned long& std::list<unsigned long,")) and "emplace_back" in q:
                ex.contracts[n] = guarded(lambda ex, st, a: None, "packets are counted under a lock")
        ex.trusted.setdefault("std::mutex", "excludes the other thread; what it protects may have changed when it is taken")

        def access(st, r, off, size):
            if r.name == "statistic":
                ex.oblig(st, T.B(bool(st.ghost.get("mutexes"))), "packets are counted under a lock")
        ex.access = access
        ex.loopspec = p.loopspec
        st = u.state()
        st.ghost["mutexes"] = ()
        ex.assume(st, T.lt(p.Q, p.N))
        u.run(u.fn("hxhim::Results* hxhim::process<Message::Request::%s, Message::Response::%s, void>" % (X, X)), st, [p.hx, p.queues],
              lambda st: ex.oblig(st, T.B(not st.ghost.get("mutexes")), "locks are released"))


PUTS = [x for x in CALLS if x[0] == "Put" and not x[3]]
UNITS = [("async_put_thread", u_background), ("FlushPuts", u_flush(False)), ("FlushPuts while closing", u_flush(True))]
UNITS += [("init::async_puts", u_start), ("destroy::async_puts", u_stop(True)), ("destroy::async_puts without a thread", u_stop(False)), ("lemmas", u_lemmas), ("process: statistics", u_statistics)]
UNITS += [(call_name(*x), u_call(*x, setup=discipline)) for x in PUTS]
