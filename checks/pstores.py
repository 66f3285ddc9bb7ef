"""Contracts on the persistent datastores (C21): LevelDB and RocksDB objects,
the database behind them, batches of changes and statuses.

The database is a map from keys to values that changes only by Write(batch):
all changes of the batch in their order, or none and a status that is not ok."""
from engine.session import *
from engine.harness import Harness, full_sources, FULL_LIBS
from checks.stores import *
from checks import stores, flush
from checks.conf import named, contract
from checks.msgs import *

SOURCES = stores.SOURCES + ["src/datastore/LevelDB.cpp", "src/datastore/RocksDB.cpp", "specs/pstore.cpp"]
CLASS = {"leveldb": "LevelDB", "rocksdb": "RocksDB"}


class PStore:
    """an open LevelDB or RocksDB datastore"""

    def __init__(self, u, ns, opened=True):
        self.u, self.ex, self.ns = u, u.ex, ns
        ex = self.ex
        ex.demangle_all()
        strings.install(ex)
        ignored(u)
        flush.logging_off(u)
        c = self.c = lambda n: u.const("%s_%s" % (ns, n))
        self.cls = "Datastore::%s::" % CLASS[ns]
        self.callbacks = Ptr(ex.new_region("callbacks", "pheap", I(u.const("size_cb")), StructBase("callbacks", {})), 0)
        vt = {c("vwrite"): (PTRT, FuncPtr("db.Write", None)), c("vget"): (PTRT, FuncPtr("db.Get", None)), {"leveldb": 8, "rocksdb": 24}[ns]: (PTRT, FuncPtr("db.delete", None))}
        self.vtable = ex.new_region("vtable", "const", None, StructBase("vtable", vt))
        self.db = Ptr(ex.new_region("db", "pheap", None, StructBase("db", {0: (PTRT, Ptr(self.vtable, 0))})), 0)
        self.r = ex.new_region("datastore", "param", I(c("size")), StructBase("datastore", {u.const("off_ds_callbacks"): (PTRT, self.callbacks), c("db"): (PTRT, self.db if opened else NULL)}))
        self.ptr = Ptr(self.r, 0)
        self.statuses()
        ex.contracts["db.Write"] = not_covered("the database", "Write")
        ex.contracts["db.Get"] = not_covered("the database", "Get")

    # ---------------------------------------------------------------- statuses
    def statuses(self):
        ex, ns = self.ex, self.ns

        def at(ex, st, p):
            p = ex.resolve(p)
            return ("status", p.r, T.cval(p.off)) if isinstance(p, Ptr) and T.is_const(p.off) else None

        def ok(ex, st, a):
            v = st.ghost.get(at(ex, st, a[0]))
            if v is None:
                raise Unsupported("a status the contract does not know")
            return v[0]

        def gone(ex, st, a):
            st.ghost.pop(at(ex, st, a[0]), None)
            return None

        def copied(ex, st, a):
            k, q = at(ex, st, a[0]), at(ex, st, a[1])
            if st.ghost.get(q) is None or k is None:
                raise Unsupported("a status the contract does not know")
            st.ghost[k] = st.ghost[q]
            return a[0]
        note = "%s::Status: ok() says whether the operation it was returned by succeeded" % ns
        P = "%s::Status::" % ns
        for nm, d in ex.demangled.items():
            if plain(d).startswith(P):
                m = plain(d)[len(P):]
                if m == "ok() const":
                    ex.contracts[nm] = ok
                elif m.startswith("~Status("):
                    ex.contracts[nm] = gone
                elif m.startswith(("Status(%s::Status" % ns, "operator=(%s::Status" % ns)):
                    ex.contracts[nm] = copied
                elif m.startswith("Status()"):
                    ex.contracts[nm] = lambda ex, st, a: self.status(st, a[0], T.TRUE)
                else:
                    ex.contracts[nm] = not_covered("a status", d)
        ex.trusted.setdefault(ns + "::Status", note)

    def status(self, st, p, v):
        p = self.ex.resolve(p)
        st.ghost[("status", p.r, T.cval(p.off))] = (v,)
        return None

    def slice(self, ex, st, p):
        """where a slice points to, and how long it is"""
        p = ex.resolve(p)
        return ex.resolve(ex.load(st, p, PTRT)), ex.load(st, Ptr(p.r, T.add(p.off, 8)), I64)

    def is_(self, st, data, n, want, byte):
        """the n bytes at data are those (proved or false)"""
        ex = self.ex
        if not ex.proved(st, T.eq(n, want)):
            return False
        if not isinstance(data, Ptr):
            return ex.proved(st, T.eq(n, 0))
        if data.r in st.dead:
            return False
        return same_bytes(ex, st, lambda s, j: ex.load(s, Ptr(data.r, T.add(data.off, j)), I8, check=False), n, byte)

    # ----------------------------------------------------------------- batches
    def batches(self, put=None, delete=None, written=None):
        """one batch of changes, and what writing it may rely on"""
        ex, ns = self.ex, self.ns
        WB = "%s::WriteBatch::" % ns

        def made(ex, st, a):
            if st.ghost.get("batch"):
                raise Unsupported("more than one batch")
            p = ex.resolve(a[0])
            st.ghost["batch"] = ((p.r, p.off), "filling")
            return None

        def mine(st, p):
            p = ex.resolve(p)
            b = st.ghost.get("batch")
            if b is None or not isinstance(p, Ptr):
                raise Unsupported("a batch the contract does not know")
            ex.oblig(st, ex.ptr_eq(st, p, Ptr(*b[0])), "the batch")
            return b[1]

        def change(h, n):
            if h is None:
                return None

            def f(ex, st, a):
                sret = len(a) == n + 1
                if len(a) not in (n, n + 1):
                    raise Unsupported("a change the contract does not know")
                if sret:
                    self.status(st, a[0], T.TRUE)
                    a = a[1:]
                if mine(st, a[0]) != "filling":
                    raise Unsupported("a batch is changed after it was written")
                h(st, *[self.slice(ex, st, x) for x in a[1:]])
                return None
            return f

        def write(ex, st, a):
            ex.trusted.setdefault("%s::DB::Write" % ns, "contract: applies all changes of the batch in order and returns ok, or returns an error; what is written to the log survives the end of the process; with sync, so does everything written before, whatever the system does")
            ex.oblig(st, ex.ptr_eq(st, a[1], self.db), "the datastore's database is written")
            o = ex.resolve(a[2])
            if ns == "rocksdb":
                ex.oblig(st, T.eq(ex.load(st, Ptr(o.r, T.add(o.off, self.u.const("rocksdb_nolog"))), I8), 0), "changes go to the log")
            ph = mine(st, a[3])
            if ph != "filling":
                raise Unsupported("a batch is written more than once")
            sync = ex.load(st, Ptr(o.r, T.add(o.off, self.c("sync"))), I8)
            st.ghost["batch"] = (st.ghost["batch"][0], "written")
            v = written(st, sync)
            self.status(st, a[0], v)
            return None
        ex.contracts["db.Write"] = write
        t = {"Put": change(put, 3), "Delete": change(delete, 2)}
        for nm, d in ex.demangled.items():
            q = plain(d)
            if not q.startswith(WB):
                continue
            m = q[len(WB):]
            if m.startswith("WriteBatch("):
                ex.contracts[nm] = made if m in ("WriteBatch()", "WriteBatch(unsigned long,unsigned long)") else not_covered("a batch", d)
            elif m.startswith("~WriteBatch("):
                ex.contracts[nm] = lambda ex, st, a: None
            elif m in ("Put(%s::Slice const&,%s::Slice const&)" % (ns, ns), "Delete(%s::Slice const&)" % ns) and t[m[:m.index("(")]]:
                ex.contracts[nm] = t[m[:m.index("(")]]
            else:
                ex.contracts[nm] = not_covered("a batch", d)
        ex.trusted.setdefault(ns + "::WriteBatch", "contract: collects changes in order, copying keys and values")


class Left(RegionInv):
    """what the first loop leaves for the second about each entry: a constant that
    depends on whether the entry is good.  The constants are read off the code
    (`learn`), then proved."""

    def __init__(self, r, good, learned):
        self.r, self.good, self.learned = r, good, learned

    @staticmethod
    def learn(ex, st, r, it, good, learned):
        if st.mem.get(r) is None:
            return
        v = ex.load(st, Ptr(r, T.mulc(it, 4)), I32, check=False)
        for b, g in ((True, good(it)), (False, T.not_(good(it)))):
            if ex.proved(st, g):
                if b not in learned and T.is_const(v):
                    learned[b] = T.cval(v)
                elif not T.is_const(v) or learned.get(b) != T.cval(v):
                    learned[b] = None

    def fact(self, v, q):
        g, l = self.good(q), self.learned
        return T.and_(*[T.implies(c, T.eq(v, l[b])) for b, c in ((True, g), (False, T.not_(g))) if l.get(b) is not None])

    def value(self, ex, st, q):
        t = T.app("left", (T.toint(q),))
        ex.setrange(t, 0, 2 ** 32 - 1)
        ex.assume(st, self.fact(t, q))
        return t

    def produce(self, ex, st, r, it, entry):
        b = ArrayBase("left", 4, lambda ex, s, q: {0: (I32, lambda ex, s: self.value(ex, s, q))})
        ex.put(st, r, Node(st.mem.get(r), "G", I0, T.mulc(it, 4), lambda ex, s, d, size, ty: b.read(ex, s, r, d, size, ty)))

    def check(self, ex, st, r, it, entry, head):
        if T.is_const(it) and T.cval(it) == 0:
            return
        last = T.sub(it, 1)
        if not ex.proved(st, self.fact(ex.load(st, Ptr(r, T.mulc(last, 4)), I32, check=False), last)):
            raise Unsupported("what is noted about an entry is not a constant")
        k = ex.fresh("k", 0, None)
        st = st.clone()
        try:
            ex.assume(st, T.lt(k, last))
        except Dead:
            return
        if not ex.proved(st, self.fact(ex.load(st, Ptr(r, T.mulc(k, 4)), I32, check=False), k)):
            raise Unsupported("an entry changes what is noted about another")


class Told(RegionInv):
    """statuses of entries that were answered: any; the others as before the loop"""

    def __init__(self):
        pass

    def produce(self, ex, st, r, it, entry):
        b = ArrayBase("told", 4, lambda ex, s, q: {0: (I32, self.any(q))})
        ex.put(st, r, Node(st.mem.get(r), "G", I0, T.mulc(it, 4), lambda ex, s, d, size, ty: b.read(ex, s, r, d, size, ty)))

    def any(self, q):
        return T.app("told", (T.toint(q),))

    def check(self, ex, st, r, it, entry, head):
        m = ex.fresh("m", 0, None)
        ex.assume(st, T.le(it, m))
        ex.assume(st, T.le(T.mulc(T.add(m, 1), 4), r.size))
        if not ex.proved(st, T.eq(ex.load(st, Ptr(r, T.mulc(m, 4)), I32, check=False), ex.read(st, r, entry, T.mulc(m, 4), 4, I32))):
            raise Unsupported("answering an entry changes what is noted about another")


class PAnswer(Answer):
    """the response; adding an entry sets its status"""

    def __init__(self, u, w, rcls):
        Answer.__init__(self, u, w, rcls)
        ex = self.ex
        self.st_at = off(u, self.rw, "statuses")
        self.statuses = self.r.base.fields[self.st_at][1].r
        for n, d in ex.demangled.items():
            if d.startswith("Message::Response::%s::add(" % rcls.name):
                old = ex.contracts[n]

        def add(ex, st, a):
            n = ex.load(st, Ptr(self.r, self.count), I64)
            r = old(ex, st, a)
            ex.store(st, Ptr(self.statuses, T.mulc(n, 4)), a[-1], I32)
            return r
        for n, d in ex.demangled.items():
            if d.startswith("Message::Response::%s::add(" % rcls.name):
                ex.contracts[n] = add

    def status(self, st, k):
        return self.ex.load(st, Ptr(self.statuses, T.mulc(k, 4)), I32, check=False)

    def entry(self, st, k, events, ok, what):
        # the status is the one the entry ends with
        v = self.status(st, k)
        events = tuple((e[0], e[1], e[2], v) if e[0] == "entry" else e for e in events)
        return Answer.entry(self, st, k, events, ok, what)
