"""C21: the persistent datastores keep what they acknowledge.

The database library is known by contract (see pstores.py): what remains for
hxhim's code is that an entry is acknowledged exactly if its pair and object are
part of what was written successfully, under the pair's own key and with its
type; that a GET looks up exactly that key and returns what is there; that a
sync waits for the database; and that opening and closing keep what is there."""
from engine.session import *
from engine.harness import Harness, full_sources, FULL_LIBS
from checks.pstores import *
from checks import pstores, c11, c17

SOURCES = pstores.SOURCES
HARNESSES = [Harness("c21.cpp", full_sources(), FULL_LIBS, opt="-O0", budget=10)]


class Bulk:
    """a bulk operation: a loop fills a batch, the batch is written, a loop answers"""

    def __init__(self, u, ns, cls, rcls):
        self.u, ex = u, u.ex
        self.ex = ex
        self.store = PStore(u, ns)
        self.w = w = cls(u, "w")
        w.mode = "unpack"              # the caller's addresses are not those of the values
        self.req = message(u, w)
        self.codec = Codec(u, self.store, w)
        self.cur = lambda st: [st.ghost["done"]] if "done" in st.ghost else []
        self.codec.enc_sources = lambda st: [(f, k) for k in self.cur(st) for f in ("subjects", "predicates", "objects") if f != "objects" or cls is ReqPut]
        self.keys = Keys(u, self.codec, w, self.cur)
        self.answer = PAnswer(u, w, rcls)
        self.wok = T.var("write.ok", "Bool")

    def good(self, k, fs):
        return T.and_(*[self.codec.ok("encode", f, k) for f in fs])

    def run(self, name, fs, judge_change, answer_ok):
        u, ex, w, s = self.u, self.ex, self.w, self.store
        fn = u.fn("%s%sImpl(Message::Request::%s*)" % (s.cls, name, name))
        learned = {}
        good = lambda k: self.good(k, fs)

        def written(st, sync):
            if "done" not in st.ghost or not ex.proved(st, T.eq(st.ghost["done"], w.n)):
                raise Unsupported("the batch is written before every entry is handled")
            handled(ex, st, w.n, name + ": the batch")
            st.ghost.pop("done", None)
            st.ghost["events"] = ()
            return self.wok
        self.batch_handlers["written"] = written
        s.batches(**self.batch_handlers)

        def judge(st, k, events):
            ph = st.ghost["batch"][1] if st.ghost.get("batch") else None
            if ph != "written":
                if [e for e in events if e[0] == "entry"]:
                    raise Unsupported("answers before the batch is written")
                judge_change(st, k, events)
                return
            ok = T.and_(self.wok, answer_ok(k))
            self.answer.entry(st, k, events, ok, name)
            ex.oblig(st, T.B(len(events) == 1), "answering changes nothing")

        def regions(st, r):
            if r is not self.answer.statuses:
                return None
            return Told() if st.ghost.get("batch") and st.ghost["batch"][1] == "written" else Left(r, good, learned)

        class Loop(PerEntry):
            def seen(self, ex, st, it):
                if st.ghost.get("batch") and st.ghost["batch"][1] == "filling":
                    Left.learn(ex, st, answer.statuses, it, good, learned)
        answer = self.answer
        ex.loopspec = lambda ex, st, f, L: Loop(judge, None, regions) if not ex.running else None

        def post(st):
            ex.oblig(st, T.B(st.ghost.get("batch") is not None and st.ghost["batch"][1] == "written"), "the batch is written")
            ex.oblig(st, ex.ptr_eq(st, st.ret, self.answer.ptr), "the response is returned")
            handled(ex, st, w.n, name)
            ex.oblig(st, T.eq(ex.load(st, Ptr(self.answer.r, self.answer.count), I64), w.n), "the response has one entry per request entry")
        u.run(fn, u.state(), [s.ptr, Ptr(self.req, 0)], post)


def u_put(ns):
    def f(u):
        b = Bulk(u, ns, ReqPut, ResPut)
        ex, w, codec, keys, s = b.ex, b.w, b.codec, b.keys, b.store
        FS = ("subjects", "predicates", "objects")

        def put(st, key, value):
            k = st.ghost.get("done")
            if k is None:
                ex.fail(st, "only entries of the request are stored")
                return
            event(st, "put", k)
            ex.oblig(st, T.B(s.is_(st, key[0], key[1], keys.len(k), keys.byte(k))), "the value is stored under the key of the pair")
            n = codec.len("encode", "objects", k)
            p, m = value
            ex.oblig(st, T.eq(m, T.add(n, 4)), "the value stored is the encoded object followed by its type: length")
            if not isinstance(p, Ptr):
                ex.fail(st, "the value stored is the encoded object")
                return
            by = codec.byte("encode", "objects", k)
            J = ex.fresh("J", 0, None)
            s2 = st.clone()
            ex.assume(s2, T.lt(J, n))
            if ex.feasible(s2):
                ex.oblig(s2, T.eq(ex.load(s2, Ptr(p.r, T.add(p.off, J)), I8), by(J)), "the value stored is the encoded object")
            ex.oblig(st, T.eq(ex.load(st, Ptr(p.r, T.add(p.off, n)), I32), w.s.type("objects", k)), "the value stored ends with the object's type")

        def change(st, k, events):
            puts = [e for e in events if e[0] == "put"]
            if ex.decide(st, b.good(k, FS)):
                ex.oblig(st, T.B(len(puts) == 1), "a PUT stores one value")
            else:
                ex.oblig(st, T.B(not puts), "a PUT whose values cannot be encoded stores nothing")
            ex.oblig(st, T.B(len(puts) == len(events)), "a PUT does nothing else")
        b.batch_handlers = dict(put=put)
        b.run("BPut", FS, change, lambda k: b.good(k, FS))
    return f


def u_delete(ns):
    def f(u):
        b = Bulk(u, ns, ReqDelete, ResDelete)
        ex, w, keys, s = b.ex, b.w, b.keys, b.store
        FS = ("subjects", "predicates")

        def delete(st, key):
            k = st.ghost.get("done")
            if k is None:
                ex.fail(st, "only entries of the request are deleted")
                return
            event(st, "delete", k)
            ex.oblig(st, T.B(s.is_(st, key[0], key[1], keys.len(k), keys.byte(k))), "the key deleted is that of the pair")

        def change(st, k, events):
            ds = [e for e in events if e[0] == "delete"]
            if ex.decide(st, b.good(k, FS)):
                ex.oblig(st, T.B(len(ds) == 1), "a DELETE deletes one key")
            else:
                ex.oblig(st, T.B(not ds), "a DELETE whose values cannot be encoded deletes nothing")
            ex.oblig(st, T.B(len(ds) == len(events)), "a DELETE does nothing else")
        b.batch_handlers = dict(delete=delete)
        b.run("BDelete", FS, change, lambda k: b.good(k, FS))
    return f


def u_get(ns):
    """a GET looks up the key of its pair, and answers with what is there"""
    def f(u):
        b = Bulk(u, ns, ReqGet, ResGet)
        ex, w, codec, keys, s = b.ex, b.w, b.codec, b.keys, b.store
        present = lambda k: T.app("stored", (T.toint(k),), "Bool")

        def vlen(k):
            t = T.app("value.len", (T.toint(k),))
            ex.setrange(t, 4, MAXLEN)
            return t

        def vtype(k):
            t = T.app("value.type", (T.toint(k),))
            ex.setrange(t, 0, 2 ** 32 - 1)
            return t

        class Stored:
            """the stored value as decode() sees it"""
            def len(self, f, k):
                return T.sub(vlen(k), 4)

            def type(self, f, k):
                return vtype(k)

            def byte(self, f, k, j):
                return byte_fn(ex, "value.byte", k)(j)
        codec.syms["value"] = Stored()
        codec.dec_sources = lambda st: [("value", k) for k in b.cur(st)]
        last = u.const("type_MAX")

        def lookup(ex, st, a):
            ex.trusted.setdefault("%s::DB::Get" % ns, "contract: returns ok and the value last written under that key, or a status that is not ok if there is none (or on an error)")
            ex.oblig(st, ex.ptr_eq(st, a[1], s.db), "the datastore's database is read")
            o = ex.resolve(a[2])
            ex.oblig(st, ex.ptr_eq(st, ex.load(st, Ptr(o.r, T.add(o.off, s.c("snapshot"))), PTRT), NULL), "the current state is read")
            p, n = s.slice(ex, st, a[3])
            k = st.ghost.get("done")
            if k is None:
                raise Unsupported("a value is looked up for no entry")
            if not s.is_(st, p, n, keys.len(k), keys.byte(k)):
                ex.fail(st, "the key looked up is that of the pair")
                s.status(st, a[0], T.FALSE)
                return None
            if not ex.decide(st, present(k)):
                s.status(st, a[0], T.FALSE)
                return None
            special = lambda ex, st, off, size, ty: vtype(k) if size == 4 and ex.proved(st, T.eq(off, T.sub(vlen(k), 4))) else None
            buf = ex.alloc(st, T.add(vlen(k), 1), "pheap", "stored value", Bytes(byte_fn(ex, "value.byte", k), special))
            q = ex.resolve(a[4])
            if ("str", q.r, q.off) not in st.ghost:
                raise Unsupported("a value is stored in something else than a string")
            st.ghost[("str", q.r, q.off)] = strings.SV(buf, vlen(k))
            s.status(st, a[0], T.TRUE)
            return None
        ex.contracts["db.Get"] = lookup
        s.batches()

        def before(st, k):
            # types the interface knows (names of types are looked up for the log)
            ex.assume(st, T.lt(w.s.num("object_types", k, 0, 2 ** 32 - 1), last))
            ex.assume(st, T.lt(vtype(k), last))

        def judge(st, k, events):
            ok = T.and_(b.good(k, ("subjects", "predicates")), present(k), codec.ok("decode", "value", k))
            o = b.answer.entry(st, k, events, ok, "GET")
            ex.oblig(st, T.B(len(events) == 1), "a GET changes nothing")
            if o is None or not ex.decide(st, ok):
                return
            ex.oblig(st, T.B(codec.is_result(st, "decode", "value", k, o.ptr, o.len)), "the object is the decoded value")
            ex.oblig(st, T.eq(o.type, vtype(k)), "the object has the stored type")
            ex.oblig(st, o.clean, "the object belongs to the response")
        ex.loopspec = lambda ex, st, f, L: PerEntry(judge, before) if not ex.running else None

        def post(st):
            ex.oblig(st, ex.ptr_eq(st, st.ret, b.answer.ptr), "the response is returned")
            handled(ex, st, w.n, "GET")
            ex.oblig(st, T.eq(ex.load(st, Ptr(b.answer.r, b.answer.count), I64), w.n), "the response has one entry per request entry")
        u.run(u.fn("%sBGetImpl(Message::Request::BGet*)" % s.cls), u.state(), [s.ptr, Ptr(b.req, 0)], post)
    return f


def u_sync(ns):
    def f(u):
        s, ex = PStore(u, ns), u.ex
        wok = T.var("write.ok", "Bool")

        def written(st, sync):
            st.ghost["sync"] = (sync,)
            return wok
        s.batches(written=written)

        def post(st):
            y = st.ghost.get("sync")
            if y is None:
                ex.fail(st, "a sync waits for the database")
                return
            ex.oblig(st, T.ne(y[0], 0), "a sync waits for the database")
            ex.oblig(st, T.eq(T.eq(st.ret, u.const("ds_success")), wok), "a sync succeeds exactly if the database says so")
        u.run(u.fn(s.cls + "SyncImpl()"), u.state(), [s.ptr], post)
    return f


def u_usable(ns):
    def f(u):
        ex = u.ex
        for opened in (False, True):
            s = PStore(u, ns, opened)
            r = lambda st: st.ret if st.ret.sort == "Bool" else T.ne(st.ret, 0)
            u.run(u.fn(s.cls + "UsableImpl() const"), u.state(), [s.ptr], lambda st: ex.oblig(st, T.eq(r(st), T.B(opened)), "usable exactly while a database is open"))
    return f


def u_open(ns):
    def f(u):
        s, ex = PStore(u, ns, False), u.ex
        c = s.c
        ok = T.var("open.ok", "Bool")
        st = u.state()
        name, n, byte = known_string(u, st, "name")
        strings.sput(ex, st, Ptr(s.r, c("name")), [])

        def opened(ex, st, a):
            ex.trusted.setdefault("%s::DB::Open" % ns, "contract: opens the database of that name, with everything written to it before, creating it only if the options say so; or returns an error and no database")
            if len(a) != 4:
                raise Unsupported("a way to open a database the contract does not cover")
            ex.oblig(st, ex.ptr_eq(st, a[1], Ptr(s.r, c("options"))), "the datastore's options")
            v = strings.sget(ex, st, a[2])
            ex.oblig(st, T.B(string_is(ex, st, v, n, byte)), "the database of the given name is opened")
            good = ex.decide(st, ok)
            ex.store(st, a[3], s.db if good else NULL, PTRT)
            st.ghost["opened"] = st.ghost.get("opened", 0) + 1
            s.status(st, a[0], T.B(good))
            return None
        contract(ex, "%s::DB::Open(" % ns, opened)

        def post(st):
            ex.oblig(st, T.B(st.ghost.get("opened") == 1), "the database is opened once")
            good = ex.decide(st, ok)
            r = st.ret if st.ret.sort == "Bool" else T.ne(st.ret, 0)
            ex.oblig(st, T.eq(r, T.B(good)), "opening succeeds exactly if the database says so")
            ex.oblig(st, ex.ptr_eq(st, ex.load(st, Ptr(s.r, c("db")), PTRT), s.db if good else NULL), "the datastore has the database")
            ex.oblig(st, T.B(string_is(ex, st, strings.sget(ex, st, Ptr(s.r, c("name"))), n, byte)), "the datastore has the name")
        fn = [d for d in ex.demangled.values() if d.startswith(s.cls + "OpenImpl(")]
        u.run(named(u, s.cls + "OpenImpl("), st, [s.ptr, name], post)
    return f


def u_close(ns):
    def f(u):
        ex = u.ex
        for opened in (False, True):
            s = PStore(u, ns, opened)

            def delete(ex, st, a, s=s):
                ex.trusted.setdefault("%s::DB::~DB" % ns, "contract: closes the database, keeping what was written")
                ex.oblig(st, ex.ptr_eq(st, a[0], s.db), "the datastore's database is closed")
                st.ghost["closed"] = st.ghost.get("closed", 0) + 1
                return None
            ex.contracts["db.delete"] = delete

            def post(st, s=s, opened=opened):
                ex.oblig(st, T.B(st.ghost.get("closed", 0) == (1 if opened else 0)), "the database is closed once")
                ex.oblig(st, ex.ptr_eq(st, ex.load(st, Ptr(s.r, s.c("db")), PTRT), NULL), "a closed datastore has no database")
            u.run(u.fn(s.cls + "CloseImpl()"), u.state(), [s.ptr], post)
    return f


def u_make(ns):
    """the constructor: options as the library makes them, creating as asked"""
    def f(u):
        s, ex = PStore(u, ns, False), u.ex
        c = s.c
        at = c("options")
        r = ex.new_region("storage", "param", I(c("size")), UninitBase())

        def options(ex, st, a):
            ex.trusted.setdefault("%s::Options::Options" % ns, "contract: the library's defaults; existing databases can be opened")
            p = ex.resolve(a[0])
            ex.oblig(st, ex.ptr_eq(st, p, Ptr(r, at)), "the datastore's options")
            ex.store(st, Ptr(r, c("create")), I(0), I8)
            ex.store(st, Ptr(r, c("excl")), I(0), I8)
            return None
        contract(ex, "%s::Options::Options(" % ns, options)

        def base(ex, st, a):
            ex.trusted.setdefault("Datastore::Datastore::Datastore", "contract: the part every datastore has")
            ex.oblig(st, ex.ptr_eq(st, a[3], s.callbacks), "the callbacks given")
            return None
        contract(ex, "Datastore::Datastore::Datastore(", base)
        create = ex.var("create", 0, 1)

        def post(st):
            ex.oblig(st, T.eq(ex.load(st, Ptr(r, c("create")), I8), create), "the database is created if asked")
            ex.oblig(st, T.eq(ex.load(st, Ptr(r, c("excl")), I8), 0), "an existing database can be opened")
            ex.oblig(st, ex.ptr_eq(st, ex.load(st, Ptr(r, c("db")), PTRT), NULL), "no database is open yet")
        a = [Ptr(r, 0), ex.var("rank", 0, 2 ** 31), ex.var("id", 0, 2 ** 31), s.callbacks, T.eq(create, 1)]
        u.run(named(u, s.cls + CLASS[ns] + "("), u.state(), a, post)
    return f


def anystore(u, **impls):
    """a datastore of any kind: which of its own operations run, in order"""
    ex = u.ex
    strings.install(ex)
    s = Store(u)

    def logs(n, ret):
        def h(ex, st, a):
            ex.oblig(st, ex.ptr_eq(st, a[0], s.ptr), "the operation runs on this datastore")
            st.ghost["ran"] = st.ghost.get("ran", ()) + (n,)
            return ret(ex, st, a)
        return h
    for n, ret in impls.items():
        contract(ex, "AnyStore::%s(" % n, logs(n, ret))
    return s


def u_sync_any(u):
    """Sync: the datastore's own sync runs and its result is returned"""
    ex = u.ex
    result = ex.var("result", 0, 2 ** 32 - 1)
    s = anystore(u, SyncImpl=lambda ex, st, a: result, WriteHistogramsImpl=lambda ex, st, a: ex.fresh("hists", 0, 2 ** 32 - 1))
    write = T.var("write", "Bool")

    def post(st):
        ran = st.ghost.get("ran", ())
        if ex.decide(st, s.usable):
            ex.oblig(st, T.B(ran[-1:] == ("SyncImpl",) and ran.count("SyncImpl") == 1), "the datastore is synced, after everything it writes")
            ex.oblig(st, T.eq(st.ret, result), "the result of the sync is returned")
        else:
            ex.oblig(st, T.B(ran == ()), "an unusable datastore is not used")
            ex.oblig(st, T.eq(st.ret, u.const("ds_error")), "an unusable datastore cannot be synced")
    u.run(named(u, "Datastore::Datastore::Sync("), u.state(), [s.ptr, write], post)


def u_open_any(u):
    ex = u.ex
    st = None
    box = {}

    def opens(ex, st, a):
        ex.oblig(st, ex.ptr_eq(st, a[1], box["name"]), "the name is passed on")
        return ex.decide(st, T.var("open.ok", "Bool")) and T.TRUE or T.FALSE
    s = anystore(u, OpenImpl=opens, ReadHistogramsImpl=lambda ex, st, a: ex.fresh("found", 0, 2 ** 32))
    st = u.state()
    box["name"], n, byte = known_string(u, st, "name")
    r = lambda st: st.ret if st.ret.sort == "Bool" else T.ne(st.ret, 0)

    def post(st):
        ran = st.ghost.get("ran", ())
        ex.oblig(st, T.B(ran[:1] == ("OpenImpl",) and ran.count("OpenImpl") == 1), "the datastore is opened")
        ex.oblig(st, T.eq(r(st), s.usable), "opening succeeds exactly if the datastore can be used")
    names = Ptr(ex.new_region("names", "param", I(24), UFBase("names")), 0)
    for ns in (NULL, names):
        u.run(named(u, "Datastore::Datastore::Open("), st.clone(), [s.ptr, box["name"], ns], post)


def u_close_any(u):
    ex = u.ex
    s = anystore(u, CloseImpl=lambda ex, st, a: None)

    def sync(ex, st, a):
        ex.trusted.setdefault("Datastore::Sync", "contract: see its own unit")
        st.ghost["ran"] = st.ghost.get("ran", ()) + ("Sync",)
        return ex.fresh("synced", 0, 2 ** 32 - 1)
    contract(ex, "Datastore::Datastore::Sync(", sync)
    Hists(u, s, lambda st: [])
    methods(ex, "std::map<string,shared_ptr<Histogram::Histogram>>::", {"clear": lambda ex, st, a: None}, None)

    def post(st):
        ex.oblig(st, T.B(st.ghost.get("ran", ()) == ("Sync", "CloseImpl")), "a datastore is synced, then closed")
    u.run(named(u, "Datastore::Datastore::Close("), u.state(), [s.ptr, T.var("write", "Bool")], post)


PER_STORE = (("BPutImpl", u_put, 500), ("BDeleteImpl", u_delete, 200), ("BGetImpl", u_get, 200), ("SyncImpl", u_sync, None), ("UsableImpl", u_usable, None),
             ("OpenImpl", u_open, None), ("CloseImpl", u_close, None), ("the constructor", u_make, None))
UNITS = [Unit("%s::%s" % (CLASS[ns], n), f(ns), **({"budget": b} if b else {})) for ns in ("leveldb", "rocksdb") for n, f, b in PER_STORE] + \
        [Unit("Datastore::Sync", u_sync_any), Unit("Datastore::Open", u_open_any), Unit("Datastore::Close", u_close_any), Unit("encode", c11.u_code("encode")), Unit("decode", c11.u_code("decode")),
         Unit("operate(BPut)", c17.u_put), Unit("operate(BGet)", c17.u_other(ReqGet, ResGet)), Unit("operate(BDelete)", c17.u_other(ReqDelete, ResDelete))]
