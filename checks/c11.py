"""C11: the in-memory datastore behaves as a typed map.

BPutImpl, BGetImpl and BDeleteImpl are proved one arbitrary entry at a time:
which key is looked up, written (with what value) or erased, and which answer
the entry gets.  The key of a pair is the same for the same pair and different
for others (C04), the map is an abstract one: so by induction over the history
of operations a GET finds what the last PUT of its pair stored."""
from engine.session import *
from engine.harness import Harness, full_sources, FULL_LIBS
from checks.stores import *
from checks import stores, c17

SOURCES = stores.SOURCES
HARNESSES = [Harness("c11.cpp", full_sources(), FULL_LIBS, opt="-O0", san=["-fsanitize=address"], budget=8)]


class Setup:
    def __init__(self, u, cls, rcls):
        self.u, ex = u, u.ex
        self.ex = ex
        strings.install(ex)
        self.store = Memory(u)
        self.w = w = cls(u, "w")
        w.mode = "unpack"              # the caller's addresses are not those of the values
        self.req = message(u, w)
        self.codec = Codec(u, self.store, w)
        cur = lambda st: [st.ghost["done"]] if "done" in st.ghost else []
        self.codec.enc_sources = lambda st: [(f, k) for k in cur(st) for f in ("subjects", "predicates", "objects") if f != "objects" or cls is ReqPut]
        self.keys = Keys(u, self.codec, w, cur)
        self.db = DB(u, self.store, self.keys)
        self.answer = Answer(u, w, rcls)

    def run(self, name, judge, before=None):
        u, ex, w = self.u, self.ex, self.w
        fn = u.fn("Datastore::InMemory::%sImpl(Message::Request::%s*)" % (name, name))
        ex.loopspec = lambda ex, st, f, L: PerEntry(judge, before)

        def post(st):
            ex.oblig(st, ex.ptr_eq(st, st.ret, self.answer.ptr), "the response is returned")
            handled(ex, st, w.n, name)
            ex.oblig(st, T.eq(ex.load(st, Ptr(self.answer.r, self.answer.count), I64), w.n), "the response has one entry per request entry")
        u.run(fn, u.state(), [self.store.ptr, Ptr(self.req, 0)], post)

    def encodes(self, k, fs=("subjects", "predicates")):
        return T.and_(*[self.codec.ok("encode", f, k) for f in fs])


def u_put(u):
    s = Setup(u, ReqPut, ResPut)
    ex, w, codec, keys = s.ex, s.w, s.codec, s.keys

    def judge(st, k, events):
        ok = s.encodes(k, ("subjects", "predicates", "objects"))
        s.answer.entry(st, k, events, ok, "PUT")
        writes = [e for e in events if e[0] == "write"]
        ex.oblig(st, T.B(not [e for e in events if e[0] == "erase"]), "a PUT erases nothing")
        if not ex.decide(st, ok):
            ex.oblig(st, T.B(not writes), "a PUT whose values cannot be encoded stores nothing")
            return
        if len(writes) != 1:
            ex.fail(st, "a PUT stores one value")
            return
        _, v, slot = writes[0]
        ex.oblig(st, T.B(string_is(ex, st, v, keys.len(k), keys.byte(k))), "the value is stored under the key of the pair")
        x = sget(ex, st, slot)
        n = codec.len("encode", "objects", k)
        ex.oblig(st, T.eq(x.n, T.add(n, 4)), "the value stored is the encoded object followed by its type: length")
        b = codec.byte("encode", "objects", k)
        J = ex.fresh("J", 0, None)
        s2 = st.clone()
        ex.assume(s2, T.lt(J, n))
        if ex.feasible(s2):
            ex.with_forks([s2], lambda t: ex.oblig(t, T.eq(ex.load(t, Ptr(x.buf, J), I8), b(J)), "the value stored is the encoded object"))
        ex.oblig(st, T.eq(ex.load(st, Ptr(x.buf, n), I32), w.s.type("objects", k)), "the value stored ends with the object's type")
    s.run("BPut", judge)


def u_get(u):
    s = Setup(u, ReqGet, ResGet)
    ex, w, codec, keys, db = s.ex, s.w, s.codec, s.keys, s.db

    class Stored:
        """the stored value as decode() sees it"""
        def len(self, f, k):
            return T.sub(db.vlen(k), 4)

        def type(self, f, k):
            return db.vtype(k)

        def byte(self, f, k, j):
            return byte_fn(ex, "value.byte", k)(j)
    codec.syms["value"] = Stored()
    codec.dec_sources = lambda st: [("value", st.ghost["done"])] if "done" in st.ghost else []
    last = u.const("type_MAX")

    def before(st, k):
        # types the interface knows (names of types are looked up for the log)
        ex.assume(st, T.lt(w.s.num("object_types", k, 0, 2 ** 32 - 1), last))
        ex.assume(st, T.lt(db.vtype(k), last))

    def judge(st, k, events):
        ok = T.and_(s.encodes(k), db.present(k), codec.ok("decode", "value", k))
        o = s.answer.entry(st, k, events, ok, "GET")
        ex.oblig(st, T.B(len(events) == 1), "a GET changes nothing")
        if o is None or not ex.decide(st, ok):
            return
        ex.oblig(st, T.B(codec.is_result(st, "decode", "value", k, o.ptr, o.len)), "the object is the decoded value")
        ex.oblig(st, T.eq(o.type, db.vtype(k)), "the object has the stored type")
        ex.oblig(st, o.clean, "the object belongs to the response")
    s.run("BGet", judge, before)


def u_delete(u):
    s = Setup(u, ReqDelete, ResDelete)
    ex, w, db = s.ex, s.w, s.db

    def judge(st, k, events):
        ok = T.and_(s.encodes(k), db.present(k))
        s.answer.entry(st, k, events, ok, "DELETE")
        ex.oblig(st, T.B(not [e for e in events if e[0] == "write"]), "a DELETE stores nothing")
        er = [e for e in events if e[0] == "erase"]
        if not ex.decide(st, ok):
            ex.oblig(st, T.B(not er), "nothing is erased when the pair is not there")
            return
        if len(er) != 1:
            ex.fail(st, "the pair is erased")
            return
        ex.oblig(st, T.eq(er[0][1], k), "the pair erased is the entry's")
    s.run("BDelete", judge)


def u_code(way):
    """encode() and decode(): what is done with the callbacks"""
    def f(u):
        ex = u.ex
        fn = u.fn("Datastore::Datastore::%s(Datastore::Transform::Callbacks*, Blob const&, void**, unsigned long*)" % way)
        ex.demangle_all()
        x = {"encode": "enc", "decode": "dec"}[way]
        at, second, extra = u.const("off_cb_" + way), u.const("off_%s_second" % x), u.const("off_%sp_second" % x)
        cb = ex.new_region("callbacks", "param", I(u.const("size_cb")), StructBase("callbacks", {}))
        arg = Ptr(ex.new_region("extra", "pheap", I(8), UFBase("extra")), 0)
        known, plainv = T.var("known", "Bool"), T.var("plain", "Bool")
        node = Ptr(ex.new_region("callback", "pheap", I(64), StructBase("callback", {second: (PTRT, lambda ex, st: NULL if ex.decide(st, plainv) else FuncPtr("some callback", fn.module)), second + extra: (PTRT, arg)})), 0)
        endp = Ptr(cb, at + 8)
        r, b = mk(u, "src")
        for null in (False, True):
            if null:
                r, b = mk(u, "src", null=True)
            out = ex.new_region("dst", "param", I(8), StructBase("dst", {0: (PTRT, NULL)}))
            size = ex.new_region("size", "param", I(8), StructBase("size", {0: (I64, I0)}))
            result = ex.var("result", 0, 2 ** 32 - 1)

            def find(ex, st, a):
                ex.trusted.setdefault("std::map<hxhim_data_t, callback>", "as the standard says")
                ex.oblig(st, ex.ptr_eq(st, a[0], Ptr(cb, at)), "the %s callbacks" % way)
                ex.oblig(st, T.eq(ex.load(st, a[1], I32), b.type), "the callback of the value's type")
                return node if ex.decide(st, known) else endp

            def end(ex, st, a):
                return endp

            def deref(ex, st, a):
                p = ex.resolve(ex.load(st, a[0], PTRT))
                ex.oblig(st, ex.ptr_eq(st, p, node), "the entry looked at exists")
                return node

            def call(ex, st, a):
                st.ghost["called"] = st.ghost.get("called", ()) + (tuple(a),)
                return result
            C = "std::map<hxhim_data_t,std::pair<int (*)(void*,unsigned long,void**,unsigned long*,void*),void*>>::"
            methods(ex, C, {"find": find, "end": end, "cend": end}, "the callbacks")
            for i in ("std::_Rb_tree_iterator<", "std::_Rb_tree_const_iterator<"):
                methods(ex, i + "std::pair<hxhim_data_t const,std::pair<int (*)(void*,unsigned long,void**,unsigned long*,void*),void*>>>::", {"operator->": deref, "operator*": deref})
            ex.contracts["some callback"] = call

            def post(st):
                calls = st.ghost.get("called", ())
                p, n = ex.load(st, Ptr(out, 0), PTRT), ex.load(st, Ptr(size, 0), I64)
                if not ex.decide(st, known):
                    ex.oblig(st, T.eq(st.ret, u.const("ds_error")), "values of unknown types are refused")
                    ex.oblig(st, T.B(calls == ()), "no callback runs")
                    return
                if ex.decide(st, plainv):
                    ex.oblig(st, T.B(calls == ()), "no callback runs")
                    ex.oblig(st, T.eq(st.ret, u.const("ds_success")), "copying succeeds")
                    ex.oblig(st, T.eq(n, b.len), "the copy has the value's length")
                    q = ex.resolve(p)
                    if isnull(q):
                        ex.oblig(st, T.eq(b.len, 0), "null only for no bytes")
                        return
                    ex.oblig(st, T.B(isinstance(q, Ptr) and q.r in st.heap and q.r not in st.dead), "the copy is in a new buffer")
                    if null:
                        return
                    J = ex.fresh("J", 0, None)
                    s2 = st.clone()
                    ex.assume(s2, T.lt(J, b.len))
                    if ex.feasible(s2):
                        ex.oblig(s2, T.eq(ex.load(s2, Ptr(q.r, T.add(q.off, J)), I8), ex.load(s2, Ptr(b.ptr.r, T.add(b.ptr.off, J)), I8)), "the copy has the value's bytes")
                    return
                if len(calls) != 1:
                    ex.fail(st, "the callback runs once")
                    return
                a = calls[0]
                ex.oblig(st, T.and_(ex.ptr_eq(st, a[0], b.ptr), T.eq(a[1], b.len)), "the callback gets the value")
                ex.oblig(st, T.and_(ex.ptr_eq(st, a[2], Ptr(out, 0)), ex.ptr_eq(st, a[3], Ptr(size, 0)), ex.ptr_eq(st, a[4], arg)), "the callback gets its result's place and its argument")
                ex.oblig(st, T.eq(st.ret, result), "the callback's result is returned")
            st = u.state()
            if null:
                ex.assume(st, T.eq(b.len, 0))
            u.run(fn, st, [Ptr(cb, 0), Ptr(r, 0), Ptr(out, 0), Ptr(size, 0)], post)
    return f


def u_usable(u):
    ex = u.ex
    strings.install(ex)
    fn = u.fn("Datastore::InMemory::UsableImpl() const")
    s = Memory(u)

    def post(st):
        ex.oblig(st, st.ret if st.ret.sort == "Bool" else T.ne(st.ret, 0), "usable")
    good = u.const("off_ds_good")
    s.r.base.fields[good] = (I8, I(1))
    u.run(fn, u.state(), [s.ptr], post)


UNITS = [Unit("BPutImpl", u_put), Unit("BGetImpl", u_get), Unit("BDeleteImpl", u_delete), Unit("encode", u_code("encode")), Unit("decode", u_code("decode")), Unit("UsableImpl", u_usable),
         Unit("operate(BPut)", c17.u_put), Unit("operate(BGet)", c17.u_other(ReqGet, ResGet)), Unit("operate(BDelete)", c17.u_other(ReqDelete, ResDelete))]
