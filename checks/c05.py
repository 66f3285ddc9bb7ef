"""C05: integer encoding preserves value and order.

The default transform callbacks for the four 32/64-bit integer types are run
(through elen::encode::integers / elen::decode::integers and everything they
call) on an integer given by its decimal digits.  The case split over sign and
number of digits is complete: every integer of the type has exactly one.
Lengths are then concrete and every character is a term over the digits."""
from engine.session import *
from engine.harness import Harness, full_sources, FULL_LIBS
from engine import strings
from engine.strings import SV

SOURCES = ["src/datastore/transform.cpp", "src/utils/elen.cpp", "src/utils/memory.cpp", "specs/c05.cpp"]
TYPES = {1: ("int32", 32, True), 2: ("int64", 64, True), 3: ("uint32", 32, False), 4: ("uint64", 64, False)}
MAGLEN = {(32, True): 10, (64, True): 19, (32, False): 10, (64, False): 20}


def setup(u):
    ex = u.ex
    strings.install(ex)
    ex.decimals = []
    ex.on_throw = lambda st: ex.fail(st, "no exception is thrown")


def registered(u):
    """what default_callbacks() puts where: {'encode'|'decode': {type: (fn, extra)}}, and the extra object's state"""
    ex = u.ex
    reg = []

    def emplace(e, st, a):
        k = e.load(st, a[1], I32)
        fp = e.load(st, a[2], PTRT)
        xp = e.load(st, Ptr(a[2].r, T.add(a[2].off, 8)), PTRT)
        if not T.is_const(k):
            raise Unsupported("callback registered for an unknown type")
        m = e.region_of(st, a[0], "map")
        st.ghost.setdefault(("cb", m[0], m[1], T.cval(k)), (fp, xp))
        return UNDEF
    for m in u.prog.mods:
        for n in list(m.funcs) + list(m.decls):
            if n.startswith(("_ZNSt3mapI12hxhim_data_t", "_ZNSt13unordered_mapI12hxhim_data_t")):
                if "7emplaceI" in n:
                    ex.contracts[n] = emplace
                elif ex.dn(n).endswith(("::map()", "::unordered_map()")):
                    ex.contracts[n] = strings.nothing
    rs = ex.run_function(u.fn("Datastore::Transform::default_callbacks()"), u.state(), [])
    if len(rs) != 1:
        raise Unsupported("default_callbacks has several outcomes")
    st = rs[0]
    cb = ex.resolve(st.ret)
    out = {}
    for nm in ("encode", "decode"):
        m = u.spec("spec_" + nm, cb)
        out[nm] = {k[3]: v for k, v in st.ghost.items() if k[0] == "cb" and k[1] is m.r and T.cval(k[2]) == T.cval(m.off)}
    return st, out


def value(ex, k, bits, signed, neg):
    """an arbitrary integer of that type, sign and number of digits"""
    ds = [ex.var("%sd%d.%d" % ("n" if neg else "", k, i), 1 if i == 0 else 0, 9) for i in range(k)]
    mag = I(0)
    for d in ds:
        mag = T.add(T.mul(mag, 10), d)
    facts = []
    top = 2 ** bits - 1 if not signed else (2 ** (bits - 1) if neg else 2 ** (bits - 1) - 1)
    facts.append(T.le(mag, top))
    ex.decimals = [(mag, ds)]
    return ds, mag, facts, (T.sub(2 ** bits, mag) if neg else mag)


def call_encode(u, st0, cbs, ty, val, bits):
    """run the encode callback; list of (state, chars)"""
    ex = u.ex
    fp, xp = cbs["encode"][type_of(u, ty)]
    if not isinstance(fp, FuncPtr):
        raise Unsupported("no encode callback for integer type %d" % ty)
    st = st0.clone()
    src = ex.new_region("src", "param", I(bits // 8))
    st.mem[src] = None
    ex.store(st, Ptr(src, 0), val, ("i", bits))
    dst = ex.new_region("dst", "param", I(8))
    dsz = ex.new_region("dst_size", "param", I(8))
    st.mem[dst] = st.mem[dsz] = None
    fn = u.prog.lookup(fp.name, fp.mod)
    outs = ex.run_function(fn, st, [Ptr(src, 0), I(bits // 8), Ptr(dst, 0), Ptr(dsz, 0), xp])
    res = []

    def post(s):
        ex.oblig(s, T.eq(s.ret, I(DATASTORE_SUCCESS(u))), "encoding succeeds")
        n = ex.load(s, Ptr(dsz, 0), I64)
        p = ex.resolve(ex.load(s, Ptr(dst, 0), PTRT))
        if not T.is_const(n) or not isinstance(p, Ptr):
            raise Unsupported("encoded size is not determined by the number of digits")
        ex.oblig(s, T.eq(p.r.size, n), "the encoded buffer has the reported size")
        return p, n, [ex.load(s, Ptr(p.r, T.add(p.off, i)), I8) for i in range(T.cval(n))]
    for s, r in ex.with_forks(outs, post):
        if ex.feasible(s):
            res.append((s,) + r)
    return res


def DATASTORE_SUCCESS(u):
    return u.const("spec_success")


def type_of(u, ty):
    return u.const("spec_type_" + TYPES[ty][0])


def classes(bits, signed):
    out = [(k, False) for k in range(1, MAGLEN[(bits, False if not signed else True)] + 1)]
    if signed:
        out += [(k, True) for k in range(1, MAGLEN[(bits, True)] + 1)]
    return out


def u_roundtrip(ty, neg):
    name, bits, signed = TYPES[ty]

    def f(u):
        setup(u)
        ex = u.ex
        st0, cbs = registered(u)
        fp, dxp = cbs["decode"][type_of(u, ty)]
        fn = u.prog.lookup(fp.name, fp.mod)
        u.functions += [ex.dn(cbs["encode"][type_of(u, ty)][0].name), ex.dn(fp.name)]
        cases = [(k, n) for k, n in classes(bits, signed) if n == neg] + ([(0, False)] if not neg else [])
        for k, n in cases:
            if k:
                ds, mag, facts, val = value(ex, k, bits, signed, n)
            else:
                ds, mag, facts, val = [], I(0), [], I(0)
            st = st0.clone()
            for q in facts:
                ex.assume(st, q)
            outs = call_encode(u, st, cbs, ty, val, bits)
            if not outs:
                raise Unsupported("vacuous: no outcome of encoding")
            for s, p, sz, cs in outs:
                s = s.clone()
                dst = ex.new_region("out", "param", I(8))
                dsz = ex.new_region("out_size", "param", I(8))
                s.mem[dst] = s.mem[dsz] = None

                def post(s2):
                    ex.oblig(s2, T.eq(s2.ret, I(DATASTORE_SUCCESS(u))), "decoding succeeds")
                    q = ex.load(s2, Ptr(dst, 0), PTRT)
                    ex.oblig(s2, T.eq(ex.load(s2, Ptr(dsz, 0), I64), bits // 8), "decoded size")
                    ex.oblig(s2, T.eq(ex.load(s2, q, ("i", bits)), val), "decoding the encoding returns the integer")
                ra = u.run(fn, s, [p, sz, Ptr(dst, 0), Ptr(dsz, 0), dxp], post)
                # the encoding itself does not depend on where it is kept: no alias of the source
    return f


def lex_lt(a, b):
    """byte-wise a < b, as a term"""
    r = T.B(len(a) < len(b))
    for x, y in reversed(list(zip(a, b))):
        r = T.or_(T.lt(x, y), T.and_(T.eq(x, y), r))
    r2 = r
    return r2


def u_order(ty):
    name, bits, signed = TYPES[ty]

    def f(u):
        setup(u)
        ex = u.ex
        st0, cbs = registered(u)
        u.functions += [ex.dn(cbs["encode"][type_of(u, ty)][0].name)]
        enc = {}
        for k, n in classes(bits, signed) + [(0, False)]:
            if k:
                ds, mag, facts, val = value(ex, k, bits, signed, n)
            else:
                ds, mag, facts, val = [], I(0), [], I(0)
            st = st0.clone()
            for q in facts:
                ex.assume(st, q)
            outs = call_encode(u, st, cbs, ty, val, bits)
            if len(outs) != 1:
                raise Unsupported("encoding has %d outcomes for %d digits" % (len(outs), k))
            enc[(k, n)] = (ds, mag, facts, outs[0][3])
        # two integers of different sign or number of digits: renamed copies
        # of the digits, order decided by the class
        def rename(cl, suffix):
            ds, mag, facts, cs = enc[cl]
            m = {d: ex.var("%s%s" % (d.args[0], suffix), *ex.ranges[d]) for d in ds}
            s = lambda t: T.subst(t, m)
            return [m[d] for d in ds], s(mag), [s(q) for q in facts], [s(c) for c in cs]
        order = sorted(enc, key=lambda c: -c[0] if c[1] else c[0])
        for i, ca in enumerate(order):
            for cb_ in order[i + 1:]:
                da, ma, fa, xa = rename(ca, "a")
                db, mb, fb, xb = rename(cb_, "b")
                st = State()
                for q in fa + fb:
                    ex.assume(st, q)
                ex.oblig(st, lex_lt(xa, xb), "%s: %s%d-digit integers sort before %s%d-digit ones" % (name, "-" if ca[1] else "", ca[0], "-" if cb_[1] else "", cb_[0]), where="lemma")
        # same class: at the first differing digit the numbers and the encodings differ the same way
        for cl in order:
            k, n = cl
            if k == 0:
                continue
            da, ma, fa, xa = rename(cl, "a")
            db, mb, fb, xb = rename(cl, "b")
            for j in range(k):
                st = State()
                for q in fa + fb:
                    ex.assume(st, q)
                for i in range(j):
                    ex.assume(st, T.eq(da[i], db[i]))
                ex.assume(st, T.lt(da[j], db[j]))
                # |a| < |b| follows from place values
                ex.oblig(st, T.lt(ma, mb), "%s: first differing digit decides the magnitude" % name, where="lemma")
                ex.oblig(st, lex_lt(xb, xa) if n else lex_lt(xa, xb), "%s: first differing digit %d of %d decides the order of the encodings" % (name, j + 1, k), where="lemma")
    return f


UNITS = []
for t in sorted(TYPES):
    UNITS.append(Unit("%s: decode(encode(v)) == v, v >= 0" % TYPES[t][0], u_roundtrip(t, False), budget=300))
    if TYPES[t][2]:
        UNITS.append(Unit("%s: decode(encode(v)) == v, v < 0" % TYPES[t][0], u_roundtrip(t, True), budget=300))
    UNITS.append(Unit("%s: order of encodings" % TYPES[t][0], u_order(t), budget=300))
HARNESSES = [Harness("c05.cpp", full_sources(), FULL_LIBS, opt="-O0", budget=5)]
ASSUMPTIONS = ["std::string, std::to_string and stream extraction of unsigned integers behave as their contracts say (C locale)"]
