"""Trusted contracts for std::string, std::to_string and number extraction from
a std::stringstream.  A string object is a content buffer plus a length, both
kept as ghost state of the object; the characters live in ordinary memory, so
iterators and c_str() pointers into them work.  Concrete lengths stay concrete."""
from . import terms as T
from .terms import I, TRUE, FALSE
from .vals import *
from .exec import *
from .stdlib import trusted

NPOS = 2 ** 64 - 1


class SV:
    """content: bytes [0, n) of buf"""
    __slots__ = ("buf", "n")

    def __init__(self, buf, n):
        self.buf, self.n = buf, T.toint(n)


def key(ex, st, p):
    r, off = ex.region_of(st, p, "string access")
    return ("str", r, off)


def sget(ex, st, p):
    k = key(ex, st, p)
    v = st.ghost.get(k)
    if v is None:
        h = getattr(ex, "unknown_string", None)
        if h:
            v = h(st, k[1], k[2])
        if v is None:
            raise Unsupported("content of a string that is not known (%r)" % (k[1],))
        st.ghost[k] = v
    return v


def sput(ex, st, p, pieces):
    """pieces: SV, or Term (a character), or (Ptr, n)"""
    n = I(0)
    for x in pieces:
        n = T.add(n, 1 if isinstance(x, T.Term) else x.n if isinstance(x, SV) else x[1])
    # evaluate before allocating: copies refer to the old content
    buf = ex.alloc(st, T.add(n, 1), "heap", "string")
    at = I(0)
    for x in pieces:
        if isinstance(x, T.Term):
            ex.store(st, Ptr(buf, at), x, I8, check=False)
            at = T.add(at, 1)
        else:
            src, m = (Ptr(x.buf, 0), x.n) if isinstance(x, SV) else x
            m = T.toint(m)
            if T.is_const(m) and T.cval(m) <= 64:
                for i in range(T.cval(m)):
                    ex.store(st, Ptr(buf, T.add(at, i)), ex.load(st, Ptr(src.r, T.add(src.off, i)), I8), I8, check=False)
            else:
                ex.copy_mem(st, Ptr(buf, at), src, m, what="string copy")
            at = T.add(at, m)
    ex.store(st, Ptr(buf, n), I(0), I8, check=False)
    st.ghost[key(ex, st, p)] = SV(buf, n)
    return p


def drop(ex, st, p):
    k = key(ex, st, p)
    v = st.ghost.pop(k, None)
    if v is not None:
        st.dead[v.buf] = True


def chars(ex, st, v):
    """the characters of a string of known length"""
    if not T.is_const(v.n):
        raise Unsupported("characters of a string of unknown length")
    return [ex.load(st, Ptr(v.buf, i), I8) for i in range(T.cval(v.n))]


def cstr(ex, st, p):
    """(pointer, length) of a NUL-terminated literal"""
    p = ex.resolve(p)
    if isinstance(p, Ptr) and T.is_const(p.off):
        for i in range(300):
            c = ex.load(st, Ptr(p.r, T.add(p.off, i)), I8)
            if not T.is_const(c):
                break
            if T.cval(c) == 0:
                return p, I(i)
    h = ex.contracts["strlen"]
    return p, h(ex, st, [p])


D = "std::string "


@trusted("std::string(): empty")
def s_empty(ex, st, a):
    sput(ex, st, a[0], [])


@trusted("std::string copy: same characters")
def s_copy(ex, st, a):
    sput(ex, st, a[0], [sget(ex, st, a[1])])


@trusted("std::string move: takes the characters, leaves the source empty")
def s_move(ex, st, a):
    v = sget(ex, st, a[1])
    if key(ex, st, a[0]) == key(ex, st, a[1]):
        return a[0]
    st.ghost[key(ex, st, a[0])] = v
    sput(ex, st, a[1], [])
    return a[0]


@trusted("std::string(p, n): copies n bytes")
def s_ptrn(ex, st, a):
    sput(ex, st, a[0], [(ex.resolve(a[1]), a[2])] if not ex.decide(st, T.eq(a[2], 0)) else [])


@trusted("std::string(p): copies a NUL-terminated string")
def s_cstr(ex, st, a):
    p, n = cstr(ex, st, a[1])
    sput(ex, st, a[0], [(p, n)])


@trusted("std::string(n, c): n times c")
def s_fill(ex, st, a):
    if not T.is_const(a[1]) or T.cval(a[1]) > 64:
        raise Unsupported("string(n, c) with unknown n")
    sput(ex, st, a[0], [a[2]] * T.cval(a[1]))


@trusted("std::string(s, pos, n)")
def s_sub_ctor(ex, st, a):
    return s_substr(ex, st, [a[0], a[1], a[2], a[3] if len(a) > 3 and isinstance(a[3], T.Term) else I(NPOS)])


@trusted("~string: releases the characters")
def s_dtor(ex, st, a):
    drop(ex, st, a[0])


@trusted("string assignment from a string")
def s_assign(ex, st, a):
    v = sget(ex, st, a[1])
    if key(ex, st, a[0]) != key(ex, st, a[1]):
        sput(ex, st, a[0], [v])
    return a[0]


@trusted("string assignment from a NUL-terminated string")
def s_assign_c(ex, st, a):
    p, n = cstr(ex, st, a[1])
    return sput(ex, st, a[0], [(p, n)])


@trusted("assign(p, n): copies n bytes")
def s_assign_pn(ex, st, a):
    return sput(ex, st, a[0], [(ex.resolve(a[1]), a[2])] if not ex.decide(st, T.eq(a[2], 0)) else [])


@trusted("append a character")
def s_app_ch(ex, st, a):
    return sput(ex, st, a[0], [sget(ex, st, a[0]), a[1]])


@trusted("append a string")
def s_app_s(ex, st, a):
    return sput(ex, st, a[0], [sget(ex, st, a[0]), sget(ex, st, a[1])])


@trusted("append a NUL-terminated string")
def s_app_c(ex, st, a):
    return sput(ex, st, a[0], [sget(ex, st, a[0]), cstr(ex, st, a[1])])


@trusted("append n bytes")
def s_app_pn(ex, st, a):
    return sput(ex, st, a[0], [sget(ex, st, a[0]), (ex.resolve(a[1]), a[2])])


@trusted("append n times a character")
def s_app_fill(ex, st, a):
    if not T.is_const(a[1]) or T.cval(a[1]) > 64:
        raise Unsupported("append(n, c) with unknown n")
    return sput(ex, st, a[0], [sget(ex, st, a[0])] + [a[2]] * T.cval(a[1]))


@trusted("number of characters")
def s_size(ex, st, a):
    return sget(ex, st, a[0]).n


@trusted("whether there are no characters")
def s_isempty(ex, st, a):
    return T.eq(sget(ex, st, a[0]).n, 0)


@trusted("pointer to the characters")
def s_data(ex, st, a):
    return Ptr(sget(ex, st, a[0]).buf, 0)


@trusted("pointer behind the characters")
def s_end(ex, st, a):
    v = sget(ex, st, a[0])
    return Ptr(v.buf, v.n)


@trusted("reference to character i; i is at most size()")
def s_at(ex, st, a):
    v = sget(ex, st, a[0])
    ex.oblig(st, T.le(a[1], v.n), "string index within the string")
    return Ptr(v.buf, a[1])


@trusted("reference to the last character")
def s_back(ex, st, a):
    v = sget(ex, st, a[0])
    ex.oblig(st, T.lt(0, v.n), "back() of a string that is not empty")
    return Ptr(v.buf, T.sub(v.n, 1))


@trusted("drops the last character")
def s_pop(ex, st, a):
    v = sget(ex, st, a[0])
    ex.oblig(st, T.lt(0, v.n), "pop_back() of a string that is not empty")
    n = T.sub(v.n, 1)
    ex.store(st, Ptr(v.buf, n), I(0), I8, check=False)
    st.ghost[key(ex, st, a[0])] = SV(v.buf, n)
    return None


@trusted("resize(n): the first n characters, filled up with zeros (or the given character)")
def s_resize(ex, st, a):
    v = sget(ex, st, a[0])
    c = a[2] if len(a) > 2 else I(0)
    if ex.decide(st, T.le(a[1], v.n)):
        sput(ex, st, a[0], [(Ptr(v.buf, 0), a[1])])
        return None
    d = T.sub(a[1], v.n)
    if not T.is_const(d) or T.cval(d) > 64:
        raise Unsupported("resize() by an unknown number of characters")
    sput(ex, st, a[0], [v] + [c] * T.cval(d))
    return None


@trusted("substr: throws if pos > size()")
def s_substr(ex, st, a):
    v = sget(ex, st, a[1])
    pos, n = a[2], a[3]
    if ex.decide(st, T.lt(v.n, pos)):
        ex.throws.append(st)
        raise Dead()
    left = T.sub(v.n, pos)
    m = n if ex.decide(st, T.le(n, left)) else left
    return sput(ex, st, a[0], [(Ptr(v.buf, pos), m)])


def cat(*kinds):
    @trusted("concatenation of strings and characters")
    def h(ex, st, a):
        ps = []
        for k, x in zip(kinds, a[1:]):
            ps.append(sget(ex, st, x) if k == "s" else cstr(ex, st, x) if k == "c" else x)
        sput(ex, st, a[0], ps)
    return h


def same(ex, st, x, y):
    """Bool term: equal contents; lengths known"""
    if T.is_const(x.n) and T.is_const(y.n):
        if T.cval(x.n) != T.cval(y.n):
            return FALSE
        return T.and_(*[T.eq(p, q) for p, q in zip(chars(ex, st, x), chars(ex, st, y))]) if T.cval(x.n) else TRUE
    for p, q in ((x, y), (y, x)):
        if T.is_const(q.n):
            if not ex.decide(st, T.eq(p.n, q.n)):
                return FALSE
            return same(ex, st, SV(p.buf, q.n), q)
    raise Unsupported("comparison of strings of unknown length")


def eqs(kind, neg=False):
    @trusted("equality of contents")
    def h(ex, st, a):
        x = sget(ex, st, a[0])
        if kind == "c":
            p, n = cstr(ex, st, a[1])
            if not T.is_const(n):
                raise Unsupported("comparison with a string of unknown length")
            if not ex.decide(st, T.eq(x.n, n)):
                return TRUE if neg else FALSE
            c = [T.eq(ex.load(st, Ptr(x.buf, i), I8), ex.load(st, Ptr(p.r, T.add(p.off, i)), I8)) for i in range(T.cval(n))]
            r = T.and_(*c) if c else TRUE
        else:
            r = same(ex, st, x, sget(ex, st, a[1]))
        return T.not_(r) if neg else r
    return h


@trusted("decimal digits of the number, most significant first, no leading zero")
def to_string(ex, st, a):
    d = digits(ex, st, a[1], signed=ex.callname.split("(")[1][0] != "u")
    sput(ex, st, a[0], [I(c) if isinstance(c, int) else c for c in d])


def digits(ex, st, t, signed):
    """characters of the decimal representation"""
    if T.is_const(t):
        v = T.cval(t)
        n = ex.callins.a["args"][1][0][1]
        if signed and v >= 2 ** (n - 1):
            v -= 2 ** n
        return [ord(c) for c in str(v)]
    for v, ds in getattr(ex, "decimals", []):
        if t is v or ex.proved(st, T.eq(t, v)):
            return [T.add(d, 48) for d in ds]
    raise Unsupported("decimal representation of %s" % t)


# ---------------------------------------------------------------- stringstream
@trusted("stringstream over a copy of the string, positioned at its start")
def ss_ctor(ex, st, a):
    v = sget(ex, st, a[1])
    r, off = ex.region_of(st, a[0], "stream")
    st.ghost[("ss", r)] = (chars(ex, st, v), 0, True)
    # the vtable slot with the offset of the virtual base; every subobject maps to the one stream
    vt = ex.new_region("vtable", "const", I(256), ZeroBase())
    for o in (0, 16):
        ex.store(st, Ptr(r, T.add(off, o)), Ptr(vt, 128), PTRT)


@trusted("releases the stream")
def ss_dtor(ex, st, a):
    return None


def ss_key(ex, st, p):
    r, off = ex.region_of(st, p, "stream")
    k = ("ss", r)
    if k not in st.ghost:
        raise Unsupported("stream with unknown content")
    return k


def extract(bits):
    @trusted("reads the longest run of decimal digits; stores its value, or fails when there is none or it does not fit")
    def h(ex, st, a):
        k = ss_key(ex, st, a[0])
        cs, pos, good = st.ghost[k]
        if not good:
            return a[0]
        i, v = pos, I(0)
        while i < len(cs) and ex.decide(st, T.and_(T.le(48, cs[i]), T.le(cs[i], 57))):
            v = T.add(T.mul(v, 10), T.sub(cs[i], 48))
            i += 1
        if i == pos:
            raise Unsupported("number extraction from text that does not start with a digit")
        top = 2 ** bits - 1
        if ex.decide(st, T.le(v, top)):
            ex.store(st, a[1], v, ("i", bits if bits % 8 == 0 else bits + 1))
            st.ghost[k] = (cs, i, True)
        else:
            ex.store(st, a[1], I(top), ("i", bits if bits % 8 == 0 else bits + 1))
            st.ghost[k] = (cs, i, False)
        return a[0]
    return h


@trusted("whether the last extraction failed")
def ss_fail(ex, st, a):
    return FALSE if st.ghost[ss_key(ex, st, a[0])][2] else TRUE


@trusted("whether the last extraction succeeded")
def ss_ok(ex, st, a):
    return TRUE if st.ghost[ss_key(ex, st, a[0])][2] else FALSE


@trusted("an exception is being thrown; the path ends")
def throwing(ex, st, a):
    ex.throws.append(st)
    h = getattr(ex, "on_throw", None)
    if h:
        h(st)
    raise Dead()


@trusted("whether the character is a decimal digit")
def c_isdigit(ex, st, a):
    x = a[0]
    return T.ite(T.and_(T.le(48, x), T.le(x, 57)), 1, 0)


@trusted("no effect")
def nothing(ex, st, a):
    return None


def install(ex):
    c = ex.contracts
    S = "std::string::"
    for al in ("std::allocator<char>",):
        c[S + "basic_string()"] = s_empty
        c[S + "basic_string(%s const&)" % al] = s_empty
        c[S + "basic_string(std::string const&)"] = s_copy
        c[S + "basic_string(std::string&&)"] = s_move
        c[S + "basic_string(char const*, unsigned long, %s const&)" % al] = s_ptrn
        for t in ("", "<%s >" % al):
            c[S + "basic_string%s(char const*, %s const&)" % (t, al)] = s_cstr
            c[S + "basic_string%s(unsigned long, char, %s const&)" % (t, al)] = s_fill
        c[S + "basic_string(std::string const&, unsigned long, unsigned long)"] = s_sub_ctor
    c[S + "~basic_string()"] = s_dtor
    c[S + "operator=(std::string const&)"] = s_assign
    c[S + "operator=(std::string&&)"] = s_move
    c[S + "operator=(char const*)"] = s_assign_c
    c[S + "assign(std::string const&)"] = s_assign
    c[S + "assign(char const*)"] = s_assign_c
    c[S + "assign(char const*, unsigned long)"] = s_assign_pn
    for n in ("operator+=", "append"):
        c[S + n + "(std::string const&)"] = s_app_s
        c[S + n + "(char const*)"] = s_app_c
        c[S + n + "(char)"] = s_app_ch
        c[S + n + "(char const*, unsigned long)"] = s_app_pn
        c[S + n + "(unsigned long, char)"] = s_app_fill
    c[S + "push_back(char)"] = s_app_ch
    for n in ("size", "length"):
        c[S + n + "() const"] = s_size
    c[S + "empty() const"] = s_isempty
    for q in ("", " const"):
        for n in ("begin", "data", "c_str", "front"):
            c[S + n + "()" + q] = s_data
        c[S + "cbegin()" + q] = s_data
        c[S + "cend()" + q] = s_end
        c[S + "end()" + q] = s_end
        c[S + "back()" + q] = s_back
        c[S + "operator[](unsigned long)" + q] = s_at
        c[S + "at(unsigned long)" + q] = s_at
    c[S + "substr(unsigned long, unsigned long) const"] = s_substr
    c[S + "reserve(unsigned long)"] = nothing
    c[S + "pop_back()"] = s_pop
    c[S + "resize(unsigned long)"] = s_resize
    c[S + "resize(unsigned long, char)"] = s_resize
    O = "std::string std::operator+<char, std::char_traits<char>, std::allocator<char> >"
    for x, k in (("std::string const&", "s"), ("std::string&&", "s"), ("char const*", "c"), ("char", "h")):
        for y, l in (("std::string const&", "s"), ("std::string&&", "s"), ("char const*", "c"), ("char", "h")):
            c["%s(%s, %s)" % (O, x, y)] = cat(k, l)
    for op, ng in (("operator==", False), ("operator!=", True)):
        E = "bool std::%s<char, std::char_traits<char>, std::allocator<char> >" % op
        c[E + "(std::string const&, std::string const&)"] = eqs("s", ng)
        c[E + "(std::string const&, char const*)"] = eqs("c", ng)
    E = "std::operator==<char>"
    for t in ("int", "unsigned int", "long", "unsigned long", "long long", "unsigned long long"):
        c["std::to_string(%s)" % t] = to_string
    SS = "std::basic_stringstream<char, std::char_traits<char>, std::allocator<char> >::"
    IS = "std::basic_istringstream<char, std::char_traits<char>, std::allocator<char> >::"
    for x in (SS, IS):
        nm = "basic_stringstream" if x is SS else "basic_istringstream"
        c[x + nm + "(std::string const&, std::_Ios_Openmode)"] = ss_ctor
        c[x + "~" + nm + "()"] = ss_dtor
    G = "std::basic_istream<char, std::char_traits<char> >::operator>>"
    for t, b in (("unsigned int", 32), ("unsigned long", 64), ("unsigned long long", 64), ("unsigned short", 16), ("int", 31), ("long", 63), ("long long", 63)):
        c["%s(%s&)" % (G, t)] = extract(b)
    IOS = "std::basic_ios<char, std::char_traits<char> >::"
    c[IOS + "operator!() const"] = ss_fail
    c[IOS + "fail() const"] = ss_fail
    c[IOS + "operator bool() const"] = ss_ok
    c["isdigit"] = c_isdigit
    for n in ("__cxa_allocate_exception",):
        c[n] = throwing
    for n in ("std::__new_allocator<char>::~__new_allocator()", "std::allocator<char>::allocator()", "std::allocator<char>::~allocator()",
              "std::__new_allocator<char>::__new_allocator()"):
        c[n] = nothing
