"""What the contracts know about configuration (C18): texts as lines of
characters, a configuration as its last assignments, streams and unordered_map
by contract."""
from engine.session import *
from engine.loops import LoopSpec, StrInv
from engine import terms as T
from engine import strings
from engine.strings import SV, sget, sput, key, cstr
from checks.flush import At
from checks.stores import plain
from checks.msgs import *

SOURCES = ["src/utils/Configuration.cpp", "src/hxhim/config.cpp", "specs/config.cpp"]
BIG = 2 ** 40


def named(u, prefix):
    """the one function whose demangled name starts with prefix"""
    u.ex.demangle_all()
    for nm, d in sorted(u.ex.demangled.items()):
        if plain(d).startswith(prefix):
            for m in u.ex.prog.mods:
                if nm in m.funcs:
                    return u.fn(nm)
    raise Unsupported("no function %s" % prefix)


def contract(ex, prefix, h, exact=False):
    ex.demangle_all()
    for nm, d in ex.demangled.items():
        d = plain(d)
        if d == prefix if exact else d.startswith(prefix):
            ex.contracts[nm] = h


def text(ex, fam, idx, n, at=0):
    """SV: characters at.. of text (fam, idx), n of them"""
    def elem(ex, st, q):
        t = char(ex, fam, idx, T.add(q, at))
        return {0: (I8, t)}
    r = ex.new_region(fam, "const", T.add(n, 1), ArrayBase(fam, 1, elem))
    return SV(r, n)


def char(ex, fam, idx, q):
    t = T.app(fam, tuple(T.toint(x) for x in idx) + (T.toint(q),))
    ex.setrange(t, 0, 255)
    return t


def blank(c):
    return T.eq(T.app("blank", (T.toint(c),)), 1)


def same_text(ex, st, v, n, ch, what):
    """the string has n characters, character q is ch(q)"""
    ex.oblig(st, T.eq(v.n, n), what + " (length)")
    q = ex.fresh("q", 0, BIG)
    ex.assume(st, T.lt(q, n))
    ex.oblig(st, T.eq(ex.load(st, Ptr(v.buf, q), I8, check=False), ch(q)), what)


class AnyString(StrInv):
    def __init__(self, name="some text"):
        self.name = name

    def produce(self, ex, st, it):
        n = ex.fresh("len", 0, BIG)
        return SV(ex.new_region("sometext", "const", T.add(n, 1), UninitBase()), n)

    def check(self, ex, st, v, it):
        pass


class Parse:
    """parse_kv_stream: line i has length len(i); its first word is [a(i), b(i))"""

    def __init__(self, u):
        self.u, ex = u, u.ex
        self.ex = ex
        ex.demangle_all()
        strings.install(ex)
        self.N = ex.var("lines", 0, BIG)
        self.config = Ptr(ex.new_region("config", "param", I(256), UFBase("config")), 0)
        vt = ex.new_region("vtable", "const", I(256), ZeroBase())
        self.vt = vt
        self.stream = ex.new_region("stream", "param", I(1024), StructBase("stream", {0: (PTRT, Ptr(vt, 128))}))
        S = "std::basic_istream<char,std::char_traits<char>>&std::"
        for nm, d in ex.demangled.items():
            d = plain(d).replace(" ", "")
            if "std::getline<char," in d:
                ex.contracts[nm] = self.getline if d.endswith("(std::basic_istream<char,std::char_traits<char>>&,string&)") else self.other("getline " + d)
            elif "std::operator>><char," in d and d.endswith("&,string&)"):
                ex.contracts[nm] = self.word
            elif d.startswith("std::basic_stringstream<") or d.startswith("std::basic_istringstream<"):
                m = d.split(">::")[-1]
                if m.startswith("basic_") and "string" in m:
                    ex.contracts[nm] = self.over
                elif m.startswith("~"):
                    ex.contracts[nm] = lambda ex, st, a: st.ghost.pop(("ss", self.which(st, a[0])), None) and None
                else:
                    ex.contracts[nm] = self.other(m)
            elif d.startswith("std::basic_ios<"):
                m = d.split(">::")[-1]
                ex.contracts[nm] = self.ok if m.startswith("operatorbool") else self.fails if m.startswith(("fail(", "operator!(")) else self.other(m)
            elif d.startswith("std::unordered_map<string,string,"):
                m = d.split(">::")[-1]
                ex.contracts[nm] = self.slot if m.startswith("operator[](") else self.other("unordered_map::" + m)
        ex.contracts["isspace"] = self.isspace
        ex.trusted.setdefault("std::getline(stream, line)", "the lines of a text one after the other, without their ends")
        ex.trusted.setdefault("std::istream >> std::string", "the next word; fails if only blanks are left")
        ex.trusted.setdefault("isspace", "the blanks of the C locale, as for streams")

    def other(self, what):
        def h(ex, st, a):
            raise Unsupported("streams and configurations: used in a way the contract does not cover (%s)" % what[-180:])
        return h

    def line(self, st):
        return st.ghost["line"][0] if st.ghost["line"] else None

    # texts
    def len(self, i):
        t = T.app("len", (T.toint(i),))
        self.ex.setrange(t, 0, BIG)
        return t

    def mark(self, name, i):
        t = T.app(name, (T.toint(i),))
        self.ex.setrange(t, 0, BIG)
        return t

    def marks(self, i):
        """first word [a, b), what is left without surrounding blanks [c, d); no word iff a == len"""
        return tuple(self.mark(x, i) for x in "abcd") + (self.len(i),)

    def ch(self, i, k):
        return char(self.ex, "line", (i,), k)

    def shape(self, st, i):
        """what the marks of line i mean, but for single characters"""
        a, b, c, d, n = self.marks(i)
        f = [T.le(a, b), T.le(b, n), T.implies(T.eq(a, n), T.eq(b, n)), T.implies(T.lt(a, n), T.lt(a, b)),
             T.le(b, c), T.le(c, n), T.le(b, d), T.le(d, n), T.implies(T.eq(c, n), T.eq(d, b)), T.implies(T.lt(c, n), T.lt(c, d))]
        for x in f:
            self.ex.assume(st, x)
        for k in (a, b, c, T.sub(d, 1)):
            self.about(st, i, k)

    def about(self, st, i, k):
        """what the marks of line i say about character k"""
        a, b, c, d, n = self.marks(i)
        s = blank(self.ch(i, k))
        for x in (T.implies(T.and_(T.le(0, k), T.lt(k, a)), s), T.implies(T.and_(T.le(a, k), T.lt(k, b)), T.not_(s)),
                  T.implies(T.and_(T.eq(k, b), T.lt(b, n)), s),
                  T.implies(T.and_(T.le(b, k), T.lt(k, c)), s), T.implies(T.and_(T.eq(k, c), T.lt(c, n)), T.not_(s)),
                  T.implies(T.and_(T.le(d, k), T.lt(k, n)), s), T.implies(T.and_(T.eq(k, T.sub(d, 1)), T.lt(b, d)), T.not_(s))):
            self.ex.assume(st, x)

    # streams
    def which(self, st, p):
        r, _ = self.ex.region_of(st, p, "stream")
        return r

    def state(self, st, r):
        s = st.ghost.get(("ss", r))
        if s is None:
            raise Unsupported("a stream the contract does not know")
        return s

    def getline(self, ex, st, a):
        r = self.which(st, a[0])
        if r is self.stream:
            pos = st.ghost["lines read"]
            if st.ghost["good"] is not True or not ex.decide(st, T.lt(pos, self.N)):
                st.ghost["good"] = False
                return a[0]
            self.shape(st, pos)
            st.ghost[key(ex, st, a[1])] = text(ex, "line", (pos,), self.len(pos))
            st.ghost["line"] = (pos,)
            st.ghost["lines read"] = T.add(pos, 1)
            return a[0]
        i, at, good = self.state(st, r)
        n = self.len(i)
        if not good or ex.decide(st, T.le(n, at)):
            st.ghost[("ss", r)] = (i, at, False)
            return a[0]
        st.ghost[key(ex, st, a[1])] = text(ex, "line", (i,), T.sub(n, at), at)
        st.ghost[("ss", r)] = (i, n, True)
        return a[0]

    def over(self, ex, st, a):
        r = self.which(st, a[0])
        v = sget(ex, st, a[1])
        i = self.line(st)
        if not (v.buf.name == "line" and i is not None and ex.proved(st, T.eq(v.n, self.len(i)))):
            raise Unsupported("a stream over something other than a line")
        st.ghost[("ss", r)] = (i, I0, True)
        for o in (0, 16):
            ex.store(st, Ptr(r, o), Ptr(self.vt, 128), PTRT, check=False)
        return None

    def word(self, ex, st, a):
        r = self.which(st, a[0])
        if r is self.stream:
            raise Unsupported("words are read across lines")
        i, at, good = self.state(st, r)
        A, B, _, _, n = self.marks(i)
        if not (T.is_const(at) and T.cval(at) == 0):
            raise Unsupported("a second word is read")
        if ex.decide(st, T.eq(A, n)):
            st.ghost[("ss", r)] = (i, n, False)
            return a[0]
        st.ghost[key(ex, st, a[1])] = text(ex, "line", (i,), T.sub(B, A), A)
        st.ghost[("ss", r)] = (i, B, True)
        return a[0]

    def good(self, st, p):
        r = self.which(st, p)
        return st.ghost["good"] if r is self.stream else self.state(st, r)[2]

    def ok(self, ex, st, a):
        return T.B(self.good(st, a[0]))

    def fails(self, ex, st, a):
        return T.B(not self.good(st, a[0]))

    def isspace(self, ex, st, a):
        return T.ite(blank(T.mod(a[0], 256)), 1, 0)

    # the configuration
    def slot(self, ex, st, a):
        ex.trusted.setdefault("std::unordered_map::operator[]", "the value under a key, new or old")
        ex.oblig(st, ex.ptr_eq(st, a[0], self.config), "the configuration that is being filled")
        v = sget(ex, st, a[1])
        i = self.line(st)
        if i is None:
            raise Unsupported("an option is set outside the lines")
        A, B = self.marks(i)[:2]
        same_text(ex, st, v, T.sub(B, A), lambda q: self.ch(i, T.add(A, q)), "the option set is the first word of the line")
        r = ex.new_region("slot", "const", I(32), UninitBase())
        r.kind = "heapslot"
        st.ghost["set"] = st.ghost["set"] + (r,)
        st.ghost[key(ex, st, Ptr(r, 0))] = AnyString().produce(ex, st, None)
        return Ptr(r, 0)

    def judge(self, st, i):
        """line i has been read"""
        ex = self.ex
        A, B, C, D, n = self.marks(i)
        w = st.ghost["set"]
        if ex.decide(st, T.or_(T.eq(A, n), T.eq(self.ch(i, A), ord("#")))):
            ex.oblig(st, T.B(not w), "blank lines and comments change nothing")
            return
        ex.oblig(st, T.B(len(w) == 1), "a line sets exactly one option")
        if len(w) != 1:
            return
        v = sget(ex, st, Ptr(w[0], 0))
        if ex.decide(st, T.eq(C, n)):
            ex.oblig(st, T.eq(v.n, 0), "an option without value has the empty value")
        else:
            same_text(ex, st, v, T.sub(D, C), lambda q: self.ch(i, T.add(C, q)), "the value is the rest of the line without surrounding blanks")


class Lines(LoopSpec):
    """one arbitrary line"""
    force = True
    logs = ("set", "line", "good")

    def __init__(self, p):
        self.p = p

    def head(self, ex, st, it):
        st.ghost["set"], st.ghost["line"], st.ghost["good"] = (), (), True

    def string(self, ex, st, k, v0):
        return AnyString()

    def facts(self, ex, st, it):
        return [T.le(it, self.p.N)]

    def back(self, ex, st, it):
        i = self.p.line(st)
        if i is None:
            raise Unsupported("a round without a line")
        ex.oblig(st, T.eq(i, it), "lines are read one by one")
        self.p.judge(st, i)


class Trim(LoopSpec):
    """looking for the first and the last character of the value"""
    force = True

    def __init__(self, p, i):
        self.p, self.i = p, i

    def candidates(self, ex, st):
        A, B, C, D, n = self.p.marks(self.i)
        return [("leading", lambda it: T.le(it, T.sub(C, B))), ("trailing", lambda it: T.le(it, T.sub(n, D)))]

    def head(self, ex, st, it):
        A, B, C, D, n = self.p.marks(self.i)
        self.p.about(st, self.i, T.add(B, it))
        self.p.about(st, self.i, T.sub(T.sub(n, it), 1))


def u_parse(u):
    """every line sets the option it names to the value it gives"""
    p = Parse(u)
    ex = u.ex
    ex.loopspec = lambda ex, st, f, L: Lines(p) if p.line(st) is None else Trim(p, p.line(st))
    st = u.state()
    st.ghost["good"], st.ghost["line"], st.ghost["set"], st.ghost["lines read"] = True, (), (), I0

    def post(st):
        ex.oblig(st, T.eq(st.ghost["lines read"], p.N), "every line is read")
    u.run(named(u, "parse_kv_stream("), st, [p.config, Ptr(p.stream, 0)], post)


# ------------------------------------------------------------------ sources
def uncovered(what):
    def h(ex, st, a):
        raise Unsupported("used in a way the contract does not cover (%s)" % what[-160:])
    return h


class Each(LoopSpec):
    """going through the sources: one arbitrary source"""
    force = True
    logs = ("read", "cleared")

    def __init__(self, s):
        self.s = s

    def head(self, ex, st, it):
        st.ghost["read"] = ()

    def pointer(self, ex, st, key, v0):
        v = ex.resolve(v0)
        if isinstance(v, Ptr) and (v.r is self.s.seq or v.r.fam == "source node"):
            return At(lambda st, j: self.s.node(j), self.s.n, Ptr(self.s.seq, self.s.list))
        return None

    def facts(self, ex, st, it):
        return [T.le(it, self.s.n)]

    def back(self, ex, st, it):
        r = st.ghost["read"]
        if ex.decide(st, self.s.null(it)):
            ex.oblig(st, T.B(not r), "there is nothing to read in a missing source")
        else:
            ex.oblig(st, T.B(len(r) == 1), "a source is read exactly once")
            if len(r) == 1:
                ex.oblig(st, ex.ptr_eq(st, r[0], self.s.reader(it)), "sources are read in the order they were added")
        ex.oblig(st, T.eq(st.ghost["count"], T.add(it, 1)), "every source gets its turn")


class Sources:
    """a Sequence as a list of n sources, some of them null"""

    def __init__(self, u):
        self.u, ex = u, u.ex
        self.ex = ex
        ex.demangle_all()
        self.n = ex.var("sources", 0, BIG)
        self.list = u.const("off_seq")
        self.value = u.const("off_lnode_value")
        self.config = Ptr(ex.new_region("config", "param", I(256), UFBase("config")), 0)
        slot = u.const("vt_process")
        self.vt = ex.new_region("vtable", "const", I(slot + 8), StructBase("vtable", {slot: (PTRT, FuncPtr("a reader", None))}))
        ex.contracts["a reader"] = self.read
        self.seq = ex.new_region("sequence", "param", I(u.const("size_seq")), StructBase("sequence", {self.list: (PTRT, lambda ex, st: self.next(st, I(-1))), self.list + 8: (PTRT, lambda ex, st: Ptr(self.seq, self.list) if ex.decide(st, T.eq(self.n, 0)) else self.node(T.sub(self.n, 1)))}))
        for nm, d in ex.demangled.items():
            d = plain(d)
            if d.startswith("std::unordered_map<string,string,"):
                m = d.split(">::")[-1]
                ex.contracts[nm] = self.clear if m == "clear()" else uncovered(d)

    def null(self, k):
        return T.eq(T.app("nosource", (T.toint(k),)), 1)

    def next(self, st, k):
        return self.node(T.add(k, 1)) if self.ex.decide(st, T.lt(T.add(k, 1), self.n)) else Ptr(self.seq, self.list)

    def node(self, k):
        ex = self.ex
        k = T.toint(k)
        f = {0: (PTRT, lambda ex, st: self.next(st, k)), 8: (PTRT, lambda ex, st: Ptr(self.seq, self.list) if ex.decide(st, T.eq(k, 0)) else self.node(T.sub(k, 1))),
             self.value: (PTRT, lambda ex, st: NULL if ex.decide(st, self.null(k)) else self.reader(k))}
        return Ptr(ex.family("source node", k, I(self.value + 8), StructBase("source node", f, (k,)), kind="pheap"), 0)

    def reader(self, k):
        k = T.toint(k)
        return Ptr(self.ex.family("source", k, I(self.u.const("size_reader")), StructBase("source", {0: (PTRT, Ptr(self.vt, 0))}, (k,)), kind="pheap"), 0)

    def clear(self, ex, st, a):
        ex.trusted.setdefault("std::unordered_map::clear", "forgets everything")
        ex.oblig(st, ex.ptr_eq(st, a[0], self.config), "the configuration that is being filled")
        if ex.running:
            ex.fail(st, "what an earlier source said is not forgotten")
        st.ghost["cleared"] = True
        return None

    def read(self, ex, st, a):
        ex.trusted.setdefault("Config::Reader::process", "contract proved for the library's own readers")
        ex.oblig(st, ex.ptr_eq(st, a[1], self.config), "the configuration that is being filled")
        ex.oblig(st, T.B(st.ghost["cleared"]), "a configuration starts out empty")
        st.ghost["read"] = st.ghost["read"] + (a[0],)
        return T.eq(ex.fresh("result", 0, 1), 1)


def u_sequence(u):
    """all sources are read, in order, over an empty configuration"""
    s = Sources(u)
    ex = u.ex

    class Turn(Each):
        def head(self, ex, st, it):
            Each.head(self, ex, st, it)
            st.ghost["count"] = it

        def back(self, ex, st, it):
            st.ghost["count"] = T.add(it, 1)
            Each.back(self, ex, st, it)
    ex.loopspec = lambda ex, st, f, L: Turn(s)
    st = u.state()
    st.ghost["read"], st.ghost["cleared"], st.ghost["count"] = (), False, I0

    def post(st):
        ex.oblig(st, T.B(st.ghost["cleared"]), "a configuration starts out empty")
        ex.oblig(st, T.eq(st.ghost["count"], s.n), "no source is left out")
    u.run(named(u, "Config::Sequence::process("), st, [Ptr(s.seq, 0), s.config], post)


def u_add(u):
    """a source is added behind the others"""
    ex = u.ex
    ex.demangle_all()
    off = u.const("off_seq")
    seq = ex.new_region("sequence", "param", I(u.const("size_seq")), UFBase("sequence"))
    n = ex.var("sources", 0, BIG)
    source = Ptr(ex.new_region("source", "param", I(u.const("size_reader")), UFBase("source")), 0)
    for nm, d in ex.demangled.items():
        d = plain(d)
        if d.startswith("std::list<Config::Reader const*"):
            m = d.split(">::")[-1]

            def h(ex, st, a, m=m, d=d):
                ex.trusted.setdefault("std::list::push_back", "appends")
                ex.oblig(st, ex.ptr_eq(st, a[0], Ptr(seq, off)), "the sources of this sequence")
                if m.startswith(("size(", "empty(")):
                    k = T.add(n, len(st.ghost["added"]))
                    return k if m.startswith("size(") else T.eq(k, 0)
                if m.startswith(("push_back(", "emplace_back(")):
                    st.ghost["added"] = st.ghost["added"] + (ex.load(st, a[1], PTRT),)
                    return None
                if m.startswith(("push_front(", "insert(", "emplace_front(", "clear(", "pop_")):
                    ex.fail(st, "earlier sources stay where they are")
                    raise Dead()
                raise Unsupported("used in a way the contract does not cover (%s)" % d)
            ex.contracts[nm] = h
    st = u.state()
    st.ghost["added"] = ()

    def post(st):
        w = st.ghost["added"]
        ex.oblig(st, T.B(len(w) == 1), "exactly one source is added")
        if len(w) == 1:
            ex.oblig(st, ex.ptr_eq(st, w[0], source), "it is the one that is given")
    u.run(named(u, "Config::Sequence::add("), st, [Ptr(seq, 0), source], post)


class Readers:
    """files, variables and parse_kv_stream by contract"""

    def __init__(self, u):
        self.u, ex = u, u.ex
        self.ex = ex
        strings.install(ex)
        self.config = Ptr(ex.new_region("config", "param", I(256), UFBase("config")), 0)
        self.self = ex.new_region("reader", "param", I(u.const("size_reader")), UFBase("reader"))
        self.text = {}
        ex.unknown_string = lambda st, r, off: self.text[T.cval(off) if isinstance(off, T.Term) else off] if r is self.self and (T.cval(off) if isinstance(off, T.Term) else off) in self.text else None
        for nm, d in ex.demangled.items():
            d = plain(d)
            if d.startswith("std::basic_ifstream<"):
                m = d.split(">::")[-1]
                ex.contracts[nm] = self.open if m.startswith("basic_ifstream(") and ("string const&" in m or "char const*" in m) else (lambda ex, st, a: None) if m.startswith("~") else uncovered(d)
            elif d.startswith("parse_kv_stream("):
                ex.contracts[nm] = self.parse
            elif d.startswith("std::unordered_map<string,string,"):
                m = d.split(">::")[-1]
                ex.contracts[nm] = self.slot if m.startswith("operator[](") else uncovered(d)
        ex.contracts["getenv"] = self.getenv
        self.found = ex.var("set", 0, 1)
        n = self.env_len = ex.var("envlen", 0, BIG)

        def elem(ex, st, q):
            return {0: (I8, char(ex, "environment", (), q))}
        self.env = ex.new_region("environment", "const", T.add(n, 1), ArrayBase("environment", 1, elem))
        ex.contracts["strlen"] = self.strlen

    def member(self, name, fam):
        """a string member of the reader with unknown content"""
        o = self.u.const("off_" + name)
        n = self.ex.var(fam + ".len", 0, BIG)
        self.text[o] = text(self.ex, fam, (), n)
        return self.text[o]

    def strlen(self, ex, st, a):
        p = ex.resolve(a[0])
        if isinstance(p, Ptr) and p.r is self.env and T.is_const(p.off) and T.cval(p.off) == 0:
            return self.env_len
        raise Unsupported("length of some text")

    def is_text(self, st, p, v, what):
        p = self.ex.resolve(p)
        self.ex.oblig(st, T.B(isinstance(p, Ptr) and p.r is v.buf and T.is_const(p.off) and T.cval(p.off) == 0), what)

    def getenv(self, ex, st, a):
        ex.trusted.setdefault("getenv", "the variable of that name, or null")
        self.is_text(st, a[0], self.variable, "the variable that was asked for")
        return Ptr(self.env, 0) if ex.decide(st, T.eq(self.found, 1)) else NULL

    def open(self, ex, st, a):
        ex.trusted.setdefault("std::ifstream", "the content of the file of that name; nothing if there is none")
        if "char const*" in ex.callname:
            p = ex.resolve(a[1])
            v = SV(p.r, I0) if isinstance(p, Ptr) and T.is_const(p.off) and T.cval(p.off) == 0 else None
        else:
            v = sget(ex, st, a[1])
        r, _ = ex.region_of(st, a[0], "stream")
        st.ghost["files"] = tuple(x for x in st.ghost["files"] if x[0] is not r) + ((r, v),)
        return None

    def parse(self, ex, st, a):
        ex.trusted.setdefault("parse_kv_stream", "contract proved in its own unit")
        ex.oblig(st, ex.ptr_eq(st, a[0], self.config), "the configuration that is being filled")
        r, _ = ex.region_of(st, a[1], "stream")
        v = next((x[1] for x in st.ghost["files"] if x[0] is r), None)
        if v is None:
            raise Unsupported("a stream the contract does not know")
        st.ghost["parsed"] = st.ghost["parsed"] + (v,)
        return T.eq(ex.fresh("result", 0, 1), 1)

    def slot(self, ex, st, a):
        ex.trusted.setdefault("std::unordered_map::operator[]", "the value under a key, new or old")
        ex.oblig(st, ex.ptr_eq(st, a[0], self.config), "the configuration that is being filled")
        v = sget(ex, st, a[1])
        r = ex.new_region("slot", "const", I(32), UninitBase())
        r.kind = "heapslot"
        st.ghost[key(ex, st, Ptr(r, 0))] = AnyString().produce(ex, st, None)
        st.ghost["set"] = st.ghost["set"] + ((v, r),)
        return Ptr(r, 0)

    def state(self):
        st = self.u.state()
        st.ghost["files"] = st.ghost["parsed"] = st.ghost["set"] = ()
        return st


def u_file(u):
    """a file is read"""
    r = Readers(u)
    ex = u.ex
    name = r.member("file_name", "filename")

    def post(st):
        w = st.ghost["parsed"]
        ex.oblig(st, T.B(len(w) == 1 and not st.ghost["set"]), "the file is read, once")
        if len(w) == 1:
            ex.oblig(st, T.B(w[0].buf is name.buf), "it is the file that was asked for")
    u.run(named(u, "Config::File::process("), r.state(), [Ptr(r.self, 0), r.config], post)


def u_envfile(u):
    """the file a variable names is read"""
    r = Readers(u)
    ex = u.ex
    r.variable = r.member("envfile_key", "variable")

    def post(st):
        w = st.ghost["parsed"]
        if ex.decide(st, T.eq(r.found, 1)):
            ex.oblig(st, T.B(len(w) == 1 and not st.ghost["set"]), "the file is read, once")
            if len(w) == 1:
                ex.oblig(st, T.B(w[0].buf is r.env), "it is the file the variable names")
        else:
            ex.oblig(st, T.B(not w and not st.ghost["set"]), "nothing is read without the variable")
    u.run(named(u, "Config::EnvironmentFile::process("), r.state(), [Ptr(r.self, 0), r.config], post)


def u_envvar(u):
    """a variable gives the value of an option"""
    r = Readers(u)
    ex = u.ex
    r.variable = r.member("envvar_env", "variable")
    option = r.member("envvar_key", "option")

    def post(st):
        w = st.ghost["set"]
        if ex.decide(st, T.eq(r.found, 1)):
            ex.oblig(st, T.B(len(w) == 1 and not st.ghost["parsed"]), "exactly one option is set")
            if len(w) == 1:
                ex.oblig(st, T.B(w[0][0].buf is option.buf), "it is the option the variable is for")
                v = sget(ex, st, Ptr(w[0][1], 0))
                same_text(ex, st, v, r.env_len, lambda q: char(ex, "environment", (), q), "its value is that of the variable")
        else:
            ex.oblig(st, T.B(not w and not st.ghost["parsed"]), "nothing is set without the variable")
    u.run(named(u, "Config::EnvironmentVar::process("), r.state(), [Ptr(r.self, 0), r.config], post)


# ------------------------------------------------------------------ lookups
LOW = "lower"
BITS = {"int": 32, "unsignedint": 32, "unsigned": 32, "long": 64, "unsignedlong": 64, "double": 64, "float": 32, "char": 8, "bool": 8}


class Lookup:
    """one option of a configuration; streams that read a value out of a text"""

    def __init__(self, u):
        self.u, ex = u, u.ex
        self.ex = ex
        strings.install(ex)
        ex.demangle_all()
        self.there = ex.var("there", 0, 1)
        self.reads = ex.var("reads", 0, 1)
        self.config = Ptr(ex.new_region("config", "param", I(256), UFBase("config")), 0)
        self.key = Ptr(ex.new_region("option", "param", I(64), UFBase("option")), 0)
        self.node_r = ex.new_region("entry", "pheap", I(u.const("size_node")), UFBase("entry"))
        self.at = {u.const("off_node_key"): "key", u.const("off_node_value"): "value"}
        self.n = ex.var("value.len", 0, BIG)
        self.kn = ex.var("option.len", 0, BIG)
        self.value = text(ex, "value", (), self.n)
        self.keytext = text(ex, "option", (), self.kn)
        ex.unknown_string = self.unknown
        vt = ex.new_region("vtable", "const", I(256), ZeroBase())
        self.vt = vt
        for nm, d in ex.demangled.items():
            d = plain(d).replace(" ", "")
            m = d.split(">::")[-1]
            if d.startswith("std::unordered_map<string,string,"):
                n = m.split("(")[0]
                ex.contracts[nm] = {"find": self.find, "end": self.end, "cend": self.end, "count": self.count, "at": self.fetch}.get(n) or uncovered(d)
            elif d.startswith(("std::basic_stringstream<char,std::char_traits<char>,std::allocator<char>>::", "std::basic_istringstream<char,std::char_traits<char>,std::allocator<char>>::")):
                ex.contracts[nm] = self.over if m.startswith("basic_") and "stringconst&" in m else self.gone if m.startswith("~") else self.eof if m.startswith("eof(") else uncovered(d)
            elif d.startswith("std::basic_istream<char,std::char_traits<char>>::operator>>("):
                t = m[len("operator>>("):]
                if "ios_base" in t:
                    ex.contracts[nm] = self.manip
                else:
                    ex.contracts[nm] = self.extract(t)
            elif "&std::operator>><char,std::char_traits<char>" in d and d.endswith(",char&)"):
                ex.contracts[nm] = self.extract("char&)")
            elif "std::operator>><char," in d and d.endswith(",string&)"):
                ex.contracts[nm] = self.word
            elif d.startswith("std::basic_ios<"):
                ex.contracts[nm] = self.ok if m.startswith("operatorbool") else self.fails if m.startswith(("fail(", "operator!(")) else uncovered(d)
            elif "std::transform<" in d and "char*" in d:
                ex.contracts[nm] = self.transform
        ex.contracts["tolower"] = lambda ex, st, a: T.app(LOW, (T.toint(T.mod(a[0], 256)),))

    def unknown(self, st, r, off):
        o = T.cval(off) if isinstance(off, T.Term) else off
        if r is self.key.r and o == 0:
            return self.keytext
        if r is self.node_r:
            return {"key": self.keytext, "value": self.value}.get(self.at.get(o))
        return None

    def asked(self, st, a):
        ex = self.ex
        ex.trusted.setdefault("std::unordered_map<string, string>", "find/end/count/at as the standard says")
        ex.oblig(st, ex.ptr_eq(st, a[0], self.config), "the configuration that was given")
        v = sget(ex, st, a[1])
        same_text(ex, st, v, self.kn, lambda q: char(ex, "option", (), q), "the option that was asked for")

    def find(self, ex, st, a):
        self.asked(st, a)
        return Ptr(self.node_r, 0) if ex.decide(st, T.eq(self.there, 1)) else NULL

    def count(self, ex, st, a):
        self.asked(st, a)
        return self.there

    def fetch(self, ex, st, a):
        self.asked(st, a)
        if not ex.decide(st, T.eq(self.there, 1)):
            ex.fail(st, "an option that is not there is reported")
            raise Dead()
        return Ptr(self.node_r, self.u.const("off_node_value"))

    def end(self, ex, st, a):
        ex.oblig(st, ex.ptr_eq(st, a[0], self.config), "the configuration that was given")
        return NULL

    # streams
    def which(self, st, p):
        return self.ex.region_of(st, p, "stream")[0]

    def over(self, ex, st, a):
        ex.trusted.setdefault("std::stringstream >> value", "reads a value of that type from the front of the text, or fails")
        r = self.which(st, a[0])
        v = sget(ex, st, a[1])
        st.ghost[("ss", r)] = (v, False, None)
        for o in (0, 16):
            ex.store(st, Ptr(r, o), Ptr(self.vt, 128), PTRT, check=False)
        return None

    def gone(self, ex, st, a):
        st.ghost.pop(("ss", self.which(st, a[0])), None)
        return None

    def ss(self, st, p):
        r = self.which(st, p)
        s = st.ghost.get(("ss", r))
        if s is None:
            raise Unsupported("a stream the contract does not know")
        return r, s

    def manip(self, ex, st, a):
        r, (v, alpha, out) = self.ss(st, a[0])
        f = ex.resolve(a[1])
        if not isinstance(f, FuncPtr):
            raise Unsupported("some manipulator")
        d = plain(ex.demangled.get(f.name, f.name))
        if d.startswith("std::boolalpha("):
            alpha = True
        elif d.startswith("std::noboolalpha("):
            alpha = False
        else:
            raise Unsupported("manipulator " + d)
        st.ghost[("ss", r)] = (v, alpha, out)
        return a[0]

    def extract(self, t):
        t = t.rstrip(")").rstrip("&")

        def h(ex, st, a):
            r, (v, alpha, out) = self.ss(st, a[0])
            if out is not None:
                raise Unsupported("more than one value is read")
            low = t == "bool"
            same_text(ex, st, v, self.n, lambda q: T.app(LOW, (char(ex, "value", (), q),)) if low else char(ex, "value", (), q), "the value of the option is read" + (" whatever its case" if low else ""))
            if low:
                ex.oblig(st, T.B(alpha), "booleans are words")
            ok = ex.decide(st, T.eq(self.reads, 1))
            st.ghost["read"] = st.ghost.get("read", ()) + (t,)
            ty = self.type(t)
            st.ghost[("ss", r)] = (v, alpha, ok)
            ex.store(st, a[1], self.parsed(t) if ok else ex.fresh("junk", 0, 1), ty, check=False)
            return a[0]
        return h

    def word(self, ex, st, a):
        r, (v, alpha, out) = self.ss(st, a[0])
        ex.fail(st, "text is returned whole, blanks and all")
        raise Dead()

    def type(self, t):
        if t not in BITS:
            raise Unsupported("a value of type " + t)
        return ("i", BITS[t])

    def parsed(self, t):
        """the value, as it lies in memory"""
        return self.ex.var("parsed " + t, 0, 1 if t == "bool" else 2 ** self.type(t)[1] - 1)

    def eof(self, ex, st, a):
        raise Unsupported("eof of a stream")

    def good(self, st, p):
        _, (v, alpha, out) = self.ss(st, p)
        return True if out is None else out

    def ok(self, ex, st, a):
        return T.B(self.good(st, a[0]))

    def fails(self, ex, st, a):
        return T.B(not self.good(st, a[0]))

    def transform(self, ex, st, a):
        """in place, over a whole text, with tolower"""
        ex.trusted.setdefault("std::transform", "applies the function to every character of the range")
        b, e, o, f = [ex.resolve(x) for x in a[:4]]
        if not (isinstance(f, FuncPtr) and f.name == "tolower" and isinstance(b, Ptr) and isinstance(o, Ptr)):
            raise Unsupported("some transformation")
        k = [k for k, v in st.ghost.items() if isinstance(k, tuple) and k and k[0] == "str" and isinstance(v, SV) and v.buf is b.r]
        if len(k) != 1 or b.r is not o.r or e.r is not b.r or k[0][1] in (self.node_r, self.key.r):
            raise Unsupported("some transformation")
        v = st.ghost[k[0]]
        ex.oblig(st, T.and_(T.eq(b.off, 0), T.eq(o.off, 0), T.eq(e.off, v.n)), "the whole text is transformed in place")
        n = v.n
        same_text(ex, st, v, self.n, lambda q: char(ex, "value", (), q), "the value of the option is read")

        def elem(ex, st2, q):
            return {0: (I8, T.app(LOW, (char(ex, "value", (), q),)))}
        r = ex.new_region("lower", "const", T.add(n, 1), ArrayBase("lower", 1, elem))
        st.ghost[k[0]] = SV(r, n)
        return a[2]


def outcome(u, l, st, out, was, good):
    """the result of a lookup, and what it left in the variable"""
    ex, ret = u.ex, st.ret
    if not ex.decide(st, T.eq(l.there, 1)):
        ex.oblig(st, T.eq(ret, u.const("cfg_not_found")), "an option that is not there is reported")
        out(st, was, "a variable stays as it was if the option is not there")
    elif good is None or ex.decide(st, good):
        ex.oblig(st, T.eq(ret, u.const("cfg_found")), "an option that is there is found")
        out(st, None, "the variable gets the value")
    else:
        ex.oblig(st, T.eq(ret, u.const("cfg_error")), "a value that cannot be read is reported")


def u_get(t, name):
    def unit(u):
        l = Lookup(u)
        ex = u.ex
        c = t.replace(" ", "")
        ty = l.type(c)
        var = ex.new_region("variable", "param", I(8), UFBase("variable"))
        st = u.state()
        v0 = ex.load(st, Ptr(var, 0), ty, check=False)

        def out(st, was, what):
            ex.oblig(st, T.eq(ex.load(st, Ptr(var, 0), ty, check=False), l.parsed(c) if was is None else was), what)

        u.run(named(u, name), st, [l.config, l.key, Ptr(var, 0)], lambda st: outcome(u, l, st, out, v0, T.eq(l.reads, 1)))
    unit.__doc__ = "a typed lookup gives the parsed value, or says why not"
    return unit


CONFIG = "std::unordered_map<string,string,std::hash<string>,std::equal_to<string>,std::allocator<std::pair<string const,string>>>"
BOOL = "Config::get_value(" + CONFIG + " const&,string const&,bool&)"
TEXT = "Config::get_value(" + CONFIG + " const&,string const&,string&)"


def u_get_text(u):
    """a text lookup gives the whole value"""
    l = Lookup(u)
    ex = u.ex
    var = ex.new_region("variable", "param", I(32), UFBase("variable"))
    st = u.state()
    wn = ex.var("was.len", 0, BIG)
    st.ghost[key(ex, st, Ptr(var, 0))] = text(ex, "was", (), wn)

    def out(st, was, what):
        v = sget(ex, st, Ptr(var, 0))
        if was:
            same_text(ex, st, v, wn, lambda q: char(ex, "was", (), q), what)
        else:
            same_text(ex, st, v, l.n, lambda q: char(ex, "value", (), q), what)
    u.run(named(u, TEXT), st, [l.config, l.key, Ptr(var, 0)], lambda st: outcome(u, l, st, out, True, None))


def u_from_map(u):
    """a named value is looked up under the whole text of the option"""
    l = Lookup(u)
    ex = u.ex
    known = ex.var("known", 0, 1)
    m = Ptr(ex.new_region("names", "param", I(256), UFBase("names")), 0)
    named_r = ex.new_region("name", "pheap", I(256), UFBase("name"))
    var = ex.new_region("variable", "param", I(8), UFBase("variable"))
    st = u.state()
    v0 = ex.load(st, Ptr(var, 0), I32, check=False)
    meant = ex.load(st, Ptr(named_r, u.const("off_int_value")), I32, check=False)

    def asked(st, a):
        ex.oblig(st, ex.ptr_eq(st, a[0], m), "the names that were given")
        same_text(ex, st, sget(ex, st, a[1]), l.n, lambda q: char(ex, "value", (), q), "the value of the option is what is looked up")

    def find(ex, st, a):
        asked(st, a)
        return Ptr(named_r, 0) if ex.decide(st, T.eq(known, 1)) else NULL

    def count(ex, st, a):
        asked(st, a)
        return known

    def at(ex, st, a):
        asked(st, a)
        if not ex.decide(st, T.eq(known, 1)):
            ex.fail(st, "a value without meaning is reported")
            raise Dead()
        return Ptr(named_r, u.const("off_int_value"))
    for nm, d in ex.demangled.items():
        d = plain(d).replace(" ", "")
        if d.startswith("std::unordered_map<string,int,"):
            n = d.split(">::")[-1].split("(")[0]
            ex.contracts[nm] = {"find": find, "end": lambda ex, st, a: NULL, "cend": lambda ex, st, a: NULL, "count": count, "at": at}.get(n) or uncovered(d)

    def out(st, was, what):
        ex.oblig(st, T.eq(ex.load(st, Ptr(var, 0), I32, check=False), meant if was is None else was), what)
    u.run(named(u, "int Config::get_from_map<int>("), st, [l.config, l.key, m, Ptr(var, 0)], lambda st: outcome(u, l, st, out, v0, T.eq(known, 1)))


# ------------------------------------------------------------------ options
TABLE = {"DEBUG_LEVEL": "hxhim_set_debug_level", "CLIENT_RATIO": "hxhim_set_client_ratio", "SERVER_RATIO": "hxhim_set_server_ratio", "DATASTORES_PER_SERVER": "hxhim_set_datastores_per_server",
         "START_ASYNC_PUTS_AT": "hxhim_set_start_async_puts_at", "MAXIMUM_OPS_PER_REQUEST": "hxhim_set_maximum_ops_per_request", "MAXIMUM_SIZE_PER_REQUEST": "hxhim_set_maximum_size_per_request"}
PARTS = ("parse_datastore(", "parse_transport(", "parse_endpointgroup(", "parse_elen(", "parse_histogram(")
OK, BAD = 3, 4


def glob(ex, p):
    """the global a pointer points to, by name"""
    p = ex.resolve(p)
    if isinstance(p, FuncPtr):
        return p.name
    if isinstance(p, Ptr) and T.is_const(p.off) and T.cval(p.off) == 0:
        d = engine_demangle(p.r.name)
        return d.replace("hxhim::config::", "").replace("[abi:cxx11]", "")
    return None


def engine_demangle(n):
    import subprocess
    if n not in _DM:
        _DM[n] = subprocess.run(["c++filt", n], capture_output=True, text=True).stdout.strip()
    return _DM[n]


_DM = {}


def u_parse_value(prefix, lookup, ty):
    """an option that is set anywhere reaches its setter"""
    def unit(u):
        ex = u.ex
        ex.demangle_all()
        strings.install(ex)
        hx, config, k, m = [Ptr(ex.new_region(n, "param", I(256), UFBase(n)), 0) for n in ("hx", "config", "option", "names")]
        got, fits = ex.var("outcome", 0, 2), ex.var("fits", 0, 1)
        consts = {u.const("cfg_found"): 0, u.const("cfg_not_found"): 1, u.const("cfg_error"): 2}
        if sorted(consts) != [0, 1, 2]:
            raise Unsupported("outcomes of lookups")
        n = ex.var("value.len", 0, BIG)
        value = text(ex, "value", (), n)
        num = ex.var("value", 0, 2 ** 32 - 1 if ty == I32 else 2 ** 64 - 1)

        def get(ex, st, a):
            ex.trusted.setdefault("Config::get_value, get_from_map", "contract proved in their own units")
            ex.oblig(st, T.and_(ex.ptr_eq(st, a[0], config), ex.ptr_eq(st, a[1], k)), "the option that was asked for")
            if lookup.startswith("int Config::get_from_map"):
                ex.oblig(st, ex.ptr_eq(st, a[2], m), "the names that were given")
            if ex.decide(st, T.eq(got, u.const("cfg_found"))):
                if ty is None:
                    sput(ex, st, a[-1], [value])
                else:
                    ex.store(st, a[-1], num, ty)
            return got

        def setter(ex, st, a):
            ex.oblig(st, ex.ptr_eq(st, a[0], hx), "this session is configured")
            ex.oblig(st, T.eq(got, u.const("cfg_found")), "options that are not set keep their defaults")
            st.ghost["sets"] = st.ghost["sets"] + 1
            if ty is None:
                p = ex.resolve(a[1])
                q = ex.fresh("q", 0, BIG)
                ex.assume(st, T.lt(q, n))
                ex.oblig(st, T.eq(ex.load(st, Ptr(p.r, T.add(p.off, q)), I8, check=False), char(ex, "value", (), q)), "the setter gets the value of the option")
            else:
                ex.oblig(st, T.eq(a[1], num), "the setter gets the value of the option")
            return T.ite(T.eq(fits, 1), OK, BAD)
        ex.contracts["a setter"] = setter
        contract(ex, lookup, get)
        st = u.state()
        st.ghost["sets"] = 0

        def post(st):
            s = st.ghost["sets"]
            if ex.decide(st, T.eq(got, u.const("cfg_error"))):
                ex.oblig(st, T.not_(st.ret), "a value that cannot be read is reported")
            elif ex.decide(st, T.eq(got, u.const("cfg_found"))):
                ex.oblig(st, T.B(s == 1), "an option that is set reaches its setter, once")
                ex.oblig(st, T.iff(st.ret, T.eq(fits, 1)) if hasattr(T, "iff") else T.and_(T.implies(st.ret, T.eq(fits, 1)), T.implies(T.eq(fits, 1), st.ret)), "a value that the option cannot have is reported")
            else:
                ex.oblig(st, st.ret, "an option that is not set is no mistake")
        u.run(named(u, prefix), st, [hx, config, k] + ([m] if "map" in prefix else []) + [FuncPtr("a setter", None)], post)
    unit.__doc__ = "an option that is set anywhere reaches its setter"
    return unit


def u_fill(u):
    """every option goes to the setter that is meant for it"""
    ex = u.ex
    ex.demangle_all()
    priv = ex.new_region("private", "pheap", I(u.const("size_hp")), UFBase("private"))
    hx = Ptr(ex.new_region("hx", "param", I(64), StructBase("hx", {u.const("off_hx_p"): (PTRT, Ptr(priv, 0))})), 0)
    config = Ptr(ex.new_region("config", "param", I(256), UFBase("config")), 0)

    def mine(st, a):
        ex.oblig(st, T.and_(ex.ptr_eq(st, a[0], hx), ex.ptr_eq(st, a[1], config)), "this session is configured, with this configuration")

    def result(st, what):
        st.ghost["done"] = st.ghost["done"] + (what,)
        r = T.eq(ex.var("ok." + str(what), 0, 1), 1)
        if not ex.decide(st, r):
            st.ghost["failed"] = True
            return T.B(False)
        return T.B(True)

    def one(ex, st, a):
        mine(st, a)
        k, f = glob(ex, a[2]), glob(ex, a[-1])
        if k in TABLE and f in TABLE.values():
            ex.oblig(st, T.B(TABLE[k] == f), "option %s goes to %s" % (k, TABLE[k]))
        elif k is None or f is None:
            raise Unsupported("some option")
        if len(a) > 4:
            ex.oblig(st, T.B(glob(ex, a[3]) in (k + "S", None)), "the names of option %s" % k)
        return result(st, k)
    parts = []
    for nm, d in ex.demangled.items():
        d = plain(d)
        if d.startswith("bool parse_value<") or d.startswith("bool parse_map_value<") or d.startswith("parse_value("):
            ex.contracts[nm] = one
        for p in PARTS:
            if d.startswith(p):
                def part(ex, st, a, p=p):
                    mine(st, a)
                    return result(st, p)
                ex.contracts[nm] = part
                parts.append(p)
    if set(parts) != set(PARTS):
        raise Unsupported("options are read some other way")
    ex.trusted.setdefault("parse_datastore/transport/endpointgroup/elen/histogram", "assumed; they are exercised by whole sessions")
    st = u.state()
    st.ghost["done"], st.ghost["failed"] = (), False

    def post(st):
        d = st.ghost["done"]
        if st.ghost["failed"]:
            ex.oblig(st, T.not_(T.eq(st.ret, OK)), "a mistake in the configuration is reported")
        elif ex.decide(st, T.eq(st.ret, OK)):
            ex.oblig(st, T.B(len(set(d)) == len(d)), "no option is read twice")
            for k in list(TABLE) + list(PARTS):
                ex.oblig(st, T.B(k in d), "%s is read" % k.rstrip("("))
        else:
            ex.oblig(st, T.B(not d), "only an unusable session is refused")
    u.run(named(u, "fill_options("), st, [hx, config], post)


class Entries:
    """DEFAULT_CONFIG as a list of entries"""

    def __init__(self, u):
        self.u, ex = u, u.ex
        self.ex = ex
        strings.install(ex)
        ex.demangle_all()
        self.n = ex.var("defaults", 0, BIG)
        self.k, self.v, self.size = u.const("off_node_key"), u.const("off_node_value"), u.const("size_node")
        ex.unknown_string = self.unknown
        for nm, d in ex.demangled.items():
            d = plain(d)
            if d.startswith("std::unordered_map<string,string,"):
                m = d.split(">::")[-1].split("(")[0]
                ex.contracts[nm] = self.method(m) or uncovered(d)

    def method(self, m):
        return {"begin": self.begin, "cbegin": self.begin, "end": self.end, "cend": self.end, "operator[]": getattr(self, "slot", None)}.get(m)

    def default(self, st, p):
        n = glob(self.ex, p)
        if n != "DEFAULT_CONFIG":
            raise Unsupported("some configuration is gone through")

    def begin(self, ex, st, a):
        self.default(st, a[0])
        return self.next(st, I(-1))

    def end(self, ex, st, a):
        self.default(st, a[0])
        return NULL

    def next(self, st, k):
        return self.node(T.add(k, 1)) if self.ex.decide(st, T.lt(T.add(k, 1), self.n)) else NULL

    def node(self, k):
        k = T.toint(k)
        return Ptr(self.ex.family("default", k, I(self.size), StructBase("default", {0: (PTRT, lambda ex, st: self.next(st, k))}, (k,)), kind="pheap"), 0)

    def word(self, fam, k):
        t = T.app(fam + ".len", (T.toint(k),))
        self.ex.setrange(t, 0, BIG)
        return text(self.ex, fam, (k,), t)

    def unknown(self, st, r, off):
        o = T.cval(off) if isinstance(off, T.Term) else off
        if r.fam == "default" and o in (self.k, self.v):
            return self.word("default.key" if o == self.k else "default.value", r.idx)
        return None


class Over(At):
    pass


class EachDefault(LoopSpec):
    force = True

    def __init__(self, e, back):
        self.e, self.judge = e, back

    def pointer(self, ex, st, key, v0):
        v = ex.resolve(v0)
        if v is NULL or isinstance(v, Ptr) and v.r.fam == "default" and T.is_const(v.off) and T.cval(v.off) == 0:
            return At(lambda st, j: self.e.node(j), self.e.n, NULL)
        return None

    def string(self, ex, st, k, v0):
        return AnyString()

    def facts(self, ex, st, it):
        return [T.le(it, self.e.n)]

    def head(self, ex, st, it):
        st.ghost["round"], st.ghost["set"] = it, ()

    def back(self, ex, st, it):
        self.judge(st, it)
        st.ghost["round"] = T.add(it, 1)
    logs = ("set",)


def u_defaults(u):
    """the hard coded values"""
    ex = u.ex

    class D(Entries):
        def slot(self, ex, st, a):
            ex.oblig(st, ex.ptr_eq(st, a[0], config), "the configuration that is being filled")
            r = ex.new_region("slot", "const", I(32), UninitBase())
            r.kind = "heapslot"
            st.ghost[key(ex, st, Ptr(r, 0))] = AnyString().produce(ex, st, None)
            st.ghost["set"] = st.ghost["set"] + ((sget(ex, st, a[1]), r),)
            return Ptr(r, 0)
    e = D(u)
    config = Ptr(ex.new_region("config", "param", I(256), UFBase("config")), 0)
    self = Ptr(ex.new_region("defaults", "param", I(64), UFBase("self")), 0)

    def judge(st, it):
        w = st.ghost["set"]
        ex.oblig(st, T.B(len(w) == 1), "a default sets exactly one option")
        if len(w) == 1:
            for v, fam, what in ((w[0][0], "default.key", "the option of the default"), (sget(ex, st, Ptr(w[0][1], 0)), "default.value", "the value of the default")):
                d = e.word(fam, it)
                same_text(ex, st, v, d.n, lambda q: char(ex, fam, (it,), q), what)
    ex.loopspec = lambda ex, st, f, L: EachDefault(e, judge)
    st = u.state()
    st.ghost["set"], st.ghost["round"] = (), I0

    def post(st):
        ex.oblig(st, T.eq(st.ghost["round"], e.n), "every default is set")
    u.run(named(u, "hxhim::config::DefaultConfig::process("), st, [self, config], post)


def u_default_reader(u):
    """the sources of a session, the weakest first"""
    ex = u.ex
    e = Entries(u)
    priv = ex.new_region("private", "pheap", I(u.const("size_hp")), UFBase("private"))
    hx = Ptr(ex.new_region("hx", "param", I(64), StructBase("hx", {u.const("off_hx_p"): (PTRT, Ptr(priv, 0))})), 0)
    comm = Ptr(ex.new_region("comm", "param", I(8), UFBase("comm")), 0)
    vt = ex.new_region("vtable", "const", I(256), StructBase("vtable", {8 * i: (PTRT, FuncPtr("deletes a reader", None)) for i in range(32)}))
    nsn = ex.var("namespace.len", 0, BIG)
    namespace = text(ex, "namespace", (), nsn)
    known = e.unknown

    def unknown(st, r, off):
        if glob(ex, Ptr(r, off)) == "HXHIM_ENV_NAMESPACE":
            return namespace
        return known(st, r, off)
    ex.unknown_string = unknown
    seqs = []

    def where(st, p):
        r, off = ex.region_of(st, p, "reader")
        return r

    def kind(k):
        def h(ex, st, a):
            st.ghost["readers"] = st.ghost["readers"] + ((where(st, a[0]), (k,) + tuple(glob(ex, x) for x in a[1:])),)
            return None
        return h

    def var(ex, st, a):
        i = st.ghost["round"]
        if not st.ghost["inside"]:
            raise Unsupported("variables are looked at outside the loop over the defaults")
        d = e.word("default.key", i)
        same_text(ex, st, sget(ex, st, a[2]), d.n, lambda q: char(ex, "default.key", (i,), q), "the variable is for the option it is named after")
        v = sget(ex, st, a[1])
        ex.oblig(st, T.eq(v.n, T.add(nsn, d.n)), "the name of the variable (length)")
        q = ex.var("a character", 0, BIG)
        ex.assume(st, T.lt(q, v.n))
        c = ex.load(st, Ptr(v.buf, q), I8, check=False)
        if ex.decide(st, T.lt(q, nsn)):
            ex.oblig(st, T.eq(c, char(ex, "namespace", (), q)), "the name of the variable begins with the prefix")
        else:
            ex.oblig(st, T.eq(c, char(ex, "default.key", (i,), T.sub(q, nsn))), "the name of the variable is the prefix and the option")
        st.ghost["made"] = st.ghost["made"] + (where(st, a[0]),)
        ex.store(st, Ptr(where(st, a[0]), 0), Ptr(vt, 0), PTRT, check=False)
        return None

    def add(ex, st, a):
        ex.trusted.setdefault("Config::Sequence::add", "contract proved in its own unit")
        if where(st, a[0]) not in seqs:
            raise Unsupported("some sequence")
        r = where(st, a[1])
        if st.ghost["inside"]:
            ex.oblig(st, T.B(r in st.ghost["made"]), "the variable is added as a source")
            st.ghost["added"] = st.ghost["added"] + (r,)
        else:
            what = next((k for x, k in st.ghost["readers"] if x is r), None)
            if what is None:
                raise Unsupported("some source")
            early = ex.decide(st, T.lt(st.ghost["round"], 0))
            st.ghost["sources"] = st.ghost["sources"] + ((what, early),)
        return ex.fresh("n", 1, BIG)

    def process(ex, st, a):
        ex.trusted.setdefault("process_config_and_fill_options", "contract proved in its own unit")
        ex.oblig(st, ex.ptr_eq(st, a[0], hx), "this session is configured")
        if where(st, a[1]) not in seqs:
            raise Unsupported("some sequence")
        want = (("defaults",), ("file", "CONFIG_FILE"), ("file of a variable", "CONFIG_ENV"))
        ex.oblig(st, T.eq(st.ghost["round"], e.n), "every variable is looked at")
        got = tuple(k for k, _ in st.ghost["sources"])
        ex.oblig(st, T.B(got == want), "the sources are the defaults, hxhim.conf and the file HXHIM_CONFIG names, in this order")
        ex.oblig(st, T.B(all(x for _, x in st.ghost["sources"])), "variables have the last word")
        st.ghost["processed"] = st.ghost["processed"] + 1
        return ex.fresh("result", OK, BAD)

    def fill(ex, st, a):
        ex.oblig(st, ex.ptr_eq(st, a[0], hx), "this session is configured")
        e.default(st, a[1])
        return T.ite(T.eq(ex.var("fill", 0, 1), 1), OK, BAD)

    def kill(ex, st, a):
        ex.oblig(st, T.B(st.ghost["processed"] == 1), "sources live until they have been read")
        return None
    ex.contracts["deletes a reader"] = kill

    def new_seq(ex, st, a):
        r = where(st, a[0])
        if r not in seqs:
            seqs.append(r)
        return None
    contract(ex, "Config::Sequence::Sequence()", new_seq)
    contract(ex, "Config::Sequence::~Sequence()", lambda ex, st, a: None)
    contract(ex, "Config::Sequence::add(", add)
    contract(ex, "Config::File::File(", kind("file"))
    contract(ex, "Config::EnvironmentFile::EnvironmentFile(", kind("file of a variable"))
    contract(ex, "Config::EnvironmentVar::EnvironmentVar(", var)
    contract(ex, "hxhim::config::DefaultConfig::DefaultConfig(", kind("defaults"))
    for c in ("Config::File::~File(", "Config::EnvironmentFile::~EnvironmentFile(", "hxhim::config::DefaultConfig::~DefaultConfig("):
        contract(ex, c, kill)
    contract(ex, "process_config_and_fill_options(", process)
    contract(ex, "fill_options(", fill)
    ex.contracts["hxhim_set_mpi_bootstrap"] = lambda ex, st, a: I(OK)

    # the readers of the variables, in a vector
    items = ex.new_region("readers", "pheap", None, ArrayBase("readers", 8, lambda ex, st, q: {0: (PTRT, Ptr(one(q), 0))}))

    def one(k):
        k = T.toint(k)
        return ex.family("reader of a variable", k, I(u.const("size_reader")), StructBase("reader of a variable", {0: (PTRT, Ptr(vt, 0))}, (k,)), kind="pheap")

    def push(ex, st, a):
        st.ghost["kept"] = st.ghost["kept"] + 1
        return None
    for nm, d in ex.demangled.items():
        d = plain(d).replace(" ", "")
        if d.startswith("std::vector<Config::EnvironmentVar*"):
            m = d.split(">::")[-1].split("(")[0]
            ex.contracts[nm] = {"push_back": push, "emplace_back": push, "vector": lambda ex, st, a: None, "~vector": lambda ex, st, a: None, "reserve": lambda ex, st, a: None,
                                "begin": lambda ex, st, a: Ptr(items, 0), "end": lambda ex, st, a: Ptr(items, T.mul(8, e.n))}.get(m) or uncovered(d)

    class Var(EachDefault):
        logs = ("set", "made", "added", "kept", "inside")

        def head(self, ex, st, it):
            EachDefault.head(self, ex, st, it)
            st.ghost["made"] = st.ghost["added"] = ()
            st.ghost["kept"] = 0
            st.ghost["inside"] = ex.decide(st, T.lt(it, e.n))

        def back(self, ex, st, it):
            EachDefault.back(self, ex, st, it)

    def judge(st, it):
        ex.oblig(st, T.B(len(st.ghost["added"]) == 1 and st.ghost["added"] == st.ghost["made"]), "the variable of every option is a source")
        if st.ghost["kept"] != 1:
            raise Unsupported("readers are kept some other way")

    class Kill(LoopSpec):
        force = True

        def pointer(self, ex, st, key, v0):
            return None

        def facts(self, ex, st, it):
            return [T.le(it, e.n)]

    def loop(ex, st, f, L):
        return Kill() if st.ghost["processed"] else Var(e, judge)
    ex.loopspec = loop
    st = u.state()
    for g in ("readers", "sources", "set", "made", "added"):
        st.ghost[g] = ()
    st.ghost["round"], st.ghost["processed"], st.ghost["kept"], st.ghost["inside"] = I(-1), 0, 0, False

    def post(st):
        if ex.decide(st, T.eq(ex.var("fill", 0, 1), 1)):
            ex.oblig(st, T.B(st.ghost["processed"] == 1), "the sources are read, once")
    u.run(named(u, "hxhim::config::default_reader("), st, [hx, comm], post)


def u_process_and_fill(u):
    """what the sources say is what the session is configured with"""
    ex = u.ex
    ex.demangle_all()
    priv = ex.new_region("private", "pheap", I(u.const("size_hp")), UFBase("private"))
    hx = Ptr(ex.new_region("hx", "param", I(64), StructBase("hx", {u.const("off_hx_p"): (PTRT, Ptr(priv, 0))})), 0)
    seq = Ptr(ex.new_region("sequence", "param", I(256), UFBase("sequence")), 0)
    result = ex.var("result", OK, BAD)

    def process(ex, st, a):
        ex.trusted.setdefault("Config::Sequence::process", "contract proved in its own unit")
        ex.oblig(st, ex.ptr_eq(st, a[0], seq), "the sources that were given are read")
        st.ghost["read"] = st.ghost["read"] + (ex.region_of(st, a[1], "config")[0],)
        return None

    def fill(ex, st, a):
        ex.trusted.setdefault("fill_options", "contract proved in its own unit")
        ex.oblig(st, ex.ptr_eq(st, a[0], hx), "this session is configured")
        ex.oblig(st, T.B(st.ghost["read"] == (ex.region_of(st, a[1], "config")[0],)), "the session gets what the sources say")
        st.ghost["filled"] = st.ghost["filled"] + 1
        return result
    contract(ex, "Config::Sequence::process(", process)
    contract(ex, "fill_options(", fill)
    for nm, d in ex.demangled.items():
        d = plain(d)
        if d.startswith("std::unordered_map<string,string,"):
            m = d.split(">::")[-1].split("(")[0]
            ex.contracts[nm] = (lambda ex, st, a: None) if m in ("unordered_map", "~unordered_map") else uncovered(d)
    st = u.state()
    st.ghost["read"], st.ghost["filled"] = (), 0

    def post(st):
        ex.oblig(st, T.B(st.ghost["filled"] == 1), "the session is configured, once")
        ex.oblig(st, T.eq(st.ret, result), "a mistake in the configuration is reported")
    u.run(named(u, "process_config_and_fill_options("), st, [hx, seq], post)
