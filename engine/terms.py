"""Hash-consed terms (integers in linear normal form, booleans, floats, opaque
sorts) used by the VC generator, and their translation to z3.

Integers are mathematical.  Machine arithmetic is encoded by the executor
(range proofs or explicit mod), so nothing here wraps silently.
"""
import z3
from math import gcd

_table = {}
_next = [1]


class Term:
    __slots__ = ("op", "args", "sort", "id", "z", "_hash")

    def __repr__(self):
        return show(self)


def mk(op, args, sort):
    key = (op, args, sort)
    t = _table.get(key)
    if t is None:
        t = Term()
        t.op = op
        t.args = args
        t.sort = sort
        t.id = _next[0]
        _next[0] += 1
        t.z = None
        _table[key] = t
    return t


# ------------------------------------------------------------------ integers
# int term: op 'lin', args = (const, ((atom, coef), ...)) sorted by atom id

def I(n):
    return mk("lin", (int(n), ()), "Int")


def is_const(t):
    return t.op == "lin" and not t.args[1]


def cval(t):
    return t.args[0]


def toint(x):
    if isinstance(x, Term):
        return x
    return I(x)


def lin_of(t):
    """(const, ((atom,coef),..)) view of any Int term."""
    if t.op == "lin":
        return t.args
    return (0, ((t, 1),))


def mklin(const, items):
    items = tuple(sorted(((a, c) for a, c in items if c), key=lambda p: p[0].id))
    if const == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    return mk("lin", (const, items), "Int")


def addn(ts):
    c = 0
    d = {}
    for coef, t in ts:
        k, items = lin_of(t)
        c += coef * k
        for a, q in items:
            d[a] = d.get(a, 0) + coef * q
    return mklin(c, d.items())


def add(a, b):
    return addn([(1, toint(a)), (1, toint(b))])


def sub(a, b):
    return addn([(1, toint(a)), (-1, toint(b))])


def mulc(a, c):
    return addn([(c, toint(a))])


def mul(a, b):
    a, b = toint(a), toint(b)
    if is_const(a):
        return mulc(b, cval(a))
    if is_const(b):
        return mulc(a, cval(b))
    # distribute over sums so that the normal form stays canonical
    ka, ia = lin_of(a)
    kb, ib = lin_of(b)
    if len(ia) * len(ib) > 40:
        x, y = sorted((a, b), key=lambda t: t.id)
        return mk("mul", (x, y), "Int")
    parts = [(ka * kb, I(1))]
    for at, c in ia:
        parts.append((c * kb, at))
    for bt, c in ib:
        parts.append((c * ka, bt))
    for at, c in ia:
        for bt, d in ib:
            fs = []
            for f in (at, bt):
                if f.op == "mul":
                    fs.extend(f.args)
                else:
                    fs.append(f)
            fs.sort(key=lambda t: t.id)
            parts.append((c * d, mk("mul", tuple(fs), "Int")))
    return addn(parts)


def div(a, b):
    """floor division, b > 0 intended"""
    a, b = toint(a), toint(b)
    if is_const(b):
        c = cval(b)
        if c == 1:
            return a
        if is_const(a) and c > 0:
            return I(cval(a) // c)
        if c > 0:
            k, items = lin_of(a)
            ex = [(at, q) for at, q in items if q % c == 0]
            rest = [(at, q) for at, q in items if q % c]
            hi = k // c
            lo = k % c
            if not rest:
                return addn([(1, I(hi))] + [(q // c, at) for at, q in ex])
            if ex or hi:
                r = mklin(lo, rest)
                return addn([(1, I(hi)), (1, div(r, b))] + [(q // c, at) for at, q in ex])
            if a.op == "div" and is_const(a.args[1]) and cval(a.args[1]) > 0:
                return div(a.args[0], I(cval(a.args[1]) * c))
    return mk("div", (a, b), "Int")


def mod(a, b):
    a, b = toint(a), toint(b)
    if is_const(b):
        c = cval(b)
        if c > 0:
            if is_const(a):
                return I(cval(a) % c)
            if c == 1:
                return I(0)
            k, items = lin_of(a)
            out = []
            k %= c
            for at, q in items:
                # (x mod m) with c | m  can be replaced by x inside mod c
                if at.op == "mod" and is_const(at.args[1]) and cval(at.args[1]) % c == 0:
                    inner = at.args[0]
                    return mod(addn([(1, mklin(k, [(x, y) for x, y in items if x is not at])), (q, inner)]), b)
                if q % c:
                    qq = q % c
                    if q < 0 and -q < c and (-q) <= qq:
                        qq = q
                    out.append((at, qq))
            r = mklin(k, out)
            if is_const(r):
                return I(cval(r) % c)
            return mk("mod", (r, b), "Int")
    return mk("mod", (a, b), "Int")


def var(name, sort="Int"):
    return mk("var", (name,), sort)


_fresh = [0]


def fresh(prefix, sort="Int"):
    _fresh[0] += 1
    return var("%s!%d" % (prefix, _fresh[0]), sort)


def app(f, args, sort="Int"):
    return mk("app:" + f, tuple(toint(a) if isinstance(a, int) and not isinstance(a, bool) else a for a in args), sort)


# ------------------------------------------------------------------ booleans
TRUE = mk("true", (), "Bool")
FALSE = mk("false", (), "Bool")


def B(x):
    if isinstance(x, Term):
        return x
    return TRUE if x else FALSE


def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    if a.op == "le0":
        # not (x <= 0)  ->  1 - x <= 0
        return le(I(1), a.args[0])
    return mk("not", (a,), "Bool")


def _flat(op, xs):
    for x in xs:
        if x.op == op:
            yield from x.args
        else:
            yield x


def and_(*xs):
    out = []
    seen = set()
    for x in _flat("and", [B(x) for x in xs]):
        if x is FALSE:
            return FALSE
        if x is TRUE or x in seen:
            continue
        seen.add(x)
        out.append(x)
    if any(not_(x) in seen for x in out):
        return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk("and", tuple(out), "Bool")


def or_(*xs):
    return not_(and_(*[not_(B(x)) for x in xs]))


def implies(a, b):
    return or_(not_(B(a)), b)


def le(a, b):
    d = sub(a, b)
    k, items = lin_of(d)
    if not items:
        return B(k <= 0)
    g = 0
    for _, q in items:
        g = gcd(g, q)
    if g > 1:
        # g*X + k <= 0  <=>  X + ceil(k/g) <= 0
        d = mklin(-((-k) // g), [(a_, q // g) for a_, q in items])
    return mk("le0", (d,), "Bool")


def lt(a, b):
    return le(add(a, 1), b)


def ge(a, b):
    return le(b, a)


def gt(a, b):
    return lt(b, a)


def eq(a, b):
    if isinstance(a, (int, bool)):
        a = B(a) if isinstance(b, Term) and b.sort == "Bool" else I(a)
    if isinstance(b, (int, bool)):
        b = B(b) if a.sort == "Bool" else I(b)
    if a is b:
        return TRUE
    assert a.sort == b.sort, (a, b)
    if a.sort == "Int":
        d = sub(a, b)
        k, items = lin_of(d)
        if not items:
            return B(k == 0)
        g = 0
        for _, q in items:
            g = gcd(g, q)
        if k % g:
            return FALSE
        if items[0][1] < 0:
            g = -g
        d = mklin(k // g, [(a_, q // g) for a_, q in items])
        # ite with constant branches
        if len(d.args[1] if d.op == "lin" else ()) <= 1:
            at, q = lin_of(d)[1][0]
            kk = lin_of(d)[0]
            if at.op == "ite" and is_const(at.args[1]) and is_const(at.args[2]) and q == 1:
                return or_(and_(at.args[0], B(cval(at.args[1]) == -kk)),
                           and_(not_(at.args[0]), B(cval(at.args[2]) == -kk)))
        return mk("eq0", (d,), "Bool")
    if a.sort == "Bool":
        if a is TRUE:
            return b
        if b is TRUE:
            return a
        if a is FALSE:
            return not_(b)
        if b is FALSE:
            return not_(a)
        return mk("iff", tuple(sorted((a, b), key=lambda t: t.id)), "Bool")
    return mk("eq", tuple(sorted((a, b), key=lambda t: t.id)), "Bool")


def ne(a, b):
    return not_(eq(a, b))


def ite(c, a, b):
    c = B(c)
    if isinstance(a, int):
        a = I(a)
    if isinstance(b, int):
        b = I(b)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.sort == "Bool":
        return or_(and_(c, a), and_(not_(c), b))
    if c.op == "not":
        return mk("ite", (c.args[0], b, a), a.sort)
    return mk("ite", (c, a, b), a.sort)


def is_const_bool(t):
    return t is TRUE or t is FALSE


# ------------------------------------------------------------------ printing
def show(t, depth=6):
    if depth == 0:
        return "..."
    s = lambda x: show(x, depth - 1)
    if t.op == "lin":
        k, items = t.args
        parts = []
        for a, q in items:
            parts.append(("" if q == 1 else "-" if q == -1 else "%d*" % q) + s(a))
        if k or not parts:
            parts.append(str(k))
        return "(" + " + ".join(parts) + ")" if len(parts) > 1 else parts[0]
    if t.op == "var":
        return str(t.args[0])
    if t.op == "le0":
        return "%s <= 0" % s(t.args[0])
    if t.op == "eq0":
        return "%s == 0" % s(t.args[0])
    if t.op == "not":
        return "!(%s)" % s(t.args[0])
    if not t.args:
        return t.op
    return t.op + "(" + ", ".join(s(a) if isinstance(a, Term) else str(a) for a in t.args) + ")"


# ---------------------------------------------------------------- z3 encoding
F64 = z3.Float64()
F32 = z3.Float32()
_sorts = {"Int": z3.IntSort(), "Bool": z3.BoolSort(), "F64": F64, "F32": F32}


def zsort(s):
    r = _sorts.get(s)
    if r is None:
        r = _sorts[s] = z3.DeclareSort(s)
    return r


_funcs = {}
RNE = z3.RNE()


def z(t):
    if t.z is not None:
        return t.z
    # iterative post-order to avoid deep recursion
    stack = [t]
    while stack:
        x = stack[-1]
        if x.z is not None:
            stack.pop()
            continue
        ch = children(x)
        pend = [c for c in ch if c.z is None]
        if pend:
            stack.extend(pend)
            continue
        x.z = _z1(x)
        stack.pop()
    return t.z


def children(x):
    if x.op == "lin":
        return [a for a, _ in x.args[1]]
    return [a for a in x.args if isinstance(a, Term)]


def _z1(x):
    op = x.op
    if op == "lin":
        k, items = x.args
        ps = [a.z * q if q != 1 else a.z for a, q in items]
        if k or not ps:
            ps.append(z3.IntVal(k))
        return z3.Sum(ps) if len(ps) > 1 else ps[0]
    if op == "var":
        return z3.Const(x.args[0], zsort(x.sort))
    if op == "true":
        return z3.BoolVal(True)
    if op == "false":
        return z3.BoolVal(False)
    if op == "not":
        return z3.Not(x.args[0].z)
    if op == "and":
        return z3.And(*[a.z for a in x.args])
    if op == "le0":
        return x.args[0].z <= 0
    if op == "eq0":
        return x.args[0].z == 0
    if op == "iff" or op == "eq":
        return x.args[0].z == x.args[1].z
    if op == "ite":
        return z3.If(x.args[0].z, x.args[1].z, x.args[2].z)
    if op == "mul":
        r = x.args[0].z
        for a in x.args[1:]:
            r = r * a.z
        return r
    if op == "div":
        return x.args[0].z / x.args[1].z
    if op == "mod":
        return x.args[0].z % x.args[1].z
    if op == "fpval":
        return z3.fpBVToFP(z3.BitVecVal(x.args[0], 64 if x.sort == "F64" else 32), zsort(x.sort))
    if op.startswith("fp."):
        a = [q.z for q in x.args if isinstance(q, Term)]
        o = op[3:]
        return {"lt": lambda: z3.fpLT(*a), "le": lambda: z3.fpLEQ(*a), "eq": lambda: z3.fpEQ(*a),
                "isnan": lambda: z3.fpIsNaN(*a)}[o]()
    if op.startswith("app:"):
        f = op[4:]
        sig = (f, tuple(a.sort for a in x.args), x.sort)
        fn = _funcs.get(sig)
        if fn is None:
            if not x.args:
                fn = z3.Const("c." + f, zsort(x.sort))
            else:
                fn = z3.Function(f if (f,) not in _funcs else f + "/%d" % len(_funcs),
                                 *[zsort(a.sort) for a in x.args], zsort(x.sort))
            _funcs[sig] = fn
        return fn(*[a.z for a in x.args]) if x.args else fn
    raise Exception("z: " + op)


def fp_lt(a, b):
    return mk("fp.lt", (a, b), "Bool")


def fp_le(a, b):
    return mk("fp.le", (a, b), "Bool")


def fp_eq(a, b):
    return mk("fp.eq", (a, b), "Bool")


def fp_isnan(a):
    return mk("fp.isnan", (a,), "Bool")


def subst(t, m, cache=None):
    """substitute atoms (Term -> Term)"""
    if cache is None:
        cache = {}
    if t in m:
        return m[t]
    if t in cache:
        return cache[t]
    if t.op == "lin":
        r = addn([(1, I(t.args[0]))] + [(q, subst(a, m, cache)) for a, q in t.args[1]])
    elif t.op in ("var", "true", "false", "fpval"):
        r = t
    else:
        a = [subst(x, m, cache) if isinstance(x, Term) else x for x in t.args]
        r = rebuild(t.op, a, t.sort)
    cache[t] = r
    return r


def rebuild(op, a, sort):
    if op == "not":
        return not_(a[0])
    if op == "and":
        return and_(*a)
    if op == "le0":
        return le(a[0], I(0))
    if op == "eq0":
        return eq(a[0], I(0))
    if op in ("iff", "eq"):
        return eq(a[0], a[1])
    if op == "ite":
        return ite(*a)
    if op == "mul":
        r = a[0]
        for x in a[1:]:
            r = mul(r, x)
        return r
    if op == "div":
        return div(*a)
    if op == "mod":
        return mod(*a)
    return mk(op, tuple(a), sort)


def atoms(t, out=None, seen=None):
    """set of var/app subterms"""
    if out is None:
        out, seen = set(), set()
    if t in seen:
        return out
    seen.add(t)
    if t.op == "var" or t.op.startswith("app:"):
        out.add(t)
    for c in children(t):
        atoms(c, out, seen)
    return out
