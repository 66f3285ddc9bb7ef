"""Parser for the textual LLVM IR (LLVM 18, opaque pointers) that clang emits
from /repo's sources.  Function bodies are parsed on demand."""
import re, struct

TOK = re.compile(r'''\s*(?:
  (?P<str>c"(?:[^"\\]|\\.)*")|
  (?P<id>[%@](?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))|
  (?P<meta>!(?:"[^"]*"|[-a-zA-Z$._0-9]*)(?:\([^)]*\))?)|
  (?P<hash>\#\d+)|
  (?P<num>-?\d+\.\d+e[+-]?\d+|0x[A-Z]?[0-9A-Fa-f]+|-?\d+)|
  (?P<dots>\.\.\.)|
  (?P<word>[a-zA-Z_][a-zA-Z_0-9.]*)|
  (?P<qstr>"(?:[^"\\]|\\.)*")|
  (?P<p>[()\[\]{}<>,=*:|^$])
)''', re.X)


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m:
            if s[pos:].strip() == "" or s[pos:].lstrip().startswith(";"):
                break
            raise SyntaxError("IR token: " + s[pos:pos + 60])
        pos = m.end()
        k = m.lastgroup
        out.append((k, m.group(k)))
    return out


# types: ('i',n) ('ptr',) ('f64',) ('f32',) ('f80',) ('void',) ('arr',n,t) ('st',packed,(t..)) ('named',name)
PTR = ("ptr",)
VOID = ("void",)
F64 = ("f64",)
F32 = ("f32",)


class P:
    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else (None, None)

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def eat(self, v):
        if self.peek()[1] == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.eat(v):
            raise SyntaxError("expected %r at %r" % (v, self.t[self.i:self.i + 8]))

    def more(self):
        return self.i < len(self.t)

    def type(self):
        k, v = self.next()
        if k == "word":
            if v[0] == "i" and v[1:].isdigit():
                t = ("i", int(v[1:]))
            elif v == "ptr":
                t = PTR
            elif v == "double":
                t = F64
            elif v == "float":
                t = F32
            elif v == "x86_fp80":
                t = ("f80",)
            elif v == "void":
                t = VOID
            elif v in ("label", "metadata", "token", "opaque"):
                t = (v,)
            else:
                raise SyntaxError("type " + v)
        elif k == "id" and v[0] == "%":
            t = ("named", v[1:])
        elif v == "[":
            n = int(self.next()[1])
            self.expect("x")
            e = self.type()
            self.expect("]")
            t = ("arr", n, e)
        elif v == "{":
            t = ("st", False, self._elems("}"))
        elif v == "<":
            if self.eat("{"):
                t = ("st", True, self._elems("}"))
                self.expect(">")
            else:
                n = int(self.next()[1])
                self.expect("x")
                e = self.type()
                self.expect(">")
                t = ("vec", n, e)
        else:
            raise SyntaxError("type at " + str(v))
        while True:
            if self.peek()[1] == "(" :
                # function type
                d = 0
                while True:
                    v = self.next()[1]
                    if v == "(":
                        d += 1
                    elif v == ")":
                        d -= 1
                        if d == 0:
                            break
                t = ("fn", t)
            elif self.peek()[1] == "*":
                self.next()
                t = PTR
            else:
                return t

    def _elems(self, close):
        es = []
        if self.eat(close):
            return ()
        while True:
            es.append(self.type())
            if self.eat(close):
                return tuple(es)
            self.expect(",")

    ATTRS = {"noundef", "nonnull", "zeroext", "signext", "nocapture", "readonly", "readnone", "writeonly", "noalias",
             "returned", "immarg", "inreg", "nofree", "nest", "swiftself", "allocptr", "noreturn", "inbounds", "inrange", "dead_on_unwind", "writable", "nsw", "nuw"}

    def attrs(self):
        byval = None
        while True:
            k, v = self.peek()
            if v in self.ATTRS:
                self.next()
            elif v in ("align", ):
                self.next()
                if self.peek()[1] == "(":
                    self.skip_paren()
                else:
                    self.next()
            elif v in ("dereferenceable", "dereferenceable_or_null", "sret", "byval", "elementtype", "range", "allocsize", "memory", "byref", "inalloca"):
                if v in ("byval",):
                    byval = True
                self.next()
                if self.peek()[1] == "(":
                    self.skip_paren()
            else:
                return byval

    def skip_paren(self):
        d = 0
        while True:
            v = self.next()[1]
            if v == "(":
                d += 1
            elif v == ")":
                d -= 1
                if d == 0:
                    return

    # operands: ('loc',name) ('glob',name) ('int',n) ('null',) ('undef',) ('zero',) ('fp',bits) ('bool',b)
    #           ('cgep',ty,base,idxs) ('agg',[ (ty,op) ]) ('cstr',bytes) ('cast',kind,(ty,op),ty)
    def value(self, ty):
        k, v = self.next()
        if k == "id":
            return ("loc", v[1:]) if v[0] == "%" else ("glob", unq(v[1:]))
        if k == "num":
            if ty[0] in ("f64", "f32", "f80"):
                if v.startswith("0x"):
                    if v[2].isalpha() and v[2] in "KLMHR":
                        return ("fpx", v)
                    bits = int(v[2:], 16)
                else:
                    bits = struct.unpack("<Q", struct.pack("<d", float(v)))[0]
                return ("fp", bits)
            return ("int", int(v))
        if k == "str":
            return ("cstr", unesc(v[2:-1]))
        if v in ("true", "false"):
            return ("int", 1 if v == "true" else 0)
        if v == "null":
            return ("null",)
        if v in ("undef", "poison"):
            return ("undef",)
        if v == "zeroinitializer":
            return ("zero",)
        if v == "getelementptr":
            self.attrs()
            self.expect("(")
            bt = self.type()
            self.expect(",")
            ops = []
            while True:
                self.attrs()
                t = self.type()
                ops.append((t, self.value(t)))
                if self.eat(")"):
                    break
                self.expect(",")
            return ("cgep", bt, ops[0], ops[1:])
        if v in ("inttoptr", "ptrtoint", "bitcast", "trunc", "zext", "sext", "addrspacecast"):
            self.expect("(")
            t = self.type()
            o = self.value(t)
            self.expect("to")
            t2 = self.type()
            self.expect(")")
            return ("cast", v, (t, o), t2)
        if v in ("sub", "add", "mul", "icmp"):
            self.attrs()
            if v == "icmp":
                self.next()
            self.expect("(")
            t = self.type()
            a = self.value(t)
            self.expect(",")
            t2 = self.type()
            b = self.value(t2)
            self.expect(")")
            return ("cbin", v, t, a, b)
        if v in ("{", "[", "<"):
            if v == "<" and self.peek()[1] == "{":
                self.next()
                close = "}"
            else:
                close = {"{": "}", "[": "]", "<": ">"}[v]
            es = []
            if not self.eat(close):
                while True:
                    t = self.type()
                    es.append((t, self.value(t)))
                    if self.eat(close):
                        break
                    self.expect(",")
            if v == "<" and close == "}":
                self.expect(">")
            return ("agg", es)
        if v == "asm":
            return ("asm",)
        raise SyntaxError("value %s %s" % (k, v))

    def tv(self):
        self.attrs()
        t = self.type()
        self.attrs()
        return (t, self.value(t))


def unq(s):
    if s.startswith('"'):
        return s[1:-1]
    return s


def unesc(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == "\\":
            if s[i + 1] == "\\":
                out.append(0x5c)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


class Instr:
    __slots__ = ("op", "res", "ty", "a", "text", "line")

    def __init__(self, op, res, ty, a, text):
        self.op = op
        self.res = res
        self.ty = ty
        self.a = a
        self.text = text
        self.line = 0

    def __repr__(self):
        return self.text.strip()


class Block:
    def __init__(self, name):
        self.name = name
        self.ins = []


class Function:
    def __init__(self, name, module, header, lines):
        self.name = name
        self.module = module
        self.header = header
        self.lines = lines
        self.parsed = False
        self.linkage_internal = " internal " in header[:60] or " private " in header[:60]

    def parse(self):
        if self.parsed:
            return self
        self.parsed = True
        p = P(tokenize(self.header[len("define"):].rsplit("{", 1)[0]))
        # skip linkage etc. until type + @name
        while not (p.peek()[0] == "id" and p.peek()[1][0] == "@"):
            save = p.i
            try:
                p.attrs()
                t = p.type()
                if p.peek()[0] == "id" and p.peek()[1][0] == "@":
                    self.ret = t
                    break
                p.i = save
                p.next()
            except SyntaxError:
                p.i = save
                p.next()
                if p.peek()[1] == "(":
                    p.skip_paren()
        p.next()
        p.expect("(")
        self.params = []
        self.vararg = False
        n = 0
        if not p.eat(")"):
            while True:
                if p.eat("..."):
                    self.vararg = True
                else:
                    t = p.type()
                    bv = p.attrs()
                    nm = str(n)
                    if p.peek()[0] == "id":
                        nm = p.next()[1][1:]
                    else:
                        pass
                    self.params.append((t, nm, bv))
                n += 1
                if p.eat(")"):
                    break
                p.expect(",")
        self.blocks = {}
        self.order = []
        cur = None
        nparams = len(self.params)
        i = 0
        L = self.lines
        while i < len(L):
            ln = L[i]
            i += 1
            s = ln.strip()
            if not s or s.startswith(";"):
                continue
            if not ln.startswith("  "):
                m = re.match(r'^("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+):', ln)
                if m:
                    cur = Block(m.group(1))
                    self.blocks[cur.name] = cur
                    self.order.append(cur.name)
                    continue
            if cur is None:
                cur = Block(str(nparams))
                self.blocks[cur.name] = cur
                self.order.append(cur.name)
            # multi-line constructs
            if s.startswith("switch") or " switch " in s:
                while "]" not in s:
                    s += " " + L[i].strip()
                    i += 1
            elif " landingpad " in s or s.startswith("landingpad"):
                while i < len(L) and re.match(r"^\s+(cleanup|catch|filter)", L[i]):
                    s += " " + L[i].strip()
                    i += 1
            elif s.startswith("invoke") or "= invoke" in s:
                while " unwind label" not in s:
                    s += " " + L[i].strip()
                    i += 1
            cur.ins.append(parse_instr(s))
        self.entry = self.order[0]
        self.preds = {b: [] for b in self.blocks}
        for b in self.blocks.values():
            for t in succs(b):
                self.preds[t].append(b.name)
        self._loops = None
        return self


def succs(b):
    t = b.ins[-1]
    if t.op == "br":
        return [t.a["t"]] + ([t.a["f"]] if t.a["c"] is not None else [])
    if t.op == "switch":
        return [t.a["default"]] + [l for _, l in t.a["cases"]]
    if t.op == "invoke":
        return [t.a["normal"], t.a["unwind"]]
    return []


BIN = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor",
       "fadd", "fsub", "fmul", "fdiv", "frem"}
CAST = {"trunc", "zext", "sext", "ptrtoint", "inttoptr", "bitcast", "uitofp", "sitofp", "fptoui", "fptosi", "fptrunc", "fpext"}


def label(p):
    p.expect("label")
    return unq_label(p.next()[1][1:])


def unq_label(s):
    return s


def parse_instr(s):
    text = s
    res = None
    m = re.match(r'^(%(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)) = ', s)
    if m:
        res = m.group(1)[1:]
        s = s[m.end():]
    # strip metadata and attribute groups at the end
    p = P(tokenize(s))
    op = p.next()[1]
    if op in ("tail", "musttail", "notail"):
        op = p.next()[1]
    I = lambda ty, **a: Instr(op, res, ty, a, text)
    if op == "alloca":
        p.eat("inalloca")
        t = p.type()
        n = None
        if p.eat(","):
            if p.peek()[1] != "align":
                tt = p.type()
                n = (tt, p.value(tt))
        return I(PTR, t=t, n=n)
    if op == "load":
        p.eat("volatile")
        at = p.eat("atomic")
        p.eat("volatile")
        t = p.type()
        p.expect(",")
        return I(t, p=p.tv())
    if op == "store":
        p.eat("volatile")
        p.eat("atomic")
        p.eat("volatile")
        v = p.tv()
        p.expect(",")
        return I(VOID, v=v, p=p.tv())
    if op == "getelementptr":
        p.attrs()
        bt = p.type()
        p.expect(",")
        base = p.tv()
        idx = []
        while p.eat(","):
            if p.peek()[0] == "meta":
                break
            idx.append(p.tv())
        return I(PTR, t=bt, base=base, idx=idx)
    if op in BIN:
        fl = set()
        while p.peek()[1] in ("nuw", "nsw", "exact", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "disjoint"):
            fl.add(p.next()[1])
        t = p.type()
        a = p.value(t)
        p.expect(",")
        b = p.value(t)
        return I(t, a=(t, a), b=(t, b), flags=fl)
    if op == "fneg":
        while p.peek()[1] in ("fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"):
            p.next()
        t = p.type()
        return I(t, a=(t, p.value(t)))
    if op in CAST:
        while p.peek()[1] in ("nneg", "nuw", "nsw"):
            p.next()
        t = p.type()
        v = p.value(t)
        p.expect("to")
        t2 = p.type()
        return I(t2, v=(t, v))
    if op in ("icmp", "fcmp"):
        while p.peek()[1] in ("fast", "nnan", "ninf", "nsz", "samesign"):
            p.next()
        pred = p.next()[1]
        t = p.type()
        a = p.value(t)
        p.expect(",")
        b = p.value(t)
        return I(("i", 1), pred=pred, a=(t, a), b=(t, b))
    if op == "select":
        c = p.tv()
        p.expect(",")
        a = p.tv()
        p.expect(",")
        b = p.tv()
        return I(a[0], c=c, a=a, b=b)
    if op == "phi":
        t = p.type()
        inc = []
        while True:
            p.expect("[")
            v = p.value(t)
            p.expect(",")
            l = p.next()[1][1:]
            p.expect("]")
            inc.append((v, l))
            if not p.eat(","):
                break
            if p.peek()[0] == "meta":
                break
        return I(t, inc=dict((l, (t, v)) for v, l in inc))
    if op == "br":
        if p.peek()[1] == "label":
            return I(VOID, c=None, t=label(p), f=None)
        c = p.tv()
        p.expect(",")
        t = label(p)
        p.expect(",")
        f = label(p)
        return I(VOID, c=c, t=t, f=f)
    if op == "switch":
        v = p.tv()
        p.expect(",")
        d = label(p)
        p.expect("[")
        cases = []
        while not p.eat("]"):
            t = p.type()
            c = p.value(t)
            p.expect(",")
            cases.append((c[1], label(p)))
        return I(VOID, v=v, default=d, cases=cases)
    if op == "ret":
        t = p.type()
        if t == VOID:
            return I(VOID, v=None)
        return I(VOID, v=(t, p.value(t)))
    if op in ("call", "invoke"):
        while p.peek()[1] in ("fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "fastcc", "ccc", "coldcc"):
            p.next()
        p.attrs()
        t = p.type()
        if t[0] == "fn":
            t = t[1]
        if p.peek()[1] == "asm":
            return I(t, fn=("asm",), args=[])
        fn = p.value(PTR)
        p.expect("(")
        args = []
        if not p.eat(")"):
            while True:
                at = p.type()
                bv = p.attrs()
                if at == ("metadata",):
                    # drop debug metadata arguments
                    d = 0
                    while True:
                        v = p.peek()[1]
                        if d == 0 and v in (",", ")"):
                            break
                        if v == "(":
                            d += 1
                        if v == ")":
                            d -= 1
                        p.next()
                    args.append((at, ("undef",)))
                else:
                    args.append((at, p.value(at)))
                if p.eat(")"):
                    break
                p.expect(",")
        a = dict(fn=fn, args=args, normal=None, unwind=None)
        if op == "invoke":
            while p.peek()[1] != "to":
                p.next()
            p.next()
            a["normal"] = label(p)
            p.expect("unwind")
            a["unwind"] = label(p)
        return Instr(op, res, t, a, text)
    if op == "extractvalue":
        v = p.tv()
        idx = []
        while p.eat(","):
            if p.peek()[0] != "num":
                break
            idx.append(int(p.next()[1]))
        return I(None, v=v, idx=idx)
    if op == "insertvalue":
        v = p.tv()
        p.expect(",")
        e = p.tv()
        idx = []
        while p.eat(","):
            if p.peek()[0] != "num":
                break
            idx.append(int(p.next()[1]))
        return I(v[0], v=v, e=e, idx=idx)
    if op == "unreachable":
        return I(VOID)
    if op in ("landingpad",):
        return I(("st", False, (PTR, ("i", 32))), )
    if op == "resume":
        return I(VOID)
    if op == "freeze":
        v = p.tv()
        return I(v[0], v=v)
    if op == "atomicrmw":
        p.eat("volatile")
        k = p.next()[1]
        ptr = p.tv()
        p.expect(",")
        v = p.tv()
        return I(v[0], kind=k, p=ptr, v=v)
    if op == "cmpxchg":
        return I(None)
    if op == "fence":
        return I(VOID)
    raise SyntaxError("instr " + text)


class Module:
    def __init__(self, path, text=None):
        self.path = path
        if text is None:
            text = open(path).read()
        self.types = {}
        self.globals = {}
        self.funcs = {}
        self.aliases = {}
        self.decls = set()
        lines = text.split("\n")
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            if ln.startswith("define"):
                j = i + 1
                while lines[j] != "}":
                    j += 1
                m = re.search(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\(', ln)
                name = unq(m.group(1))
                self.funcs[name] = Function(name, self, ln, lines[i + 1:j])
                i = j + 1
                continue
            if ln.startswith("%") and " = type " in ln:
                nm, t = ln.split(" = type ", 1)
                self.types[nm[1:]] = t
            elif ln.startswith("@"):
                m = re.match(r'^@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+) = (.*)$', ln)
                nm = unq(m.group(1))
                rest = m.group(2)
                if " alias " in " " + rest:
                    a = re.findall(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)', rest)
                    self.aliases[nm] = unq(a[-1])
                else:
                    self.globals[nm] = rest
            elif ln.startswith("declare"):
                m = re.search(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\(', ln)
                self.decls.add(unq(m.group(1)))
            i += 1
        self._ty = {}

    def named(self, name):
        t = self._ty.get(name)
        if t is None:
            s = self.types[name]
            if s.strip() == "opaque":
                t = ("st", False, ())
            else:
                t = P(tokenize(s)).type()
            self._ty[name] = t
        return t

    def resolve(self, t):
        while t[0] == "named":
            t = self.named(t[1])
        return t

    def size_align(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == "i":
            b = (t[1] + 7) // 8
            a = 1
            while a < b:
                a *= 2
            return (a, min(a, 16))
        if k == "ptr":
            return (8, 8)
        if k == "f64":
            return (8, 8)
        if k == "f32":
            return (4, 4)
        if k == "f80":
            return (16, 16)
        if k in ("arr", "vec"):
            s, a = self.size_align(t[2])
            return (s * t[1], a)
        if k == "st":
            off = 0
            al = 1
            for e in t[2]:
                s, a = self.size_align(e)
                if t[1]:
                    a = 1
                off = (off + a - 1) // a * a
                off += s
                al = max(al, a)
            return ((off + al - 1) // al * al, al)
        raise Exception("size of %r" % (t,))

    def size(self, t):
        return self.size_align(t)[0]

    def field(self, t, i):
        """(offset, type) of field i of struct/array type t"""
        t = self.resolve(t)
        if t[0] in ("arr", "vec"):
            return (self.size(t[2]) * i, t[2])
        off = 0
        for j, e in enumerate(t[2]):
            s, a = self.size_align(e)
            if t[1]:
                a = 1
            off = (off + a - 1) // a * a
            if j == i:
                return (off, e)
            off += s
        raise IndexError(i)

    def parse_global(self, name):
        """(is_const, type, initializer or None)"""
        rest = self.globals[name]
        p = P(tokenize(rest))
        ext = False
        const = None
        while p.more():
            k, v = p.peek()
            if v in ("global", "constant"):
                const = v == "constant"
                p.next()
                break
            if v in ("external", "extern_weak", "available_externally") and v != "available_externally":
                ext = True
            p.next()
            if p.peek()[1] == "(":
                p.skip_paren()
        t = p.type()
        init = None
        if not ext and p.more() and p.peek()[1] != ",":
            init = p.value(t)
        return const, t, init


class Program:
    """several modules, linked by symbol name"""

    def __init__(self, mods):
        self.mods = mods
        self.index = {}             # caches: names, helper constants
        self.defs = {}
        for m in mods:
            for n, f in m.funcs.items():
                if f.linkage_internal:
                    continue
                self.defs.setdefault(n, f)

    def lookup(self, name, mod):
        seen = 0
        while seen < 10:
            f = mod.funcs.get(name)
            if f is not None:
                return f
            if name in mod.aliases:
                name = mod.aliases[name]
                seen += 1
                continue
            f = self.defs.get(name)
            if f is not None:
                return f
            for m in self.mods:
                if name in m.aliases:
                    name = m.aliases[name]
                    mod = m
                    break
            else:
                return None
            seen += 1
        return None

    def canonical(self, name, mod):
        for _ in range(10):
            if name in mod.funcs:
                return name
            if name in mod.aliases:
                name = mod.aliases[name]
                continue
            if name in self.defs:
                return name
            for m in self.mods:
                if name in m.aliases:
                    name = m.aliases[name]
                    mod = m
                    break
            else:
                return name
        return name

    def find_global(self, name, mod):
        if name in mod.globals:
            c, t, i = mod.parse_global(name)
            if i is not None:
                return mod, c, t, i
        for m in self.mods:
            if name in m.globals:
                c, t, i = m.parse_global(name)
                if i is not None:
                    return m, c, t, i
        if name in mod.globals:
            c, t, i = mod.parse_global(name)
            return mod, c, t, None
        return None
