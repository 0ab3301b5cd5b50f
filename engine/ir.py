"""Parser for the textual LLVM IR that clang 18 prints (opaque pointers)."""
import re
import struct

TOK = re.compile(r'''
  (?P<str>c"(?:[^"])*")
 |(?P<name>[%@](?:"[^"]*"|[-a-zA-Z$._0-9]+))
 |(?P<meta>![-a-zA-Z$._0-9]*)
 |(?P<attr>\#\d+)
 |(?P<num>-?\d+\.\d+(?:e[+-]?\d+)?|0x[KLMHR]?[0-9A-Fa-f]+|-?\d+)
 |(?P<word>[a-zA-Z_$.][-a-zA-Z0-9_.$]*)
 |(?P<qs>"[^"]*")
 |(?P<dots>\.\.\.)
 |(?P<p>[\[\]{}()<>,=*:|])
''', re.X)


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        ch = s[pos]
        if ch in " \t":
            pos += 1
            continue
        if ch == ";":
            break
        m = TOK.match(s, pos)
        if not m:
            raise SyntaxError("IR token at: " + s[pos:pos + 60])
        out.append(m.group(0))
        pos = m.end()
    return out


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ("k", "w", "el", "n", "name", "packed", "_size", "_align", "_offs", "params", "va")

    def __init__(self, k, w=0, el=None, n=0, name=None, packed=False):
        self.k, self.w, self.el, self.n, self.name, self.packed = k, w, el, n, name, packed
        self._size = self._align = self._offs = None

    def __repr__(self):
        if self.k == "int":
            return "i%d" % self.w
        if self.k == "struct":
            return self.name or "{%s}" % ", ".join(map(str, self.el or []))
        if self.k in ("array", "vec"):
            return "[%d x %s]" % (self.n, self.el)
        return self.k

    @property
    def size(self):  # allocation size
        if self._size is None:
            k = self.k
            if k == "int":
                b = (self.w + 7) // 8
                p = 1
                while p < b:
                    p *= 2
                self._size, self._align = p, min(p, 16)
            elif k == "float":
                self._size = self._align = 4
            elif k in ("double", "ptr"):
                self._size = self._align = 8
            elif k == "x86_fp80":
                self._size = self._align = 16
            elif k == "array":
                self._size, self._align = self.n * self.el.size, self.el.align
            elif k == "vec":
                s = self.n * self.el.size
                p = 1
                while p < s:
                    p *= 2
                self._size, self._align = p, p
            elif k == "struct":
                off, al, offs = 0, 1, []
                if self.el is None:
                    self._size, self._align, self._offs = 0, 1, []
                    return 0
                for e in self.el:
                    a = 1 if self.packed else e.align
                    off = (off + a - 1) // a * a
                    offs.append(off)
                    off += e.size
                    al = max(al, a)
                self._offs = offs
                self._size, self._align = (off + al - 1) // al * al, al
            else:
                self._size, self._align = 0, 1
        return self._size

    @property
    def align(self):
        self.size
        return self._align

    @property
    def offs(self):
        self.size
        return self._offs


VOID = Ty("void")
PTR = Ty("ptr")
FLOAT = Ty("float")
DOUBLE = Ty("double")
_ints = {}


def INT(w):
    if w not in _ints:
        _ints[w] = Ty("int", w)
    return _ints[w]


class Const:
    """kinds: int fp null undef zero agg str global expr"""
    __slots__ = ("k", "v", "ty")

    def __init__(self, k, v, ty):
        self.k, self.v, self.ty = k, v, ty

    def __repr__(self):
        return "%s:%s" % (self.k, self.v)


class Local:
    __slots__ = ("name", "ty")

    def __init__(self, name, ty):
        self.name, self.ty = name, ty

    def __repr__(self):
        return self.name


class Instr:
    __slots__ = ("op", "res", "ty", "a", "x", "dbg")

    def __init__(self, op, res=None, ty=None, a=None, x=None):
        self.op, self.res, self.ty, self.a, self.x = op, res, ty, a, x
        self.dbg = None

    def __repr__(self):
        return "%s = %s %s %s %s" % (self.res, self.op, self.ty, self.a, self.x)


class Fn:
    def __init__(self, name):
        self.name = name
        self.params = []
        self.ret = None
        self.blocks = {}
        self.order = []
        self.attrs = ""
        self.defined = False
        self.internal = False


PARAM_ATTRS = {
    "noundef", "nonnull", "nocapture", "readonly", "readnone", "writeonly", "noalias", "signext", "zeroext", "inreg",
    "returned", "nofree", "immarg", "swiftself", "nest", "allocptr", "noreturn", "dead_on_unwind", "writable", "allocalign",
}
PARAM_ATTRS_P = {"align", "dereferenceable", "dereferenceable_or_null", "sret", "byval", "elementtype", "inalloca", "preallocated", "captures", "nofpclass", "range"}
FMF = {"fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"}
CCONV = {"fastcc", "coldcc", "ccc", "tail", "musttail", "notail"}
LINK = {"private", "internal", "available_externally", "linkonce", "weak", "common", "appending", "extern_weak", "linkonce_odr", "weak_odr", "external", "dso_local", "dso_preemptable", "hidden", "protected", "default", "unnamed_addr", "local_unnamed_addr", "thread_local", "constant", "global", "dllimport", "dllexport"}


class P:
    def __init__(self, toks, mod):
        self.t, self.i, self.m = toks, 0, mod

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def eat(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def need(self, x):
        y = self.next()
        if y != x:
            raise SyntaxError("expected %s got %s in %s" % (x, y, " ".join(self.t)))

    def type(self):
        t = self.next()
        if t == "ptr":
            r = PTR
            if self.peek() == "addrspace":
                self.next(); self.need("("); self.next(); self.need(")")
        elif t == "void":
            r = VOID
        elif t == "float":
            r = FLOAT
        elif t == "double":
            r = DOUBLE
        elif t[0] == "i" and t[1:].isdigit():
            r = INT(int(t[1:]))
        elif t == "[":
            n = int(self.next()); self.need("x")
            r = Ty("array", el=self.type(), n=n)
            self.need("]")
        elif t == "<":
            if self.peek() == "{":
                self.next()
                r = Ty("struct", el=self.tlist("}"), packed=True)
                self.need(">")
            else:
                n = int(self.next()); self.need("x")
                r = Ty("vec", el=self.type(), n=n)
                self.need(">")
        elif t == "{":
            r = Ty("struct", el=self.tlist("}"))
        elif t[0] == "%":
            r = self.m.named(t)
        elif t in ("label", "metadata", "token", "x86_fp80", "half", "fp128", "opaque"):
            r = Ty(t)
        else:
            raise SyntaxError("type? " + t + " in " + " ".join(self.t))
        while self.peek() == "(":  # function type
            self.next()
            d = 1
            while d:
                x = self.next()
                if x == "(":
                    d += 1
                elif x == ")":
                    d -= 1
        return r

    def tlist(self, end):
        out = []
        while not self.eat(end):
            out.append(self.type())
            self.eat(",")
        return out

    def attrs(self):
        while True:
            x = self.peek()
            if x in PARAM_ATTRS:
                self.next()
            elif x in PARAM_ATTRS_P:
                self.next()
                if self.peek() == "(":
                    self.skip_paren()
                elif self.peek() and self.peek().isdigit():
                    self.next()
            else:
                return

    def skip_paren(self):
        self.need("(")
        d = 1
        while d:
            x = self.next()
            if x == "(":
                d += 1
            elif x == ")":
                d -= 1

    def value(self, ty):
        t = self.next()
        if t[0] == "%":
            return Local(t, ty)
        if t[0] == "@":
            return Const("global", t, ty)
        if t == "true":
            return Const("int", 1, ty)
        if t == "false":
            return Const("int", 0, ty)
        if t in ("null",):
            return Const("null", None, ty)
        if t in ("undef", "poison"):
            return Const("undef", None, ty)
        if t == "zeroinitializer":
            return Const("zero", None, ty)
        if t == "none":
            return Const("undef", None, ty)
        if t[0] == "c" and len(t) > 1 and t[1] == '"':
            return Const("str", unescape(t[2:-1]), ty)
        if t == "[" or t == "{" or t == "<":
            end = {"[": "]", "{": "}", "<": ">"}[t]
            packed = t == "<" and self.peek() == "{"
            if packed:
                self.next()
                end = "}"
            el = []
            while not self.eat(end):
                ety = self.type()
                el.append(self.value(ety))
                self.eat(",")
            if packed:
                self.need(">")
            return Const("agg", el, ty)
        if ty.k == "int":
            if t.lstrip("-").isdigit():
                return Const("int", int(t), ty)
        if ty.k in ("float", "double"):
            if t.startswith("0x"):
                v = struct.unpack(">d", struct.pack(">Q", int(t[2:], 16)))[0]
            else:
                v = float(t)
            return Const("fp", v, ty)
        if ty.k == "x86_fp80":
            return Const("undef", None, ty)
        if t in ("getelementptr", "bitcast", "inttoptr", "ptrtoint", "addrspacecast", "sub", "add", "trunc", "select", "icmp", "mul", "shl"):
            return self.constexpr(t, ty)
        raise SyntaxError("value? %s (type %s) in %s" % (t, ty, " ".join(self.t)))

    def constexpr(self, op, ty):
        while self.peek() in ("inbounds", "nuw", "nsw", "exact", "inrange"):
            self.next()
        self.need("(")
        if op == "getelementptr":
            bt = self.type(); self.need(",")
            ops = []
            while True:
                if self.peek() == "inrange":
                    self.next()
                t = self.type()
                ops.append(self.value(t))
                if not self.eat(","):
                    break
            self.need(")")
            return Const("expr", ("gep", bt, ops), ty)
        if op in ("bitcast", "inttoptr", "ptrtoint", "addrspacecast", "trunc"):
            t = self.type()
            v = self.value(t)
            self.need("to")
            t2 = self.type()
            self.need(")")
            return Const("expr", (op, v, t2), t2)
        ops = []
        if op == "icmp":
            self.next()
        while True:
            t = self.type()
            ops.append(self.value(t))
            if not self.eat(","):
                break
        self.need(")")
        return Const("expr", (op, ops), ty)

    def tv(self):
        t = self.type()
        self.attrs()
        if t.k == "metadata":
            # skip metadata operand
            d = 0
            while self.peek() is not None and not (d == 0 and self.peek() in (",", ")")):
                x = self.next()
                if x == "(":
                    d += 1
                elif x == ")":
                    d -= 1
            return Const("undef", None, t)
        return self.value(t)


def unescape(s):
    out = bytearray()
    i = 0
    b = s.encode("latin1")
    while i < len(b):
        if b[i:i + 1] == b"\\":
            out.append(int(b[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(b[i])
            i += 1
    return bytes(out)


class Module:
    def __init__(self, text):
        self.types = {}
        self.globals = {}  # name -> (ty, init Const or None, constant?)
        self.fns = {}
        self.aliases = {}
        self._bodies = {}
        self.parse(text)

    def named(self, n):
        t = self.types.get(n)
        if t is None:
            t = self.types[n] = Ty("struct", name=n)
        return t

    def parse(self, text):
        lines = text.split("\n")
        i = 0
        n = len(lines)
        while i < n:
            L = lines[i]
            i += 1
            if not L or L[0] in ";!":
                continue
            if L[0] == "%":
                m = re.match(r'(%(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = type (.*)$', L)
                name, body = m.groups()
                t = self.named(name)
                if body != "opaque":
                    p = P(tokenize(body), self)
                    b = p.type()
                    if b.k == "struct":
                        t.el, t.packed = b.el, b.packed
                continue
            if L[0] == "@":
                # parsed lazily
                m = re.match(r'(@(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = (.*)$', L)
                self.globals[m.group(1)] = m.group(2)
                continue
            if L.startswith("declare "):
                fn = self.header(L[8:])
                self.fns.setdefault(fn.name, fn)
                continue
            if L.startswith("define "):
                body = []
                while lines[i] != "}":
                    body.append(lines[i])
                    i += 1
                i += 1
                fn = self.header(L[7:])
                fn.defined = True
                self.fns[fn.name] = fn
                self._bodies[fn.name] = body
                continue

    def header(self, s):
        p = P(tokenize(s), self)
        fn = None
        while True:
            x = p.peek()
            if x in LINK or x in CCONV or x in ("comdat",):
                if x == "internal":
                    pass
                p.next()
                continue
            if x in PARAM_ATTRS or x in PARAM_ATTRS_P:
                p.attrs()
                continue
            break
        ret = p.type()
        name = p.next()
        fn = Fn(name)
        fn.ret = ret
        p.need("(")
        k = 0
        while not p.eat(")"):
            if p.eat("..."):
                continue
            t = p.type()
            p.attrs()
            nm = "%%%d" % k
            if p.peek() and p.peek()[0] == "%":
                nm = p.next()
            fn.params.append((nm, t))
            k += 1
            p.eat(",")
        return fn

    def glob(self, name):
        """-> (type, init Const or None, is_constant)"""
        g = self.globals.get(name)
        if g is None or isinstance(g, tuple):
            return g
        p = P(tokenize(g), self)
        const = False
        alias = False
        while True:
            x = p.peek()
            if x == "alias":
                alias = True
                p.next()
                continue
            if x in LINK:
                const |= x == "constant"
                p.next()
                if x == "thread_local" and p.peek() == "(":
                    p.skip_paren()
                continue
            if x == "addrspace":
                p.next(); p.skip_paren()
                continue
            break
        ty = p.type()
        init = None
        if alias:
            p.eat(",")
            v = p.tv()
            r = ("alias", v, None)
        else:
            if p.peek() not in (None, ",", "comdat", "align", "section"):
                init = p.value(ty)
            r = (ty, init, const)
        self.globals[name] = r
        return r

    def body(self, fn):
        b = self._bodies.pop(fn.name, None)
        if b is not None:
            self.parse_body(fn, b)
        return fn

    def parse_body(self, fn, lines):
        cur = None
        i = 0
        n = len(lines)
        while i < n:
            L = lines[i]
            i += 1
            if not L.strip():
                continue
            if L[0] != " ":
                m = re.match(r'("[^"]*"|[-a-zA-Z$._0-9]+):', L)
                if m:
                    cur = "%" + m.group(1)
                    fn.blocks[cur] = []
                    fn.order.append(cur)
                    continue
            if cur is None:
                # unnamed entry block
                k = len(fn.params)
                cur = "%" + str(k)
                fn.blocks[cur] = []
                fn.order.append(cur)
            s = L.strip()
            # multi-line: switch tables and landingpads
            if s.startswith("switch ") and not s.rstrip().endswith("]"):
                while not lines[i].strip().startswith("]"):
                    s += " " + lines[i].strip()
                    i += 1
                s += " " + lines[i].strip()
                i += 1
            if " = landingpad " in s:
                while i < n and re.match(r'\s+(cleanup|catch|filter)\b', lines[i]):
                    s += " " + lines[i].strip()
                    i += 1
            if " invoke " in s or s.startswith("invoke "):
                if " unwind label" not in s:
                    s += " " + lines[i].strip()
                    i += 1
            fn.blocks[cur].append(self.instr(s))

    def instr(self, s):
        p = P(tokenize(s), self)
        res = None
        if p.peek()[0] == "%" and p.peek(1) == "=":
            res = p.next()
            p.next()
        op = p.next()
        while op in ("tail", "musttail", "notail"):
            op = p.next()
        I = Instr(op, res)
        if op in ("add", "sub", "mul", "shl", "udiv", "sdiv", "lshr", "ashr", "urem", "srem", "and", "or", "xor"):
            fl = set()
            while p.peek() in ("nuw", "nsw", "exact", "disjoint"):
                fl.add(p.next())
            I.ty = p.type()
            a = p.value(I.ty); p.need(","); b = p.value(I.ty)
            I.a, I.x = [a, b], fl
        elif op in ("fadd", "fsub", "fmul", "fdiv", "frem"):
            while p.peek() in FMF:
                p.next()
            I.ty = p.type()
            a = p.value(I.ty); p.need(","); b = p.value(I.ty)
            I.a = [a, b]
        elif op == "fneg":
            while p.peek() in FMF:
                p.next()
            I.ty = p.type()
            I.a = [p.value(I.ty)]
        elif op in ("icmp", "fcmp"):
            while p.peek() in FMF:
                p.next()
            I.x = p.next()
            I.ty = p.type()
            a = p.value(I.ty); p.need(","); b = p.value(I.ty)
            I.a = [a, b]
        elif op in ("trunc", "zext", "sext", "fptrunc", "fpext", "fptoui", "fptosi", "uitofp", "sitofp", "ptrtoint", "inttoptr", "bitcast", "addrspacecast"):
            while p.peek() in ("nneg", "nuw", "nsw") or p.peek() in FMF:
                p.next()
            t = p.type()
            v = p.value(t)
            p.need("to")
            I.ty = p.type()
            I.a = [v]
        elif op == "alloca":
            p.eat("inalloca")
            I.ty = p.type()
            n = None
            if p.eat(",") and p.peek() != "align":
                n = p.tv()
            I.a = [n] if n is not None else []
        elif op == "load":
            p.eat("atomic"); p.eat("volatile")
            I.ty = p.type(); p.need(",")
            I.a = [p.tv()]
        elif op == "store":
            p.eat("atomic"); p.eat("volatile")
            v = p.tv(); p.need(",")
            I.a = [v, p.tv()]
            I.ty = v.ty
        elif op == "getelementptr":
            while p.peek() in ("inbounds", "nuw", "nusw"):
                p.next()
            I.ty = p.type(); p.need(",")
            ops = [p.tv()]
            while p.eat(","):
                if p.peek() and p.peek()[0] == "!":
                    break
                ops.append(p.tv())
            I.a = ops
        elif op == "phi":
            while p.peek() in FMF:
                p.next()
            I.ty = p.type()
            inc = []
            while p.eat("["):
                v = p.value(I.ty); p.need(","); b = p.next(); p.need("]")
                inc.append((v, b))
                p.eat(",")
            I.a = inc
        elif op == "select":
            while p.peek() in FMF:
                p.next()
            c = p.tv(); p.need(","); a = p.tv(); p.need(","); b = p.tv()
            I.a, I.ty = [c, a, b], a.ty
        elif op == "br":
            if p.eat("label"):
                I.a, I.x = [], [p.next()]
            else:
                c = p.tv(); p.need(","); p.need("label"); a = p.next(); p.need(","); p.need("label"); b = p.next()
                I.a, I.x = [c], [a, b]
        elif op == "switch":
            v = p.tv(); p.need(","); p.need("label"); d = p.next(); p.need("[")
            cases = []
            while not p.eat("]"):
                c = p.tv(); p.need(","); p.need("label"); cases.append((c, p.next()))
            I.a, I.x = [v], (d, cases)
        elif op == "ret":
            t = p.type()
            I.ty = t
            I.a = [] if t.k == "void" else [p.value(t)]
        elif op in ("call", "invoke"):
            while p.peek() in FMF or p.peek() in CCONV:
                p.next()
            p.attrs()
            I.ty = p.type()
            cal = p.value(PTR) if p.peek() != "asm" else None
            if cal is None:
                I.x = ("asm",)
                I.a = []
                return I
            p.need("(")
            args = []
            while not p.eat(")"):
                args.append(p.tv())
                p.eat(",")
            I.a = args
            I.x = [cal, None, None]
            if op == "invoke":
                while p.peek() != "to":
                    p.next()
                p.next(); p.need("label"); n1 = p.next()
                p.need("unwind"); p.need("label"); n2 = p.next()
                I.x = [cal, n1, n2]
        elif op == "landingpad":
            I.ty = p.type()
            cl = []
            while p.peek() in ("cleanup", "catch", "filter"):
                k = p.next()
                if k == "cleanup":
                    cl.append(("cleanup", None))
                else:
                    cl.append((k, p.tv()))
            I.x = cl
        elif op == "resume":
            I.a = [p.tv()]
        elif op == "unreachable":
            pass
        elif op == "extractvalue":
            v = p.tv()
            idx = []
            while p.eat(","):
                if not p.peek().isdigit():
                    break
                idx.append(int(p.next()))
            I.a, I.x, I.ty = [v], idx, v.ty
        elif op == "insertvalue":
            v = p.tv(); p.need(","); e = p.tv()
            idx = []
            while p.eat(","):
                if not p.peek().isdigit():
                    break
                idx.append(int(p.next()))
            I.a, I.x, I.ty = [v, e], idx, v.ty
        elif op == "extractelement":
            v = p.tv(); p.need(","); e = p.tv()
            I.a, I.ty = [v, e], v.ty
        elif op == "insertelement":
            v = p.tv(); p.need(","); e = p.tv(); p.need(","); k = p.tv()
            I.a, I.ty = [v, e, k], v.ty
        elif op == "shufflevector":
            v = p.tv(); p.need(","); e = p.tv(); p.need(","); k = p.tv()
            I.a, I.ty = [v, e, k], v.ty
        elif op == "freeze":
            v = p.tv()
            I.a, I.ty = [v], v.ty
        elif op == "fence":
            pass
        elif op == "atomicrmw":
            p.eat("volatile")
            I.x = p.next()
            a = p.tv(); p.need(","); b = p.tv()
            I.a, I.ty = [a, b], b.ty
        elif op == "cmpxchg":
            p.eat("weak"); p.eat("volatile")
            a = p.tv(); p.need(","); b = p.tv(); p.need(","); c = p.tv()
            I.a, I.ty = [a, b, c], b.ty
        elif op == "va_arg":
            pass
        else:
            raise SyntaxError("instruction " + s)
        return I
