"""Symbolic execution of LLVM IR functions: generates the obligations of a contract.

Loops whose trip count is decided by the path condition are unrolled completely (the unwinding stops
only when the solver shows the back edge infeasible); loops with an unbounded trip count go through
the loop rule (loops.py).  Nothing here samples inputs: every input is a free symbol.
"""
import re
import struct
import time
from fractions import Fraction
import math
import z3
import alg
import ir
import lin
import terms as tm
from terms import T, TRUE, FALSE, and_, or_, not_, implies, ite, iconst


class Unsupported(Exception):
    pass


class PathEnd(Exception):
    pass


class Undef:
    def __repr__(self):
        return "undef"


UNDEF = Undef()


class Ptr:
    __slots__ = ("obj", "off")

    def __init__(self, obj, off):
        self.obj, self.off = obj, off

    def __repr__(self):
        return "&%s+%s" % (self.obj, self.off)


class FnPtr:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "fn " + self.name


class PIte:
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class P2I:
    """An integer that holds a pointer."""
    __slots__ = ("p",)

    def __init__(self, p):
        self.p = p


class Packed:
    """An integer made of adjacent values: parts [(nbytes, type, value)], lowest address first."""
    __slots__ = ("parts",)

    def __init__(self, parts):
        self.parts = parts

    @property
    def n(self):
        return sum(p[0] for p in self.parts)


class Obj:
    __slots__ = ("id", "size", "cells", "kind", "name", "zeros", "stride", "lanes", "lzero", "ro", "maxsz", "freed", "pend")

    def __init__(self, id, size, kind, name):
        self.id, self.size, self.kind, self.name = id, size, kind, name
        self.cells = {}
        self.zeros = []  # list of (lo, hi)
        self.stride = None
        self.lanes = None
        self.lzero = False
        self.pend = ()   # rows zeroed before their fields were known
        self.ro = False
        self.maxsz = 1
        self.freed = False

    def copy(self):
        o = Obj(self.id, self.size, self.kind, self.name)
        o.cells = dict(self.cells)
        o.zeros = list(self.zeros)
        o.pend = self.pend
        o.stride, o.lanes, o.lzero, o.ro, o.maxsz, o.freed = (
            self.stride, dict(self.lanes) if self.lanes is not None else None, self.lzero, self.ro, self.maxsz, self.freed)
        return o


class Frame:
    __slots__ = ("fn", "block", "idx", "regs", "act", "parent", "call", "prev", "visits", "loops")

    def __init__(self, fn, parent, call, act):
        self.fn, self.parent, self.call, self.act = fn, parent, call, act
        self.block = fn.order[0]
        self.idx = 0
        self.regs = {}
        self.prev = None
        self.visits = {}
        self.loops = ()

    def copy(self):
        f = Frame.__new__(Frame)
        f.fn, f.parent, f.call, f.act = self.fn, self.parent, self.call, self.act
        f.block, f.idx, f.prev = self.block, self.idx, self.prev
        f.regs = dict(self.regs)
        f.visits = dict(self.visits)
        f.loops = self.loops
        return f


class State:
    __slots__ = ("frame", "mem", "own", "pc", "exc", "depth", "log", "caught", "sampled")

    def __init__(self):
        self.frame = None
        self.mem = {}
        self.own = set()
        self.pc = ()
        self.exc = None
        self.depth = 0
        self.caught = ()
        self.log = ()
        self.sampled = None

    def fork(self):
        s = State()
        s.frame = self.frame.copy()
        s.mem = dict(self.mem)
        self.own = set()
        s.pc, s.exc, s.depth, s.caught, s.log = self.pc, self.exc, self.depth, self.caught, self.log
        return s

    def wobj(self, oid):
        o = self.mem[oid]
        if oid not in self.own:
            o = o.copy()
            self.mem[oid] = o
            self.own.add(oid)
        return o


class Obligation:
    __slots__ = ("name", "kind", "pc", "goal", "where", "result", "backend", "time", "model", "note")

    def __init__(self, name, kind, pc, goal, where):
        self.name, self.kind, self.pc, self.goal, self.where = name, kind, pc, goal, where
        self.result = self.backend = self.model = self.note = None
        self.time = 0.0


EXC_BASES = {
    "@_ZTISt13runtime_error": ["@_ZTISt9exception"],
    "@_ZTISt11logic_error": ["@_ZTISt9exception"],
    "@_ZTISt12length_error": ["@_ZTISt11logic_error", "@_ZTISt9exception"],
    "@_ZTISt12out_of_range": ["@_ZTISt11logic_error", "@_ZTISt9exception"],
    "@_ZTISt16invalid_argument": ["@_ZTISt11logic_error", "@_ZTISt9exception"],
    "@_ZTISt9bad_alloc": ["@_ZTISt9exception"],
    "@_ZTISt20bad_array_new_length": ["@_ZTISt9bad_alloc", "@_ZTISt9exception"],
    "@_ZTISt17bad_function_call": ["@_ZTISt9exception"],
}

THROWERS = {
    "std::__throw_length_error": "@_ZTISt12length_error",
    "std::__throw_out_of_range_fmt": "@_ZTISt12out_of_range",
    "std::__throw_out_of_range": "@_ZTISt12out_of_range",
    "std::__throw_logic_error": "@_ZTISt11logic_error",
    "std::__throw_bad_alloc": "@_ZTISt9bad_alloc",
    "std::__throw_bad_array_new_length": "@_ZTISt20bad_array_new_length",
    "std::__throw_bad_function_call": "@_ZTISt17bad_function_call",
    "std::__throw_invalid_argument": "@_ZTISt16invalid_argument",
    "std::__throw_bad_optional_access": "@_ZTISt19bad_optional_access",
}


def ideal_constant(v, single):
    """Real-arithmetic reading of a floating constant: shortest decimal, a small fraction, or a small
    rational multiple of pi, 1/pi or sqrt(2) when the constant is exactly the float of that number."""
    if v == 0:
        return tm.R0
    if v == math.floor(v) and abs(v) < 2 ** 53:
        return tm.rconst(int(v))
    rnd = (lambda x: struct.unpack("f", struct.pack("f", x))[0]) if single else (lambda x: x)
    if single:
        for nd in range(1, 10):
            s = "%.*g" % (nd, v)
            if rnd(float(s)) == v:
                break
        lim = 7
    else:
        s = repr(v)
        nd = len(s.lstrip("-").split("e")[0].replace(".", "").lstrip("0").rstrip("0"))
        lim = 15
        if abs(v) == 3.1415927410125732:
            return tm.PI if v > 0 else tm.rneg(tm.PI)  # pi in single precision, widened
        if nd > 12 and 1e-30 < abs(v) < 1e30 and struct.unpack("f", struct.pack("f", v))[0] == v:
            for n in range(1, 6):  # a short decimal in single precision, widened
                t = "%.*g" % (n, v)
                if struct.unpack("f", struct.pack("f", float(t)))[0] == v:
                    return tm.rconst(Fraction(t))
    f = Fraction(v)
    if f.denominator <= 4096:
        return tm.rconst(f)
    if nd < lim:
        return tm.rconst(Fraction(s))
    if not single and 1e-7 < abs(v) < 1e7:
        g = f.limit_denominator(100000)
        if g.numerator / g.denominator == v and abs(g.numerator) < 10 ** 7:
            return tm.rconst(g)
    for q in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 18, 20, 24, 27, 30, 32, 36, 45, 48, 60, 64, 90, 180, 360, 10800, 21600, 648000, 32400, 1296000, 3600000, 648000000):
        for base, kind in ((1.0, 0), (math.pi, 1)) + (() if single else ((3.1415927410125732, 1), (1 / 3.1415927410125732, 2), (3.1415927410125732 ** 2, 4))) + (((rnd(rnd(math.pi) ** 2), 4),) if single else ()) + ( (1 / math.pi, 2), (math.sqrt(2), 3), (math.pi ** 2, 4), (math.sqrt(math.pi), 5)):
            p = round(v * q / base)
            if p != 0 and abs(p) <= 1000 and math.gcd(p, q) == 1:
                for val in {p * base / q, p * (base / q), base * (p / q), (base / q) * p} | ({rnd(p * rnd(base)) / q, rnd(rnd(base) / q) * p, rnd(base) * p / q} if single else set()):
                    if rnd(val) == v:
                        r = tm.rconst(Fraction(p, q))
                        return [lambda: r, lambda: tm.rmul(r, tm.PI), lambda: tm.rmul(r, tm.rdiv(tm.R1, tm.PI)),
                                lambda: tm.rmul(r, tm.uf("sqrt", [tm.rconst(2)])), lambda: tm.rmul(r, tm.rmul(tm.PI, tm.PI)),
                                lambda: tm.rmul(r, tm.uf("sqrt", [tm.PI]))][kind]()
        for p in (180, 10800, 648000, 90, 45):  # multiples of 1/pi in angle conversions
            if rnd(p / math.pi) == v:
                return tm.rmul(tm.rconst(p), tm.rdiv(tm.R1, tm.PI))
    return tm.rconst(Fraction(s)) if nd <= (9 if single else 17) else tm.rconst(f)


SCALE = [1]


SCALE = [1]    # of the solver limits


class Exec:
    def __init__(self, mod, demangle, fmode="R", imode="INT", opts=()):
        self.m = mod
        self.dem = demangle
        self.fm = fmode
        self.im = imode
        tm.MODE[0] = imode
        self.opts = set(opts)
        self.obls = []
        self.nextobj = 1
        self.acts = 0
        self.globs = {}
        self.entered = {}
        self.externs = set()
        self.assumed = set()
        self.replaced = {}
        self.instrs = 0
        self.paths = 0
        self.covers = {}
        self.witnesses = []
        self.hints = []      # integers that floors may equal
        self.check_time = 0.0
        self.checks = 0
        self.max_instrs = 3_000_000
        self.deadline = time.time() + 400
        self.feas_memo = {}
        self.where = ""
        self.merge = "merge" in self.opts
        self.pending = {}
        self.stack = []
        self.scale = SCALE[0]
        self.loop_specs = {}
        self.havoc_loops = []
        self.namecount = {}
        self.excs = []
        self.dry = None
        self.named = {}
        self.bounded = set()
        self.inputs = {}
        self.loopstats = []
        self.forksel = False
        import models
        import loops
        self.models = models.Models(self)
        self.loops = loops.Loops(self)
        self.atom_memo = {}

    # ------------------------------------------------------------ solver queries used for pruning
    def _solver(self, ms):
        s = z3.Solver()
        ms = int(ms * self.scale)
        s.set("timeout", ms * 5)
        s.set("rlimit", ms * 3000)  # the same answer on a slow or busy machine
        return s

    def check(self, conds, ms=400):
        """'sat' | 'unsat' | 'unknown'"""
        key = tuple(sorted({c.id for c in conds}))
        r = self.feas_memo.get(key)
        if r is not None:
            return r
        t0 = time.time()
        if self.im == "INT" and lin.refuted(conds):
            self.check_time += time.time() - t0
            self.checks += 1
            self.feas_memo[key] = "unsat"
            return "unsat"
        Z = tm.Z(self.im)
        s = self._solver(ms)
        try:
            cs = [Z(c) for c in conds]
            for c in cs:
                s.add(c)
            for a in Z.axioms:
                s.add(a)
            r = str(s.check())
        except (z3.Z3Exception, NotImplementedError):
            r = "unknown"
        self.check_time += time.time() - t0
        self.checks += 1
        self.feas_memo[key] = r
        return r

    def atoms(self, c):
        """symbols of c; an array read counts as a symbol of its own"""
        r = self.atom_memo.get(c.id)
        if r is None:
            out, seen, wl = set(), {c.id}, [c]
            while wl:
                t = wl.pop()
                if t.op in ("var", "select"):
                    out.add(t.id)
                    if t.op == "var":
                        continue
                    if t.sort == "R":
                        continue
                for x in ([y for m, _ in t.args for y in m] if t.op == "poly" else t.args):
                    if isinstance(x, T) and x.id not in seen:
                        seen.add(x.id)
                        wl.append(x)
            r = self.atom_memo[c.id] = frozenset(out)
        return r

    def relevant(self, pc, c):
        """Conjuncts of pc that share symbols (transitively) with c."""
        want = set(self.atoms(c))
        rest = [(p, self.atoms(p)) for p in pc]
        out = []
        while True:
            nxt = []
            for p, a in rest:
                if not a or a & want:
                    out.append(p)
                    want |= a
                else:
                    nxt.append((p, a))
            if len(nxt) == len(rest):
                return out
            rest = nxt

    def feasible(self, st, c):
        if c is FALSE:
            return False
        for x in st.pc:
            if x is not_(c):
                return False
        return self.check(self.relevant(st.pc, c) + [c]) != "unsat"

    def entails(self, st, c, ms=400):
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        if c in st.pc:
            return True
        return self.check(self.relevant(st.pc, c) + [not_(c)], ms) == "unsat"

    # ------------------------------------------------------------ obligations
    def oblige(self, st, goal, name, kind):
        if goal is TRUE:
            return
        if kind != "ensures" and ("no-" + kind) in self.opts:
            return
        self.obls.append(Obligation(name, kind, st.pc, goal, self.whereami(st)))

    def ensures(self, st, goal, name):
        if goal is TRUE:
            self.trivial = getattr(self, "trivial", 0) + 1
            return
        self.obls.append(Obligation(name, "ensures", st.pc, goal, self.whereami(st)))

    def note_input(self, name, kind, term):
        self.inputs[name] = (kind, term)

    def unsup(self, msg):
        return Unsupported(msg)

    def loops_lane(self, o, lane, ty):
        L = o.lanes.get(lane)
        if L is not None:
            return L[1]
        return self.lanearr(o, lane, ty)[1]

    def safety(self, st, goal, name, kind):
        """An obligation that later code may rely on."""
        if goal is TRUE:
            return
        if self.fm == "R" and alg.decide_literals(st.pc, goal) is TRUE:
            o = Obligation(name, kind, st.pc, goal, self.whereami(st))
            o.result, o.backend = "proved", "algebra"
            self.obls.append(o)
            return
        self.oblige(st, goal, name, kind)
        self.assume(st, goal)

    def whereami(self, st):
        f = st.frame
        names = []
        while f is not None and len(names) < 4:
            names.append(self.dem.get(f.fn.name, f.fn.name))
            f = f.parent
        return " < ".join(n[:100] for n in names)

    def assume(self, st, c):
        if c is TRUE:
            return
        if c is FALSE:
            raise PathEnd()
        if c.op == "and":
            for x in c.args:
                self.assume(st, x)
            return
        if c not in st.pc:
            st.pc = st.pc + (c,)

    # ------------------------------------------------------------ objects
    def newobj(self, st, size, kind, name):
        oid = self.nextobj
        self.nextobj += 1
        o = Obj(oid, size, kind, name)
        if isinstance(size, T):
            if tm.is_const(size):
                o.size = tm.cval(size)
            else:
                if self.im == "BV":
                    raise Unsupported("object of symbolic size in BV mode")
                g = 0
                for mno, c in tm._poly(size).items():
                    g = math.gcd(g, c)
                o.stride = g or 1
                o.lanes = {}
        st.mem[oid] = o
        st.own.add(oid)
        return o

    def i64(self, v):
        return iconst(v, 64)

    def ptr(self, oid, off=0):
        return Ptr(oid, self.i64(off))

    def globptr(self, st, name):
        if name in self.m.fns and name not in self.m.globals:
            return FnPtr(name)
        oid = self.globs.get(name)
        if oid is None:
            oid = self.nextobj
            self.nextobj += 1
            self.globs[name] = oid
        if oid not in st.mem:
            g = self.m.glob(name)
            if g is None:
                o = Obj(oid, 1 << 20, "extern", name)
                st.mem[oid] = o
                st.own.add(oid)
                return self.ptr(oid)
            ty, init, const = g
            if ty == "alias":
                return self.value(st, init)
            o = Obj(oid, ty.size, "global", name)
            o.ro = const
            st.mem[oid] = o
            st.own.add(oid)
            if init is not None:
                self.put(st, o, 0, ty, self.constval(st, init))
            elif name == "@__libc_single_threaded":
                self.put(st, o, 0, ty, iconst(1, ty.w))  # reference counts: the atomic way has the same effect
        return self.ptr(oid)

    def zero(self, ty):
        k = ty.k
        if k == "int":
            return iconst(0, ty.w)
        if k in ("float", "double"):
            return tm.R0 if self.fm == "R" else tm.fconst(0, 32 if k == "float" else 64)
        if k == "ptr":
            return self.null()
        if k in ("array", "vec"):
            return tuple(self.zero(ty.el) for _ in range(ty.n))
        if k == "struct":
            return tuple(self.zero(e) for e in (ty.el or []))
        return UNDEF

    def null(self):
        return Ptr(None, self.i64(0))

    def fpconst(self, v, ty):
        if self.fm == "R":
            if math.isnan(v):
                return tm.NAN
            if math.isinf(v):
                return tm.INF if v > 0 else tm.NINF
            if ty.k == "double" or True:
                return ideal_constant(v, ty.k == "float")
        if ty.k == "float":
            return tm.fconst(struct.unpack("I", struct.pack("f", v))[0], 32)
        return tm.fconst(struct.unpack("Q", struct.pack("d", v))[0], 64)

    def constval(self, st, c):
        k = c.k
        if k == "int":
            return iconst(c.v, c.ty.w)
        if k == "fp":
            return self.fpconst(c.v, c.ty)
        if k == "null":
            return self.null()
        if k == "undef":
            if c.ty.k in ("vec", "array"):
                return tuple(UNDEF for _ in range(c.ty.n))
            if c.ty.k == "struct":
                return tuple(self.constval(st, ir.Const("undef", None, e)) for e in c.ty.el)
            return UNDEF
        if k == "zero":
            return self.zero(c.ty)
        if k == "agg":
            return tuple(self.constval(st, e) for e in c.v)
        if k == "str":
            return tuple(iconst(b, 8) for b in c.v)
        if k == "global":
            return self.globptr(st, c.v)
        if k == "expr":
            op = c.v[0]
            if op == "gep":
                return self.gep(st, c.v[1], [self.constval(st, o) for o in c.v[2]])
            if op in ("bitcast", "addrspacecast"):
                return self.constval(st, c.v[1])
            if op == "ptrtoint":
                return P2I(self.constval(st, c.v[1]))
            if op == "inttoptr":
                v = self.constval(st, c.v[1])
                return v.p if isinstance(v, P2I) else Ptr(None, v)
            if op == "trunc":
                v = self.constval(st, c.v[1])
                return UNDEF if isinstance(v, P2I) else v
            if op == "sub":
                a, b = (self.constval(st, x) for x in c.v[1])
                return self.int_binop(st, "sub", c.ty.w, a, b, set())
        raise Unsupported("constant %s" % c)

    def value(self, st, v):
        if isinstance(v, ir.Local):
            r = st.frame.regs.get(v.name)
            if r is None:
                raise Unsupported("register %s has no value" % v.name)
            return r
        return self.constval(st, v)

    # turn undef into an unconstrained symbol
    def use(self, v, ty):
        if v is UNDEF:
            if ty.k == "int":
                return tm.fresh("undef", "B") if ty.w == 1 else tm.fresh("undef", ("i", ty.w))
            if ty.k in ("float", "double"):
                return tm.fresh("undef", self.fsort(ty))
            if ty.k == "ptr":
                raise Unsupported("uninitialised pointer used")
            if ty.k in ("vec", "array"):
                return tuple(self.use(UNDEF, ty.el) for _ in range(ty.n))
        if isinstance(v, Packed) and ty.k == "int":
            return self.unpack_int(v, ty.w)
        if ty.k == "vec" and isinstance(v, tuple):
            return tuple(self.use(x, ty.el) for x in v)
        return v

    def fsort(self, ty):
        if self.fm == "R":
            return "R"
        return ("f", 32 if ty.k == "float" else 64)

    def unpack_int(self, v, w):
        """A Packed of integer parts as an integer term."""
        parts = []
        for n, ty, x in v.parts:
            if ty.k != "int":
                if self.fm == "F" and ty.k in ("float", "double"):
                    x = self.fbits(self.use(x, ty), ty)
                elif self.fm == "R" and ty.k in ("float", "double") and isinstance(x, T) and x is tm.R0:
                    x = iconst(0, n * 8)
                else:
                    raise Unsupported("integer read of a %s" % ty.k)
            elif isinstance(x, Packed) or x is UNDEF:
                x = self.use(x, ir.INT(n * 8))
            elif not isinstance(x, T):
                raise Unsupported("integer read of pointer bytes")
            parts.append((n, x))
        if self.im == "BV":
            r = parts[0][1]
            if r.sort == "B":
                r = self.b2i(r, 8)
            for n, x in parts[1:]:
                if x.sort == "B":
                    x = self.b2i(x, 8)
                r = tm.bvconcat(x, r)
            return r
        acc = tm.rawconst(0, w)
        sh = 0
        for n, x in parts:
            if x.sort == "B":
                x = self.b2i(x, 8)
            u = self.unsigned(x)
            acc = tm.padd(acc, tm.pscale(tm.pwidth(u, w), 1 << (8 * sh), w), w)
            sh += n
        return self.resign(acc, w)

    def resign(self, u, w):
        """canonical value of an unsigned value 0..2^w-1"""
        if w in (8, 16):
            return u
        if u.op == "const":
            return iconst(u.args[0], w)
        if u.hi is not None and u.hi < (1 << (w - 1)):
            return u
        return ite(tm.ilt(u, tm.rawconst(1 << (w - 1), w)), u, tm.psub(u, tm.rawconst(1 << w, w), w))

    def unsigned(self, x):
        w = x.sort[1]
        if w in (8, 16) or (x.lo is not None and x.lo >= 0):
            return x
        if x.op == "const":
            return tm.rawconst(tm.uval(x), w)
        # undo resign()
        return ite(tm.ile(tm.rawconst(0, w), x), x, tm.padd(x, tm.rawconst(1 << w, w), w))

    def signed(self, x):
        w = x.sort[1]
        if w not in (8, 16):
            return x
        if x.op == "const":
            return tm.rawconst(tm.sval(x), w)
        if x.hi is not None and x.hi < (1 << (w - 1)):
            return x
        return ite(tm.ilt(x, tm.rawconst(1 << (w - 1), w)), x, tm.psub(x, tm.rawconst(1 << w, w), w))

    def b2i(self, b, w):
        return ite(b, iconst(1, w), iconst(0, w))

    # ------------------------------------------------------------ memory cells
    def put(self, st, o, off, ty, v):
        """Write value v of type ty at concrete offset off of object o (owned)."""
        k = ty.k
        if k in ("array", "vec"):
            es = ty.el.size
            if v is UNDEF:
                v = tuple(UNDEF for _ in range(ty.n))
            for i in range(ty.n):
                self.put(st, o, off + i * es, ty.el, v[i])
            return
        if k == "struct":
            if v is UNDEF:
                v = tuple(UNDEF for _ in ty.el)
            for e, eo, x in zip(ty.el, ty.offs, v):
                self.put(st, o, off + eo, e, x)
            return
        n = ty.size
        if isinstance(v, Packed):
            p = off
            for pn, pty, pv in v.parts:
                self.putscalar(st, o, p, pn, pty, pv)
                p += pn
            return
        self.putscalar(st, o, off, n, ty, v)

    def putscalar(self, st, o, off, n, ty, v):
        c = o.cells.get(off)
        if c is not None and c[0] == n:
            o.cells[off] = (n, ty, v)
            return
        self.clear(st, o, off, n)
        o.cells[off] = (n, ty, v)
        if n > o.maxsz:
            o.maxsz = n

    def clear(self, st, o, off, n):
        """Remove what covers [off, off+n), keeping the rest of partly covered cells."""
        cells = o.cells
        if n + o.maxsz <= 2 * len(cells) + 8:
            ks = [k for k in range(off - o.maxsz + 1, off + n) if k in cells]
        else:
            ks = [k for k in cells if off - o.maxsz < k < off + n]
        for k in ks:
            c = cells[k]
            if k + c[0] <= off:
                continue
            del cells[k]
            if k < off or k + c[0] > off + n:
                for b in range(k, k + c[0]):
                    if b < off or b >= off + n:
                        cells[b] = (1, ir.INT(8), self.byteof(c, b - k))
        if o.zeros:
            z = []
            for lo, hi in o.zeros:
                if hi <= off or lo >= off + n:
                    z.append((lo, hi))
                else:
                    if lo < off:
                        z.append((lo, off))
                    if hi > off + n:
                        z.append((off + n, hi))
            o.zeros = z

    def byteof(self, c, i):
        n, ty, v = c
        if v is UNDEF or not isinstance(v, T):
            return UNDEF
        if ty.k == "int":
            if n == 1:
                return v
            if self.im == "BV":
                return tm.bvextract(v, 8 * i, 8)
            u = self.unsigned(v)
            w = v.sort[1]
            return tm.pwidth(tm.iexact("imod", tm.iexact("idiv", u, tm.rawconst(1 << (8 * i), w), w), tm.rawconst(256, w), w), 8)
        if self.fm == "F":
            return tm.bvextract(self.fbits(v, ty), 8 * i, 8)
        if v is tm.R0:
            return iconst(0, 8)
        return UNDEF

    def get(self, st, o, off, ty):
        k = ty.k
        if k in ("array", "vec"):
            es = ty.el.size
            return tuple(self.get(st, o, off + i * es, ty.el) for i in range(ty.n))
        if k == "struct":
            return tuple(self.get(st, o, off + eo, e) for e, eo in zip(ty.el, ty.offs))
        n = ty.size
        c = o.cells.get(off)
        if c is not None and c[0] == n:
            return self.retype(c[1], c[2], ty)
        # gather the parts that cover [off, off+n)
        parts = []
        p = off
        while p < off + n:
            c = o.cells.get(p)
            if c is not None and p + c[0] <= off + n:
                parts.append(c)
                p += c[0]
                continue
            if c is not None:  # a larger cell starts here: take bytes
                for b in range(off + n - p):
                    parts.append((1, ir.INT(8), self.byteof(c, b)))
                p = off + n
                continue
            hit = None
            for q in range(p - 1, p - o.maxsz, -1):
                c = o.cells.get(q)
                if c is not None:
                    if q + c[0] > p:
                        hit = (q, c)
                    break
            if hit:
                q, c = hit
                if c[1].k == "int" and self.im == "INT" and isinstance(c[2], T) and p == off and p + n <= q + c[0] and ty.k == "int":
                    w = c[1].w
                    u = self.unsigned(c[2])
                    x = tm.iexact("imod", tm.iexact("idiv", u, tm.rawconst(1 << (8 * (p - q)), w), w), tm.rawconst(1 << (8 * n), w), w)
                    return self.resign(tm.pwidth(x, ty.w), ty.w)
                parts.append((1, ir.INT(8), self.byteof(c, p - q)))
                p += 1
                continue
            z = [hi for lo, hi in o.zeros if lo <= p < hi]
            if z:
                m = min(z[0], off + n) - p
                if m == n:
                    return self.zero(ty)
                parts.append((m, ir.INT(8 * m), iconst(0, 8 * m)))
                p += m
                continue
            parts.append((1, ir.INT(8), UNDEF))
            p += 1
        if all(x[2] is UNDEF for x in parts):
            return UNDEF
        if len(parts) == 1:
            return self.retype(parts[0][1], parts[0][2], ty)
        v = Packed(parts)
        if ty.k in ("float", "double", "ptr"):
            return self.frombits(v, ty)
        return self.simplify_packed(v, ty)

    def simplify_packed(self, v, ty):
        if all(p[1].k == "int" for p in v.parts) and all(isinstance(p[2], T) for p in v.parts):
            return self.unpack_int(v, ty.w)
        return v

    def retype(self, cty, v, ty):
        if v is UNDEF:
            return UNDEF
        if cty.k == ty.k and (ty.k != "int" or cty.w == ty.w):
            if ty.k == "int" and isinstance(v, T) and v.sort == "B" and ty.w != 1:
                return self.b2i(v, ty.w)
            return v
        if cty.k == "int" and ty.k == "int":
            # same size, different width (bool stored as i8)
            if cty.w == 1 and isinstance(v, T):
                return self.b2i(v, ty.w)
            if ty.w == 1 and isinstance(v, T):
                return not_(self.ieq(v, iconst(0, cty.w)))
            return v
        if ty.k == "int":
            if cty.k == "ptr":
                return P2I(v)
            return Packed([(cty.size, cty, v)])
        if cty.k == "int":
            return self.frombits(v, ty)
        raise Unsupported("memory read as %s of a %s" % (ty, cty))

    def frombits(self, v, ty):
        if ty.k == "ptr":
            if isinstance(v, P2I):
                return v.p
            if isinstance(v, T) and tm.is_const(v):
                return Ptr(None, v)
            if isinstance(v, Packed) and len(v.parts) == 1 and v.parts[0][1].k == "ptr":
                return v.parts[0][2]
            raise Unsupported("pointer made of integers")
        if isinstance(v, Packed):
            if len(v.parts) == 1 and v.parts[0][1].k == ty.k:
                return v.parts[0][2]
            if self.im == "INT" and self.fm == "R" and not all(p[1].k == "int" and isinstance(p[2], T) and tm.is_const(p[2]) for p in v.parts):
                raise Unsupported("float from parts")
            v = self.unpack_int(v, 8 * ty.size)
        if isinstance(v, T) and v.sort == "B":
            v = self.b2i(v, 8 * ty.size)
        if isinstance(v, T) and tm.is_const(v):
            b = tm.uval(v)
            f = struct.unpack("f", struct.pack("I", b))[0] if ty.k == "float" else struct.unpack("d", struct.pack("Q", b))[0]
            return self.fpconst(f, ty)
        if self.fm == "F" and isinstance(v, T):
            if v.op in ("fbits", "uf:fbits"):
                return v.args[0]
            return tm.fop("ffrombits", v, sort=self.fsort(ty))
        if isinstance(v, T) and v.op == "uf:bits":
            return v.args[0]
        if v is UNDEF:
            return UNDEF
        raise Unsupported("float made of integer bits")

    def fbits(self, v, ty):
        if tm.is_const(v):
            return iconst(v.args[0], v.sort[1])
        if v.op == "ffrombits":
            return v.args[0]
        # NaN payloads: any bit pattern that reads back as v
        b = tm.mk("uf:fbits", (v,), ("i", v.sort[1]))
        return b

    # ------------------------------------------------------------ loads and stores
    def bounds(self, st, o, off, n, what):
        if o.kind == "extern":
            raise Unsupported("access to external object " + o.name)
        if o.freed:
            self.oblige(st, FALSE, what + " after free", "memory")
            raise PathEnd()
        size = o.size
        if isinstance(size, int):
            if tm.is_const(off):
                v = tm.sval(off)
                if 0 <= v and v + n <= size:
                    return
                self.oblige(st, FALSE, "%s out of bounds of %s" % (what, o.name), "memory")
                raise PathEnd()
            size = self.i64(size)
        if self.im == "INT":
            self.safety(st, tm.ile(tm.rawconst(0, 64), off), "%s before %s" % (what, o.name), "memory")
            self.safety(st, tm.ile(tm.padd(off, tm.rawconst(n, 64), 64), size), "%s past the end of %s" % (what, o.name), "memory")
        else:
            lim = tm.bvop("bvsub", size, self.i64(n))
            self.safety(st, tm.bvcmp("bvule", off, lim), "%s out of bounds of %s" % (what, o.name), "memory")

    def load(self, st, ty, p):
        if isinstance(p, PIte):
            d = self.decided(st, p.c)
            if d is not None:
                return self.load(st, ty, p.a if d else p.b)
            a = self.guarded(st, p.c, lambda: self.load(st, ty, p.a))
            b = self.guarded(st, not_(p.c), lambda: self.load(st, ty, p.b))
            if a is None:
                return b
            if b is None:
                return a
            return self.vite(p.c, a, b, ty)
        if isinstance(p, Packed) or p is UNDEF or not isinstance(p, Ptr):
            raise Unsupported("load through %r" % (p,))
        if p.obj is None:
            self.oblige(st, FALSE, "null pointer read", "memory")
            raise PathEnd()
        o = st.mem[p.obj]
        self.bounds(st, o, p.off, ty.size, "read")
        if o.lanes is not None:
            return self.aload(st, o, p.off, ty)
        if tm.is_const(p.off):
            return self.get(st, o, tm.sval(p.off), ty)
        return self.symload(st, o, p.off, ty)

    def guarded(self, st, c, f):
        """Run f with c assumed; returns None when the path ends there."""
        pc = st.pc
        st.pc = pc + (c,)
        try:
            return f()
        except PathEnd:
            return None
        finally:
            st.pc = pc

    def decided(self, st, c):
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        if c in st.pc:
            return True
        if not_(c) in st.pc:
            return False
        if self.hints:
            if self.entails(st, c, 100):
                return True
            if self.entails(st, not_(c), 100):
                return False
        return None

    def leaf(self, ty):
        while ty.k in ("array", "vec", "struct"):
            ty = ty.el if ty.k != "struct" else ty.el[0]
        return ty

    def symoffsets(self, o, off, n):
        """Concrete offsets that a symbolic offset can denote in a fixed-size object."""
        if self.im == "INT":
            p = tm._poly(off)
            g = 0
            for mno, c in p.items():
                if mno != ():
                    g = math.gcd(g, c)
            r = p.get((), 0) % g if g else 0
            g = g or 1
            lo = off.lo if off.lo is not None else 0
            hi = off.hi if off.hi is not None else o.size
        else:
            g, r, lo, hi = 1, 0, 0, o.size
            t = off
            base = 0
            if t.op == "bvadd" and tm.is_const(t.args[1]):
                base = tm.sval(t.args[1]); t = t.args[0]
            if t.op == "bvmul":
                for x in t.args:
                    if tm.is_const(x):
                        g = tm.uval(x)
            if t.op == "bvshl" and tm.is_const(t.args[1]):
                g = 1 << tm.uval(t.args[1])
            r = base % g
        out = [k for k in range(r, o.size - n + 1, g) if lo <= k <= hi]
        if len(out) > 4096:
            raise Unsupported("symbolic index into %s: %d places" % (o.name, len(out)))
        return out

    def symload(self, st, o, off, ty):
        ks = self.symoffsets(o, off, ty.size)
        res = None
        for k in ks:
            v = self.get(st, o, k, ty)
            res = v if res is None else self.vite(self.ieq(off, self.i64(k)), v, res, ty)
        if res is None:
            raise Unsupported("symbolic index: no place")
        return res

    def symstore(self, st, o, off, ty, v):
        ks = self.symoffsets(o, off, ty.size)
        for k in ks:
            old = self.get(st, o, k, ty)
            c = self.ieq(off, self.i64(k))
            if c is FALSE:
                continue
            self.put(st, o, k, ty, self.vite(c, v, old, ty))

    def store(self, st, ty, v, p):
        if isinstance(p, PIte):
            d = self.decided(st, p.c)
            if d is True:
                return self.store(st, ty, v, p.a)
            if d is False:
                return self.store(st, ty, v, p.b)
            for c, q in ((p.c, p.a), (not_(p.c), p.b)):
                def f():
                    old = self.load(st, ty, q)
                    self.store(st, ty, self.vite(c, v, old, ty), q)
                self.guarded(st, c, f)
            return
        if not isinstance(p, Ptr):
            raise Unsupported("store through %r" % (p,))
        if p.obj is None:
            self.oblige(st, FALSE, "null pointer write", "memory")
            raise PathEnd()
        o = st.mem[p.obj]
        if o.ro:
            self.oblige(st, FALSE, "write to constant " + o.name, "memory")
            raise PathEnd()
        self.bounds(st, o, p.off, ty.size, "write")
        o = st.wobj(p.obj)
        if o.lanes is not None:
            self.astore(st, o, p.off, ty, v)
        elif tm.is_const(p.off):
            self.put(st, o, tm.sval(p.off), ty, v)
        else:
            self.symstore(st, o, p.off, ty, v)

    # arrays of unbounded length
    def lane(self, o, off, n):
        """-> (index term, lane offset)"""
        p = tm._poly(off)
        S = o.stride
        c0 = p.get((), 0)
        lane = c0 % S
        q = {}
        for mno, c in p.items():
            if mno == ():
                c = c - lane
            if c % S:
                return None
            q[mno] = c // S
        return tm._frompoly(q, 64), lane

    def lanearr(self, o, lane, ty):
        L = o.lanes.get(lane)
        if L is None:
            if o.lzero:
                arr = tm.karray(self.zero(ty))
            else:
                arr = self.pendzero(o, tm.fresh("mem_%s_%d" % (o.name, lane), ("a", self.esort(ty))), ty)
            L = o.lanes[lane] = (ty, arr)
        return L

    def pendzero(self, o, arr, ty):
        for r0, cnt in o.pend:
            arr = tm.mk("lam", (r0, cnt, tm.karray(self.zero(ty)), tm.rawconst(0, 64), arr), arr.sort)
        return arr

    def esort(self, ty):
        if ty.k == "int":
            return ("i", ty.w) if ty.w != 1 else "B"
        if ty.k in ("float", "double"):
            return self.fsort(ty)
        raise Unsupported("array of %s" % ty)

    def aload(self, st, o, off, ty):
        if ty.k in ("array", "vec"):
            return tuple(self.aload(st, o, tm.padd(off, tm.rawconst(i * ty.el.size, 64), 64), ty.el) for i in range(ty.n))
        if ty.k == "struct":
            return tuple(self.aload(st, o, tm.padd(off, tm.rawconst(eo, 64), 64), e) for e, eo in zip(ty.el, ty.offs))
        r = self.lane(o, off, ty.size)
        if r is None:
            raise Unsupported("offset %s does not fit stride %d of %s" % (off, o.stride, o.name))
        idx, lane = r
        L = o.lanes.get(lane)
        if L is None and o.id not in st.own:
            o = st.wobj(o.id)
        if L is None and ty.k == "int" and ty.w > 8 and o.stride == 1:
            L = (ir.INT(8), None)
        if L is None or (L[0].k == ty.k and L[0].size == ty.size):
            L = self.lanearr(o, lane, ty)
            return tm.select(L[1], idx)
        if ty.k == "int" and L[0].k == "int" and L[0].w == 8 and ty.w > 8:
            parts = []
            for i in range(ty.size):
                parts.append((1, ir.INT(8), self.aload(st, o, tm.padd(off, tm.rawconst(i, 64), 64), ir.INT(8))))
            return self.unpack_int(Packed(parts), ty.w)
        if ty.k == "int" and L[0].k in ("float", "double"):
            # copies of two floats as one i64
            parts = []
            d = 0
            while d < ty.size:
                o2, l2 = self.lane(o, tm.padd(off, tm.rawconst(d, 64), 64), 1)
                L2 = o.lanes.get(l2)
                if L2 is None:
                    L2 = L
                parts.append((L2[0].size, L2[0], self.aload(st, o, tm.padd(off, tm.rawconst(d, 64), 64), L2[0])))
                d += L2[0].size
            return Packed(parts)
        raise Unsupported("array of %s read as %s" % (L[0], ty))

    def astore(self, st, o, off, ty, v):
        if ty.k in ("array", "vec"):
            for i in range(ty.n):
                self.astore(st, o, tm.padd(off, tm.rawconst(i * ty.el.size, 64), 64), ty.el, v[i])
            return
        if ty.k == "struct":
            for e, eo, x in zip(ty.el, ty.offs, v):
                self.astore(st, o, tm.padd(off, tm.rawconst(eo, 64), 64), e, x)
            return
        if isinstance(v, Packed):
            d = 0
            for n, pty, x in v.parts:
                self.astore(st, o, tm.padd(off, tm.rawconst(d, 64), 64), pty, x)
                d += n
            return
        r = self.lane(o, off, ty.size)
        if r is None:
            raise Unsupported("offset %s does not fit stride %d of %s" % (off, o.stride, o.name))
        idx, lane = r
        L = self.lanearr(o, lane, ty)
        v = self.use(v, ty)
        if L[0].k != ty.k or L[0].size != ty.size:
            raise Unsupported("array of %s written as %s" % (L[0], ty))
        if isinstance(v, P2I) or not isinstance(v, T):
            raise Unsupported("array of pointers")
        o.lanes[lane] = (L[0], tm.store(L[1], idx, v))

    def vite(self, c, a, b, ty=None):
        """ite over values"""
        if a is b or c is TRUE:
            return a
        if c is FALSE:
            return b
        if isinstance(a, tuple):
            if b is UNDEF:
                return a
            if ty is not None and ty.k == "struct":
                return tuple(self.vite(c, x, y, e) for x, y, e in zip(a, b, ty.el))
            return tuple(self.vite(c, x, y, ty.el if ty is not None else None) for x, y in zip(a, b))
        if a is UNDEF or b is UNDEF:
            o = b if a is UNDEF else a
            if isinstance(o, T):
                f = tm.fresh("undef", o.sort)
                return ite(c, f, b) if a is UNDEF else ite(c, a, f)
            return o
        if isinstance(a, T) and isinstance(b, T):
            if a.sort != b.sort:
                if a.sort == "B":
                    a = self.b2i(a, b.sort[1])
                elif b.sort == "B":
                    b = self.b2i(b, a.sort[1])
            return ite(c, a, b)
        if isinstance(a, (Ptr, PIte, FnPtr)) and isinstance(b, (Ptr, PIte, FnPtr)):
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
                return Ptr(a.obj, ite(c, a.off, b.off))
            if isinstance(a, FnPtr) and isinstance(b, FnPtr) and a.name == b.name:
                return a
            return PIte(c, a, b)
        if isinstance(a, P2I) and isinstance(b, P2I):
            return P2I(self.vite(c, a.p, b.p))
        if isinstance(a, P2I) and isinstance(b, T) and tm.is_const(b):
            return P2I(self.vite(c, a.p, Ptr(None, b)))
        if isinstance(b, P2I) and isinstance(a, T) and tm.is_const(a):
            return P2I(self.vite(c, Ptr(None, a), b.p))
        if isinstance(a, Packed) and isinstance(b, Packed) and [p[0] for p in a.parts] == [p[0] for p in b.parts]:
            return Packed([(n, t1, self.vite(c, x, y)) for (n, t1, x), (_, _, y) in zip(a.parts, b.parts)])
        raise Unsupported("merge of %r and %r" % (a, b))

    # ------------------------------------------------------------ integers
    def ieq(self, a, b):
        if a.sort == "B":
            return tm.iff(a, b)
        return tm.ieq(a, b) if self.im == "INT" else tm.bveq(a, b)

    def wrap(self, st, t, w, fl):
        """Canonical LLVM value of the exact mathematical result t."""
        if t.op == "const":
            return iconst(t.args[0], w)
        lo, hi = tm.canon_range(w)
        if t.lo is not None and t.lo >= lo and t.hi <= hi:
            return t
        inr = and_(tm.ile(tm.rawconst(lo, w), t), tm.ile(t, tm.rawconst(hi, w)))
        if "nsw" in fl and w not in (8, 16):
            if "no-overflow" not in self.opts:
                if not self.entails(st, inr, 250):
                    self.safety(st, inr, "signed overflow", "overflow")
            else:
                self.assumed.add("signed integer overflow does not occur")
                self.assume(st, inr)
            return t
        if self.entails(st, inr, 250):
            return t
        M = tm.rawconst(1 << w, w)
        u = tm.iexact("imod", t, M, w)
        return self.resign(u, w)

    def int_binop(self, st, op, w, a, b, fl):
        if w == 1:
            if op in ("and", "mul"):
                return and_(a, b)
            if op == "or":
                return or_(a, b)
            if op in ("xor", "add", "sub"):
                return tm.xor_(a, b)
            raise Unsupported("i1 " + op)
        if isinstance(a, P2I) or isinstance(b, P2I):
            return self.ptr_arith(st, op, w, a, b)
        if isinstance(a, Packed) and op in ("lshr",) and isinstance(b, T) and tm.is_const(b):
            k = tm.uval(b) // 8
            parts = list(a.parts)
            drop = 0
            while parts and drop < k:
                drop += parts[0][0]
                parts.pop(0)
            if drop == k:
                rest = w // 8 - sum(p[0] for p in parts)
                return Packed(parts + [(rest, ir.INT(rest * 8), iconst(0, rest * 8))])
        if isinstance(a, Packed) and op == "and" and isinstance(b, T) and tm.is_const(b):
            # masking whole parts
            m = tm.uval(b)
            parts, p, ok = [], 0, True
            for n, ty, x in a.parts:
                mm = (m >> (8 * p)) & ((1 << (8 * n)) - 1)
                if mm == (1 << (8 * n)) - 1:
                    parts.append((n, ty, x))
                elif mm == 0:
                    parts.append((n, ir.INT(8 * n), iconst(0, 8 * n)))
                else:
                    ok = False
                p += n
            if ok:
                return Packed(parts)
        if op == "or" and (isinstance(a, Packed) or isinstance(b, Packed)):
            r = self.or_packed(a, b, w)
            if r is not None:
                return r
        if op == "shl" and isinstance(a, Packed) and isinstance(b, T) and tm.is_const(b) and tm.uval(b) % 8 == 0:
            k = tm.uval(b) // 8
            parts = [(k, ir.INT(8 * k), iconst(0, 8 * k))] + list(a.parts)
            while sum(p[0] for p in parts) > w // 8:
                n, ty, x = parts[-1]
                over = sum(p[0] for p in parts) - w // 8
                if n <= over:
                    parts.pop()
                elif ty.k == "int" and isinstance(x, T) and tm.is_const(x):
                    parts[-1] = (n - over, ir.INT(8 * (n - over)), iconst(tm.uval(x), 8 * (n - over)))
                else:
                    break
            if sum(p[0] for p in parts) == w // 8:
                return Packed(parts)
        a = self.use(a, ir.INT(w))
        b = self.use(b, ir.INT(w))
        if self.im == "BV":
            return self.bv_binop(st, op, w, a, b, fl)
        c = tm.rawconst
        if op == "add":
            return self.wrap(st, tm.padd(a, b, w), w, fl)
        if op == "sub":
            return self.wrap(st, tm.psub(a, b, w), w, fl)
        if op == "mul":
            return self.wrap(st, tm.pmul(a, b, w), w, fl)
        if op == "shl" and tm.is_const(b):
            return self.wrap(st, tm.pscale(a, 1 << tm.uval(b), w), w, fl)
        if op in ("lshr", "ashr") and tm.is_const(b):
            k = 1 << tm.uval(b)
            x = self.unsigned(a) if op == "lshr" else self.signed(a)
            d = tm.divexact(x, k, w)
            if d is None:
                d = tm.iexact("idiv", x, c(k, w), w)
            return self.wrap(st, d, w, set())
        if op in ("udiv", "urem"):
            x, y = self.unsigned(a), self.unsigned(b)
            self.safety(st, not_(tm.ieq(y, c(0, w))), "division by zero", "divzero")
            if op == "udiv" and tm.is_const(y):
                d = tm.divexact(x, y.args[0], w)
                if d is not None:
                    return self.wrap(st, d, w, set())
            return self.wrap(st, tm.iexact("idiv" if op == "udiv" else "imod", x, y, w), w, set())
        if op in ("sdiv", "srem"):
            x, y = self.signed(a), self.signed(b)
            self.safety(st, not_(tm.ieq(y, c(0, w))), "division by zero", "divzero")
            if op == "sdiv" and tm.is_const(y) and y.args[0] > 0:
                d = tm.divexact(x, y.args[0], w)
                if d is not None:
                    return d
            if not (tm.is_const(y) and y.args[0] > 0):
                if not self.entails(st, tm.ilt(c(0, w), y)):
                    raise Unsupported("signed division by a possibly negative value")
            if (x.lo is not None and x.lo >= 0) or self.entails(st, tm.ile(c(0, w), x)):
                return tm.iexact("idiv" if op == "sdiv" else "imod", x, y, w)
            nx = tm.pneg(x, w)
            if op == "sdiv":
                return ite(tm.ile(c(0, w), x), tm.iexact("idiv", x, y, w), tm.pneg(tm.iexact("idiv", nx, y, w), w))
            return ite(tm.ile(c(0, w), x), tm.iexact("imod", x, y, w), tm.pneg(tm.iexact("imod", nx, y, w), w))
        if op == "and":
            for x, y in ((a, b), (b, a)):
                if tm.is_const(y):
                    return self.mask(st, x, tm.uval(y), w)
            # and of 0/1 values
        if op == "xor":
            for x, y in ((a, b), (b, a)):
                if tm.is_const(y) and tm.uval(y) == (1 << w) - 1:
                    if w in (8, 16):
                        return tm.psub(c((1 << w) - 1, w), x, w)
                    return tm.psub(c(-1, w), x, w)
                if tm.is_const(y) and tm.uval(y) == 0:
                    return x
                if tm.is_const(y) and tm.uval(y) == 1 and x.lo is not None and x.lo >= 0 and x.hi <= 1:
                    return tm.psub(c(1, w), x, w)
        if op == "or":
            for x, y in ((a, b), (b, a)):
                if tm.is_const(y) and tm.uval(y) == 0:
                    return x
                if y.lo is not None and y.lo >= 0 and y.hi is not None:
                    k = 1
                    while k <= y.hi:
                        k *= 2
                    if all(cc % k == 0 for cc in tm._poly(x).values()):
                        return self.wrap(st, tm.padd(x, y, w), w, set())
        if all(x.lo is not None and x.lo >= 0 and x.hi <= 1 for x in (a, b)) and op in ("and", "or", "xor"):
            p, q = tm.ieq(a, iconst(1, w)), tm.ieq(b, iconst(1, w))
            return self.b2i({"and": and_(p, q), "or": or_(p, q), "xor": tm.xor_(p, q)}[op], w)
        # uninterpreted
        self.assumed.add("bit operation %s left uninterpreted" % op)
        r = tm.mk("uf:" + op, (a, b), ("i", w))
        r.lo, r.hi = tm.canon_range(w)
        return r

    def or_packed(self, a, b, w):
        def parts(v):
            if isinstance(v, Packed):
                return list(v.parts)
            return None
        pa, pb = parts(a), parts(b)
        if pa is None or pb is None:
            return None

        def iszero(p):
            return p[1].k == "int" and isinstance(p[2], T) and tm.is_const(p[2]) and tm.uval(p[2]) == 0
        out, p = [], 0
        ia = ib = 0
        # align by splitting zero parts
        def split(lst, i, n):
            pn = lst[i][0]
            if pn == n:
                return True
            if pn > n and iszero(lst[i]):
                lst[i:i + 1] = [(n, ir.INT(8 * n), iconst(0, 8 * n)), (pn - n, ir.INT(8 * (pn - n)), iconst(0, 8 * (pn - n)))]
                return True
            return False
        while ia < len(pa) and ib < len(pb):
            n = min(pa[ia][0], pb[ib][0])
            if not split(pa, ia, n) or not split(pb, ib, n):
                return None
            x, y = pa[ia], pb[ib]
            if iszero(x):
                out.append(y)
            elif iszero(y):
                out.append(x)
            else:
                return None
            ia += 1
            ib += 1
        return Packed(out)

    def mask(self, st, x, m, w):
        if m == 0:
            return iconst(0, w)
        if m == (1 << w) - 1:
            return x
        u = self.unsigned(x)
        c = tm.rawconst
        acc = c(0, w)
        i = 0
        while i < w:
            if not (m >> i) & 1:
                i += 1
                continue
            j = i
            while j < w and (m >> j) & 1:
                j += 1
            if j == w:
                part = tm.psub(u, tm.iexact("imod", u, c(1 << i, w), w), w)
            else:
                q = tm.iexact("imod", u, c(1 << j, w), w)
                part = q if i == 0 else tm.psub(q, tm.iexact("imod", u, c(1 << i, w), w), w)
            acc = tm.padd(acc, part, w)
            i = j
        if x.lo is not None and x.lo >= 0:
            lo, hi = 0, min(x.hi, m)
        else:
            lo, hi = 0, m
        if acc.op != "const" and acc.op == "poly":
            acc.lo, acc.hi = max(acc.lo if acc.lo is not None else lo, lo), min(acc.hi if acc.hi is not None else hi, hi)
        return self.wrap(st, acc, w, set()) if hi > tm.canon_range(w)[1] else acc

    def bv_binop(self, st, op, w, a, b, fl):
        if op in ("udiv", "sdiv", "urem", "srem"):
            self.safety(st, not_(tm.bveq(b, iconst(0, w))), "division by zero", "divzero")
        if op in ("add", "sub", "mul") and "nsw" in fl and "no-overflow" not in self.opts and not (tm.is_const(a) and tm.is_const(b)):
            ew = 2 * w if op == "mul" else w + 1
            x, y = tm.bvext("sext", a, ew), tm.bvext("sext", b, ew)
            r = tm.bvop("bv" + op, x, y)
            self.safety(st, tm.bveq(r, tm.bvext("sext", tm.bvextract(r, 0, w), ew)), "signed overflow", "overflow")
        return tm.bvop("bv" + op, a, b)

    def ptr_arith(self, st, op, w, a, b):
        if op == "sub" and isinstance(a, P2I) and isinstance(b, P2I):
            p, q = a.p, b.p
            return self.ptr_diff(st, p, q, w)
        if op in ("add", "sub") and isinstance(a, P2I) and isinstance(b, T):
            return P2I(self.padd_ptr(a.p, b if op == "add" else tm.pneg(b, 64)))
        if op == "add" and isinstance(b, P2I) and isinstance(a, T):
            return P2I(self.padd_ptr(b.p, a))
        if op == "sub" and isinstance(a, P2I) and isinstance(b, T) and tm.is_const(b):
            return P2I(self.padd_ptr(a.p, iconst(-tm.sval(b), 64)))
        if op == "sub" and isinstance(b, P2I) and isinstance(a, T) and tm.is_const(a) and b.p.obj is None:
            return iconst(tm.sval(a) - tm.sval(b.p.off), w)
        if op == "and" and isinstance(a, P2I) and isinstance(b, T) and tm.is_const(b) and isinstance(a.p, Ptr) and tm.is_const(a.p.off):
            # alignment tests: objects are 16-byte aligned
            m = tm.uval(b)
            if m <= 15:
                return iconst(tm.uval(a.p.off) & m, w)
        raise Unsupported("pointer arithmetic " + op)

    def ptr_diff(self, st, p, q, w):
        if isinstance(p, PIte):
            return self.vite(p.c, self.ptr_diff(st, p.a, q, w), self.ptr_diff(st, p.b, q, w))
        if isinstance(q, PIte):
            return self.vite(q.c, self.ptr_diff(st, p, q.a, w), self.ptr_diff(st, p, q.b, w))
        if isinstance(p, Ptr) and isinstance(q, Ptr) and p.obj == q.obj:
            if self.im == "INT":
                return tm.psub(p.off, q.off, 64)
            return tm.bvop("bvsub", p.off, q.off)
        if isinstance(p, Ptr) and isinstance(q, Ptr):
            # different objects: distance is an arbitrary number
            return tm.fresh("ptrdiff", ("i", w))
        raise Unsupported("pointer difference")

    def padd_ptr(self, p, d):
        if isinstance(p, PIte):
            return PIte(p.c, self.padd_ptr(p.a, d), self.padd_ptr(p.b, d))
        if not isinstance(p, Ptr):
            raise Unsupported("arithmetic on %r" % (p,))
        if self.im == "INT":
            return Ptr(p.obj, tm.padd(p.off, d, 64))
        return Ptr(p.obj, tm.bvop("bvadd", p.off, d))

    def icmp(self, st, pred, ty, a, b):
        if ty.k == "ptr" or isinstance(a, (P2I, Ptr, PIte, FnPtr)) or isinstance(b, (P2I, Ptr, PIte, FnPtr)):
            a = a.p if isinstance(a, P2I) else a
            b = b.p if isinstance(b, P2I) else b
            if isinstance(a, T):
                a = Ptr(None, a)
            if isinstance(b, T):
                b = Ptr(None, b)
            return self.pcmp(st, pred, a, b)
        a, b = self.use(a, ty), self.use(b, ty)
        if ty.k == "int" and ty.w == 1:
            if pred == "eq":
                return tm.iff(a, b)
            if pred == "ne":
                return tm.xor_(a, b)
            lt = {"ult": and_(not_(a), b), "ugt": and_(a, not_(b)), "ule": or_(not_(a), b), "uge": or_(a, not_(b)),
                  "sgt": and_(not_(a), b), "slt": and_(a, not_(b)), "sge": or_(not_(a), b), "sle": or_(a, not_(b))}
            return lt[pred]
        if self.im == "BV":
            if pred == "eq":
                return tm.bveq(a, b)
            if pred == "ne":
                return not_(tm.bveq(a, b))
            s, r = pred[0], pred[1:]
            p = "bv" + s
            return {"lt": lambda: tm.bvcmp(p + "lt", a, b), "le": lambda: tm.bvcmp(p + "le", a, b),
                    "gt": lambda: tm.bvcmp(p + "lt", b, a), "ge": lambda: tm.bvcmp(p + "le", b, a)}[r]()
        if pred == "eq":
            return tm.ieq(a, b)
        if pred == "ne":
            return not_(tm.ieq(a, b))
        if pred[0] == "u":
            # avoid case splits when a value is known non-negative
            a, b = self.unsigned_in(st, a), self.unsigned_in(st, b)
        else:
            a, b = self.signed(a), self.signed(b)
        return {"lt": lambda: tm.ilt(a, b), "le": lambda: tm.ile(a, b), "gt": lambda: tm.ilt(b, a), "ge": lambda: tm.ile(b, a)}[pred[1:]]()

    def unsigned_in(self, st, x):
        u = self.unsigned(x)
        if u is not x and u.op == "ite" and self.entails(st, tm.ile(tm.rawconst(0, x.sort[1]), x), 250):
            return x
        return u

    def pcmp(self, st, pred, a, b):
        if isinstance(a, PIte):
            return ite(a.c, self.pcmp(st, pred, a.a, b), self.pcmp(st, pred, a.b, b))
        if isinstance(b, PIte):
            return ite(b.c, self.pcmp(st, pred, a, b.a), self.pcmp(st, pred, a, b.b))
        if a is UNDEF or b is UNDEF:
            return tm.fresh("undef", "B")
        if isinstance(a, FnPtr) or isinstance(b, FnPtr):
            same = isinstance(a, FnPtr) and isinstance(b, FnPtr) and a.name == b.name
            return tm.bconst(same == (pred == "eq"))
        if pred in ("eq", "ne"):
            if a.obj != b.obj:
                return tm.bconst(pred == "ne")
            e = self.ieq(a.off, b.off)
            return e if pred == "eq" else not_(e)
        if a.obj != b.obj:
            if a.obj is None:
                return tm.bconst(pred in ("ult", "ule"))
            if b.obj is None:
                return tm.bconst(pred in ("ugt", "uge"))
            return tm.fresh("ptrorder", "B")
        if self.im == "BV":
            return self.icmp(st, pred, ir.INT(64), a.off, b.off)
        return {"lt": lambda: tm.ilt(a.off, b.off), "le": lambda: tm.ile(a.off, b.off),
                "gt": lambda: tm.ilt(b.off, a.off), "ge": lambda: tm.ile(b.off, a.off)}[pred[1:]]()

    # ------------------------------------------------------------ floats
    def fbin(self, st, op, ty, a, b):
        if ty.k == "vec":
            return tuple(self.fbin(st, op, ty.el, x, y) for x, y in zip(a, b))
        a, b = self.use(a, ty), self.use(b, ty)
        if self.fm == "F":
            if op == "frem":
                return tm.mk("uf:fmod", (a, b), a.sort)
            return tm.fop(op, a, b)
        if op == "fadd":
            return tm.radd(a, b)
        if op == "fsub":
            return tm.rsub(a, b)
        if op == "fmul":
            return tm.rmul(a, b)
        if op == "fdiv":
            if not (tm.is_const(b) and b.args[0] != 0) and not b.spec:
                nz = not_(tm.req(b, tm.R0))
                if tm.is_const(b):
                    nz = FALSE
                if "no-fdiv" in self.opts:
                    self.assumed.add("a floating division by zero gives an unspecified finite value")
                else:
                    if not self.entails_nz(st, b):
                        self.safety(st, nz, "floating division by zero", "fdiv")
            return tm.rdiv(a, b)
        if op == "frem":
            return self.models.rfmod(st, a, b)
        raise Unsupported(op)

    def entails_nz(self, st, b):
        if b.op == "var" and b is tm.PI:
            return True
        return not_(tm.req(b, tm.R0)) in st.pc

    def fcmp(self, st, pred, ty, a, b):
        if ty.k == "vec":
            return tuple(self.fcmp(st, pred, ty.el, x, y) for x, y in zip(a, b))
        a, b = self.use(a, ty), self.use(b, ty)
        if pred == "true":
            return TRUE
        if pred == "false":
            return FALSE
        if self.fm == "F":
            nan = or_(tm.fop("fisnan", a, sort="B"), tm.fop("fisnan", b, sort="B"))
            if pred == "uno":
                return nan
            if pred == "ord":
                return not_(nan)
            c = {"eq": lambda: tm.fop("foeq", a, b, sort="B"), "lt": lambda: tm.fop("flt", a, b, sort="B"),
                 "le": lambda: tm.fop("fle", a, b, sort="B"), "gt": lambda: tm.fop("flt", b, a, sort="B"),
                 "ge": lambda: tm.fop("fle", b, a, sort="B")}
            if pred == "une":
                return not_(c["eq"]())
            if pred == "one":
                return and_(not_(c["eq"]()), not_(nan))
            if pred[0] == "o":
                return c[pred[1:]]()
            if pred == "ueq":
                return or_(nan, c["eq"]())
            neg = {"lt": "ge", "le": "gt", "gt": "le", "ge": "lt"}[pred[1:]]
            return not_(c[neg]())
        nan = or_(tm.risnan(a), tm.risnan(b))
        if pred == "uno":
            return nan
        if pred == "ord":
            return not_(nan)
        c = {"eq": tm.req, "lt": tm.rlt, "le": tm.rle, "gt": lambda x, y: tm.rlt(y, x), "ge": lambda x, y: tm.rle(y, x)}
        if pred == "one":
            return and_(not_(tm.req(a, b)), not_(nan))
        if pred == "une":
            return or_(not_(tm.req(a, b)), nan)
        r = c[pred[1:]](a, b)
        return r if pred[0] == "o" else or_(nan, r)

    def fneg(self, ty, a):
        if ty.k == "vec":
            return tuple(self.fneg(ty.el, x) for x in a)
        a = self.use(a, ty)
        return tm.rneg(a) if self.fm == "R" else tm.fop("fneg", a)

    def cast(self, st, op, v, fty, ty):
        if ty.k == "vec" and op != "bitcast":
            return tuple(self.cast(st, op, x, fty.el, ty.el) for x in v)
        if op == "bitcast":
            return self.bitcast(v, fty, ty)
        if op == "ptrtoint":
            return P2I(v) if ty.w == 64 else UNDEF
        if op == "inttoptr":
            if isinstance(v, P2I):
                return v.p
            if isinstance(v, T) and tm.is_const(v):
                return Ptr(None, v)
            if isinstance(v, Packed) and len(v.parts) == 1 and v.parts[0][1].k == "ptr":
                return v.parts[0][2]
            raise Unsupported("inttoptr")
        if op == "addrspacecast":
            return v
        if op == "trunc" and isinstance(v, Packed):
            parts, n = [], 0
            for p in v.parts:
                if n + p[0] > ty.size:
                    break
                parts.append(p)
                n += p[0]
            if n == ty.size and ty.w % 8 == 0:
                if len(parts) == 1 and parts[0][1].k == "int":
                    return parts[0][2]
                return Packed(parts)
        if op == "zext" and isinstance(v, Packed):
            rest = ty.w // 8 - v.n
            return Packed(list(v.parts) + [(rest, ir.INT(rest * 8), iconst(0, rest * 8))])
        if op == "trunc" and isinstance(v, P2I):
            raise Unsupported("truncated pointer")
        v = self.use(v, fty)
        w = ty.w if ty.k == "int" else None
        if op == "zext":
            if fty.w == 1:
                return self.b2i(v, w)
            if self.im == "BV":
                return tm.bvext("zext", v, w)
            return tm.pwidth(self.unsigned_in(st, v), w) if w != 16 or True else v
        if op == "sext":
            if fty.w == 1:
                return ite(v, iconst(-1, w), iconst(0, w))
            if self.im == "BV":
                return tm.bvext("sext", v, w)
            s = tm.pwidth(self.signed(v), w)
            return self.wrap(st, s, w, set())
        if op == "trunc":
            if w == 1:
                if self.im == "BV":
                    return tm.bveq(tm.bvextract(v, 0, 1), iconst_bv1())
                if v.lo is not None and v.lo >= 0 and v.hi <= 1:
                    return tm.ieq(v, iconst(1, v.sort[1]))
                return tm.ieq(tm.iexact("imod", v, tm.rawconst(2, v.sort[1]), v.sort[1]), tm.rawconst(1, v.sort[1]))
            if self.im == "BV":
                return tm.bvextract(v, 0, w)
            return self.wrap(st, tm.pwidth(v, w), w, set())
        if op in ("fpext", "fptrunc"):
            if self.fm == "R":
                return v
            if tm.is_const(v):
                if op == "fpext":
                    f = struct.unpack("f", struct.pack("I", v.args[0]))[0]
                else:
                    f = struct.unpack("d", struct.pack("Q", v.args[0]))[0]
                try:
                    return self.fpconst(f, ty)
                except OverflowError:
                    pass
            return tm.fop("fcvt", v, sort=self.fsort(ty))
        if op in ("sitofp", "uitofp"):
            if fty.w == 1:
                one = self.fpconst(1.0 if op == "uitofp" else -1.0, ty)
                return ite(v, one, self.fpconst(0.0, ty))
            if self.fm == "R":
                if self.im == "BV":
                    raise Unsupported("int to real in BV mode")
                return tm.i2r(self.signed(v) if op == "sitofp" else self.unsigned_in(st, v))
            if tm.is_const(v):
                return self.fpconst(float(tm.sval(v) if op == "sitofp" else tm.uval(v)), ty)
            return tm.fop("fsitofp" if op == "sitofp" else "fuitofp", v, sort=self.fsort(ty))
        if op in ("fptosi", "fptoui"):
            return self.fptoint(st, op, v, fty, w)
        raise Unsupported(op)

    def floor(self, st, x, w):
        """floor(x): one of the hinted integers when the path condition says so"""
        if self.hints and x.op not in ("const", "i2r"):
            for h in [tm.rawconst(0, 64)] + self.hints:
                r = tm.i2r(h)
                if self.entails2(st, tm.rle(r, x)) and self.entails2(st, tm.rlt(x, tm.radd(r, tm.R1))):
                    return tm.pwidth(h, w)
        return tm.rfloor(x, w)

    def sign(self, st, x):
        """True when x >= 0, False when x < 0 is known"""
        c = tm.rle(tm.R0, x)
        if c.op == "const" or not self.hints:
            return self.decided(st, c)
        if self.entails2(st, c):
            return True
        return False if self.entails2(st, not_(c)) else None

    def entails2(self, st, c):
        if self.entails(st, c, 2000):
            return True
        c2 = alg.canon(st.pc, c)
        if c2 is c:
            return False
        if c2.op == "const":
            return c2 is TRUE
        pc = [x if x.op == "req" else alg.canon(st.pc, x) for x in self.relevant(st.pc, c)]
        return self.check(pc + [not_(c2)], 2000) == "unsat"

    def rtrunc(self, st, v, w):
        if v.op == "const":
            f = v.args[0]
            return tm.rawconst(f.__floor__() if f >= 0 else -((-f).__floor__()), w)
        if v.op == "i2r":
            return tm.pwidth(v.args[0], w)
        g = self.sign(st, v)
        if g is not None:
            return self.floor(st, v, w) if g else tm.pneg(self.floor(st, tm.rneg(v), w), w)
        return ite(tm.rle(tm.R0, v), self.floor(st, v, w), tm.pneg(self.floor(st, tm.rneg(v), w), w))

    def fptoint(self, st, op, v, fty, w):
        name = "float to integer conversion out of range"
        if self.fm == "R":
            if v.spec:
                ok = and_(not_(tm.risnan(v)), not_(tm.risinf(v)))
                self.safety(st, ok, name, "fptoint")
                v = self.strip_spec(v)
            if op == "fptosi":
                lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
            else:
                lo, hi = 0, (1 << w) - 1
            t = self.rtrunc(st, v, w)
            inr = and_(tm.rlt(tm.rconst(lo - 1), v), tm.rlt(v, tm.rconst(hi + 1)))
            if not (t.op == "const"):
                if "no-fptoint" in self.opts:
                    self.assumed.add("float to integer conversions stay in range")
                    self.assume(st, inr)
                else:
                    self.safety(st, inr, name, "fptoint")
            if t.op == "const":
                return iconst(t.args[0], w)
            if op == "fptosi" or w > 32:
                return t
            return self.resign(t, w)
        # IEEE: range tests against exact powers of two
        fs = self.fsort(fty)
        def c(x):
            return self.fpconst(float(x), fty)
        if op == "fptosi":
            hi = c(2.0 ** (w - 1))
            lowv = -(2.0 ** (w - 1))
            if fty.k == "double" and w <= 32:
                inr = and_(tm.fop("flt", v, hi, sort="B"), tm.fop("flt", c(lowv - 1), v, sort="B"))
            else:
                inr = and_(tm.fop("flt", v, hi, sort="B"), tm.fop("fle", c(lowv), v, sort="B"))
        else:
            inr = and_(tm.fop("flt", v, c(2.0 ** w), sort="B"), tm.fop("flt", c(-1.0), v, sort="B"))
        self.safety(st, inr, name, "fptoint")
        return tm.fop("ffptosi" if op == "fptosi" else "ffptoui", v, sort=("i", w))

    def strip_spec(self, v):
        if v.op == "spec":
            return tm.fresh("undef", "R")
        if v.spec:
            return ite(v.args[0], self.strip_spec(v.args[1]), self.strip_spec(v.args[2]))
        return v

    def bitcast(self, v, fty, ty):
        if fty.k == ty.k and fty.k != "vec":
            return v
        if v is UNDEF:
            return self.zero(ty) if False else (tuple(UNDEF for _ in range(ty.n)) if ty.k == "vec" else UNDEF)
        # flatten to parts
        parts = []
        if fty.k == "vec":
            for x in v:
                parts.append((fty.el.size, fty.el, x))
        elif isinstance(v, Packed):
            parts = list(v.parts)
        else:
            parts = [(fty.size, fty, v)]
        if ty.k == "vec":
            out = []
            es = ty.el.size
            if all(p[0] == es for p in parts):
                for p in parts:
                    out.append(self.retype(p[1], p[2], ty.el))
                return tuple(out)
            o = Obj(0, fty.size, "tmp", "tmp")
            off = 0
            for p in parts:
                self.putscalar(None, o, off, p[0], p[1], p[2])
                off += p[0]
            return self.get(None, o, 0, ty)
        if len(parts) == 1:
            return self.retype(parts[0][1], parts[0][2], ty)
        if ty.k == "int":
            return self.simplify_packed(Packed(parts), ty)
        return self.frombits(Packed(parts), ty)

    # ------------------------------------------------------------ addresses
    def gep(self, st, bt, vals):
        p = vals[0]
        off = None
        const = 0
        terms_ = []
        ty = bt
        for i, v in enumerate(vals[1:]):
            if i == 0:
                sz = ty.size
            elif ty.k == "struct":
                k = tm.uval(v)
                const += ty.offs[k]
                ty = ty.el[k]
                continue
            else:
                ty = ty.el
                sz = ty.size
            if v is UNDEF:
                raise Unsupported("undefined index")
            if isinstance(v, Packed):
                v = self.use(v, ir.INT(64))
            if isinstance(v, P2I):
                if sz == 1 and isinstance(p, Ptr) and p.obj is None and not terms_:
                    p = v.p
                    continue
                raise Unsupported("pointer as index")
            if tm.is_const(v):
                const += sz * tm.sval(v)
            else:
                terms_.append((v, sz))
        if const == 0 and not terms_:
            return p
        if self.im == "INT":
            d = tm.rawconst(const, 64)
            for v, sz in terms_:
                d = tm.padd(d, tm.pscale(tm.pwidth(self.signed(v), 64), sz, 64), 64)
        else:
            d = iconst(const, 64)
            for v, sz in terms_:
                if v.sort[1] < 64:
                    v = tm.bvext("sext", v, 64)
                d = tm.bvop("bvadd", tm.bvop("bvmul", v, iconst(sz, 64)), d)
        return self.padd_ptr(p, d)

    # ------------------------------------------------------------ driving
    def run(self, fname, args=()):
        st = State()
        fn = self.m.body(self.m.fns[fname])
        self.acts += 1
        st.frame = Frame(fn, None, None, self.acts)
        for (n, t), v in zip(fn.params, args):
            st.frame.regs[n] = v
        self.stack = [st]
        self.results = []
        while self.stack or self.pending:
            if self.stack:
                st = self.stack.pop()
            else:
                st = self.loops.pick()
            try:
                self.runstate(st)
            except PathEnd:
                self.paths += 1
            if time.time() > self.deadline:
                raise Unsupported("time limit of the symbolic execution")
        return self.results

    def push(self, st):
        self.stack.append(st)

    def cfg(self, fn):
        return self.loops.cfg(fn)

    def goto(self, st, target):
        """Transfer control inside the current function; evaluates the phis of the target."""
        f = st.frame
        src = f.block
        blk = f.fn.blocks[target]
        vals = []
        for I in blk:
            if I.op != "phi":
                break
            for v, b in I.a:
                if b == src:
                    vals.append((I.res, self.value(st, v)))
                    break
            else:
                raise Unsupported("phi without edge")
        for r, v in vals:
            f.regs[r] = v
        f.prev = src
        f.block = target
        f.idx = len(vals)
        return self.loops.enter(st, src, target)

    def runstate(self, st):
        """Run until the state ends, forks (others are pushed), or is queued."""
        while True:
            f = st.frame
            blk = f.fn.blocks[f.block]
            while True:
                I = blk[f.idx]
                f.idx += 1
                self.instrs += 1
                if self.instrs % 2000 == 0 and (self.instrs > self.max_instrs or time.time() > self.deadline):
                    raise Unsupported("limit of the symbolic execution (%d instructions)" % self.instrs)
                op = I.op
                if op in ("br", "switch", "ret", "unreachable", "resume", "invoke", "call"):
                    break
                if op == "select" and self.forksel and I.ty.k in ("float", "double", "int"):
                    c = self.use(self.value(st, I.a[0]), ir.INT(1))
                    if isinstance(c, T) and self.decided(st, c) is None:
                        c = alg.decide_literals(st.pc, c)
                        if self.decided(st, c) is None:
                            t, e = self.feasible(st, c), self.feasible(st, not_(c))
                            if t and e:
                                s2 = st.fork()
                                self.assume(s2, not_(c))
                                s2.frame.regs[I.res] = self.value(s2, I.a[2])
                                self.push(s2)
                                st.own = set()
                            if not t and not e:
                                raise PathEnd()
                            self.assume(st, c if t else not_(c))
                        f.regs[I.res] = self.value(st, I.a[1] if self.decided(st, c) else I.a[2])
                        continue
                f.regs[I.res] = self.step(st, I) if op != "store" else self.store(st, I.ty, self.value(st, I.a[0]), self.value(st, I.a[1]))
            r = self.control(st, I)
            if r is False:
                return

    def step(self, st, I):
        op = I.op
        V = self.value
        if op == "load":
            return self.load(st, I.ty, V(st, I.a[0]))
        if op == "getelementptr":
            return self.gep(st, I.ty, [V(st, a) for a in I.a])
        if op in ("fadd", "fsub", "fmul", "fdiv", "frem"):
            return self.fbin(st, op, I.ty, V(st, I.a[0]), V(st, I.a[1]))
        if op in ("add", "sub", "mul", "shl", "udiv", "sdiv", "lshr", "ashr", "urem", "srem", "and", "or", "xor"):
            a, b = V(st, I.a[0]), V(st, I.a[1])
            if I.ty.k == "vec":
                return tuple(self.int_binop(st, op, I.ty.el.w, x, y, I.x) for x, y in zip(a, b))
            if I.ty.w == 1:
                a, b = self.use(a, I.ty), self.use(b, I.ty)
            return self.int_binop(st, op, I.ty.w, a, b, I.x)
        if op == "icmp":
            a, b = V(st, I.a[0]), V(st, I.a[1])
            if I.ty.k == "vec":
                return tuple(self.icmp(st, I.x, I.ty.el, x, y) for x, y in zip(a, b))
            return self.icmp(st, I.x, I.ty, a, b)
        if op == "fcmp":
            return self.fcmp(st, I.x, I.ty, V(st, I.a[0]), V(st, I.a[1]))
        if op == "fneg":
            return self.fneg(I.ty, V(st, I.a[0]))
        if op in ("trunc", "zext", "sext", "fptrunc", "fpext", "fptoui", "fptosi", "uitofp", "sitofp", "ptrtoint", "inttoptr", "bitcast", "addrspacecast"):
            return self.cast(st, op, V(st, I.a[0]), I.a[0].ty, I.ty)
        if op == "select":
            c, a, b = (V(st, x) for x in I.a)
            if isinstance(c, tuple):
                return tuple(self.vite(x, y, z) for x, y, z in zip(c, a, b))
            c = self.use(c, ir.INT(1))
            d = self.decided(st, c)
            if d is not None:
                return a if d else b
            return self.vite(c, a, b, I.ty)
        if op == "alloca":
            n = 1
            if I.a:
                n = self.value(st, I.a[0])
                n = tm.uval(n)
            o = self.newobj(st, I.ty.size * n, "stack", I.res or "alloca")
            return self.ptr(o.id)
        if op == "extractvalue":
            v = V(st, I.a[0])
            for k in I.x:
                v = UNDEF if v is UNDEF else v[k]
            return v
        if op == "insertvalue":
            v, e = V(st, I.a[0]), V(st, I.a[1])

            def ins(v, ty, path):
                if v is UNDEF:
                    v = tuple(UNDEF for _ in (ty.el if ty.k == "struct" else range(ty.n)))
                k = path[0]
                l = list(v)
                l[k] = e if len(path) == 1 else ins(l[k], ty.el[k] if ty.k == "struct" else ty.el, path[1:])
                return tuple(l)
            return ins(v, I.ty, I.x)
        if op == "extractelement":
            v, k = V(st, I.a[0]), V(st, I.a[1])
            return v[tm.uval(k)] if v is not UNDEF else UNDEF
        if op == "insertelement":
            v, e, k = V(st, I.a[0]), V(st, I.a[1]), V(st, I.a[2])
            l = list(v) if v is not UNDEF else [UNDEF] * I.ty.n
            l[tm.uval(k)] = e
            return tuple(l)
        if op == "shufflevector":
            a, b, m = (V(st, x) for x in I.a)
            n = I.ty.n
            a = a if a is not UNDEF else (UNDEF,) * n
            b = b if b is not UNDEF else (UNDEF,) * n
            both = tuple(a) + tuple(b)
            return tuple(UNDEF if k is UNDEF else both[tm.uval(k)] for k in m)
        if op == "freeze":
            return self.use(V(st, I.a[0]), I.ty)
        if op == "landingpad":
            exc = st.exc
            st.exc = None
            obj, ti = exc
            return (obj, self.typeid(self.match(exc, I.x)))
        if op == "fence":
            return None
        if op == "atomicrmw":
            p, v = V(st, I.a[0]), V(st, I.a[1])
            old = self.load(st, I.ty, p)
            if I.x == "xchg":
                new = v
            elif I.x in ("add", "sub", "and", "or", "xor"):
                new = self.int_binop(st, I.x, I.ty.w, old, v, set())
            else:
                raise Unsupported("atomicrmw " + I.x)
            self.store(st, I.ty, new, p)
            return old
        if op == "cmpxchg":
            p, c, n = (V(st, x) for x in I.a)
            old = self.load(st, I.ty, p)
            e = self.icmp(st, "eq", I.ty, old, c)
            self.store(st, I.ty, self.vite(e, n, old, I.ty), p)
            return (old, e)
        raise Unsupported("instruction " + op)

    # exceptions
    def typeid(self, ti):
        if ti is None:
            return iconst(0, 32)
        ids = self.__dict__.setdefault("_tids", {})
        return iconst(ids.setdefault(ti, len(ids) + 1), 32)

    def match(self, exc, clauses):
        """Name of the matching catch type, or None for cleanup."""
        ti = exc[1]
        for k, v in clauses:
            if k == "catch":
                if v.k == "null":
                    return "*"
                if v.v == ti or v.v in EXC_BASES.get(ti, []):
                    return v.v
        return None

    def throw(self, st, obj, ti):
        """Unwind from the current frame (whose current instruction is the throwing call)."""
        st.exc = (obj, ti)
        return self.unwind(st, st.frame.fn.blocks[st.frame.block][st.frame.idx - 1])

    def unwind(self, st, I):
        while True:
            if I.op == "invoke" and I.x[2] is not None:
                blk = st.frame.fn.blocks[I.x[2]]
                lp = next(x for x in blk if x.op == "landingpad")
                if any(k == "cleanup" for k, v in lp.x) or self.match(st.exc, lp.x) is not None:
                    return self.goto(st, I.x[2])
            if st.frame.parent is None:
                self.oblige(st, FALSE, "exception leaves the contract: %s" % st.exc[1], "exception")
                raise PathEnd()
            st.frame = st.frame.parent.copy()
            st.depth -= 1
            I = st.frame.fn.blocks[st.frame.block][st.frame.idx - 1]

    def control(self, st, I):
        op = I.op
        f = st.frame
        if op == "br":
            if len(I.x) == 1:
                return self.goto(st, I.x[0])
            c = self.use(self.value(st, I.a[0]), ir.INT(1))
            if I.x[0] == I.x[1]:
                return self.goto(st, I.x[0])
            return self.branch(st, c, I.x[0], I.x[1])
        if op == "switch":
            v = self.use(self.value(st, I.a[0]), I.a[0].ty)
            d, cases = I.x
            if tm.is_const(v):
                for cv, lab in cases:
                    if tm.uval(self.constval(st, cv)) == tm.uval(v):
                        return self.goto(st, lab)
                return self.goto(st, d)
            by = {}
            neq = []
            for cv, lab in cases:
                e = self.ieq(v, self.constval(st, cv))
                by.setdefault(lab, []).append(e)
                neq.append(not_(e))
            alts = [(lab, or_(*es)) for lab, es in by.items()] + [(d, and_(*neq))]
            return self.multibranch(st, alts)
        if op == "ret":
            v = self.value(st, I.a[0]) if I.a else None
            return self.doret(st, v)
        if op == "unreachable":
            raise PathEnd()
        if op == "resume":
            v = self.value(st, I.a[0])
            ti = next((t for o, t in self.excs if o is v[0] or (isinstance(o, Ptr) and isinstance(v[0], Ptr) and o.obj == v[0].obj)), "?")
            st.exc = (v[0], ti)
            if st.frame.parent is None:
                self.oblige(st, FALSE, "exception leaves the contract", "exception")
                raise PathEnd()
            st.frame = st.frame.parent.copy()
            st.depth -= 1
            return self.unwind(st, st.frame.fn.blocks[st.frame.block][st.frame.idx - 1])
        return self.docall(st, I)

    excs = []

    def branch(self, st, c, a, b):
        d = self.decided(st, c)
        if d is None and self.fm == "R":
            c = alg.decide_literals(st.pc, c)
            d = self.decided(st, c)
        if d is not None:
            return self.goto(st, a if d else b)
        return self.multibranch(st, [(a, c), (b, not_(c))])

    def multibranch(self, st, alts):
        ok = [(lab, c) for lab, c in alts if c is not FALSE and self.feasible(st, c)]
        if not ok:
            raise PathEnd()
        for lab, c in ok[1:][::-1]:
            s2 = st.fork()
            try:
                self.assume(s2, c)
                if self.goto(s2, lab) is not False:
                    self.push(s2)
            except PathEnd:
                pass
        lab, c = ok[0]
        if len(ok) > 1 or True:
            st.own = set()
            self.assume(st, c)
        return self.goto(st, lab)

    def doret(self, st, v):
        f = st.frame
        # stack objects of the frame stay; dangling use is not modelled
        if f.parent is None:
            self.paths += 1
            self.results.append((st, v))
            return False
        st.frame = f.parent.copy()
        st.depth -= 1
        return self.finish_call(st, f.call, v)

    def finish_call(self, st, I, v):
        f = st.frame
        if I.res is not None:
            f.regs[I.res] = v
        if I.op == "invoke":
            return self.goto(st, I.x[1])
        return self.loops.after_call(st)

    def docall(self, st, I):
        if I.x[0] == "asm":
            return True
        cal = I.x[0]
        name = cal.v if isinstance(cal, ir.Const) and cal.k == "global" else None
        if name is None:
            p = self.value(st, cal)
            if isinstance(p, PIte):
                return self.multicall(st, I, p)
            if not isinstance(p, FnPtr):
                raise Unsupported("indirect call through %r" % (p,))
            name = p.name
        return self.callname(st, I, name)

    def multicall(self, st, I, p):
        alts = []

        def rec(p, cs):
            if isinstance(p, PIte):
                rec(p.a, cs + [p.c])
                rec(p.b, cs + [not_(p.c)])
            else:
                alts.append((p, and_(*cs)))
        rec(p, [])
        ok = [(q, c) for q, c in alts if c is not FALSE and self.feasible(st, c)]
        for q, c in ok[1:]:
            s2 = st.fork()
            try:
                self.assume(s2, c)
                if self.callname(s2, I, q.name) is not False:
                    self.push(s2)
            except PathEnd:
                pass
        if not ok:
            raise PathEnd()
        st.own = set()
        self.assume(st, ok[0][1])
        return self.callname(st, I, ok[0][0].name)

    def callname(self, st, I, name):
        if name in self.m.globals:
            g = self.m.glob(name)
            if g and g[0] == "alias":
                name = self.constval(st, g[1]).name
        r = self.models.call(st, I, name)
        if r is not NotImplemented:
            return r
        fn = self.m.fns.get(name)
        if fn is None or not fn.defined:
            raise Unsupported("external function " + self.dem.get(name, name))
        self.m.body(fn)
        args = [self.value(st, a) for a in I.a]
        d = self.dem.get(name, name)
        if "huira::" in d:
            self.entered[d] = self.entered.get(d, 0) + 1
        return self.enterfn(st, I, fn, args)

    def enterfn(self, st, I, fn, args):
        if st.depth > 200:
            raise Unsupported("recursion")
        self.acts += 1
        nf = Frame(fn, st.frame, I, self.acts)
        for (n, t), v in zip(fn.params, args):
            nf.regs[n] = v
        # byval arguments are pointers to caller copies: same memory model
        st.frame = nf
        st.depth += 1
        return True


def iconst_bv1():
    return tm.mk("const", (1,), ("i", 1))
