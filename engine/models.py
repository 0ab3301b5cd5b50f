"""What the verifier assumes about functions whose bodies are not in the IR: the vc_* specification
functions, LLVM intrinsics, libm, the C++ runtime and a few libstdc++ bulk operations."""
import math
import re
from fractions import Fraction
import ir
import terms as tm
from terms import T, TRUE, FALSE, and_, or_, not_, ite, iconst

NOT = NotImplemented


class Models:
    def __init__(self, ex):
        self.ex = ex
        self.names = {}
        self.replace = {}

    # ------------------------------------------------------------ dispatch
    def resolve(self, name):
        r = self.names.get(name)
        if r is not None:
            return r if r is not False else None
        n = name[1:].strip('"')
        f = None
        if n.startswith("vc_"):
            f = getattr(self, n, None) or self.vc_generic(n)
        elif n.startswith("llvm."):
            parts = n.split(".")
            for k in range(len(parts), 1, -1):
                f = getattr(self, "llvm_" + "_".join(parts[1:k]).replace("-", "_"), None)
                if f:
                    break
            if f is None:
                def f(st, I, args, n=n):
                    from vexec import Unsupported
                    raise Unsupported("intrinsic " + n)
        else:
            f = getattr(self, "c_" + n, None)
            if f is None:
                f = self.math(n)
            if f is None:
                d = self.ex.dem.get(name, name)
                f = self.cxx(name, d)
        self.names[name] = f if f is not None else False
        return f

    def call(self, st, I, name):
        f = self.resolve(name)
        if f is None:
            return NOT
        args = None
        if not getattr(f, "raw", False):
            args = [self.arg(st, a) for a in I.a]
        r = f(st, I, args)
        if r is NOT:
            return NOT
        if isinstance(r, Control):
            return r.r
        return self.ex.finish_call(st, I, r)

    def arg(self, st, a):
        if a.ty.k == "metadata":
            return None
        v = self.ex.value(st, a)
        return v

    def cstr(self, st, p):
        out = []
        o = st.mem[p.obj]
        k = tm.cval(p.off)
        while True:
            c = self.ex.get(st, o, k, ir.INT(8))
            if not (isinstance(c, T) and tm.is_const(c)) or tm.cval(c) == 0:
                break
            out.append(chr(tm.cval(c)))
            k += 1
        return "".join(out)

    def b(self, v):
        return self.ex.use(v, ir.INT(1))

    # ------------------------------------------------------------ specification functions
    def inname(self, st, nm):
        k = sum(1 for x in st.log if x == nm)
        st.log = st.log + (nm,)
        return "%s#%d" % (nm, k)

    def newinput(self, st, p, sort, kind):
        nm = self.inname(st, self.cstr(st, p))
        v = tm.var("in:" + nm, sort)
        self.ex.note_input(nm, kind, v)
        return v

    def vc_real(self, st, I, a):
        return self.newinput(st, a[0], self.ex.fsort(ir.DOUBLE), "real")

    def vc_float(self, st, I, a):
        return self.newinput(st, a[0], self.ex.fsort(ir.FLOAT), "float")

    def vc_bool(self, st, I, a):
        return self.newinput(st, a[0], "B", "bool")

    def vc_generic(self, n):
        m = re.match(r"vc_([iu])(8|16|32|64)$", n)
        if m:
            sg, w = m.group(1), int(m.group(2))

            def f(st, I, a):
                ex = self.ex
                nm = self.inname(st, self.cstr(st, a[0]))
                v = tm.var("in:" + nm, ("i", w))
                ex.note_input(nm, n[3:], v)
                if ex.im == "INT" and sg == "u" and w in (32, 64):
                    # unsigned range: represented as canonical signed value of a 0..2^w-1 symbol
                    pass
                return v
            return f
        return None

    def vc_range(self, st, I, a):
        """vc_range(name, lo, hi): i64 input lo <= x <= hi"""
        ex = self.ex
        nm = self.inname(st, self.cstr(st, a[0]))
        v = tm.var("in:" + nm, ("i", 64))
        ex.note_input(nm, "i64", v)
        if ex.im == "INT":
            lo, hi = tm.sval(a[1]), tm.sval(a[2])
            v.lo, v.hi = lo, hi
        else:
            ex.assume(st, tm.bvcmp("bvsle", a[1], v))
            ex.assume(st, tm.bvcmp("bvsle", v, a[2]))
        return v

    def vc_unit3(self, st, I, a):
        return self.unit(st, a, 3)

    def vc_unit4(self, st, I, a):
        return self.unit(st, a, 4)

    def unit(self, st, a, n):
        ex = self.ex
        base = self.inname(st, self.cstr(st, a[0]))
        s = tm.R0
        for i in range(n):
            nm = "%s[%d]" % (base, i)
            v = tm.var("in:" + nm, "R")
            ex.note_input(nm, "unit", v)
            ex.store(st, ir.DOUBLE, v, ex.padd_ptr(a[1], iconst(8 * i, 64)) if i else a[1])
            s = tm.radd(s, tm.rmul(v, v))
        ex.assume(st, tm.req(s, tm.R1))

    def vc_assume(self, st, I, a):
        self.ex.assume(st, self.b(a[0]))
        if not self.ex.feasible(st, TRUE):
            from vexec import PathEnd
            raise PathEnd()

    def vc_check(self, st, I, a):
        ex = self.ex
        nm = self.cstr(st, a[1])
        ex.named.setdefault(nm, 0)
        ex.named[nm] += 1
        ex.ensures(st, self.b(a[0]), nm)

    def vc_lemma(self, st, I, a):
        ex = self.ex
        nm = self.cstr(st, a[1])
        c = self.b(a[0])
        ex.named.setdefault(nm, 0)
        ex.named[nm] += 1
        ex.ensures(st, c, nm)
        ex.assume(st, c)

    def vc_cover(self, st, I, a):
        nm = self.cstr(st, a[0])
        ex = self.ex
        cur = ex.covers.get(nm)
        if cur != "sat":
            ex.covers[nm] = ex.check(list(st.pc), 300)

    def vc_and(self, st, I, a):
        return and_(self.b(a[0]), self.b(a[1]))

    def vc_or(self, st, I, a):
        return or_(self.b(a[0]), self.b(a[1]))

    def vc_not(self, st, I, a):
        return not_(self.b(a[0]))

    def vc_implies(self, st, I, a):
        return or_(not_(self.b(a[0])), self.b(a[1]))

    def vc_iff(self, st, I, a):
        return tm.iff(self.b(a[0]), self.b(a[1]))

    def vc_if(self, st, I, a):
        return self.ex.vite(self.b(a[0]), a[1], a[2], ir.DOUBLE)

    def vc_ifi(self, st, I, a):
        return self.ex.vite(self.b(a[0]), a[1], a[2], ir.INT(64))

    def vc_eq(self, st, I, a):
        ex = self.ex
        return ex.fcmp(st, "oeq", ir.DOUBLE, a[0], a[1])

    def vc_eqf(self, st, I, a):
        return self.ex.fcmp(st, "oeq", ir.FLOAT, a[0], a[1])

    def vc_le(self, st, I, a):
        return self.ex.fcmp(st, "ole", ir.DOUBLE, a[0], a[1])

    def vc_lt(self, st, I, a):
        return self.ex.fcmp(st, "olt", ir.DOUBLE, a[0], a[1])

    def vc_same(self, st, I, a):
        """identical values; NaN is the same as NaN"""
        ex = self.ex
        x, y = ex.use(a[0], ir.DOUBLE), ex.use(a[1], ir.DOUBLE)
        if ex.fm == "F":
            return tm.fop("fsame", x, y, sort="B")
        return or_(tm.req(x, y), and_(tm.risnan(x), tm.risnan(y)))

    def vc_isnan(self, st, I, a):
        return self.ex.fcmp(st, "uno", ir.DOUBLE, a[0], a[0])

    def vc_split(self, st, I, a):
        """case split on a boolean: continue on both sides"""
        ex = self.ex
        c = self.b(a[0])
        d = ex.decided(st, c)
        if d is not None:
            return tm.bconst(d)
        alts = [x for x in (c, not_(c)) if ex.feasible(st, x)]
        if not alts:
            from vexec import PathEnd
            raise PathEnd()
        if len(alts) == 2:
            from vexec import PathEnd
            s2 = st.fork()
            try:
                ex.assume(s2, alts[1])
                if ex.finish_call(s2, I, FALSE) is not False:
                    ex.push(s2)
            except PathEnd:
                pass
        st.own = set()
        ex.assume(st, alts[0])
        return Control(ex.finish_call(st, I, TRUE if alts[0] is c else FALSE))

    def vc_bytes(self, st, I, a):
        """vc_bytes(name, n, elemsize, kind): unconstrained array, kind 0 = bytes, 1 = float, 2 = double"""
        ex = self.ex
        nm = self.inname(st, self.cstr(st, a[0]))
        n = ex.signed(ex.use(a[1], ir.INT(64))) if ex.im == "INT" else a[1]
        kind = tm.uval(a[2])
        ty = {0: ir.INT(8), 1: ir.FLOAT, 2: ir.DOUBLE, 3: ir.INT(32), 4: ir.INT(64)}[kind]
        es = ty.size
        if ex.im == "INT":
            o = ex.newobj(st, tm.pscale(n, es, 64), "input", nm)
        else:
            o = ex.newobj(st, tm.bvop("bvmul", n, iconst(es, 64)), "input", nm)
        if o.lanes is not None:
            o.stride = es
            arr = tm.var("in:" + nm, ("a", ex.esort(ty)))
            o.lanes[0] = (ty, arr)
            ex.note_input(nm, "array%d" % kind, arr)
        else:
            for i in range(o.size // es):
                v = tm.var("in:%s[%d]" % (nm, i), ex.esort(ty))
                ex.note_input("%s[%d]" % (nm, i), {0: "u8", 1: "float", 2: "real", 3: "i32", 4: "u64"}[kind], v)
                ex.put(st, o, i * es, ty, v)
        return ex.ptr(o.id)

    def vc_array(self, st, I, a):
        """vc_array(name, n, kind, lanes): n records of `lanes` scalars, all unconstrained"""
        ex = self.ex
        nm = self.inname(st, self.cstr(st, a[0]))
        n = ex.signed(ex.use(a[1], ir.INT(64)))
        kind, lanes = tm.uval(a[2]), tm.uval(a[3])
        ty = {0: ir.INT(8), 1: ir.FLOAT, 2: ir.DOUBLE, 3: ir.INT(32), 4: ir.INT(64)}[kind]
        es = ty.size
        o = ex.newobj(st, tm.pscale(n, es * lanes, 64), "input", nm)
        if o.lanes is None:
            for i in range(lanes):
                arr = tm.var("in:%s.%d" % (nm, i), ("a", ex.esort(ty)))
                ex.note_input("%s.%d" % (nm, i), "array%d" % kind, arr)
                for k in range(tm.uval(n)):
                    ex.put(st, o, (k * lanes + i) * es, ty, tm.select(arr, iconst(k, 64)))
            return ex.ptr(o.id)
        o.stride = es * lanes
        for i in range(lanes):
            arr = tm.var("in:%s.%d" % (nm, i), ("a", ex.esort(ty)))
            o.lanes[i * es] = (ty, arr)
            ex.note_input("%s.%d" % (nm, i), "array%d" % kind, arr)
        return ex.ptr(o.id)

    def vc_index(self, st, I, a):
        """an arbitrary index 0 <= k < n"""
        ex = self.ex
        nm = self.inname(st, self.cstr(st, a[0]))
        v = tm.var("in:" + nm, ("i", 64))
        ex.note_input(nm, "i64", v)
        n = ex.use(a[1], ir.INT(64))
        if ex.im == "INT":
            ex.assume(st, tm.ile(tm.rawconst(0, 64), v))
            ex.assume(st, tm.ilt(v, n))
        else:
            ex.assume(st, tm.bvcmp("bvult", v, n))
        return v

    def vc_debug(self, st, I, a):
        print("DEBUG", self.cstr(st, a[0]), a[1:], flush=True)

    def vc_option(self, st, I, a):
        """engine options: fork-select, no-fdiv, no-domain, no-overflow, no-fptoint"""
        s = self.cstr(st, a[0])
        if s == "fork-select":
            self.ex.forksel = True
        else:
            self.ex.opts.add(s)

    def vc_witness(self, st, I, a):
        self.ex.witnesses.append(self.ex.use(a[0], ir.INT(64)))

    def vc_hint(self, st, I, a):
        self.ex.hints.append(self.ex.use(a[0], ir.INT(64)))

    def vc_trusted(self, st, I, a):
        self.ex.assumed.add(self.cstr(st, a[0]))

    def vc_bounded(self, st, I, a):
        self.ex.bounded.add(self.cstr(st, a[0]))

    # ------------------------------------------------------------ LLVM intrinsics
    def llvm_lifetime(self, st, I, a):
        return None
    llvm_dbg = llvm_assume = llvm_experimental_noalias = llvm_prefetch = llvm_stackrestore = llvm_invariant = llvm_lifetime
    llvm_stacksave = llvm_lifetime

    def llvm_va(self, st, I, a):
        return None

    def llvm_expect(self, st, I, a):
        return a[0]

    def llvm_launder(self, st, I, a):
        return a[0]
    llvm_strip = llvm_launder

    def llvm_objectsize(self, st, I, a):
        return iconst(-1, 64)

    def llvm_is_constant(self, st, I, a):
        return FALSE

    def llvm_trap(self, st, I, a):
        ex = self.ex
        ex.oblige(st, FALSE, "trap reached", "memory")
        from vexec import PathEnd
        raise PathEnd()

    def llvm_fabs(self, st, I, a):
        return self.fabs(st, I.ty, a[0])

    def fabs(self, st, ty, x):
        ex = self.ex
        if ty.k == "vec":
            return tuple(self.fabs(st, ty.el, v) for v in x)
        x = ex.use(x, ty)
        if ex.fm == "F":
            return tm.fop("fabs", x)
        return self.rabs(st, x)

    def rabs(self, st, x):
        if x.op == "const":
            return tm.rconst(abs(x.args[0]))
        if x.spec:
            if x.op == "ite":
                return ite(x.args[0], self.rabs(st, x.args[1]), self.rabs(st, x.args[2]))
            return tm.NAN if x is tm.NAN else tm.INF
        if x.op == "uf:sqrt" or x.op == "uf:exp":
            return x
        c = tm.rle(tm.R0, x)
        d = self.ex.decided(st, c)
        if d is None and x.op == "rneg":
            return self.rabs(st, x.args[0])
        if d is not None:
            return x if d else tm.rneg(x)
        return ite(c, x, tm.rneg(x))

    def llvm_sqrt(self, st, I, a):
        return self.unary(st, I.ty, "sqrt", a[0])

    def llvm_floor(self, st, I, a):
        return self.unary(st, I.ty, "floor", a[0])

    def llvm_ceil(self, st, I, a):
        return self.unary(st, I.ty, "ceil", a[0])

    def llvm_trunc(self, st, I, a):
        return self.unary(st, I.ty, "trunc", a[0])

    def llvm_round(self, st, I, a):
        return self.unary(st, I.ty, "round", a[0])

    def llvm_rint(self, st, I, a):
        return self.unary(st, I.ty, "rint", a[0])
    llvm_nearbyint = llvm_rint

    def llvm_sin(self, st, I, a):
        return self.unary(st, I.ty, "sin", a[0])

    def llvm_cos(self, st, I, a):
        return self.unary(st, I.ty, "cos", a[0])

    def llvm_exp(self, st, I, a):
        return self.unary(st, I.ty, "exp", a[0])

    def llvm_log(self, st, I, a):
        return self.unary(st, I.ty, "log", a[0])

    def llvm_pow(self, st, I, a):
        return self.binary(st, I.ty, "pow", a[0], a[1])

    def llvm_copysign(self, st, I, a):
        return self.binary(st, I.ty, "copysign", a[0], a[1])

    def llvm_minnum(self, st, I, a):
        return self.binary(st, I.ty, "fmin", a[0], a[1])

    def llvm_maxnum(self, st, I, a):
        return self.binary(st, I.ty, "fmax", a[0], a[1])

    def llvm_fmuladd(self, st, I, a):
        ex = self.ex
        return ex.fbin(st, "fadd", I.ty, ex.fbin(st, "fmul", I.ty, a[0], a[1]), a[2])

    def llvm_fma(self, st, I, a):
        ex = self.ex
        if ex.fm == "F" and I.ty.k != "vec":
            return tm.fop("fma", *[ex.use(x, I.ty) for x in a])
        return self.llvm_fmuladd(st, I, a)

    def llvm_is_fpclass(self, st, I, a):
        ex = self.ex
        m = tm.uval(a[1])
        x = ex.use(a[0], I.a[0].ty)
        if ex.fm == "R":
            z = tm.req(x, tm.R0)
            neg = tm.rlt(x, tm.R0)
            nan, inf = tm.risnan(x), tm.risinf(x)
            fin = and_(not_(nan), not_(inf))
            out = []
            if m & 3 == 3:
                out.append(nan)
            if m & 0x204 == 0x204:
                out.append(inf)
            elif m & 0x4:
                out.append(and_(inf, neg))
            elif m & 0x200:
                out.append(and_(inf, not_(neg), not_(nan)))
            if m & 0x1f8 == 0x1f8:
                out.append(fin)
            elif m & 0x108 == 0x108 and not (m & 0x60):
                out.append(and_(fin, not_(z)))  # normal
            elif m & 0x60 == 0x60 and not (m & 0x198):
                out.append(and_(fin, z))
            elif m & 0x1f8:
                raise self.ex.unsup("is.fpclass %x" % m)
            return or_(*out)
        g = lambda o: tm.fop(o, x, sort="B")
        nan, inf, neg, z, sub = g("fisnan"), g("fisinf"), g("fisneg"), g("fiszero"), g("fissub")
        norm = and_(not_(nan), not_(inf), not_(z), not_(sub))
        out = []
        for bits, c in ((3, nan),):
            if m & bits:
                out.append(c)
        for bit, c in ((4, and_(inf, neg)), (8, and_(norm, neg)), (16, and_(sub, neg)), (32, and_(z, neg)), (64, and_(z, not_(neg))), (128, and_(sub, not_(neg))), (256, and_(norm, not_(neg))), (512, and_(inf, not_(neg)))):
            if m & bit:
                out.append(c)
        return or_(*out)

    def minmax(self, st, I, a, pred):
        ex = self.ex
        if I.ty.k == "vec":
            return tuple(ex.vite(ex.icmp(st, pred, I.ty.el, x, y), x, y) for x, y in zip(*a[:2]))
        return ex.vite(ex.icmp(st, pred, I.ty, a[0], a[1]), a[0], a[1])

    def llvm_smax(self, st, I, a):
        return self.minmax(st, I, a, "sge")

    def llvm_smin(self, st, I, a):
        return self.minmax(st, I, a, "sle")

    def llvm_umax(self, st, I, a):
        return self.minmax(st, I, a, "uge")

    def llvm_umin(self, st, I, a):
        return self.minmax(st, I, a, "ule")

    def llvm_abs(self, st, I, a):
        ex = self.ex
        z = iconst(0, I.ty.w)
        n = ex.int_binop(st, "sub", I.ty.w, z, a[0], {"nsw"})
        return ex.vite(ex.icmp(st, "sge", I.ty, a[0], z), a[0], n)

    def ovf(self, st, I, a, op, signed):
        ex = self.ex
        w = I.a[0].ty.w
        x, y = ex.use(a[0], I.a[0].ty), ex.use(a[1], I.a[0].ty)
        if ex.im == "BV":
            ww = 2 * w
            k = "sext" if signed else "zext"
            full = tm.bvop("bv" + op, tm.bvext(k, x, ww), tm.bvext(k, y, ww))
            r = tm.bvextract(full, 0, w)
            return (r, not_(tm.bveq(tm.bvext(k, r, ww), full)))
        f = {"add": tm.padd, "sub": tm.psub, "mul": tm.pmul}[op]
        if signed:
            e = f(ex.signed(x), ex.signed(y), w)
            lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        else:
            e = f(ex.unsigned_in(st, x), ex.unsigned_in(st, y), w)
            lo, hi = 0, (1 << w) - 1
        o = not_(and_(tm.ile(tm.rawconst(lo, w), e), tm.ile(e, tm.rawconst(hi, w))))
        r = ex.wrap(st, e, w, set())
        return (r, o)

    def llvm_umul_with_overflow(self, st, I, a):
        return self.ovf(st, I, a, "mul", False)

    def llvm_uadd_with_overflow(self, st, I, a):
        return self.ovf(st, I, a, "add", False)

    def llvm_usub_with_overflow(self, st, I, a):
        return self.ovf(st, I, a, "sub", False)

    def llvm_smul_with_overflow(self, st, I, a):
        return self.ovf(st, I, a, "mul", True)

    def llvm_sadd_with_overflow(self, st, I, a):
        return self.ovf(st, I, a, "add", True)

    def llvm_ssub_with_overflow(self, st, I, a):
        return self.ovf(st, I, a, "sub", True)

    def llvm_eh_typeid_for(self, st, I, a):
        return self.ex.typeid(I.a[0].v)

    def bits_const(self, st, v, f, ty):
        if isinstance(v, T) and tm.is_const(v):
            return f(tm.uval(v), v.sort[1])
        return None

    def llvm_ctpop(self, st, I, a):
        r = self.bits_const(st, a[0], lambda x, w: iconst(bin(x).count("1"), w), I.ty)
        if r is None:
            raise self.ex.unsup("ctpop of a symbol")
        return r

    def llvm_ctlz(self, st, I, a):
        r = self.bits_const(st, a[0], lambda x, w: iconst(w - x.bit_length(), w), I.ty)
        if r is None:
            ex = self.ex
            if ex.im == "INT":
                v = tm.fresh("ctlz", ("i", I.ty.w))
                v.lo, v.hi = 0, I.ty.w
                return v
            raise self.ex.unsup("ctlz of a symbol")
        return r

    def llvm_bswap(self, st, I, a):
        ex = self.ex
        n = I.ty.w // 8
        v = a[0]
        if ex.im == "BV":
            r = tm.bvextract(v, 0, 8)
            for i in range(1, n):
                r = tm.bvconcat(r, tm.bvextract(v, 8 * i, 8))
            return r
        c = (n, I.ty, v)
        acc = tm.rawconst(0, I.ty.w)
        for i in range(n):
            acc = tm.padd(acc, tm.pscale(tm.pwidth(ex.byteof(c, i), I.ty.w), 1 << (8 * (n - 1 - i)), I.ty.w), I.ty.w)
        return ex.resign(acc, I.ty.w)

    def llvm_memcpy(self, st, I, a):
        self.ex.loops.copy(st, a[0], a[1], a[2])
    llvm_memmove = llvm_memcpy

    def llvm_memset(self, st, I, a):
        self.ex.loops.memset(st, a[0], a[1], a[2])

    def c_memcpy(self, st, I, a):
        self.ex.loops.copy(st, a[0], a[1], a[2])
        return a[0]
    c_memmove = c_memcpy

    def c_memset(self, st, I, a):
        self.ex.loops.memset(st, a[0], self.ex.int_binop(st, "and", 32, a[1], iconst(255, 32), set()) if False else a[1], a[2])
        return a[0]

    def c_strlen(self, st, I, a):
        ex = self.ex
        if isinstance(a[0], Ptr_()) and a[0].obj is not None and tm.is_const(a[0].off):
            o = st.mem[a[0].obj]
            k = tm.cval(a[0].off)
            k0 = k
            while o.lanes is None and k < o.size:
                c = ex.get(st, o, k, ir.INT(8))
                if not (isinstance(c, T) and tm.is_const(c)):
                    break
                if tm.cval(c) == 0:
                    return iconst(k - k0, 64)
                k += 1
        raise ex.unsup("strlen of a symbolic string")

    def c_memcmp(self, st, I, a):
        ex = self.ex
        n = a[2]
        if not tm.is_const(n) or tm.cval(n) > 256:
            raise ex.unsup("memcmp of symbolic length")
        res = iconst(0, 32)
        for k in range(tm.cval(n) - 1, -1, -1):
            x = ex.use(ex.load(st, ir.INT(8), ex.padd_ptr(a[0], iconst(k, 64)) if k else a[0]), ir.INT(8))
            y = ex.use(ex.load(st, ir.INT(8), ex.padd_ptr(a[1], iconst(k, 64)) if k else a[1]), ir.INT(8))
            lt = ex.icmp(st, "ult", ir.INT(8), x, y)
            eq = ex.icmp(st, "eq", ir.INT(8), x, y)
            res = ex.vite(eq, res, ex.vite(lt, iconst(-1, 32), iconst(1, 32)))
        return res
    c_bcmp = c_memcmp

    def ctype(self, st, v, lo, hi, d):
        ex = self.ex
        if tm.is_const(v):
            x = tm.sval(v)
            return iconst(x + d if lo <= x <= hi else x, 32)
        ty = ir.INT(32)
        inn = and_(ex.icmp(st, "sge", ty, v, iconst(lo, 32)), ex.icmp(st, "sle", ty, v, iconst(hi, 32)))
        return ex.vite(inn, ex.int_binop(st, "add", 32, v, iconst(d, 32), set()), v, ty)

    def c_tolower(self, st, I, a):
        return self.ctype(st, a[0], 65, 90, 32)

    def c_toupper(self, st, I, a):
        return self.ctype(st, a[0], 97, 122, -32)

    def inrange(self, st, v, *rs):
        ex = self.ex
        ty = ir.INT(32)
        c = or_(*[and_(ex.icmp(st, "sge", ty, v, iconst(lo, 32)), ex.icmp(st, "sle", ty, v, iconst(hi, 32))) for lo, hi in rs])
        return ex.b2i(c, 32)

    def c_isdigit(self, st, I, a):
        return self.inrange(st, a[0], (48, 57))

    def c_isspace(self, st, I, a):
        return self.inrange(st, a[0], (9, 13), (32, 32))

    def c_isalpha(self, st, I, a):
        return self.inrange(st, a[0], (65, 90), (97, 122))

    def c_isalnum(self, st, I, a):
        return self.inrange(st, a[0], (48, 57), (65, 90), (97, 122))

    # ------------------------------------------------------------ C++ runtime
    def alloc(self, st, size, what):
        ex = self.ex
        size = ex.use(size, ir.INT(64))
        if ex.im == "INT" and not tm.is_const(size):
            # a request is a size_t: a negative canonical value is an enormous request
            neg = tm.ilt(size, tm.rawconst(0, 64))
            if neg is not FALSE and ex.feasible(st, neg):
                ex.assumed.add("allocations succeed")
                ex.assume(st, not_(neg))
        ex.assumed.add("allocations succeed")
        o = ex.newobj(st, size, "heap", what)
        return ex.ptr(o.id)

    def c__Znwm(self, st, I, a):
        return self.alloc(st, a[0], "heap")
    c__Znam = c_malloc = c__Znwm

    def c__ZnwmSt11align_val_t(self, st, I, a):
        return self.alloc(st, a[0], "heap")
    c__ZnamSt11align_val_t = c__ZnwmRKSt9nothrow_t = c__ZnwmSt11align_val_t

    def c_calloc(self, st, I, a):
        ex = self.ex
        n = ex.int_binop(st, "mul", 64, a[0], a[1], set())
        p = self.alloc(st, n, "heap")
        ex.loops.memset(st, p, iconst(0, 8), n)
        return p

    def c__ZdlPv(self, st, I, a):
        ex = self.ex
        p = a[0]
        if isinstance(p, Ptr_()) and p.obj is not None:
            o = st.mem[p.obj]
            if o.freed:
                ex.oblige(st, FALSE, "double free", "memory")
            elif o.kind != "heap" or not (tm.is_const(p.off) and tm.cval(p.off) == 0):
                ex.oblige(st, FALSE, "free of something that was not allocated", "memory")
            else:
                o = st.wobj(p.obj)
                o.freed = True
                o.cells = {}
        return None
    c__ZdlPvm = c__ZdaPv = c__ZdaPvm = c_free = c__ZdlPvSt11align_val_t = c__ZdlPvmSt11align_val_t = c__ZdlPv

    def c___cxa_allocate_exception(self, st, I, a):
        o = self.ex.newobj(st, max(tm.cval(a[0]), 64), "heap", "exception")
        return self.ex.ptr(o.id)

    def c___cxa_free_exception(self, st, I, a):
        return None
    c___cxa_end_catch = c___cxa_free_exception

    def c___cxa_throw(self, st, I, a):
        ex = self.ex
        ex.excs.append((a[0], I.a[1].v))
        return Control(ex.throw(st, a[0], I.a[1].v))

    def c___cxa_begin_catch(self, st, I, a):
        ti = next((t for o, t in self.ex.excs if isinstance(o, Ptr_()) and isinstance(a[0], Ptr_()) and o.obj == a[0].obj), "?")
        st.caught = st.caught + ((a[0], ti),)
        return a[0]

    def c___cxa_rethrow(self, st, I, a):
        ex = self.ex
        p, ti = st.caught[-1]
        return Control(ex.throw(st, p, ti))

    def c___cxa_guard_acquire(self, st, I, a):
        return iconst(1, 32)

    def c___cxa_guard_release(self, st, I, a):
        self.ex.store(st, ir.INT(8), iconst(1, 8), a[0])

    def c___cxa_atexit(self, st, I, a):
        return iconst(0, 32)

    def c___cxa_pure_virtual(self, st, I, a):
        return self.llvm_trap(st, I, a)

    def c___clang_call_terminate(self, st, I, a):
        ex = self.ex
        ex.oblige(st, FALSE, "std::terminate reached", "exception")
        from vexec import PathEnd
        raise PathEnd()
    c__ZSt9terminatev = c_abort = c___clang_call_terminate

    def c___assert_fail(self, st, I, a):
        ex = self.ex
        ex.oblige(st, FALSE, "assert fails", "memory")
        from vexec import PathEnd
        raise PathEnd()

    # ------------------------------------------------------------ libm
    UN = {"sqrt", "sin", "cos", "tan", "asin", "acos", "atan", "exp", "exp2", "log", "log2", "log10", "log1p", "expm1", "fabs", "floor", "ceil", "round", "trunc", "rint", "nearbyint", "cbrt", "cosh", "sinh", "tanh", "acosh", "asinh", "atanh", "erf"}
    BIN = {"pow", "atan2", "fmod", "hypot", "fmin", "fmax", "copysign", "remainder", "fdim"}

    def math(self, n):
        base = n[:-1] if n.endswith("f") and (n[:-1] in self.UN or n[:-1] in self.BIN) else n
        if base in self.UN:
            return lambda st, I, a: self.unary(st, I.ty, base, a[0])
        if base in self.BIN:
            return lambda st, I, a: self.binary(st, I.ty, base, a[0], a[1])
        if base in ("lround", "lroundf", "llround", "llroundf"):
            def f(st, I, a):
                r = self.unary(st, I.a[0].ty, "round", a[0])
                return self.ex.fptoint(st, "fptosi", r, I.a[0].ty, I.ty.w)
            return f
        if base in ("ldexp", "ldexpf", "scalbn", "scalbnf"):
            return self.ldexp
        if n in ("sincos", "sincosf"):
            def f(st, I, a):
                ty = I.a[0].ty
                self.ex.store(st, ty, self.unary(st, ty, "sin", a[0]), a[1])
                self.ex.store(st, ty, self.unary(st, ty, "cos", a[0]), a[2])
            return f
        return None

    def ldexp(self, st, I, a):
        ex = self.ex
        x = ex.use(a[0], I.ty)
        e = a[1]
        if ex.fm != "R":
            return tm.mk("uf:ldexp", (x, e), x.sort)
        if tm.is_const(e):
            return tm.rmul(x, tm.rconst(Fraction(2) ** tm.sval(e)))
        return tm.rmul(x, tm.uf("pow2i", [e]))

    def unary(self, st, ty, n, x):
        ex = self.ex
        if ty.k == "vec":
            return tuple(self.unary(st, ty.el, n, v) for v in x)
        x = ex.use(x, ty)
        if n == "fabs":
            return self.fabs(st, ty, x)
        if ex.fm == "F":
            if n in ("sqrt", "floor", "ceil", "trunc", "round", "rint"):
                return tm.fop("f" + n, x)
            return tm.mk("uf:" + n, (x,), x.sort)
        return self.runary(st, n, x)

    def pilin(self, x):
        """x as q*pi + c for rationals (q, c), or None"""
        if x.op == "const":
            return (Fraction(0), x.args[0])
        if x is tm.PI:
            return (Fraction(1), Fraction(0))
        if x.op == "rneg":
            r = self.pilin(x.args[0])
            return (-r[0], -r[1]) if r else None
        if x.op == "rmul":
            a, b = self.pilin(x.args[0]), self.pilin(x.args[1])
            if a and b:
                if a[0] == 0:
                    return (b[0] * a[1], b[1] * a[1])
                if b[0] == 0:
                    return (a[0] * b[1], a[1] * b[1])
            return None
        if x.op == "radd":
            a, b = self.pilin(x.args[0]), self.pilin(x.args[1])
            if a and b:
                return (a[0] + b[0], a[1] + b[1])
        return None

    def trigconst(self, n, q):
        """sin/cos of q*pi when elementary"""
        if n == "cos":
            q = q + Fraction(1, 2)
        q = q % 2
        sg = 1
        if q >= 1:
            q -= 1
            sg = -1
        if q > Fraction(1, 2):
            q = 1 - q
        s2 = tm.rmul(tm.uf("sqrt", [tm.rconst(2)]), tm.rconst(Fraction(1, 2)))
        s3 = tm.rmul(tm.uf("sqrt", [tm.rconst(3)]), tm.rconst(Fraction(1, 2)))
        t = {Fraction(0): tm.R0, Fraction(1, 6): tm.rconst(Fraction(1, 2)), Fraction(1, 4): s2, Fraction(1, 3): s3, Fraction(1, 2): tm.R1}.get(q)
        if t is None:
            return None
        return t if sg > 0 else tm.rneg(t)

    def runary(self, st, n, x):
        ex = self.ex
        if x.spec:
            if x.op == "ite":
                return ite(x.args[0], self.runary(st, n, x.args[1]), self.runary(st, n, x.args[2]))
            if x is tm.NAN:
                return tm.NAN
            pos = x is tm.INF
            t = {"sqrt": tm.INF if pos else tm.NAN, "exp": tm.INF if pos else tm.R0, "log": tm.INF if pos else tm.NAN,
                 "floor": x, "ceil": x, "trunc": x, "round": x, "rint": x, "cbrt": x, "tanh": tm.R1 if pos else tm.rconst(-1),
                 "atan": tm.rmul(tm.PI, tm.rconst(Fraction(1 if pos else -1, 2))), "log10": tm.INF if pos else tm.NAN, "log2": tm.INF if pos else tm.NAN,
                 "cosh": tm.INF, "exp2": tm.INF if pos else tm.R0}.get(n, tm.NAN)
            return t
        if x.op == "ite" and n in ("sqrt", "exp", "sin", "cos") and x.args[1].op == "const" and x.args[2].op == "const":
            return ite(x.args[0], self.runary(st, n, x.args[1]), self.runary(st, n, x.args[2]))
        if n == "sqrt":
            if x.op == "const":
                v = x.args[0]
                if v < 0:
                    return tm.NAN
                p, q = math.isqrt(v.numerator), math.isqrt(v.denominator)
                if p * p == v.numerator and q * q == v.denominator:
                    return tm.rconst(Fraction(p, q))
                return tm.uf("sqrt", [x])
            self.domain(st, tm.rle(tm.R0, x), "square root of a negative number")
            return tm.uf("sqrt", [x])
        if n in ("floor", "ceil", "trunc", "round", "rint"):
            return self.rround(st, n, x)
        if n in ("sin", "cos"):
            l = self.pilin(x)
            if l and l[1] == 0:
                t = self.trigconst(n, l[0])
                if t is not None:
                    return t
            if x.op == "rneg":
                r = self.runary(st, n, x.args[0])
                return tm.rneg(r) if n == "sin" else r
            if x.op == "rmul" and any(a.op == "const" and a.args[0] < 0 for a in x.args):
                r = self.runary(st, n, tm.rneg_const(x))
                return tm.rneg(r) if n == "sin" else r
            if x.op == "uf:acos":
                y = x.args[0]
                if n == "cos":
                    return y
                return tm.uf("sqrt", [tm.rsub(tm.R1, tm.rmul(y, y))])
            if x.op == "rmul" and any(a.op == "uf:acos" for a in x.args) and any(a.op == "const" and a.args[0] == Fraction(1, 2) for a in x.args):
                y = [a for a in x.args if a.op == "uf:acos"][0].args[0]  # half the angle: in [0, pi/2]
                return tm.uf("sqrt", [tm.rmul(tm.rconst(Fraction(1, 2)), (tm.rsub if n == "sin" else tm.radd)(tm.R1, y))])
            if x.op == "uf:asin":
                y = x.args[0]
                if n == "sin":
                    return y
                return tm.uf("sqrt", [tm.rsub(tm.R1, tm.rmul(y, y))])
            if x.op in ("uf:atan", "uf:atan2"):
                y, z = (x.args[0], x.args[1]) if x.op == "uf:atan2" else (x.args[0], tm.R1)
                h = tm.uf("sqrt", [tm.radd(tm.rmul(y, y), tm.rmul(z, z))])
                return tm.rdiv(y if n == "sin" else z, h)
            return tm.uf(n, [x])
        if n == "tan":
            s, c = self.runary(st, "sin", x), self.runary(st, "cos", x)
            if not (c.op == "const" and c.args[0] != 0):
                nz = not_(tm.req(c, tm.R0))
                if x.op != "const":
                    ex.assumed.add("tan is not evaluated exactly at a pole")
                    ex.assume(st, nz)
            return tm.rdiv(s, c)
        if n == "acos":
            if x.op == "const":
                t = {Fraction(1): tm.R0, Fraction(0): tm.rmul(tm.PI, tm.rconst(Fraction(1, 2))), Fraction(-1): tm.PI, Fraction(1, 2): tm.rmul(tm.PI, tm.rconst(Fraction(1, 3)))}.get(x.args[0])
                if t is not None:
                    return t
            self.domain(st, and_(tm.rle(tm.rconst(-1), x), tm.rle(x, tm.R1)), "acos outside [-1,1]")
        if n == "asin":
            if x is tm.R0:
                return x
            self.domain(st, and_(tm.rle(tm.rconst(-1), x), tm.rle(x, tm.R1)), "asin outside [-1,1]")
        if n == "atan" and x is tm.R0:
            return x
        if n in ("exp", "exp2"):
            if x is tm.R0:
                return tm.R1
            if n == "exp2":
                if x.op == "const" and x.args[0].denominator == 1 and abs(x.args[0]) < 4096:
                    return tm.rconst(Fraction(2) ** int(x.args[0]))
                return tm.uf("exp2", [x])
            if x.op == "uf:log":
                return x.args[0]
        if n in ("log", "log2", "log10"):
            if x is tm.R1:
                return tm.R0
            if x.op == "const" and x.args[0] == 0:
                return tm.NINF
            self.domain(st, tm.rlt(tm.R0, x), "logarithm of a number that is not positive")
            if n == "log" and x.op == "uf:exp":
                return x.args[0]
            def log(x):
                if x.op == "uf:exp":
                    return x.args[0]
                if x.op == "uf:exp2":
                    return tm.rmul(x.args[0], tm.uf("log", [tm.rconst(2)]))
                if x.op == "uf:pow" and x.args[0].op == "const" and x.args[0].args[0] > 0:
                    return tm.rmul(x.args[1], tm.uf("log", [x.args[0]]))
                return tm.uf("log", [x])
            l = log(x)
            if n != "log":
                q = 10 if n == "log10" else 2
                if l.op == "rmul" and l.args[1].op == "uf:log" and l.args[1].args[0].op == "const" and l.args[1].args[0].args[0] == q:
                    return l.args[0]
                return tm.rdiv(l, tm.uf("log", [tm.rconst(q)]))
            return l
        if n in ("tanh", "sinh", "cbrt", "asinh", "atanh", "expm1", "log1p", "erf") and x is tm.R0:
            return x
        if n == "cosh" and x is tm.R0:
            return tm.R1
        if n == "acosh":
            self.domain(st, tm.rle(tm.R1, x), "acosh below 1")
        return tm.uf(n, [x])

    def domain(self, st, c, name):
        ex = self.ex
        if c is TRUE:
            return
        if "no-domain" in ex.opts:
            ex.assumed.add("arguments stay in the domain of sqrt, log, acos")
            return
        if c in st.pc:
            return
        ex.safety(st, c, name, "domain")

    def rround(self, st, n, x):
        W = 128
        if x.op == "const":
            v = x.args[0]
            f = math.floor(v)
            r = {"floor": f, "ceil": math.ceil(v), "trunc": math.trunc(v), "round": int(math.floor(abs(v) + Fraction(1, 2))) * (1 if v >= 0 else -1), "rint": round(v)}[n]
            return tm.rconst(r)
        if x.op == "i2r":
            return x
        ex = self.ex
        fl = lambda t: tm.i2r(ex.floor(st, t, W))
        if n == "floor":
            return fl(x)
        if n == "ceil":
            return tm.rneg(fl(tm.rneg(x)))
        h = tm.R0 if n == "trunc" else tm.rconst(Fraction(1, 2))
        if n == "rint":
            ex.assumed.add("rint rounds halves away from zero")
        g = ex.sign(st, x)
        if g is not None:
            return fl(tm.radd(x, h)) if g else tm.rneg(fl(tm.radd(tm.rneg(x), h)))
        return ite(tm.rle(tm.R0, x), fl(tm.radd(x, h)), tm.rneg(fl(tm.radd(tm.rneg(x), h))))

    def rfmod(self, st, a, b):
        # a - b*trunc(a/b)
        ex = self.ex
        q = tm.rdiv(a, b)
        return tm.rsub(a, tm.rmul(b, self.rround(st, "trunc", q)))

    def binary(self, st, ty, n, x, y):
        ex = self.ex
        if ty.k == "vec":
            return tuple(self.binary(st, ty.el, n, u, v) for u, v in zip(x, y))
        x, y = ex.use(x, ty), ex.use(y, ty)
        if n in ("fmin", "fmax"):
            a = ex.fcmp(st, "olt", ty, x, y)
            nx, ny = ex.fcmp(st, "uno", ty, x, x), ex.fcmp(st, "uno", ty, y, y)
            r = ite(a, x, y) if n == "fmin" else ite(a, y, x)
            if nx is FALSE and ny is FALSE:
                return r
            return ite(nx, y, ite(ny, x, r))
        if ex.fm == "F":
            return tm.mk("uf:" + n, (x, y), x.sort)
        if n == "copysign":
            s = self.rabs(st, x)
            c = tm.rle(tm.R0, y)
            ex.assumed.add("no negative zeros")
            d = ex.decided(st, c)
            if d is not None:
                return s if d else tm.rneg(s)
            return ite(c, s, tm.rneg(s))
        if n == "fmod":
            if not ex.entails_nz(st, y) and not (tm.is_const(y) and y.args[0] != 0):
                ex.safety(st, not_(tm.req(y, tm.R0)), "fmod by zero", "fdiv")
            return self.rfmod(st, x, y)
        if n == "hypot":
            return self.runary(st, "sqrt", tm.radd(tm.rmul(x, x), tm.rmul(y, y)))
        if n == "fdim":
            return ite(tm.rlt(y, x), tm.rsub(x, y), tm.R0)
        if n == "pow":
            if y.op == "const":
                e = y.args[0]
                if e.denominator == 1 and 0 <= e <= 8:
                    r = tm.R1
                    for _ in range(int(e)):
                        r = tm.rmul(r, x)
                    return r
                if e.denominator == 1 and -6 <= e < 0:
                    r = tm.R1
                    for _ in range(-int(e)):
                        r = tm.rmul(r, x)
                    if not (x.op == "const" and x.args[0] != 0):
                        ex.safety(st, not_(tm.req(x, tm.R0)), "floating division by zero", "fdiv")
                    return tm.rdiv(tm.R1, r)
                if e == Fraction(1, 2):
                    return self.runary(st, "sqrt", x)
            if y.spec or x.spec:
                raise ex.unsup("pow of a special value")
            if x.op == "const" and x.args[0] == 2:
                return tm.uf("exp2", [y])
            if x.op == "uf:pow" and x.args[1].op == "rdiv" and x.args[1].args[0] is tm.R1 and x.args[1].args[1] is y:
                return x.args[0]  # the root was taken of a number that is not negative
            self.domain(st, tm.rle(tm.R0, x), "pow of a negative base")
            return tm.uf("pow", [x, y])
        if n == "atan2":
            if x.spec or y.spec:
                raise ex.unsup("atan2 of a special value")
            if x is tm.R0 and y.op == "const" and y.args[0] > 0:
                return tm.R0
        return tm.uf(n, [x, y])

    # ------------------------------------------------------------ libstdc++
    def cxx(self, name, d):
        ex = self.ex
        from vexec import THROWERS
        for t, ti in THROWERS.items():
            if d.startswith(t + "("):
                def thr(st, I, a, ti=ti):
                    o = ex.newobj(st, 16, "heap", "exception")
                    p = ex.ptr(o.id)
                    ex.excs.append((p, ti))
                    return Control(ex.throw(st, p, ti))
                return thr
        if re.match(r"std::(runtime_error|logic_error|invalid_argument|out_of_range|length_error|domain_error|range_error|overflow_error|exception|bad_alloc)::~?\w+\(", d):
            fn = ex.m.fns.get(name)
            if fn is None or not fn.defined:
                return lambda st, I, a: None
        if re.match(r"(float|double) std::normal_distribution<(float|double)>::operator\(\)<", d):
            def normal(st, I, a):
                ex.assumed.add("std::normal_distribution returns an arbitrary number")
                return tm.fresh("normal", "R")
            return normal if ex.fm == "R" else None
        if re.match(r"(float|double) std::uniform_real_distribution<(float|double)>::operator\(\)<", d):
            def uniform(st, I, a):
                ex.assumed.add("std::uniform_real_distribution returns an arbitrary number of its range")
                ty = ir.FLOAT if d.startswith("float") else ir.DOUBLE
                lo = ex.load(st, ty, a[0])
                hi = ex.load(st, ty, ex.padd_ptr(a[0], tm.iconst(4 if d.startswith("float") else 8, 64)))
                r = tm.fresh("uniform", "R")
                ex.assume(st, and_(tm.rle(lo, r), tm.rlt(r, hi)))
                return r
            return uniform if ex.fm == "R" else None
        if re.match(r"std::mersenne_twister_engine<.*>::seed\(unsigned long\)", d):
            return lambda st, I, a: None
        fn = ex.m.fns.get(name)
        m = re.match(r"(?:void |.* )?(?:std::(?:__fill_a1|__fill_a|fill|__uninitialized_fill)<[^(]*)\(", d)
        if re.match(r"(__gnu_cxx::__enable_if<.*>::__type |void |.*)?std::__fill_a1<", d) and fn is not None and fn.defined:
            return lambda st, I, a: ex.loops.fill(st, I, a, fn)
        return None


class Control:
    def __init__(self, r):
        self.r = r


def Ptr_():
    from vexec import Ptr
    return Ptr
