"""Equality of real terms by normalisation: rational functions over atoms, modulo
sqrt(p)^2 = p, sin^2 + cos^2 = 1, angle addition, exp(a)exp(b) = exp(a+b), b^e laws, and the polynomial
equations among the hypotheses (unit vectors and definitions)."""
from fractions import Fraction
from math import gcd, isqrt
import time
import terms as tm
from terms import T


class TooBig(Exception):
    pass


LIMIT = 60000


class Poly(dict):
    pass


def pconst(c):
    return {(): Fraction(c)} if c else {}


def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    out = []
    i = j = 0
    while i < len(m1) and j < len(m2):
        a, b = m1[i], m2[j]
        if a[0] == b[0]:
            out.append((a[0], a[1] + b[1]))
            i += 1
            j += 1
        elif a[0] < b[0]:
            out.append(a)
            i += 1
        else:
            out.append(b)
            j += 1
    out.extend(m1[i:])
    out.extend(m2[j:])
    return tuple(out)


def pmul(a, b):
    if len(a) * len(b) > 4 * LIMIT:
        raise TooBig()
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = mmul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    if len(r) > LIMIT:
        raise TooBig()
    return r


def ppow(a, n):
    r = pconst(1)
    for _ in range(n):
        r = pmul(r, a)
    return r


def pscale(a, k):
    return {m: c * k for m, c in a.items()} if k else {}


ONE = {(): Fraction(1)}


def key(p):
    return tuple(sorted(p.items()))


class Frac:
    __slots__ = ("n", "d")

    def __init__(self, n, d=ONE):
        self.n, self.d = n, d


class Alg:
    def __init__(self, deadline=None):
        self.ids = {}      # atom key -> index
        self.info = []     # index -> (kind, data)
        self.memo = {}
        self.deadline = deadline or time.time() + 20
        self.units = {}    # base key -> unit for angles/exponents
        self.hyprules = {}  # atom index -> (exp, Frac replacing atom^exp)
        self.sq = {}       # sqrt atom index -> Frac

    def atom(self, k, kind=None, data=None):
        i = self.ids.get(k)
        if i is None:
            i = self.ids[k] = len(self.info)
            self.info.append((kind, data))
        return i

    def av(self, i, e=1):
        return {((i, e),): Fraction(1)}

    # ---------------------------------------------------------------- reduction
    def reduce(self, p):
        """Rewrite atom powers; returns a polynomial (cleared of denominators is not needed: rules are
        polynomial except sqrt of fractions, handled by Frac)."""
        f = self.reduce_frac(p)
        return f

    def reduce_frac(self, p):
        den = ONE
        guard = 0
        while True:
            guard += 1
            if guard > 400 or time.time() > self.deadline:
                raise TooBig()
            # highest atom index that can be rewritten
            best = -1
            for m in p:
                for a, e in m:
                    if a > best and self.rule_exp(a) is not None and e >= self.rule_exp(a):
                        best = a
            if best < 0:
                return p, den
            k = self.rule_exp(best)
            rep = self.rule(best)
            # split by power of best
            by = {}
            for m, c in p.items():
                e = 0
                rest = m
                for idx, (a, x) in enumerate(m):
                    if a == best:
                        e = x
                        rest = m[:idx] + m[idx + 1:]
                        break
                q, r = divmod(e, k)
                mm = mmul(rest, ((best, r),)) if r else rest
                by.setdefault(q, {})
                by[q][mm] = by[q].get(mm, 0) + c
            Q = max(by)
            acc = {}
            for q, poly in by.items():
                t = poly
                if q:
                    t = pmul(t, ppow(rep.n, q))
                if Q - q and rep.d != ONE:
                    t = pmul(t, ppow(rep.d, Q - q))
                acc = padd(acc, t)
            p = {m: c for m, c in acc.items() if c}
            if rep.d != ONE:
                den = pmul(den, ppow(rep.d, Q))

    def rule_exp(self, a):
        if a in self.hyprules:
            return self.hyprules[a][0]
        k = self.info[a][0]
        if k == "sqrt" or k == "sin":
            return 2
        if k == "cbrt":
            return 3
        return None

    def rule(self, a):
        if a in self.hyprules:
            return self.hyprules[a][1]
        k, d = self.info[a]
        if k in ("sqrt", "cbrt"):
            return d
        if k == "sin":  # sin^2 = 1 - cos^2
            return Frac(padd(pconst(1), self.av(d, 2), -1))

    # ---------------------------------------------------------------- fractions
    def fadd(self, a, b):
        if a.d == b.d:
            return Frac(padd(a.n, b.n), a.d)
        if a.d == ONE:
            return Frac(padd(pmul(a.n, b.d), b.n), b.d)
        if b.d == ONE:
            return Frac(padd(a.n, pmul(b.n, a.d)), a.d)
        return Frac(padd(pmul(a.n, b.d), pmul(b.n, a.d)), pmul(a.d, b.d))

    def fmul(self, a, b):
        n1, d1, n2, d2 = a.n, a.d, b.n, b.d
        if d2 != ONE and key(n1) == key(d2):
            n1, d2 = ONE, ONE
        if d1 != ONE and key(n2) == key(d1):
            n2, d1 = ONE, ONE
        return self.monocancel(Frac(pmul(n1, n2), pmul(d1, d2)))

    def monocancel(self, f):
        """cancel a common monomial factor"""
        if f.d == ONE or not f.n:
            return Frac(f.n, ONE) if not f.n else f
        if len(f.d) == 1:
            (m, c), = f.d.items()
            if c != 1:
                f = Frac(pscale(f.n, 1 / c), {m: Fraction(1)})
        common = None
        for p in (f.n, f.d):
            for m in p:
                dm = dict(m)
                if common is None:
                    common = dm
                else:
                    common = {a: min(e, dm[a]) for a, e in common.items() if a in dm}
                if not common:
                    return f
        def div(m):
            out = []
            for a, e in m:
                e -= common.get(a, 0)
                if e:
                    out.append((a, e))
            return tuple(out)
        return Frac({div(m): c for m, c in f.n.items()}, {div(m): c for m, c in f.d.items()})

    def tidy(self, f):
        n, dn = self.reduce_frac(f.n)
        d, dd = self.reduce_frac(f.d)
        if dn != ONE or dd != ONE:
            n, d = pmul(n, dd), pmul(d, dn)
        return self.monocancel(Frac(n, d))

    def fkey(self, f):
        f = self.tidy(f)
        if not f.n:
            return ((), ())
        # normalise the leading coefficient of the denominator
        lead = f.d[max(f.d)]
        return (key(pscale(f.n, 1 / lead)), key(pscale(f.d, 1 / lead)))

    # ---------------------------------------------------------------- terms
    def norm(self, t):
        st = [t]
        memo = self.memo
        while st:
            x = st[-1]
            if x.id in memo:
                st.pop()
                continue
            ch = [a for a in x.args if isinstance(a, T) and a.sort == "R"] if x.op in ("radd", "rneg", "rmul", "rdiv") or x.op.startswith("uf:") else []
            todo = [a for a in ch if a.id not in memo]
            if todo:
                st.extend(todo)
                continue
            if time.time() > self.deadline:
                raise TooBig()
            memo[x.id] = self.one(x)
            st.pop()
        return memo[t.id]

    def one(self, t):
        o = t.op
        g = lambda i: self.memo[t.args[i].id]
        if o == "const":
            return Frac(pconst(t.args[0]))
        if o == "var":
            return Frac(self.av(self.atom(("t", t.id), "var", t)))
        if o == "radd":
            return self.fadd(g(0), g(1))
        if o == "rneg":
            a = g(0)
            return Frac(pscale(a.n, -1), a.d)
        if o == "rmul":
            return self.fmul(g(0), g(1))
        if o == "rdiv":
            a, b = g(0), g(1)
            if not b.n:
                return Frac(self.av(self.atom(("t", t.id), "opaque", t)))
            return self.fmul(a, Frac(b.d, b.n))
        if o == "i2r":
            x = t.args[0]
            if x.op == "rfloor":
                k = ("floor", self.fkey(self.norm(x.args[0])))
                return Frac(self.av(self.atom(k, "opaque", t)))
            if x.op == "poly":
                r = Frac({})
                for m, c in x.args:
                    f = Frac(pconst(c))
                    for a in m:
                        f = self.fmul(f, self.norm(tm.i2r(a)))
                    r = self.fadd(r, f)
                return r
            return Frac(self.av(self.atom(("t", t.id), "opaque", t)))
        if o == "uf:sqrt":
            a = g(0)
            at = self.tidy(a)
            c = self.const(at)
            if c is not None and c >= 0:
                p, q = isqrt(c.numerator), isqrt(c.denominator)
                if p * p == c.numerator and q * q == c.denominator:
                    return Frac(pconst(Fraction(p, q)))
            k = self.fkey(at)
            # sqrt of a constant times a perfect square constant is left alone
            return Frac(self.av(self.atom(("sqrt", k), "sqrt", at)))
        if o == "uf:cbrt":
            a = self.tidy(g(0))
            return Frac(self.av(self.atom(("cbrt", self.fkey(a)), "cbrt", a)))
        if o in ("uf:sin", "uf:cos"):
            return self.trig(o[3:], self.tidy(g(0)), t)
        if o in ("uf:exp", "uf:exp2"):
            return self.expo(o[3:], (), self.tidy(g(0)))
        if o in ("uf:cosh", "uf:sinh"):
            e = self.expo("exp", (), self.tidy(g(0)))
            r = self.fadd(e, Frac(pscale(e.d, 1 if o == "uf:cosh" else -1), e.n))
            return Frac(pscale(r.n, Fraction(1, 2)), r.d)
        if o == "uf:pow":
            b = self.tidy(g(0))
            e = self.tidy(g(1))
            bk = self.fkey(b)
            # (x^e1)^e2 = x^(e1 e2) for a base that is itself one pow atom
            if b.d == ONE and len(b.n) == 1:
                (m, c), = b.n.items()
                if c == 1 and len(m) == 1 and self.info[m[0][0]][0] == "expo":
                    tag, bb, mono, unit = self.info[m[0][0]][1]
                    if tag == "pow" and mono == ():
                        e = Frac(pscale(e.n, unit * m[0][1]), e.d)
                        if e.d == ONE and e.n == pconst(1):
                            return self.powbase[bb]
                        return self.expo("pow", bb, e)
            if not hasattr(self, "powbase"):
                self.powbase = {}
            self.powbase[bk] = b
            if e.d == ONE and e.n == pconst(1):
                return b
            c = self.const(b)
            k = e.n.get((), 0) if e.d == ONE else 0
            if c is not None and c > 0 and k and k == int(k) and abs(k) <= 64:
                r = self.expo("pow", bk, Frac({m: x for m, x in e.n.items() if m != ()}))
                f = Fraction(c) ** int(k)
                return Frac(pscale(r.n, f), r.d)
            return self.expo("pow", bk, e)
        if o.startswith("uf:") and t.args and all(isinstance(a, T) and a.sort == "R" for a in t.args):
            k = (o,) + tuple(self.fkey(g(i)) for i in range(len(t.args)))
            return Frac(self.av(self.atom(k, "uf", t)))
        return Frac(self.av(self.atom(("t", t.id), "opaque", t)))

    def expo(self, tag, base, f):
        """tag^(f) as a product of atoms, one per monomial of f"""
        if f.d != ONE:
            return Frac(self.av(self.atom((tag, base, self.fkey(f)), "expo", (tag, base, self.fkey(f), Fraction(1)))))
        n, d = ONE, ONE
        for m, c in sorted(f.n.items()):
            # c*m with unit 1/q: E(m/q)^(p)
            q = self.units.get((tag, base, m))
            if q is None or c.denominator > 64:
                # remember exact coefficient: use coefficient 1/denominator as unit
                q = c.denominator
            p = c * q
            if p.denominator != 1 or abs(p) > 64:
                at = self.atom((tag, base, m, c), "expo", (tag, base, m, c))
                n = pmul(n, self.av(at))
                continue
            at = self.atom((tag, base, m, Fraction(1, q)), "expo", (tag, base, m, Fraction(1, q)))
            if tag == "exp" and len(m) == 1 and m[0][1] == 1 and at not in self.hyprules:
                # exp(log(x) / q)^q = x
                x = self.info[m[0][0]][1]
                if isinstance(x, T) and x.op in ("uf:log", "uf:acosh", "uf:asinh"):
                    y = self.tidy(self.norm(x.args[0]))
                    if x.op != "uf:log":
                        h = self.fmul(y, y)
                        h = self.tidy(self.fadd(h, Frac(pconst(1 if x.op == "uf:asinh" else -1))))
                        y = self.fadd(y, Frac(self.av(self.atom(("sqrt", self.fkey(h)), "sqrt", h))))
                    self.hyprules[at] = (q, y)
            if p > 0:
                n = pmul(n, self.av(at, int(p)))
            elif p < 0:
                d = pmul(d, self.av(at, int(-p)))
        return Frac(n, d)

    def trig(self, fn, f, t):
        if f.d != ONE or len(f.n) > 4:
            lead = None
            k = self.fkey(f)
            s = self.atom(("sin", k), "sin", None)
            c = self.atom(("cos", k), "cos", None)
            self.info[s] = ("sin", c)
            return Frac(self.av(s if fn == "sin" else c))
        S, C = {}, ONE
        for m, c in sorted(f.n.items()):
            s1, c1 = self.trig1(m, c)
            S, C = padd(pmul(S, c1), pmul(C, s1)), padd(pmul(C, c1), pmul(S, s1), -1)
        return Frac(S if fn == "sin" else C)

    def trig1(self, m, c):
        """sin and cos of c*m"""
        if len(m) == 1 and m[0][1] == 1 and self.info[m[0][0]][1] is tm.PI:
            h = c * 2
            if h.denominator == 1:
                r = int(h) % 4
                return [({}, ONE), (ONE, {}), ({}, pconst(-1)), (pconst(-1), {})][r]
            h = c * 3
            if h.denominator == 1:
                r3 = Frac(pconst(3))
                q3 = self.av(self.atom(("sqrt", self.fkey(r3)), "sqrt", r3))
                r, w = int(h) % 6, Fraction(1, 2)
                return (pscale(q3, w if r < 3 else -w), pconst(w if r in (1, 5) else -w)) # r is not 0 or 3
        q = self.units.get(("trig", m)) or c.denominator
        p = c * q
        if p.denominator != 1 or abs(p) > 12:
            q, p = None, None
        unit = Fraction(1, q) if q else abs(c)
        k = (m, unit)
        ca = self.atom(("cos", k), "cos", None)
        sa = self.atom(("sin", k), "sin", ca)
        self.info[sa] = ("sin", ca)
        x = self.info[m[0][0]][1] if len(m) == 1 and m[0][1] == 1 else None
        if isinstance(x, T) and x.op == "uf:acos" and unit == Fraction(1, 3) and ca not in self.hyprules:
            # 4 cos(a/3)^3 - 3 cos(a/3) = cos(a)
            y = self.tidy(self.norm(x.args[0]))
            y = self.fadd(y, Frac(pscale(self.av(ca), 3)))
            self.hyprules[ca] = (3, Frac(pscale(y.n, Fraction(1, 4)), y.d))
        n = abs(int(p)) if p is not None else 1
        s, co = {}, ONE
        s1, c1 = self.av(sa), self.av(ca)
        for _ in range(n):
            s, co = padd(pmul(s, c1), pmul(co, s1)), padd(pmul(co, c1), pmul(s, s1), -1)
        if c < 0:
            s = pscale(s, -1)
        return s, co

    def collect_units(self, roots):
        """Choose for every angle or exponent monomial a unit dividing all its coefficients."""
        lcm = {}
        for x in tm.walk(roots):
            if x.op in ("uf:sin", "uf:cos", "uf:exp", "uf:exp2", "uf:pow"):
                try:
                    arg = x.args[1] if x.op == "uf:pow" else x.args[0]
                    f = self.tidy(self.norm(arg))
                    tagbase = ("trig",) if x.op in ("uf:sin", "uf:cos") else (x.op[3:], self.fkey(self.norm(x.args[0])) if x.op == "uf:pow" else ())
                except TooBig:
                    continue
                if f.d != ONE:
                    continue
                for m, c in f.n.items():
                    k = tagbase + (m,)
                    q = lcm.get(k) or self.units.get(k, 1)
                    d = c.denominator
                    lcm[k] = q * d // gcd(q, d)
        new = dict(self.units)
        new.update({k: q for k, q in lcm.items() if q <= 64})
        if new != self.units:
            self.units = new
            self.memo = {}

    # ---------------------------------------------------------------- hypotheses
    def add_hyp(self, t):
        """t: req(a, b)"""
        a, b = self.norm(t.args[0]), self.norm(t.args[1])
        p = padd(pmul(a.n, b.d), pmul(b.n, a.d), -1)
        p, _ = self.reduce_frac(p)
        if not p or len(p) > 200:
            return
        # choose atom^e with a constant coefficient, not occurring elsewhere
        best = None
        for m, c in p.items():
            if len(m) != 1:
                continue
            at, e = m[0]
            if at in self.hyprules or e > 2:
                continue
            others = [x for mm in p if mm != m for x in mm if x[0] == at]
            if others:
                continue
            if e == 2 and self.info[at][0] == "sqrt":
                continue
            score = (e == 1 and self.info[at][0] == "var", e == 2, at)
            if best is None or score > best[0]:
                best = (score, at, e, c, m)
        if best is None:
            return
        _, at, e, c, m = best
        rest = {mm: -cc / c for mm, cc in p.items() if mm != m}
        # no cyclic rules
        used = {x[0] for mm in rest for x in mm}
        def reach(a, seen):
            if a == at:
                return True
            if a in seen:
                return False
            seen.add(a)
            if a in self.hyprules:
                return any(reach(x[0], seen) for mm in self.hyprules[a][1].n for x in mm)
            k, d = self.info[a]
            if k in ("sqrt", "cbrt"):
                return any(reach(x[0], seen) for mm in list(d.n) + list(d.d) for x in mm)
            return False
        if any(reach(u, set()) for u in used):
            return
        self.hyprules[at] = (e, Frac(rest))
        return True

    def iszero(self, f):
        p, _ = self.reduce_frac(f.n)
        return not p

    def const(self, f):
        """the constant value of f, or None"""
        f = self.tidy(f)
        if not f.n:
            return Fraction(0)
        if set(f.n) == {()} and set(f.d) == {()}:
            return f.n[()] / f.d[()]
        # n = c*d ?
        m0 = max(f.d)
        if m0 in f.n:
            c = f.n[m0] / f.d[m0]
            if not padd(f.n, pscale(f.d, c), -1):
                return c
        return None


_cache = {}


def get(hyps, roots, budget):
    """An Alg whose rules come from hyps, with units fine enough for roots."""
    k = tuple(h.id for h in hyps)
    A = _cache.get(k)
    if A is None:
        if len(_cache) > 24:
            _cache.clear()
        A = Alg(time.time() + budget)
        A.roots = list(hyps)
        fresh = True
    else:
        fresh = False
        A.deadline = time.time() + budget
    trans = [r for r in roots if any(x.op in ("uf:sin", "uf:cos", "uf:exp", "uf:exp2", "uf:pow", "uf:cosh", "uf:sinh") for x in tm.walk([r]))]
    new = [r for r in trans if r not in A.roots]
    if fresh or new:
        old = dict(A.units)
        allroots = A.roots + new
        B = A if fresh else Alg(A.deadline)
        B.roots = allroots
        B.units = old
        B.collect_units(allroots)
        if fresh or B.units != old:
            A = B
            for h in hyps:
                A.add_hyp(h)
            _cache[k] = A
        else:
            A.roots = allroots
    return A


def hyps_of(pc):
    return tuple(x for x in pc if x.op == "req")


def prove_eq(pc, goal, budget=10.0):
    """goal: req(a,b) or rle(a,b) (decided only when the difference is constant)."""
    try:
        A = get(hyps_of(pc), [goal], budget)
        a, b = A.norm(goal.args[0]), A.norm(goal.args[1])
        d = A.fadd(a, Frac(pscale(b.n, -1), b.d))
        if goal.op == "req":
            return A.iszero(d)
        c = A.const(d)
        return c is not None and c <= 0
    except (TooBig, RecursionError):
        return False


_dmemo = {}


def decide_literals(pc, c, budget=3.0):
    """Replace real comparisons in c whose two sides differ by a constant by their truth value."""
    if c.op == "const":
        return c
    hyps = hyps_of(pc)
    k = (tuple(h.id for h in hyps), c.id)
    r = _dmemo.get(k)
    if r is not None:
        return r
    m = {}
    lits = []
    for x in tm.walk([c]):
        if x.op in ("rle", "req"):
            n = 0
            for y in tm.walk([x]):
                n += 1
                if y.op == "ite" or n > 4000:
                    n = 0
                    break
            if n > 6:
                lits.append(x)
    if lits:
        try:
            A = get(hyps, lits, budget)
            for l in lits:
                a, b = A.norm(l.args[0]), A.norm(l.args[1])
                d = A.const(A.fadd(a, Frac(pscale(b.n, -1), b.d)))
                if d is not None:
                    m[l] = tm.bconst(d <= 0 if l.op == "rle" else d == 0)
        except (TooBig, RecursionError):
            pass
    r = tm.subst(c, m) if m else c
    _dmemo[k] = r
    return r


def rebuild(A, d):
    """The polynomial d as a term, or None when an atom is not a term of its own."""
    t = tm.R0
    for m in sorted(d):
        p = tm.rconst(d[m])
        for i, e in m:
            kind, x = A.info[i]
            if kind not in ("var", "opaque") or e != int(e) or e < 1 or e > 8:
                return None
            for _ in range(int(e)):
                p = tm.rmul(p, x)
        t = tm.radd(t, p)
    return t


def canon(pc, c, budget=5.0):
    """Bring the real comparisons in c to the form polynomial <= 0."""
    hyps = hyps_of(pc)
    m = {}
    lits = [x for x in tm.walk([c]) if x.op in ("rle", "req")]
    if not lits or len(lits) > 40:
        return c
    try:
        A = get(hyps, lits, budget)
        fl = {}
        for x in tm.walk([c]):
            if x.op == "rfloor":
                f = A.tidy(A.norm(x.args[0]))
                if len(f.d) == 1 and () in f.d:
                    t = rebuild(A, pscale(f.n, 1 / f.d[()]))
                    if t is not None and t is not x.args[0]:
                        fl[x] = tm.rfloor(t, x.sort[1])
        if fl:
            c = tm.subst(c, fl)
            lits = [x for x in tm.walk([c]) if x.op in ("rle", "req")]
        for l in lits:
            a, b = A.norm(l.args[0]), A.norm(l.args[1])
            f = A.tidy(A.fadd(a, Frac(pscale(b.n, -1), b.d)))
            if len(f.d) != 1 or () not in f.d or f.d[()] <= 0:
                continue
            t = rebuild(A, f.n)
            if t is not None:
                m[l] = tm.rle(t, tm.R0) if l.op == "rle" else tm.req(t, tm.R0)
    except (TooBig, RecursionError):
        return c
    return tm.subst(c, m) if m else c
