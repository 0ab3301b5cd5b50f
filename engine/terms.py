"""Hash-consed terms and their translation to z3.

Sorts: 'B' bool; ('i',w) LLVM integer of width w; 'R' mathematical real; ('f',32|64) IEEE float;
('a', elem) array indexed by an unbounded integer / 64-bit vector.

Integers have two theories, chosen per contract:
  INT  unbounded integers; every operation is exact or is wrapped explicitly, so the LLVM value is
       always represented (canonical range: signed for i32/i64/i128, unsigned for i8/i16).
  BV   bit-vectors.
"""
from fractions import Fraction
import z3

_tab = {}
_next = [0]


class T:
    __slots__ = ("op", "args", "sort", "id", "lo", "hi", "spec", "__weakref__")

    def __hash__(self):
        return self.id

    def __repr__(self):
        return pretty(self)

    def __bool__(self):
        raise TypeError("symbolic term used as a Python bool")


def mk(op, args, sort):
    key = (op, args, sort)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.sort = sort
        t.id = _next[0]
        t.lo = t.hi = None
        t.spec = False
        _next[0] += 1
        if op == "spec" or (sort == "R" and op == "ite" and (args[1].spec or args[2].spec)):
            t.spec = True
        _tab[key] = t
    return t


def pretty(t, d=0):
    if d > 6:
        return "…"
    if t.op == "const":
        return str(t.args[0])
    if t.op == "var":
        return t.args[0]
    if t.op == "poly":
        out = []
        for m, c in t.args:
            out.append("*".join([str(c)] + [pretty(a, d + 1) for a in m]))
        return "(" + " + ".join(out) + ")"
    return "(%s %s)" % (t.op, " ".join(pretty(a, d + 1) if isinstance(a, T) else str(a) for a in t.args))


# ---------------------------------------------------------------- booleans
TRUE = mk("const", (True,), "B")
FALSE = mk("const", (False,), "B")


def bconst(b):
    return TRUE if b else FALSE


def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    return mk("not", (a,), "B")


def and_(*xs):
    out = []
    for x in xs:
        if x is TRUE:
            continue
        if x is FALSE:
            return FALSE
        if x.op == "and":
            for y in x.args:
                if y not in out:
                    out.append(y)
        elif x not in out:
            out.append(x)
    for x in out:
        if x.op == "not" and x.args[0] in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk("and", tuple(out), "B")


def or_(*xs):
    out = []
    for x in xs:
        if x is FALSE:
            continue
        if x is TRUE:
            return TRUE
        if x.op == "or":
            for y in x.args:
                if y not in out:
                    out.append(y)
        elif x not in out:
            out.append(x)
    for x in out:
        if x.op == "not" and x.args[0] in out:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return mk("or", tuple(out), "B")


def implies(a, b):
    return or_(not_(a), b)


def iff(a, b):
    if a is b:
        return TRUE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is FALSE:
        return not_(b)
    if b is FALSE:
        return not_(a)
    return mk("iff", (a, b), "B")


def xor_(a, b):
    return not_(iff(a, b))


def ite(c, a, b):
    if a is b or c is TRUE:
        return a
    if c is FALSE:
        return b
    if a.sort == "B":
        if a is TRUE:
            return or_(c, b)
        if a is FALSE:
            return and_(not_(c), b)
        if b is TRUE:
            return or_(not_(c), a)
        if b is FALSE:
            return and_(c, a)
    if c.op == "not":
        return ite(c.args[0], b, a)
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    t = mk("ite", (c, a, b), a.sort)
    if a.lo is not None and b.lo is not None:
        t.lo = min(a.lo, b.lo)
    if a.hi is not None and b.hi is not None:
        t.hi = max(a.hi, b.hi)
    return t


def var(name, sort):
    t = mk("var", (name,), sort)
    if isinstance(sort, tuple) and sort[0] == "i" and t.lo is None:
        t.lo, t.hi = canon_range(sort[1])
    return t


_fresh = [0]


def fresh(prefix, sort):
    _fresh[0] += 1
    return var("%s!%d" % (prefix, _fresh[0]), sort)


# ---------------------------------------------------------------- integers
MODE = ["INT"]  # or "BV"


def canon_range(w):
    if w in (8, 16):
        return 0, (1 << w) - 1
    return -(1 << (w - 1)), (1 << (w - 1)) - 1


def canon(v, w):
    v &= (1 << w) - 1
    if w not in (8, 16) and v >> (w - 1):
        v -= 1 << w
    return v


def iconst(v, w):
    if w == 1:
        return bconst(v & 1)
    v = canon(v, w)
    t = mk("const", (v,), ("i", w))
    t.lo = t.hi = v
    return t


def is_const(t):
    return t.op == "const"


def cval(t):
    return t.args[0]


def uval(t):
    return t.args[0] & ((1 << t.sort[1]) - 1)


def sval(t):
    v = uval(t)
    w = t.sort[1]
    return v - (1 << w) if v >> (w - 1) else v


# polynomial normal form for INT mode: dict monomial(tuple of atom terms sorted by id) -> int
def _poly(t):
    if t.op == "const":
        return {(): t.args[0]} if t.args[0] else {}
    if t.op == "poly":
        return dict(t.args)
    return {(t,): 1}


def _frompoly(p, w):
    p = {m: c for m, c in p.items() if c}
    if not p:
        return rawconst(0, w)
    if len(p) == 1:
        (m, c), = p.items()
        if m == ():
            return rawconst(c, w)
        if len(m) == 1 and c == 1 and m[0].sort == ("i", w):
            return m[0]
    items = tuple(sorted(p.items(), key=lambda kv: tuple(a.id for a in kv[0])))
    t = mk("poly", items, ("i", w))
    if t.lo is None:
        lo = hi = 0
        for m, c in items:
            mlo, mhi = _monorange(m)
            if mlo is None:
                lo = hi = None
                break
            lo += min(c * mlo, c * mhi)
            hi += max(c * mlo, c * mhi)
        t.lo, t.hi = lo, hi
    return t


def _monorange(m):
    lo, hi = 1, 1
    for a in m:
        if a.lo is None or a.hi is None:
            return None, None
        c = [lo * a.lo, lo * a.hi, hi * a.lo, hi * a.hi]
        lo, hi = min(c), max(c)
    return lo, hi


def rawconst(v, w):
    """A constant that may lie outside the canonical range (exact intermediate results)."""
    t = mk("const", (v,), ("i", w))
    t.lo = t.hi = v
    return t


def padd(a, b, w):
    p = _poly(a)
    for m, c in _poly(b).items():
        p[m] = p.get(m, 0) + c
    return _frompoly(p, w)


def pneg(a, w):
    return _frompoly({m: -c for m, c in _poly(a).items()}, w)


def psub(a, b, w):
    return padd(a, pneg(b, w), w)


def pmul(a, b, w):
    pa, pb = _poly(a), _poly(b)
    r = {}
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = tuple(sorted(m1 + m2, key=lambda x: x.id))
            r[m] = r.get(m, 0) + c1 * c2
    return _frompoly(r, w)


def pscale(a, k, w):
    return _frompoly({m: c * k for m, c in _poly(a).items()}, w)


def pwidth(t, w):
    """Same mathematical value at another width."""
    if t.sort == ("i", w):
        return t
    if t.op == "const":
        return rawconst(t.args[0], w)
    if t.op == "poly":
        r = mk("poly", t.args, ("i", w))
        r.lo, r.hi = t.lo, t.hi
        return r
    return _frompolykeep({(t,): 1}, w)


def _frompolykeep(p, w):
    items = tuple(sorted(p.items(), key=lambda kv: tuple(a.id for a in kv[0])))
    t = mk("poly", items, ("i", w))
    t.lo, t.hi = _monorange(items[0][0]) if len(items) == 1 and items[0][1] == 1 else (None, None)
    return t


def ile(a, b):
    if a.op == "const" and b.op == "const":
        return bconst(a.args[0] <= b.args[0])
    if a.hi is not None and b.lo is not None and a.hi <= b.lo:
        return TRUE
    if a.lo is not None and b.hi is not None and a.lo > b.hi:
        return FALSE
    d = psub(a, b, 64)
    if d.op == "const":
        return bconst(d.args[0] <= 0)
    if d.hi is not None and d.hi <= 0:
        return TRUE
    if d.lo is not None and d.lo > 0:
        return FALSE
    return mk("ile", (a, b), "B")


def ilt(a, b):
    return not_(ile(b, a))


def ieq(a, b):
    if a is b:
        return TRUE
    if a.op == "const" and b.op == "const":
        return bconst(a.args[0] == b.args[0])
    if a.lo is not None and b.hi is not None and (a.lo > b.hi or (a.hi is not None and b.lo is not None and a.hi < b.lo)):
        return FALSE
    d = psub(a, b, 64)
    if d.op == "const":
        return bconst(d.args[0] == 0)
    if d.lo is not None and (d.lo > 0 or d.hi < 0):
        return FALSE
    # eq against an ite of constants
    for x, y in ((a, b), (b, a)):
        if x.op == "ite" and y.op == "const" and x.args[1].op == "const" and x.args[2].op == "const":
            return or_(and_(x.args[0], ieq(x.args[1], y)), and_(not_(x.args[0]), ieq(x.args[2], y)))
    if a.id > b.id:
        a, b = b, a
    return mk("ieq", (a, b), "B")


def iexact(op, a, b, w, lo=None, hi=None):
    """Division and remainder with mathematical (floor) meaning, b > 0 constant or term."""
    if a.op == "const" and b.op == "const" and b.args[0] != 0:
        x, y = a.args[0], b.args[0]
        return rawconst(x // y if op == "idiv" else x % y, w)
    t = mk(op, (a, b), ("i", w))
    if t.lo is None:
        if b.op == "const" and b.args[0] > 0:
            k = b.args[0]
            if op == "imod":
                t.lo, t.hi = 0, k - 1
                if a.lo is not None and a.lo >= 0 and a.hi is not None and a.hi < k:
                    return a
            elif a.lo is not None:
                t.lo, t.hi = a.lo // k, a.hi // k
        elif op == "idiv" and a.lo is not None and a.lo >= 0 and b.lo is not None and b.lo >= 0:
            t.lo, t.hi = 0, a.hi
        elif op == "imod" and b.lo is not None and b.lo >= 0:
            t.lo, t.hi = 0, b.hi
    return t


def divexact(a, k, w):
    """a / k when every coefficient of the normal form is a multiple of k, else None."""
    p = _poly(a)
    if all(c % k == 0 for c in p.values()):
        return _frompoly({m: c // k for m, c in p.items()}, w)
    return None


# ---------------------------------------------------------------- reals
def rconst(v):
    v = Fraction(v)
    return mk("const", (v,), "R")


R0 = rconst(0)
R1 = rconst(1)
PI = mk("var", ("pi",), "R")
INF = mk("spec", ("inf",), "R")
NINF = mk("spec", ("-inf",), "R")
NAN = mk("spec", ("nan",), "R")


def _lift(f, a, b):
    """Distribute a binary function over ite nodes that hide inf/nan."""
    if a.spec and a.op == "ite":
        return ite(a.args[0], f(a.args[1], b), f(a.args[2], b))
    if b.spec and b.op == "ite":
        return ite(b.args[0], f(a, b.args[1]), f(a, b.args[2]))
    return None


def _sgnspec(t):
    return {"inf": 1, "-inf": -1}.get(t.args[0])


def radd(a, b):
    if a.spec or b.spec:
        r = _lift(radd, a, b)
        if r is not None:
            return r
        if NAN in (a, b):
            return NAN
        if a.op == "spec" and b.op == "spec":
            return a if a is b else NAN
        return a if a.op == "spec" else b
    if a.op == "const" and b.op == "const":
        return rconst(a.args[0] + b.args[0])
    if a is R0:
        return b
    if b is R0:
        return a
    if (a.op == "rneg" and a.args[0] is b) or (b.op == "rneg" and b.args[0] is a):
        return R0
    if a.id > b.id:
        a, b = b, a
    return mk("radd", (a, b), "R")


def rneg(a):
    if a.spec:
        if a.op == "ite":
            return ite(a.args[0], rneg(a.args[1]), rneg(a.args[2]))
        return {INF: NINF, NINF: INF, NAN: NAN}[a]
    if a.op == "const":
        return rconst(-a.args[0])
    if a.op == "rneg":
        return a.args[0]
    return mk("rneg", (a,), "R")


def rsub(a, b):
    return radd(a, rneg(b))


def rmul(a, b):
    if a.spec or b.spec:
        r = _lift(rmul, a, b)
        if r is not None:
            return r
        if NAN in (a, b):
            return NAN
        if a.op == "spec" and b.op == "spec":
            return INF if _sgnspec(a) * _sgnspec(b) > 0 else NINF
        s, o = (a, b) if a.op == "spec" else (b, a)
        return ite(req(o, R0), NAN, ite(rlt(o, R0), rneg(s), s))
    if a.op == "const" and b.op == "const":
        return rconst(a.args[0] * b.args[0])
    if a.op == "const":
        a, b = b, a
    if b.op == "const":
        k = b.args[0]
        if k == 0:
            return R0
        if k == 1:
            return a
        if k == -1:
            return rneg(a)
    if a.op == "rneg" and b.op == "rneg":
        return rmul(a.args[0], b.args[0])
    if a.op == "rneg":
        return rneg(rmul(a.args[0], b))
    if b.op == "rneg":
        return rneg(rmul(a, b.args[0]))
    if a.id > b.id:
        a, b = b, a
    return mk("rmul", (a, b), "R")


def rdiv(a, b):
    if a.spec or b.spec:
        r = _lift(rdiv, a, b)
        if r is not None:
            return r
        if NAN in (a, b):
            return NAN
        if b.op == "spec":
            return NAN if a.op == "spec" else R0
        return ite(rlt(b, R0), rneg(a), a)
    if b.op == "const" and b.args[0] != 0:
        return rmul(a, rconst(1 / b.args[0]))
    if a is R0:
        return R0  # 0/x with x != 0; x == 0 is excluded by a separate obligation
    if b.op == "rneg":
        return rneg(rdiv(a, b.args[0]))
    if a.op == "rneg":
        return rneg(rdiv(a.args[0], b))
    if a is b:
        return R1
    return mk("rdiv", (a, b), "R")


def rle(a, b):
    if a.spec or b.spec:
        r = _lift(rle, a, b)
        if r is not None:
            return r
        if NAN in (a, b):
            return FALSE
        if a.op == "spec" and b.op == "spec":
            return bconst(_sgnspec(a) <= _sgnspec(b))
        if a.op == "spec":
            return bconst(a is NINF)
        return bconst(b is INF)
    if a.op == "const" and b.op == "const":
        return bconst(a.args[0] <= b.args[0])
    if a is b:
        return TRUE
    return mk("rle", (a, b), "B")


def rlt(a, b):
    if a.spec or b.spec:
        r = _lift(rlt, a, b)
        if r is not None:
            return r
        if NAN in (a, b):
            return FALSE
        if a.op == "spec" and b.op == "spec":
            return bconst(_sgnspec(a) < _sgnspec(b))
        if a.op == "spec":
            return bconst(a is NINF)
        return bconst(b is INF)
    return not_(rle(b, a))


def req(a, b):
    if a.spec or b.spec:
        r = _lift(req, a, b)
        if r is not None:
            return r
        if NAN in (a, b):
            return FALSE
        return bconst(a is b)
    if a is b:
        return TRUE
    if a.op == "const" and b.op == "const":
        return bconst(a.args[0] == b.args[0])
    if a.id > b.id:
        a, b = b, a
    return mk("req", (a, b), "B")


def risnan(a):
    if not a.spec:
        return FALSE
    if a.op == "ite":
        return ite(a.args[0], risnan(a.args[1]), risnan(a.args[2]))
    return bconst(a is NAN)


def risinf(a):
    if not a.spec:
        return FALSE
    if a.op == "ite":
        return ite(a.args[0], risinf(a.args[1]), risinf(a.args[2]))
    return bconst(a in (INF, NINF))


def i2r(t):
    if t.op == "const":
        return rconst(t.args[0])
    return mk("i2r", (t,), "R")


def rfloor(a, w):
    """floor as an integer term of width w (exact, not wrapped)."""
    if a.op == "const":
        return rawconst(a.args[0].__floor__(), w)
    if a.op == "i2r":
        return pwidth(a.args[0], w)
    return mk("rfloor", (a,), ("i", w))


def uf(name, args, sort="R"):
    return mk("uf:" + name, tuple(args), sort)


def polydivmod(a, s):
    """(q, r) with a = s*q + r, read off the normal form; None when s is not a single monomial"""
    ps = _poly(s)
    if len(ps) != 1:
        # several monomials (a row of 2*half + 1 pixels): divide by the longest one that occurs once
        lead = max(ps, key=lambda m: (len(m), ps[m] > 0, m))
        if lead == () or sum(len(m) == len(lead) for m in ps) > 1:
            return None
        q, r = rawconst(0, 64), a
        for _ in range(16):
            for m, c in sorted(_poly(r).items(), key=lambda e: -len(e[0])):
                rest = list(m)
                if c % ps[lead]:
                    continue
                try:
                    for x in lead:
                        rest.remove(x)
                except ValueError:
                    continue
                t = _frompoly({tuple(rest): c // ps[lead]}, 64)
                q, r = padd(q, t, 64), psub(r, pmul(s, t, 64), 64)
                break
            else:
                return q, r
        return None
    (ms, cs), = ps.items()
    q, r = {}, {}
    for m, c in _poly(a).items():
        rest = list(m)
        ok = c % cs == 0
        for x in ms:
            if x in rest:
                rest.remove(x)
            else:
                ok = False
        if ms == () and m == ():
            # constant row length: split the constant
            q[()] = q.get((), 0) + c // cs
            r[()] = c % cs
        elif ok:
            q[tuple(rest)] = q.get(tuple(rest), 0) + c // cs
        else:
            r[m] = c
    return _frompoly(q, 64), _frompoly(r, 64)


# ---------------------------------------------------------------- arrays
def select(arr, idx):
    while True:
        if arr.op == "store":
            e = ieq(arr.args[1], idx) if MODE[0] == "INT" else bveq(arr.args[1], idx)
            if e is TRUE:
                return arr.args[2]
            if e is FALSE:
                arr = arr.args[0]
                continue
            return ite(e, arr.args[2], select(arr.args[0], idx))
        if arr.op == "K":
            return arr.args[0]
        if arr.op == "ite":
            return ite(arr.args[0], select(arr.args[1], idx), select(arr.args[2], idx))
        if arr.op == "map":  # i0 <= idx < i0 + n: element v with the bound variable at idx - i0
            i0, n, bv, v, rest = arr.args
            inn = and_(ile(i0, idx), ilt(idx, padd(i0, n, 64)))
            x = subst(v, {bv: psub(idx, i0, 64)}) if inn is not FALSE else None
            return ite(inn, x, select(rest, idx)) if x is not None else select(rest, idx)
        if arr.op == "map2":  # i0 + s*y + x with 0 <= y < k, 0 <= x < s: element v with the bound variables at y, x
            i0, k, s, by, bx, v, rest = arr.args
            d = psub(idx, i0, 64)
            qr = polydivmod(d, s)
            if qr is None:
                break
            q, r = qr
            z = rawconst(0, 64)
            inn = and_(ile(z, q), ilt(q, k), ile(z, r), ilt(r, s))
            if inn is FALSE:
                break
            x = subst(v, {by: q, bx: r})
            if inn is TRUE:
                return x
            out = or_(ilt(d, z), ile(pmul(s, k, 64), d))
            return ite(inn, x, ite(out, select(rest, idx), mk("select", (arr, idx), arr.sort[1])))
        if arr.op == "lam":  # (cond-builder) region copy: lo, n, src array, shift, rest
            lo, n, src, shift, rest = arr.args
            inn = and_(ile(lo, idx), ilt(idx, padd(lo, n, 64)))
            return ite(inn, select(src, padd(idx, shift, 64)) if inn is not FALSE else select(rest, idx),
                       select(rest, idx) if inn is not TRUE else select(src, padd(idx, shift, 64)))
        break
    t = mk("select", (arr, idx), arr.sort[1])
    if isinstance(t.sort, tuple) and t.sort[0] == "i" and t.lo is None:
        t.lo, t.hi = canon_range(t.sort[1])
    return t


def store(arr, idx, v):
    if arr.op == "store" and arr.args[1] is idx:
        arr = arr.args[0]
    return mk("store", (arr, idx, v), arr.sort)


def karray(v):
    return mk("K", (v,), ("a", v.sort))


# ---------------------------------------------------------------- bit-vectors
def bveq(a, b):
    if a is b:
        return TRUE
    if a.op == "const" and b.op == "const":
        return bconst(a.args[0] == b.args[0])
    if a.id > b.id:
        a, b = b, a
    return mk("bveq", (a, b), "B")


def bvop(op, a, b):
    w = a.sort[1]
    if a.op == "const" and b.op == "const":
        x, y, sx, sy = uval(a), uval(b), sval(a), sval(b)
        f = {
            "bvadd": lambda: x + y, "bvsub": lambda: x - y, "bvmul": lambda: x * y,
            "bvand": lambda: x & y, "bvor": lambda: x | y, "bvxor": lambda: x ^ y,
            "bvshl": lambda: x << y if y < w else 0, "bvlshr": lambda: x >> y if y < w else 0,
            "bvashr": lambda: sx >> min(y, w - 1),
            "bvudiv": lambda: x // y if y else (1 << w) - 1, "bvurem": lambda: x % y if y else x,
            "bvsdiv": lambda: (abs(sx) // abs(sy) * (1 if (sx < 0) == (sy < 0) else -1)) if sy else 0,
            "bvsrem": lambda: (abs(sx) % abs(sy) * (1 if sx >= 0 else -1)) if sy else sx,
        }.get(op)
        if f:
            return iconst(f(), w)
    if op in ("bvadd", "bvor", "bvxor", "bvshl", "bvlshr", "bvashr", "bvsub") and b.op == "const" and uval(b) == 0:
        return a
    if op in ("bvadd", "bvor", "bvxor") and a.op == "const" and uval(a) == 0:
        return b
    if op == "bvadd" and b.op == "const" and a.op == "bvadd" and a.args[1].op == "const":
        return bvop("bvadd", a.args[0], bvop("bvadd", a.args[1], b))
    if op == "bvmul":
        for x, y in ((a, b), (b, a)):
            if y.op == "const" and uval(y) == 1:
                return x
            if y.op == "const" and uval(y) == 0:
                return y
    if op == "bvand":
        for x, y in ((a, b), (b, a)):
            if y.op == "const" and uval(y) == 0:
                return y
            if y.op == "const" and uval(y) == (1 << w) - 1:
                return x
    if op == "bvsub" and a is b:
        return iconst(0, w)
    return mk(op, (a, b), a.sort)


def bvcmp(op, a, b):
    if a.op == "const" and b.op == "const":
        x, y = (uval(a), uval(b)) if op[2] == "u" else (sval(a), sval(b))
        return bconst({"lt": x < y, "le": x <= y}[op[3:]])
    if a is b:
        return bconst(op.endswith("le"))
    return mk(op, (a, b), "B")


def bvext(op, a, w):
    if a.sort[1] == w:
        return a
    if a.op == "const":
        return iconst(uval(a) if op == "zext" else sval(a), w)
    return mk(op, (a, w), ("i", w))


def bvextract(a, lo, w):
    if a.op == "const":
        return iconst(uval(a) >> lo, w)
    if lo == 0 and a.sort[1] == w:
        return a
    if a.op in ("zext", "sext") and lo == 0 and a.args[0].sort[1] == w:
        return a.args[0]
    if a.op == "concat":
        hi, l = a.args
        lw = l.sort[1]
        if lo + w <= lw:
            return bvextract(l, lo, w)
        if lo >= lw:
            return bvextract(hi, lo - lw, w)
    return mk("extract", (a, lo, w), ("i", w))


def bvconcat(hi, lo):
    w = hi.sort[1] + lo.sort[1]
    if hi.op == "const" and lo.op == "const":
        return iconst((uval(hi) << lo.sort[1]) | uval(lo), w)
    if hi.op == "extract" and lo.op == "extract" and hi.args[0] is lo.args[0] and hi.args[1] == lo.args[1] + lo.args[2]:
        return bvextract(hi.args[0], lo.args[1], w)
    return mk("concat", (hi, lo), ("i", w))


# ---------------------------------------------------------------- IEEE floats
def fconst(bits, w):
    return mk("const", (bits,), ("f", w))


def fop(op, *a, sort=None):
    return mk(op, tuple(a), sort or a[0].sort)


# ---------------------------------------------------------------- traversal
def walk(roots):
    seen = set()
    st = list(roots)
    while st:
        t = st.pop()
        if t.id in seen:
            continue
        seen.add(t.id)
        yield t
        for a in t.args:
            if isinstance(a, T):
                st.append(a)
            elif t.op == "poly":
                st.extend(a[0])


def subst(t, m, memo=None):
    """Replace terms by terms (dict T -> T), rebuilding with simplification."""
    if memo is None:
        memo = {}
    r = m.get(t)
    if r is not None:
        return r
    r = memo.get(t)
    if r is not None:
        return r
    if t.op in ("const", "var", "spec"):
        return t
    if t.op == "poly":
        acc = rawconst(0, t.sort[1])
        for mono, c in t.args:
            p = rawconst(c, t.sort[1])
            for a in mono:
                p = pmul(p, subst(a, m, memo), t.sort[1])
            acc = padd(acc, p, t.sort[1])
        r = acc
    else:
        na = tuple(subst(a, m, memo) if isinstance(a, T) else a for a in t.args)
        r = rebuild(t, na) if any(x is not y for x, y in zip(na, t.args)) else t
    memo[t] = r
    return r


def rebuild(t, a):
    o = t.op
    f = {"not": not_, "iff": iff, "ite": ite, "ile": ile, "ieq": ieq, "radd": radd, "rneg": rneg, "rmul": rmul,
         "rdiv": rdiv, "rle": rle, "req": req, "and": and_, "or": or_, "i2r": i2r, "select": select}.get(o)
    if f:
        return f(*a)
    if o in ("idiv", "imod"):
        return iexact(o, a[0], a[1], t.sort[1])
    if o == "rfloor":
        return rfloor(a[0], t.sort[1])
    r = mk(o, a, t.sort)
    r.lo, r.hi = t.lo, t.hi
    return r


# ---------------------------------------------------------------- z3 emission
class Z:
    """Translates terms to z3; collects the axioms the atoms need."""

    def __init__(self, mode):
        self.mode = mode
        self.memo = {}
        self.axioms = []
        self.unit_pairs = {}
        self.ufs = {}
        self.exps = []
        self.incomplete = set()

    def sort(self, s):
        if s == "B":
            return z3.BoolSort()
        if s == "R":
            return z3.RealSort()
        if s[0] == "i":
            return z3.IntSort() if self.mode == "INT" else z3.BitVecSort(s[1])
        if s[0] == "f":
            return z3.Float32() if s[1] == 32 else z3.Float64()
        if s[0] == "a":
            return z3.ArraySort(z3.IntSort() if self.mode == "INT" else z3.BitVecSort(64), self.sort(s[1]))
        raise ValueError(s)

    def __call__(self, t):
        st = [t]
        memo = self.memo
        while st:
            x = st[-1]
            if x.id in memo:
                st.pop()
                continue
            if x.op == "poly":
                ch = [a for m, c in x.args for a in m]
            else:
                ch = [a for a in x.args if isinstance(a, T)]
            todo = [a for a in ch if a.id not in memo]
            if todo:
                st.extend(todo)
                continue
            memo[x.id] = self.one(x)
            st.pop()
        return memo[t.id]

    def one(self, t):
        m = self.memo
        o = t.op
        A = [m[a.id] for a in t.args if isinstance(a, T)]
        s = t.sort
        if o == "const":
            v = t.args[0]
            if s == "B":
                return z3.BoolVal(v)
            if s == "R":
                return z3.RealVal(v)
            if s[0] == "i":
                return z3.IntVal(v) if self.mode == "INT" else z3.BitVecVal(v, s[1])
            if s[0] == "f":
                return z3.fpBVToFP(z3.BitVecVal(v, s[1]), self.sort(s))
        if o == "var":
            c = z3.Const(t.args[0], self.sort(s))
            if self.mode == "INT" and isinstance(s, tuple) and s[0] == "i":
                lo, hi = (t.lo, t.hi) if t.lo is not None else canon_range(s[1])
                self.axioms.append(z3.And(c >= lo, c <= hi))
            if t is PI:
                self.axioms.append(z3.And(c > z3.RealVal("3.14159265358979"), c < z3.RealVal("3.14159265358980")))
            return c
        if o == "poly":
            parts = []
            for mono, c in t.args:
                p = None
                for a in mono:
                    p = m[a.id] if p is None else p * m[a.id]
                if p is None:
                    p = z3.IntVal(c)
                elif c != 1:
                    p = c * p
                parts.append(p)
            r = parts[0]
            for p in parts[1:]:
                r = r + p
            return r
        if o == "spec":
            self.incomplete.add("inf/nan value reached arithmetic")
            return z3.Const("spec_" + t.args[0], z3.RealSort())
        simple = {
            "not": lambda a: z3.Not(a), "and": lambda *a: z3.And(*a), "or": lambda *a: z3.Or(*a),
            "iff": lambda a, b: a == b, "ite": lambda c, a, b: z3.If(c, a, b),
            "ile": lambda a, b: a <= b, "ieq": lambda a, b: a == b,
            "idiv": lambda a, b: a / b, "imod": lambda a, b: a % b,
            "radd": lambda a, b: a + b, "rneg": lambda a: -a, "rmul": lambda a, b: a * b,
            "rdiv": lambda a, b: a / b, "rle": lambda a, b: a <= b, "req": lambda a, b: a == b,
            "i2r": lambda a: z3.ToReal(a), "rfloor": lambda a: z3.ToInt(a),
            "select": lambda a, i: z3.Select(a, i), "store": lambda a, i, v: z3.Store(a, i, v),
            "bveq": lambda a, b: a == b,
            "bvadd": lambda a, b: a + b, "bvsub": lambda a, b: a - b, "bvmul": lambda a, b: a * b,
            "bvand": lambda a, b: a & b, "bvor": lambda a, b: a | b, "bvxor": lambda a, b: a ^ b,
            "bvshl": lambda a, b: a << b, "bvlshr": z3.LShR, "bvashr": lambda a, b: a >> b,
            "bvudiv": z3.UDiv, "bvurem": z3.URem, "bvsdiv": lambda a, b: a / b, "bvsrem": z3.SRem,
            "bvult": z3.ULT, "bvule": z3.ULE, "bvslt": lambda a, b: a < b, "bvsle": lambda a, b: a <= b,
        }.get(o)
        if simple:
            r = simple(*A)
            if o == "select" and self.mode == "INT" and isinstance(s, tuple) and s[0] == "i":
                lo, hi = canon_range(s[1])
                self.axioms.append(z3.And(r >= lo, r <= hi))
            return r
        if o == "concat":
            return z3.Concat(A[0], A[1])
        if o == "extract":
            return z3.Extract(t.args[1] + t.args[2] - 1, t.args[1], A[0])
        if o == "zext":
            return z3.ZeroExt(t.args[1] - t.args[0].sort[1], A[0])
        if o == "sext":
            return z3.SignExt(t.args[1] - t.args[0].sort[1], A[0])
        if o == "K":
            return z3.K(z3.IntSort() if self.mode == "INT" else z3.BitVecSort(64), A[0])
        if o == "lam":
            i = z3.Int("lam!i")
            lo, n, src, shift, rest = A
            return z3.Lambda([i], z3.If(z3.And(lo <= i, i < lo + n), z3.Select(src, i + shift), z3.Select(rest, i)))
        if o in ("map", "map2"):
            return z3.Const("%s!%d" % (o, t.id), self.sort(t.sort))
        if o.startswith("uf:"):
            return self.ufapp(o[3:], t, A)
        if o[0] == "f":
            return self.fp(o, t, A)
        raise NotImplementedError("emit " + o)

    # transcendental functions: uninterpreted, with the axioms listed in DESIGN.md
    def ufapp(self, name, t, A):
        key = (name, len(A))
        so = self.sort(t.sort)
        f = z3.Function("uf_" + name, *([a.sort() for a in A] + [so]))
        r = f(*A)
        ax = self.axioms
        if name == "fbits":
            ax.append(z3.fpBVToFP(r, A[0].sort()) == A[0])  # NaN payloads: any pattern that reads back as the value
            return r
        if t.sort == "R":
            if name == "sqrt":
                # a fresh constant reasons better than an application for nlsat
                c = z3.Real("sqrt!%d" % t.id)
                ax.append(z3.Implies(A[0] >= 0, z3.And(c >= 0, c * c == A[0])))
                return c
            if name in ("sin", "cos"):
                c = z3.Real("%s!%d" % (name, t.args[0].id))
                if t.args[0].id not in self.unit_pairs:
                    self.unit_pairs[t.args[0].id] = 1
                    sv, cv = z3.Real("sin!%d" % t.args[0].id), z3.Real("cos!%d" % t.args[0].id)
                    ax.append(sv * sv + cv * cv == 1)
                    ax.append(z3.And(sv >= -1, sv <= 1, cv >= -1, cv <= 1))
                return c
            if name in ("exp", "exp2"):
                c = z3.Real("exp!%d" % t.id)
                ax.append(c > 0)
                ax.append(z3.Implies(A[0] <= 0, c <= 1))
                ax.append(z3.Implies(A[0] >= 0, c >= 1))
                ax.append(z3.Implies(A[0] < 0, c < 1))
                ax.append(z3.Implies(A[0] > 0, c > 1))
                ax.append(c >= A[0] + 1)
                for (u, c2) in self.exps:
                    ax.append(z3.And(z3.Implies(A[0] < u, c < c2), z3.Implies(A[0] > u, c > c2), z3.Implies(A[0] == u, c == c2)))
                self.exps.append((A[0], c))
                return c
            if name == "pow":
                c = z3.Real("pow!%d" % t.id)
                b, e = A
                ax.append(z3.Implies(b > 0, c > 0))
                ax.append(z3.Implies(e == 0, c == 1))
                ax.append(z3.Implies(b == 1, c == 1))
                ax.append(z3.Implies(e == 1, c == b))
                ax.append(z3.Implies(z3.And(b == 0, e > 0), c == 0))
                ax.append(z3.Implies(z3.And(b >= 0, b <= 1, e >= 0), z3.And(c <= 1, c >= 0)))
                ax.append(z3.Implies(z3.And(b >= 1, e >= 0), c >= 1))
                ax.append(z3.Implies(z3.And(b > 0, b < 1, e > 0), c < 1))
                ax.append(z3.Implies(z3.And(b > 1, e > 0), c > 1))
                ax.append(z3.Implies(z3.And(b > 1, e < 0), c < 1))
                ax.append(z3.Implies(z3.And(b > 0, b < 1, e < 0), c > 1))
                for (b2, e2, c2) in self.ufs.setdefault("pow", []):
                    # same positive exponent: monotone in the base; same base > 1: monotone in the exponent
                    ax.append(z3.Implies(z3.And(e == e2, e > 0, b >= 0, b2 >= 0), z3.And(z3.Implies(b < b2, c < c2), z3.Implies(b > b2, c > c2), z3.Implies(b == b2, c == c2))))
                    ax.append(z3.Implies(z3.And(b == b2, b > 1), z3.And(z3.Implies(e < e2, c < c2), z3.Implies(e > e2, c > c2), z3.Implies(e == e2, c == c2))))
                self.ufs["pow"].append((b, e, c))
                return c
            if name == "acos":
                ax.append(z3.And(r >= 0, r <= z3.RealVal("3.1415927")))
                ax.append(z3.Implies(z3.And(A[0] >= 0, A[0] <= 1), r <= z3.RealVal("1.5707964")))
            if name == "asin":
                ax.append(z3.And(r >= -z3.RealVal("1.5707964"), r <= z3.RealVal("1.5707964")))
            if name == "atan":
                ax.append(z3.And(r > -z3.RealVal("1.5707964"), r < z3.RealVal("1.5707964")))
            if name == "atan2":
                ax.append(z3.And(r >= -z3.RealVal("3.1415927"), r <= z3.RealVal("3.1415927")))
            if name == "log":
                ax.append(z3.Implies(A[0] >= 1, r >= 0))
                ax.append(z3.Implies(z3.And(A[0] > 0, A[0] < 1), r < 0))
                ax.append(z3.Implies(A[0] > 0, r <= A[0] - 1))
                for (a2, r2) in self.ufs.setdefault("log", []):
                    ax.append(z3.Implies(z3.And(A[0] > 0, a2 > 0), z3.And(z3.Implies(A[0] < a2, r < r2), z3.Implies(A[0] > a2, r > r2))))
                self.ufs["log"].append((A[0], r))
            if name == "cosh":
                ax.append(r >= 1)
            if name == "cbrt":
                ax.append(r * r * r == A[0])
        elif isinstance(t.sort, tuple) and t.sort[0] == "f":
            w = t.sort[1]
            mx = z3.FPVal(1.0, so)
            if name in ("sin", "cos"):
                ax.append(z3.Implies(z3.Not(z3.Or(z3.fpIsNaN(A[0]), z3.fpIsInf(A[0]))), z3.And(z3.fpLEQ(r, mx), z3.fpGEQ(r, -mx))))
            if name in ("exp", "pow"):
                pass
        return r

    def fp(self, o, t, A):
        rm = z3.RNE()
        f = {
            "fadd": lambda a, b: z3.fpAdd(rm, a, b), "fsub": lambda a, b: z3.fpSub(rm, a, b),
            "fmul": lambda a, b: z3.fpMul(rm, a, b), "fdiv": lambda a, b: z3.fpDiv(rm, a, b),
            "fneg": z3.fpNeg, "fabs": z3.fpAbs, "fsqrt": lambda a: z3.fpSqrt(rm, a),
            "ffloor": lambda a: z3.fpRoundToIntegral(z3.RTN(), a), "fceil": lambda a: z3.fpRoundToIntegral(z3.RTP(), a),
            "ftrunc": lambda a: z3.fpRoundToIntegral(z3.RTZ(), a), "fround": lambda a: z3.fpRoundToIntegral(z3.RNA(), a),
            "frint": lambda a: z3.fpRoundToIntegral(z3.RNE(), a),
            "foeq": z3.fpEQ, "fle": z3.fpLEQ, "flt": z3.fpLT, "fsame": lambda a, b: a == b,
            "fisnan": z3.fpIsNaN, "fisinf": z3.fpIsInf, "fisneg": z3.fpIsNegative, "fiszero": z3.fpIsZero,
            "fissub": z3.fpIsSubnormal, "fma": lambda a, b, c: z3.fpFMA(rm, a, b, c),
        }.get(o)
        if f:
            return f(*A)
        if o == "fcvt":
            return z3.fpFPToFP(rm, A[0], self.sort(t.sort))
        if o == "fbits":
            return z3.fpToIEEEBV(A[0])
        if o == "ffrombits":
            return z3.fpBVToFP(A[0], self.sort(t.sort))
        if o == "fsitofp":
            if self.mode == "INT":
                raise NotImplementedError("FP with INT")
            return z3.fpSignedToFP(rm, A[0], self.sort(t.sort))
        if o == "fuitofp":
            return z3.fpUnsignedToFP(rm, A[0], self.sort(t.sort))
        if o == "ffptosi":
            return z3.fpToSBV(z3.RTZ(), A[0], z3.BitVecSort(t.sort[1]))
        if o == "ffptoui":
            return z3.fpToUBV(z3.RTZ(), A[0], z3.BitVecSort(t.sort[1]))
        raise NotImplementedError("emit " + o)


def rneg_const(x):
    """-x for x = product with a negative constant."""
    a, b = x.args
    if a.op == "const":
        return rmul(b, rconst(-a.args[0]))
    return rmul(a, rconst(-b.args[0]))
