"""Linear certificates for integer index arithmetic: facts p >= 0, products of them whose monomials occur,
decided over the reals with every monomial as a variable.  Only 'unsat' answers are used."""
import z3
import terms as tm


def conj(conds):
    wl = list(conds)
    while wl:
        c = wl.pop()
        if c.op == "and":
            wl.extend(c.args)
        else:
            yield c


def facts(conds):
    out = []
    for c in conj(conds):
        if c.op == "ile":
            out.append(sub(c.args[1], c.args[0], 0))
        elif c.op == "ieq":
            out.append(sub(c.args[1], c.args[0], 0))
            out.append(sub(c.args[0], c.args[1], 0))
        elif c.op == "not" and c.args[0].op == "ile":
            a, b = c.args[0].args
            out.append(sub(a, b, -1))
        elif c.op == "not" and c.args[0].op == "or":
            out += facts([tm.not_(x) for x in c.args[0].args])
    return out


def sub(a, b, k):
    p = tm._poly(a)
    for m, c in tm._poly(b).items():
        p[m] = p.get(m, 0) - c
    p[()] = p.get((), 0) + k
    return p


def key(m):
    return tuple(sorted(a.id for a in m))


def mul(p, q):
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            k = tuple(sorted(m + n))
            r[k] = r.get(k, 0) + c * d
    return {m: c for m, c in r.items() if c}


def refuted(conds):
    """True if the conjunction is unsatisfiable over the integers (a certificate was found)."""
    F = facts(conds)
    if not any(len(m) > 1 for p in F for m in p):
        return False
    atoms = {a for p in F for m in p for a in m}
    P = [{key(m): c for m, c in p.items() if c} for p in F]
    for a in sorted(atoms, key=lambda a: a.id):
        if a.lo is not None:
            P.append({(a.id,): 1, (): -a.lo} if a.lo else {(a.id,): 1})
        if a.hi is not None and a.hi < 1 << 40:
            P.append({(a.id,): -1, (): a.hi})
    M = {m for p in P for m in p if len(m) > 1}
    V = {x for m in M for x in m}
    lin = [p for p in P if all(len(m) <= 1 for m in p) and any(m and m[0] in V for m in p)]
    if len(lin) > 60:
        return False
    out = list(P)
    for i, p in enumerate(lin):
        for q in lin[:i + 1]:
            r = mul(p, q)
            if r and all(len(m) < 2 or m in M for m in r):
                out.append(r)
    s = z3.SolverFor("QF_LRA")
    s.set("timeout", 500)
    vs = {}

    def var(m):
        v = vs.get(m)
        if v is None:
            v = vs[m] = z3.Real("m" + "_".join(map(str, m)))
        return v
    for p in out:
        k = p.get((), 0)
        t = [c * var(m) for m, c in p.items() if m]
        if not t:
            if k < 0:
                return True
            continue
        s.add(z3.Sum(t) >= -k)
    return s.check() == z3.unsat
