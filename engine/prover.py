"""Discharges obligations: normalisation (alg.py), z3 in process, then z3 4.8 / z3 5 / cvc5 as
separate processes in parallel."""
import os
import subprocess
import tempfile
import time
import z3
import alg
import lin
import terms as tm
from terms import T, TRUE, FALSE, and_, or_, not_, ite

DEF = {"quick": 2500, "long": 25}


def real_ites(t):
    """conditions of the real-valued ite nodes below t"""
    out = []
    for x in tm.walk([t]):
        if x.op == "ite" and x.sort != "B":
            out.append(x)
    return out


def nonneg(t, pc, n=0):
    """t >= 0 by its form"""
    if n > 12:
        return False
    o = t.op
    if o == "const":
        return t.args[0] >= 0
    if o in ("uf:sqrt", "uf:exp", "uf:exp2", "uf:acos") or t is tm.PI or tm.rle(tm.R0, t) in pc:
        return True
    f = lambda x: nonneg(x, pc, n + 1)
    if o == "rmul":
        rest = list(t.args)
        for x in list(rest):
            if rest.count(x) >= 2:
                rest.remove(x)
                rest.remove(x)
        return all(f(x) for x in rest)
    if o in ("radd", "rdiv"):
        return all(f(x) for x in t.args)
    if o == "ite":
        c, a, b = t.args
        return (f(a) or c in (tm.rle(tm.R0, a), tm.rlt(tm.R0, a))) and (f(b) or not_(c) in (tm.rle(tm.R0, b), tm.rlt(tm.R0, b)))
    return False


class Prover:
    def __init__(self, imode, quick=2500, long=25, deadline=None, scale=1):
        self.im = imode
        self.quick, self.long = quick, long
        self.deadline = deadline or time.time() + 600
        self.scale = scale
        self.stats = {}
        self.memo = {}

    def count(self, be, t):
        s = self.stats.setdefault(be, [0, 0.0])
        s[0] += 1
        s[1] += t

    # ---------------------------------------------------------------- entry
    def prove(self, pc, goal):
        """-> (result 'proved'|'failed'|'unknown', backend, model)"""
        pc = tuple(pc)
        k = (tuple(sorted(c.id for c in pc)), goal.id)
        r = self.memo.get(k)
        if r is None:
            t0 = time.time()
            r = self.prove1(pc, goal, 0)
            if r[0] == "proved":
                self.count(r[1], time.time() - t0)
            self.memo[k] = r
        return r

    def prove1(self, pc, goal, depth):
        if goal is TRUE:
            return ("proved", "simplifier", None)
        if goal is FALSE and depth == 0 and self.im == "INT":
            for c in pc:
                if alg.decide_literals(pc, c) is FALSE:
                    return ("proved", "algebra", None)
        if goal in pc or FALSE in pc:
            return ("proved", "simplifier", None)
        if depth == 0 and self.im == "INT" and goal.op in ("rle", "not", "and"):
            g = alg.decide_literals(pc, goal)
            if g is TRUE:
                return ("proved", "algebra", None)
            goal = g
        if goal.op == "and":
            be = set()
            for g in goal.args:
                r = self.prove1(pc, g, depth)
                if r[0] != "proved":
                    return r
                be.add(r[1])
                pc = pc + (g,)
            return ("proved", "+".join(sorted(be)), None)
        if goal.op == "or":
            # move all but one disjunct to the hypotheses
            gs = list(goal.args)
            main = None
            for g in gs:
                if g.op in ("req", "and"):
                    main = g
            if main is None:
                main = gs[-1]
            np = pc
            for g in gs:
                if g is not main:
                    n = not_(g)
                    np = np + (n.args if n.op == "and" else (n,))
            return self.prove1(np, main, depth)
        if goal.op == "not" and goal.args[0].op == "or":
            return self.prove1(pc, and_(*[not_(x) for x in goal.args[0].args]), depth)
        if goal.op == "not" and goal.args[0].op == "and":
            return self.prove1(pc, or_(*[not_(x) for x in goal.args[0].args]), depth)
        if goal.op == "ite" and goal.sort == "B":
            c, a, b = goal.args
            r = self.prove1(pc + (c,), a, depth)
            if r[0] != "proved":
                return r
            return self.prove1(pc + (not_(c),), b, depth)
        if goal.op == "req":
            r = self.by_algebra(pc, goal, depth)
            if r is not None:
                return r
        if goal.op == "rle" and goal.args[0] is tm.R0 and nonneg(goal.args[1], pc):
            return ("proved", "simplifier", None)
        if goal.op == "iff":
            a, b = goal.args
            r = self.z3try(pc, goal, min(self.quick, 1000))
            if r[0] != "unknown":
                return r
            r1 = self.prove1(pc + (a.args if a.op == "and" else (a,)), b, depth)
            if r1[0] != "proved":
                return r1
            return self.prove1(pc + (b.args if b.op == "and" else (b,)), a, depth)
        if depth <= 2 and self.im == "INT" and goal.op in ("rle", "not") and len(list(tm.walk([goal]))) > 60 and any(c.op == "req" and len(list(tm.walk([c]))) > 40 for c in pc) and self.by_cut(pc, goal, 100):
            return ("proved", "z3", None)
        r = self.z3try(pc, goal, self.quick)
        if r[0] != "unknown":
            return r
        if goal.op in ("rle", "not") and depth < 6:
            g = goal.args[0] if goal.op == "not" else goal
            if g.op in ("rle", "req"):
                it = self.pick_ite(pc, g)
                if it is not None:
                    return self.split(pc, goal, it, depth)
        if goal.op == "rle" and alg.prove_eq(pc, goal, 5):
            return ("proved", "algebra", None)
        if depth == 0 and self.im == "INT" and goal.op in ("rle", "not", "req", "ieq"):
            g2 = alg.canon(pc, goal)
            if g2 is not goal:
                pc2 = tuple(c if c.op == "req" else alg.canon(pc, c) for c in pc)
                r = self.z3try(pc2, g2, self.quick, model=False)
                if r[0] == "proved":
                    return ("proved", "algebra+" + r[1], None)
        if depth <= 2 and self.im == "INT" and any(x.sort == "R" for x in tm.walk([goal])) and self.by_cut(pc, goal):
            return ("proved", "z3", None)
        return self.portfolio(pc, goal)

    def decide(self, pc, c):
        if c in pc:
            return True
        if not_(c) in pc:
            return False
        if self.z3try(pc, c, 300, model=False)[0] == "proved":
            return True
        if self.z3try(pc, not_(c), 300, model=False)[0] == "proved":
            return False
        return None

    def pick_ite(self, pc, goal):
        for x in real_ites(goal):
            # innermost condition without ites itself
            c = x.args[0]
            if not real_ites(c):
                return c
        for x in real_ites(goal):
            return x.args[0]
        return None

    def assume_in(self, t, c, val):
        m = {c: TRUE if val else FALSE, not_(c): FALSE if val else TRUE}
        return tm.subst(t, m)

    def split(self, pc, goal, c, depth):
        be = set()
        for val in (True, False):
            lit = c if val else not_(c)
            if not_(lit) in pc:
                continue
            if self.z3try(pc, not_(lit), 300, model=False)[0] == "proved":
                continue
            np = tuple(self.assume_in(x, c, val) for x in pc)
            np = np + (lit.args if lit.op == "and" else (lit,))
            g = self.assume_in(goal, c, val)
            r = self.prove1(tuple(x for x in np if x is not TRUE), g, depth + 1)
            if r[0] != "proved":
                return r
            be.add(r[1])
        return ("proved", "+".join(sorted(be)) or "z3", None)

    def by_algebra(self, pc, goal, depth):
        if time.time() > self.deadline:
            return ("unknown", "deadline", None)
        it = self.pick_ite(pc, goal)
        if it is None and alg.prove_eq(pc, goal, 3):
            return ("proved", "algebra", None)
        if depth == 0 and self.im == "INT" and self.by_general(pc, goal):
            return ("proved", "algebra", None)
        if it is None:
            if alg.prove_eq(pc, goal, 15):
                return ("proved", "algebra", None)
            return None
        r = self.z3try(pc, goal, 500)
        if r[0] == "proved":
            return r
        if depth > 10:
            return None
        r = self.split(pc, goal, it, depth)
        return r

    def by_general(self, pc, goal):
        """equality for arbitrary values of the inner subterms: terms used in several places are replaced by
        fresh variables, the outermost first, then those further in"""
        nodes = list(tm.walk([goal]))
        if len(nodes) < 40:
            return False
        uses = {}
        for x in nodes:
            for a in {a.id for a in x.args if isinstance(a, T)}:
                uses[a] = uses.get(a, 0) + 1
        depth = {goal.id: 0}
        order = sorted(nodes, key=lambda x: -x.id)  # parents are made after their arguments
        for x in order:
            d = depth.get(x.id, 0)
            for a in x.args:
                if isinstance(a, T):
                    shared = uses.get(a.id, 0) > 1 and a.sort == "R" and a.op not in ("var", "const") and not a.op.startswith("in")
                    depth[a.id] = max(depth.get(a.id, 0), d + (1 if shared else 0))
        seen = set()
        for level in range(1, 9):
            cut = {}
            for x in nodes:
                if x.sort == "R" and uses.get(x.id, 0) > 1 and x.op not in ("var", "const") and depth.get(x.id, 0) >= level:
                    cut[x] = tm.var("gen%d" % x.id, "R")
            if not cut:
                return False
            g = tm.subst(goal, cut)
            if g.id in seen:
                continue
            seen.add(g.id)
            if any(x.op == "ite" for x in tm.walk([g])):
                continue
            if g is TRUE or (g.op == "req" and alg.prove_eq(tuple(tm.subst(c, cut) for c in pc if c.op == "req"), g, 2)):
                return True
        return False

    def by_cut(self, pc, goal, ms=400):
        """for arbitrary values of subterms that goal and hypotheses share: the outermost first, then those further in"""
        pc = tuple(self.relevant(pc, goal))
        nodes = list(tm.walk([goal] + list(pc)))
        own = {x.id for x in tm.walk([goal])}
        uses = {}
        for x in nodes:
            for a in {a.id for a in x.args if isinstance(a, T)}:
                uses[a] = uses.get(a, 0) + 1
        leaf = lambda x: x.sort != "R" or x.op in ("var", "const") or uses.get(x.id, 0) < 2
        depth = {}
        for x in sorted(nodes, key=lambda x: -x.id):
            d = depth.setdefault(x.id, 0)
            for a in x.args:
                if isinstance(a, T):
                    depth[a.id] = max(depth.get(a.id, 0), d + (not leaf(a)))
        # levels are those of the goal alone: what lies further out in the hypotheses is left as it is
        gd = {}
        for x in sorted((x for x in nodes if x.id in own), key=lambda x: -x.id):
            d = gd.setdefault(x.id, 0)
            for a in x.args:
                if isinstance(a, T):
                    gd[a.id] = max(gd.get(a.id, 0), d + (not leaf(a)))
        seen = set()
        for level in range(1, 8):
            cut = {x: tm.var("gen%d" % x.id, "R") for x in nodes if not leaf(x) and gd.get(x.id, depth[x.id] if x.id not in own else 0) >= level}
            if not cut:
                return False
            g = tm.subst(goal, cut)
            if g.id in seen:
                continue
            seen.add(g.id)
            hyp = tuple(tm.subst(c, cut) for c in pc) + tuple(tm.rle(tm.R0, v) for x, v in cut.items() if nonneg(x, pc))
            hyp = tuple(c for c in hyp if c is not TRUE)
            if g is TRUE or FALSE in hyp or self.z3try(hyp, g, ms, model=False)[0] == "proved":
                return True
        return False

    # ---------------------------------------------------------------- solvers
    def relevant(self, pc, goal):
        """hypotheses connected with the goal through shared symbols"""
        if goal is FALSE:
            return list(pc)

        def syms(t):
            return {x.id for x in tm.walk([t]) if x.op in ("var",) and x is not tm.PI}
        need = syms(goal)
        S = [(c, syms(c)) for c in pc]
        out = []
        rest = S
        ch = True
        while ch:
            ch = False
            nrest = []
            for c, s in rest:
                if s & need or not s:
                    out.append(c)
                    if not s <= need:
                        need |= s
                        ch = True
                else:
                    nrest.append((c, s))
            rest = nrest
        return out

    def query(self, pc, goal):
        Z = tm.Z(self.im)
        s = z3.Solver()
        for c in pc:
            s.add(Z(c))
        if goal is not None:
            s.add(z3.Not(Z(goal)))
        for a in Z.axioms:
            s.add(a)
        return s, Z

    def z3try(self, pc, goal, ms, model=True, full=False):
        if time.time() > self.deadline:
            return ("unknown", "deadline", None)
        if self.im == "INT" and lin.refuted(list(pc) + ([tm.not_(goal)] if goal is not None else [])):
            return ("proved", "linear certificate (z3)", None)
        try:
            s, Z = self.query(self.relevant(pc, goal) if goal is not None and not full else pc, goal)
            s.set("timeout", int(ms * self.scale) * 4)
            s.set("rlimit", int(ms * self.scale) * 3000)
            r = s.check()
        except (z3.Z3Exception, NotImplementedError) as e:
            return ("unknown", "z3: %s" % e, None)
        if r == z3.unsat:
            return ("proved", "z3", None)
        if r == z3.sat:
            if goal is not None and not full and len(self.relevant(pc, goal)) < len(pc):
                return self.z3try(pc, goal, ms, model, True)
            return ("failed", "z3", self.values(s, Z) if model else None)
        return ("unknown", "z3", None)

    def values(self, s, Z):
        m = s.model()
        out = {}
        for d in m.decls():
            n = d.name()
            if n.startswith("in:"):
                v = m[d]
                try:
                    if z3.is_rational_value(v):
                        out[n[3:]] = float(v.as_fraction())
                    elif z3.is_algebraic_value(v):
                        out[n[3:]] = float(v.approx(20).as_fraction())
                    elif z3.is_int_value(v):
                        out[n[3:]] = v.as_long()
                    elif z3.is_bv_value(v):
                        out[n[3:]] = v.as_signed_long()
                    elif z3.is_true(v) or z3.is_false(v):
                        out[n[3:]] = int(z3.is_true(v))
                    elif z3.is_fp(v):
                        if v.isNaN():
                            out[n[3:]] = float("nan")
                        elif v.isInf():
                            out[n[3:]] = float("-inf") if v.isNegative() else float("inf")
                        else:
                            out[n[3:]] = float(eval(str(z3.simplify(z3.fpToReal(v))).replace("?", "")))
                except Exception:
                    pass
        return out

    def portfolio(self, pc, goal):
        left = self.deadline - time.time()
        if left < 1:
            return ("unknown", "deadline", None)
        T0 = min(self.long * min(self.scale, 2), left)
        try:
            s, Z = self.query(self.relevant(pc, goal), goal)
        except (z3.Z3Exception, NotImplementedError) as e:
            return ("unknown", str(e), None)
        txt = s.to_smt2()
        fd, path = tempfile.mkstemp(suffix=".smt2", prefix="vc_")
        os.write(fd, ("(set-logic ALL)\n" + txt).encode())
        os.close(fd)
        cmds = [("z3-new", ["z3-new", "-T:%d" % int(T0), path]),
                ("z3", ["z3", "-T:%d" % int(T0), path]),
                ("cvc5", ["cvc5", "--tlimit=%d" % int(T0 * 1000), path])]
        if self.im == "INT":
            cmds.append(("z3-new-nlsat", ["z3-new", "-T:%d" % int(T0), "smt.arith.solver=6", "smt.arith.nl.nra=true", "smt.random_seed=7", path]))
        ps = [(n, subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)) for n, c in cmds]
        res = ("unknown", "portfolio", None)
        end = time.time() + T0 + 2
        try:
            while ps and time.time() < end:
                for n, p in list(ps):
                    if p.poll() is not None:
                        out = p.stdout.read().split()
                        ps.remove((n, p))
                        if out and out[0] == "unsat":
                            return ("proved", n, None)
                        if out and out[0] == "sat":
                            r = self.z3try(pc, goal, 8000)
                            if r[0] == "proved":
                                return r
                            return ("failed", n, r[2] if r[0] == "failed" else None)
                time.sleep(0.02)
        finally:
            for n, p in ps:
                p.kill()
                p.wait()
            os.unlink(path)
        return res
