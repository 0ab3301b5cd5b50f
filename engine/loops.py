import math
"""Loops and bulk memory operations.

A loop is unrolled while the solver decides its exit; when the number of undecided iterations passes a
limit the run is restarted with that loop under the loop rule:
  * every header value (phi or memory cell written in the body) that the body changes by the same
    constant c on every path is exactly  v0 + c*k  at the start of iteration k (proved by running the
    body from an arbitrary k);
  * for k >= 1 the condition under which the body reaches the back edge held at k-1 (kept when it only
    mentions k and values the loop does not change);
  * arrays written once per iteration at v0 + c*k become the corresponding map over the indices;
  * everything else the body writes is unconstrained, restricted by the sign invariants that the body
    is shown to keep (Houdini).
The body is then executed once for an arbitrary k, which yields its obligations for all iterations,
and the exits continue the function.  Termination is not proved.
"""
import ir
import terms as tm
from terms import T, TRUE, FALSE, and_, or_, not_, ite, iconst
import vexec
from vexec import Ptr, PIte, P2I, Packed, UNDEF, Unsupported, PathEnd, FnPtr


class NeedRule(Exception):
    def __init__(self, key):
        self.key = key


class CFG:
    def __init__(self, fn):
        succ = {}
        for b in fn.order:
            I = fn.blocks[b][-1]
            if I.op == "br":
                s = I.x[:]
            elif I.op == "switch":
                s = [I.x[0]] + [l for c, l in I.x[1]]
            elif I.op == "invoke":
                s = [I.x[1], I.x[2]]
            else:
                s = []
            succ[b] = list(dict.fromkeys(s))
        pred = {b: [] for b in fn.order}
        for b, ss in succ.items():
            for s in ss:
                pred[s].append(b)
        # dominators
        order = []
        seen = set()

        def dfs(b):
            st = [(b, iter(succ[b]))]
            seen.add(b)
            while st:
                x, it = st[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        st.append((s, iter(succ[s])))
                        break
                else:
                    order.append(x)
                    st.pop()
        dfs(fn.order[0])
        rpo = order[::-1]
        num = {b: i for i, b in enumerate(rpo)}
        idom = {rpo[0]: rpo[0]}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                new = None
                for p in pred[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while num[x] > num[y]:
                                    x = idom[x]
                                while num[y] > num[x]:
                                    y = idom[y]
                            new = x
                if new is not None and idom.get(b) != new:
                    idom[b] = new
                    ch = True

        def dominates(a, b):
            while True:
                if a == b:
                    return True
                if b == rpo[0]:
                    return False
                b = idom[b]
        self.loops = {}
        for b in rpo:
            for s in succ[b]:
                if dominates(s, b):
                    body = self.loops.setdefault(s, {s})
                    wl = [b]
                    while wl:
                        x = wl.pop()
                        if x not in body:
                            body.add(x)
                            wl.extend(p for p in pred[x] if p in num)
        self.succ = succ
        self.around = {}
        for h, body in self.loops.items():
            for b in body:
                self.around.setdefault(b, []).append(h)
        for b in self.around:
            self.around[b].sort(key=lambda h: len(self.loops[h]))


class Active:
    """A loop under the rule, in one activation."""
    def __init__(self, fn, header, act, depth, body):
        self.fn, self.header, self.act, self.depth, self.body = fn, header, act, depth, body
        self.mode = "dry"
        self.back = []
        self.cands = []
        self.k = None
        self.vals = []


class Loops:
    def __init__(self, ex):
        self.ex = ex
        self.cfgs = {}
        self.rule = set()
        self.active = {}
        self.limit = 24

    def cfg(self, fn):
        c = self.cfgs.get(fn.name)
        if c is None:
            c = self.cfgs[fn.name] = CFG(fn)
        return c

    def after_call(self, st):
        return True

    def pick(self):
        raise PathEnd()

    # ------------------------------------------------------------ entering blocks
    def enter(self, st, src, target):
        f = st.frame
        d = self.ex.dry
        if d is not None:
            if st.depth < d.depth or (f.act == d.act and target not in d.body and src in d.body):
                raise PathEnd()
        c = self.cfg(f.fn)
        for h in c.around.get(src, ()):
            if target not in c.loops[h]:
                a = self.active.get((f.act, h))
                if a is not None and a.mode == "real":
                    self.leave(st, a)
        if target not in c.loops:
            return True
        body = c.loops[target]
        key = (f.fn.name, target)
        if src not in body:
            f.visits.pop(target, None)
            if key in self.rule:
                return self.apply(st, key, body)
            return True
        a = self.active.get((f.act, target))
        if a is not None:
            self.backedge(st, a)
            raise PathEnd()
        n = f.visits.get(target)
        lp = len(st.pc)
        if n is None:
            f.visits[target] = (lp, 0)
        else:
            und = n[1] + (1 if lp > n[0] else 0)
            f.visits[target] = (lp, und)
            if und > (1 if any(h != target and h in body and (f.fn.name, h) in self.rule for h in c.loops) else self.limit):
                raise NeedRule(key)
        return True

    # ------------------------------------------------------------ the loop rule
    def dryrun(self, st, a):
        """Run the body from st; returns the states that reach the back edge."""
        ex = self.ex
        sv = (ex.stack, ex.results, ex.dry, ex.obls, ex.covers, ex.named)
        ex.stack, ex.results, ex.obls, ex.covers, ex.named = [st], [], [], {}, {}
        ex.dry = a
        a.mode = "dry"
        a.back = []
        key = (a.act, a.header)
        old = self.active.get(key)
        self.active[key] = a
        try:
            while ex.stack:
                s = ex.stack.pop()
                try:
                    ex.runstate(s)
                except PathEnd:
                    pass
        finally:
            ex.stack, ex.results, ex.dry, ex.obls, ex.covers, ex.named = sv
            if old is None:
                del self.active[key]
            else:
                self.active[key] = old
        return a.back

    def phis(self, f, header):
        return [I for I in f.fn.blocks[header] if I.op == "phi"]

    def backedge(self, st, a):
        if a.mode == "dry":
            a.back.append(st)
            return
        ex = self.ex
        for loc, inv in a.cands:
            v = self.read(st, loc)
            ex.oblige(st, inv(v), "loop invariant is kept", "loop")

    def read(self, st, loc):
        if loc[0] == "phi":
            return st.frame.regs[loc[1]]
        o = st.mem[loc[1]]
        if loc[0] == "cell":
            return self.ex.get(st, o, loc[2], loc[3])
        L = o.lanes.get(loc[2])
        return L[1] if L else None

    def write(self, st, loc, v):
        if loc[0] == "phi":
            st.frame.regs[loc[1]] = v
            return
        o = st.wobj(loc[1])
        if loc[0] == "cell":
            self.ex.put(st, o, loc[2], loc[3], v)
        else:
            o.lanes[loc[2]] = (loc[3], v)

    def modified(self, s0, s1):
        """Locations of objects of s0 that differ in s1."""
        out = []
        for oid, o0 in s0.mem.items():
            o1 = s1.mem.get(oid)
            if o1 is o0 or o1 is None:
                continue
            if o1.freed != o0.freed:
                raise Unsupported("loop that frees " + o0.name)
            if o1.pend != o0.pend:
                raise Unsupported("loop that zeroes an array of unknown type")
            if o0.lanes is not None:
                for l, (ty, arr) in o1.lanes.items():
                    L0 = o0.lanes.get(l)
                    if L0 is None or L0[1] is not arr:
                        out.append(("lane", oid, l, ty))
                continue
            for off, c in o1.cells.items():
                c0 = o0.cells.get(off)
                if c0 is None or c0[0] != c[0] or c0[2] is not c[2]:
                    out.append(("cell", oid, off, c[1] if c[1].size == c[0] else ir.INT(8 * c[0])))
            for off, c in o0.cells.items():
                if off not in o1.cells:
                    out.append(("cell", oid, off, c[1] if c[1].size == c[0] else ir.INT(8 * c[0])))
        return out

    def ty_of(self, st, loc, f):
        if loc[0] == "phi":
            return next(I.ty for I in self.phis(f, f.block) if I.res == loc[1])
        return loc[3]

    def havoc(self, v, ty, name):
        ex = self.ex
        if ty.k == "ptr":
            if isinstance(v, Ptr):
                return Ptr(v.obj, tm.fresh(name, ("i", 64)))
            raise Unsupported("loop changes a pointer in an unexpected way")
        if ty.k == "int":
            if ty.w == 1:
                return tm.fresh(name, "B")
            return tm.fresh(name, ("i", ty.w))
        if ty.k in ("float", "double"):
            return tm.fresh(name, ex.fsort(ty))
        if ty.k in ("vec", "array"):
            return tuple(self.havoc(None, ty.el, name) for _ in range(ty.n))
        raise Unsupported("loop changes a value of type %s" % ty)

    def delta(self, v0, v1):
        """constant v1 - v0 or None"""
        ex = self.ex
        if isinstance(v0, Ptr) and isinstance(v1, Ptr):
            if v0.obj != v1.obj:
                return None
            return self.delta(v0.off, v1.off)
        if isinstance(v0, T) and isinstance(v1, T) and v0.sort == v1.sort and v0.sort != "B" and v0.sort[0] == "i" and ex.im == "INT":
            d = tm.psub(v1, v0, v0.sort[1])
            if d.op == "const":
                return d.args[0]
            # loop-invariant symbolic stride
            return d
        return None

    def affine(self, v0, c, k):
        if isinstance(v0, Ptr):
            return Ptr(v0.obj, self.affine(v0.off, c, k))
        w = v0.sort[1]
        if isinstance(c, T):
            return tm.padd(v0, tm.pmul(tm.pwidth(c, w), tm.pwidth(k, w), w), w)
        return tm.padd(v0, tm.pscale(tm.pwidth(k, w), c, w), w)

    def syms(self, t):
        return {x for x in tm.walk([t]) if x.op == "var"}

    def apply(self, st, key, body):
        ex = self.ex
        if ex.im != "INT":
            raise Unsupported("loop rule in BV mode")
        f = st.frame
        fn, header = f.fn, f.block
        a = Active(fn, header, f.act, st.depth, body)
        base = st.fork()
        phis = self.phis(f, header)
        locs = [("phi", I.res) for I in phis]
        tys = {("phi", I.res): I.ty for I in phis}
        init = {l: self.read(base, l) for l in locs}

        k = tm.fresh("iter", ("i", 64))
        k.lo, k.hi = 0, 1 << 62
        a.k = k
        mark = k.id
        k.lo, k.hi = 0, 1 << 62

        def inv(t, also=()):
            """t mentions only values that exist before the loop (and also)"""
            return all(x.id < mark or x in also for x in tm.walk([t]) if x.op == "var")
        step = {}     # loc -> delta (int or loop-invariant term)
        havocs = {}   # loc -> fresh value
        summ = {}     # lane loc -> (index0, stride, elem function)

        # first iteration from the real entry: guesses
        backs = self.dryrun(base.fork(), a)
        if not backs:
            return True  # the body never repeats from here
        b, left = backs, 300
        while len(b) == 1 and len(b[0].pc) == len(base.pc) and left:
            b = self.dryrun(b[0].fork(), a)
            left -= 1
        if not b:
            f.visits[header] = (len(st.pc), -1000)
            return True  # every iteration is known: run them as they are
        for s in backs:
            for l in self.modified(base, s):
                if l not in locs:
                    locs.append(l)
                    tys[l] = l[3]
                    init[l] = self.read(base, l)
        for l in locs:
            ds = set()
            for s in backs:
                d = self.delta(init[l], self.read(s, l)) if l[0] != "lane" else None
                ds.add(d)
            d = ds.pop() if len(ds) == 1 else None
            if d is not None and not (isinstance(d, T) and l[0] == "x"):
                step[l] = d
        bad = set()
        guard = None
        for rnd in range(24):
            s = base.fork()
            hsyms = set()
            for l in locs:
                if l in step:
                    v = self.affine(init[l], step[l], k)
                elif l in summ:
                    v = self.lanesum(init[l], l, base, summ[l], k, tys[l])
                elif l[0] == "lane":
                    v = havocs.get(l)
                    if v is None:
                        v = havocs[l] = tm.fresh("loopmem", ("a", ex.esort(tys[l])))
                else:
                    v = havocs.get(l)
                    if v is None:
                        v = havocs[l] = self.havoc(init[l], tys[l], "loop")
                self.write(s, l, v)
            ex.assume(s, tm.ile(tm.rawconst(0, 64), k))
            if guard is not None and guard is not TRUE:
                ex.assume(s, or_(tm.ieq(k, tm.rawconst(0, 64)), tm.subst(guard, {k: tm.psub(k, tm.rawconst(1, 64), 64)})))
            for l, iv in a.cands:
                c = iv(self.read(s, l))
                if c is not TRUE:
                    ex.assume(s, c)
            entry = s.fork()
            backs = self.dryrun(s.fork(), a)
            change = False
            for b in backs:
                for l in self.modified(entry, b):
                    if l not in locs:
                        if l[0] == "cell" and any(m[0] == "cell" and m[1] == l[1] and m[2] == l[2] for m in locs):
                            continue
                        locs.append(l)
                        tys[l] = l[3]
                        init[l] = self.read(base, l)
                        change = True
            k1 = tm.padd(k, tm.rawconst(1, 64), 64)
            for l in list(step):
                want = self.affine(init[l], step[l], k1)
                if isinstance(step[l], T) and not inv(step[l]):
                    del step[l]
                    bad.add(l)
                    change = True
                    continue
                for b in backs:
                    v = self.read(b, l)
                    ok = (isinstance(v, Ptr) and isinstance(want, Ptr) and v.obj == want.obj and tm.ieq(v.off, want.off) is TRUE) or (isinstance(v, T) and isinstance(want, T) and tm.ieq(v, want) is TRUE)
                    if not ok:
                        if step.get(l) is not None:
                            del step[l]
                            bad.add(l)
                            change = True
                        break
            for l in locs:
                if l in havocs and tys[l].k == "ptr":
                    for b in backs:
                        v = self.read(b, l)
                        if not isinstance(v, Ptr) or v.obj != havocs[l].obj:
                            raise Unsupported("loop follows pointers")
            # lanes: map summaries
            for l in locs:
                if l[0] != "lane":
                    continue
                if l in summ:
                    if backs and not self.lane_ok(entry, base, backs, l, summ[l], k, inv):
                        del summ[l]
                        bad.add(l)
                        change = True
                elif l not in bad:
                    sm = self.lane_summary(entry, base, backs, l, k, inv)
                    if sm is not None:
                        summ[l] = sm
                        change = True
                    elif not change:
                        bad.add(l)
                        change = True
            # the guard
            gs = []
            gsel = []
            n0 = len(entry.pc)
            for b in backs:
                cs = []
                call = []
                for c in b.pc[n0:]:
                    if inv(c, (k,)):
                        call.append(c)
                        if not any(x.op == "select" for x in tm.walk([c])):
                            cs.append(c)
                gs.append(and_(*cs))
                gsel.append(and_(*call))
            g = or_(*gs) if gs else FALSE
            if guard is None or (g is not guard and guard is not TRUE):
                guard = g if guard is None or rnd < 14 else TRUE
                change = True
            # sign invariants of the remaining values (Houdini)
            if not change and not getattr(a, "houdini", False):
                a.houdini = True
                a.cands = self.candidates(base, locs, step, init, tys, summ)
                change = bool(a.cands)
                if change:
                    continue
            if a.cands:
                keep = []
                for l, iv in a.cands:
                    ok = True
                    for b in backs:
                        c = iv(self.read(b, l))
                        if c is not TRUE and not ex.entails(b, c, 500):
                            ok = False
                            break
                    if ok:
                        keep.append((l, iv))
                if len(keep) != len(a.cands):
                    a.cands = keep
                    change = True
            if not change:
                break
        else:
            raise Unsupported("loop rule did not stabilise")
        for w in ex.witnesses:
            if gsel and len(gsel) <= 4: # every past iteration reached the back edge, that of w among them
                c = and_(tm.ile(tm.rawconst(0, 64), w), tm.ilt(w, k))
                ex.assume(s, tm.or_(tm.not_(c), tm.subst(or_(*gsel), {k: w})))
            for l in locs:
                if l[0] != "lane" and l not in step and isinstance(init[l], T) and init[l].sort == "R":
                    self.share(s, entry, backs, l, init[l], k, w, inv)
        # the state at the start of an arbitrary iteration
        ex.loopstats.append((ex.dem.get(fn.name, fn.name), header, len(step), len(summ), len(locs) - len(step) - len(summ), len(a.cands)))
        a.mode = "real"
        a.base = dict(base.mem)
        self.active[(a.act, header)] = a
        for x in ("frame", "mem", "own", "pc", "exc", "depth", "caught", "log"):
            setattr(st, x, getattr(s, x))
        st.own = set()
        return True

    def share(self, s, entry, backs, l, v0, k, w, inv):
        """A sum that never decreases has taken in the term of every past iteration, that of w among them."""
        ex = self.ex
        v = self.read(entry, l)
        if v.spec or v0.spec or not (v0 is v or tm.rle(v0, v) is TRUE or tm.rle(v0, v) in s.pc or ex.entails(s, tm.rle(v0, v), 300)):
            return
        low = set()
        for b in backs:
            v1 = self.read(b, l)
            c = tm.rle(v, v1)
            if c is not TRUE and c not in b.pc and not ex.entails(b, c, 500):
                return
            ds = [d for d in [self.minus(v1, v)] + [self.minus(c.args[0], v) for c in self.lows(b, v1)] if d is not None and inv(d, (k,))]
            low.add(ds[-1] if ds else None)
        if len(low) != 1 or None in low:
            return
        d = tm.subst(low.pop(), {k: w})
        c = and_(tm.ile(tm.rawconst(0, 64), w), tm.ilt(w, k))
        ex.assume(s, tm.or_(tm.not_(c), tm.rle(tm.radd(v0, d), v)))

    def lows(self, b, v):
        for c in b.pc:
            for x in c.args if c.op == "or" else (c,):
                if x.op == "rle" and x.args[1] is v and (x is c or self.ex.entails(b, x, 500)):
                    yield x

    def minus(self, a, v):
        """a - v where v is a term of the sum a"""
        if a is v:
            return tm.R0
        if a.op == "radd":
            for x, y in (a.args, a.args[::-1]):
                d = self.minus(x, v)
                if d is not None:
                    return tm.radd(d, y)
        return None

    def candidates(self, base, locs, step, init, tys, summ):
        ex = self.ex
        out = []
        for l in locs:
            if l in step or l in summ or l[0] == "lane":
                continue
            v0 = init[l]
            ty = tys[l]
            if not isinstance(v0, T):
                continue
            if ty.k in ("float", "double") and ex.fm == "R":
                if v0.spec:
                    continue
                opts = [lambda v: tm.rle(tm.R0, v), lambda v: tm.rle(v, tm.R1), lambda v, v0=v0: tm.rle(v0, v), lambda v, v0=v0: tm.rle(v, v0), lambda v: tm.rlt(tm.R0, v)]
            elif ty.k == "int" and ty.w > 1:
                z = tm.rawconst(0, ty.w)
                opts = [lambda v, z=z: tm.ile(z, v), lambda v, v0=v0: tm.ile(v0, v), lambda v, v0=v0: tm.ile(v, v0)]
            else:
                continue
            for inv in opts:
                c = inv(v0)
                if c is TRUE or ex.entails(base, c, 300):
                    out.append((l, inv))
        return out

    # arrays written in a loop
    def lane_body(self, entry, base, b, l, k, inv):
        """What one iteration does to an array: (first index, None, None, element) for one store at
        first + k, or (first, count, bound, element) for a row of count elements at first + count*k."""
        A0, A1 = self.read(entry, l), self.read(b, l)
        L0 = base.mem[l[1]].lanes.get(l[2])
        if A1 is A0:
            return None
        if A1.op == "store" and A1.args[0] is A0:
            idx, v, cnt, bx = A1.args[1], A1.args[2], None, None
            stride = tm.rawconst(1, 64)
        elif A1.op == "map" and A1.args[4] is A0:
            first, cnt, bx, v = A1.args[:4]
            if not inv(cnt):
                return None
            idx, stride = tm.padd(first, bx, 64), cnt
        else:
            return None
        i0 = tm.psub(idx, tm.pmul(stride, k, 64), 64)
        if bx is not None:
            i0 = tm.psub(i0, bx, 64)
        if not inv(i0):
            return None
        also = (k,) if bx is None else (k, bx)
        m = {}
        for x in tm.walk([v]):
            if x.op == "select" and x.args[0] is A0:
                # not yet written: at or after the place written now
                d = tm.psub(x.args[1], idx, 64)
                if d.op != "const" or d.args[0] < 0 or L0 is None:
                    return None
                m[x] = tm.select(L0[1], x.args[1])
        if m:
            v = tm.subst(v, m)
        if any(x is A0 for x in tm.walk([v])) or not inv(v, also):
            return None
        return i0, cnt, bx, v

    def lane_summary(self, entry, base, backs, l, k, inv):
        """(first, count, bound, inner bound, element): the element is a choice by the condition of the path"""
        n0 = len(entry.pc)
        rs = []
        for b in backs:
            if self.read(b, l) is self.read(entry, l):
                rs.append(None)
                continue
            r = self.lane_body(entry, base, b, l, k, inv)
            if r is None:
                return None
            rs.append(r)
        w = [r for r in rs if r is not None]
        if not w:
            return None
        i0, cnt, bx, v = w[0]
        if all(r is not None and self.same_body(w[0], r) for r in rs):
            pass
        else:
            L0 = base.mem[l[1]].lanes.get(l[2])
            vs = []
            for b, r in zip(backs, rs):
                cs = b.pc[n0:]
                if not all(inv(c, (k,)) for c in cs):
                    return None
                if r is None:
                    if cnt is not None or L0 is None:
                        return None
                    vs.append((and_(*cs), tm.select(L0[1], tm.padd(i0, k, 64))))
                    continue
                if r[0] is not i0 or (r[1] is None) != (cnt is None) or cnt is not None and tm.ieq(r[1], cnt) is not TRUE:
                    return None
                vs.append((and_(*cs), r[3] if bx is None else tm.subst(r[3], {r[2]: bx})))
            if vs[0][1].sort == "B":
                return None
            v = vs[-1][1]
            for c, x in vs[-2::-1]:
                v = ite(c, x, v)
        bv = tm.fresh("bound", ("i", 64))
        return (i0, cnt, bv, bx, tm.subst(v, {k: bv}))

    def same_body(self, p, q):
        if p[0] is not q[0] or (p[1] is None) != (q[1] is None):
            return False
        if p[1] is None:
            return p[3] is q[3]
        nb = tm.fresh("bound", ("i", 64))  # both substituted alike
        return tm.ieq(p[1], q[1]) is TRUE and tm.subst(p[3], {p[2]: nb}) is tm.subst(q[3], {q[2]: nb})

    def lane_ok(self, entry, base, backs, l, sm, k, inv):
        """the body extends the summary for k to the summary for k + 1"""
        r = self.lane_summary(entry, base, backs, l, k, inv)
        if r is None:
            return False
        return self.same_body((sm[0], sm[1], sm[3], tm.subst(sm[4], {sm[2]: k})), (r[0], r[1], r[3], tm.subst(r[4], {r[2]: k})))

    def lanesum(self, A0, l, base, sm, k, ty):
        i0, cnt, bv, bx, v = sm
        if A0 is None:
            o = base.mem[l[1]]
            A0 = tm.karray(self.ex.zero(ty)) if o.lzero else self.ex.pendzero(o, tm.var("mem_%s_%d_init" % (o.name, l[2]), ("a", self.ex.esort(ty))), ty)
        if cnt is None:
            return tm.mk("map", (i0, k, bv, v, A0), A0.sort)
        return tm.mk("map2", (i0, k, cnt, bv, bx, v, A0), A0.sort)

    # ------------------------------------------------------------ leaving a loop
    def leave(self, st, a):
        """The number of iterations is often a known value: use it in place of the counter."""
        ex, k = self.ex, a.k
        cand = []
        for c in st.pc[-12:]:
            for x in (c.args if c.op in ("and", "or") else (c,)):
                if x.op == "not":
                    x = x.args[0]
                if x.op not in ("ile", "ieq"):
                    continue
                p = tm._poly(tm.psub(x.args[1], x.args[0], 64))
                ck = p.pop((k,), 0)
                if ck == 0 or any(k in m for m in p) or any(v % ck for m, v in p.items() if m != ()):
                    continue
                e = tm._frompoly({m: -v // ck for m, v in p.items()}, 64)
                if e not in cand and k not in self.syms(e):
                    cand.append(e)
        cand.sort(key=lambda e: e.op == "const")
        for e in cand:
            for d in (0, 1, -1):
                e1 = tm.padd(e, tm.rawconst(d, 64), 64)
                if ex.entails(st, tm.ieq(k, e1), 300):
                    return self.replace(st, k, e1, a)
        return None

    def replace(self, st, k, e, a):
        memo, m = {}, {k: e}

        def go(v):
            if isinstance(v, T):
                return tm.subst(v, m, memo)
            if isinstance(v, Ptr):
                o = go(v.off)
                return v if o is v.off else Ptr(v.obj, o)
            if isinstance(v, tuple):
                return tuple(go(x) for x in v)
            if isinstance(v, PIte):
                return ex_pite(go(v.c), go(v.a), go(v.b))
            return v

        def ex_pite(c, x, y):
            return x if c is TRUE else y if c is FALSE else PIte(c, x, y)
        f = st.frame
        for r, v in list(f.regs.items()):
            w = go(v)
            if w is not v:
                f.regs[r] = w
        for oid, o in list(st.mem.items()):
            if a.base.get(oid) is o:
                continue
            if o.lanes is not None:
                for l, (ty, arr) in list(o.lanes.items()):
                    w = go(arr)
                    if w is not arr:
                        st.wobj(oid).lanes[l] = (ty, w)
            for off, c in list(o.cells.items()):
                w = go(c[2])
                if w is not c[2] and not (isinstance(w, tuple) and w == c[2]):
                    st.wobj(oid).cells[off] = (c[0], c[1], w)
        out = []
        for c in st.pc:
            w = tm.subst(c, m, memo)
            if w is not TRUE and w not in out:
                out.append(w)
        st.pc = type(st.pc)(out)
        return None

    # ------------------------------------------------------------ bulk memory
    def copy(self, st, dst, src, n):
        ex = self.ex
        n = ex.use(n, ir.INT(64))
        if tm.is_const(n):
            n = tm.sval(n)
            if n == 0:
                return
            return self.copyn(st, dst, src, n)
        if not isinstance(dst, Ptr) or not isinstance(src, Ptr):
            raise Unsupported("copy through %r" % (dst,))
        zero = tm.ieq(n, iconst(0, 64)) if ex.im == "INT" else tm.bveq(n, iconst(0, 64))
        if dst.obj is None or src.obj is None:
            ex.safety(st, zero, "copy from or to a null pointer", "memory")
            return
        if ex.im != "INT":
            return self.copybv(st, dst, src, n)
        ex.safety(st, tm.ile(tm.rawconst(0, 64), n), "copy of negative length", "memory")
        so, do = st.mem[src.obj], st.mem[dst.obj]
        for o, p, what in ((so, src, "read"), (do, dst, "write")):
            size = o.size if isinstance(o.size, T) else iconst(o.size, 64)
            if o.freed:
                ex.oblige(st, FALSE, what + " after free", "memory")
            ex.safety(st, tm.ile(tm.rawconst(0, 64), p.off), "copy: %s before %s" % (what, o.name), "memory")
            ex.safety(st, tm.ile(tm.padd(p.off, n, 64), size), "copy: %s past the end of %s" % (what, o.name), "memory")
        if so.lanes is None and do.lanes is None:
            m = max(0, min(so.size, do.size))
            return self.copy_small(st, dst, src, n, m)
        if do.lanes is None:
            return self.copy_small(st, dst, src, n, do.size)
        if so.lanes is None:
            return self.copy_small(st, dst, src, n, so.size)
        S = so.stride
        do = st.wobj(dst.obj)
        if do.stride != S:
            if not do.lanes and do.stride % S == 0:
                do.stride = S
            elif do.stride % S == 0 and all(L[0].size <= S for L in do.lanes.values()):
                do.lanes, do.lzero, do.pend, do.stride = {}, False, (), S # any content from here on
            elif not so.lanes or so.stride % do.stride:
                raise Unsupported("copy between arrays of different element size")
        rs, rd = self.splitoff(src.off, S), self.splitoff(dst.off, S)
        cnt = tm.divexact(n, S, 64)
        if rs is None or rd is None or cnt is None or rs[1] != rd[1]:
            raise Unsupported("unaligned array copy")
        shift = tm.psub(rs[0], rd[0], 64)
        size = do.size if isinstance(do.size, T) else iconst(do.size, 64)
        whole = tm.ieq(rd[0], tm.rawconst(0, 64)) is TRUE and tm.ieq(n, size) is TRUE and tm.ieq(shift, tm.rawconst(0, 64)) is TRUE
        if whole and set(do.lanes) <= set(so.lanes):
            do.lanes = dict(so.lanes)
            do.lzero, do.pend = so.lzero, so.pend
            return
        for lane, (ty, arr) in list(so.lanes.items()):
            rest = ex.loops_lane(do, lane, ty)
            nl = lane  # same phase
            do.lanes[nl] = (ty, tm.mk("lam", (rd[0], cnt, arr, shift, rest), arr.sort))
        if so.lzero and not so.lanes and not do.lanes:
            do.lzero = True

    def splitoff(self, off, S):
        p = tm._poly(off)
        c0 = p.get((), 0)
        ph = c0 % S
        q = {}
        for m, c in p.items():
            if m == ():
                c -= ph
            if c % S:
                return None
            q[m] = c // S
        return tm._frompoly(q, 64), ph

    def copybv(self, st, dst, src, n):
        so, do = st.mem[src.obj], st.mem[dst.obj]
        m = min(so.size, do.size)
        return self.copy_small(st, dst, src, n, m)

    def copy_small(self, st, dst, src, n, m):
        """copy of symbolic length n <= m: byte i is copied when i < n"""
        ex = self.ex
        if m > 512:
            raise Unsupported("copy of symbolic length in a large object")
        u = 0
        if ex.im == "INT":
            for mono, c in tm._poly(n).items():
                u = math.gcd(u, c)
        if u > 1 and m % u == 0 and (st.mem[src.obj].lanes is not None or tm.is_const(src.off)):
            return self.copy_chunks(st, dst, src, n, m, u)
        vals = []
        nb = lambda i: (tm.ilt(tm.rawconst(i, 64), n) if ex.im == "INT" else tm.bvcmp("bvult", iconst(i, 64), n))
        for i in range(m):
            c = nb(i)
            if c is FALSE:
                break
            if not ex.feasible(st, c):
                break
            v = ex.guarded(st, c, lambda: ex.load(st, ir.INT(8), ex.padd_ptr(src, iconst(i, 64)) if i else src))
            vals.append((c, v))
        for i, (c, v) in enumerate(vals):
            q = ex.padd_ptr(dst, iconst(i, 64)) if i else dst

            def f():
                old = ex.load(st, ir.INT(8), q)
                ex.store(st, ir.INT(8), ex.vite(c, v, old, ir.INT(8)), q)
            ex.guarded(st, c, f)

    def copy_chunks(self, st, dst, src, n, m, u):
        """copy of symbolic length n <= m, a multiple of u"""
        ex = self.ex
        vals = []
        for i in range(0, m, u):
            c = tm.ilt(tm.rawconst(i, 64), n)
            if c is FALSE or not ex.feasible(st, c):
                break
            vals.append((i, c, ex.guarded(st, c, lambda: self.readparts(st, st.mem[src.obj], ex.padd_ptr(src, iconst(i, 64)).off if i else src.off, u))))
        for i, c, parts in vals:
            for d, k, ty, v in parts or ():
                if ty is None:
                    old = [L[0] for L in (st.mem[dst.obj].lanes or {}).values()] + [x[1] for x in st.mem[dst.obj].cells.values()]
                    ty = next((t for t in old if k % t.size == 0 and t.k in ("float", "double", "int")), ir.INT(8))
                    todo = [(d + j, ty, ex.zero(ty)) for j in range(0, k, ty.size)]
                else:
                    todo = [(d, ty, v)]
                for e, ty, v in todo:
                    q = ex.padd_ptr(dst, iconst(i + e, 64)) if i + e else dst
                    ex.guarded(st, c, lambda: ex.store(st, ty, v if c is TRUE else ex.vite(c, v, ex.load(st, ty, q), ty), q))

    def copyn(self, st, dst, src, n):
        ex = self.ex
        if isinstance(src, PIte):
            d = ex.decided(st, src.c)
            if d is not None:
                return self.copyn(st, dst, src.a if d else src.b, n)
            for q, c in ((src.a, src.c), (src.b, not_(src.c))):
                pass
            ty = self.guess_type(st, src, n)
            return ex.store(st, ty, ex.load(st, ty, src), dst)
        if isinstance(dst, PIte):
            d = ex.decided(st, dst.c)
            if d is not None:
                return self.copyn(st, dst.a if d else dst.b, src, n)
            ty = self.guess_type(st, src, n)
            return ex.store(st, ty, ex.load(st, ty, src), dst)
        for p, w in ((src, "read"), (dst, "write")):
            if not isinstance(p, Ptr):
                raise Unsupported("copy through %r" % (p,))
            if p.obj is None:
                ex.oblige(st, FALSE, "null pointer " + w, "memory")
                raise PathEnd()
            ex.bounds(st, st.mem[p.obj], p.off, n, w)
        if st.mem[dst.obj].ro:
            ex.oblige(st, FALSE, "write to constant", "memory")
            raise PathEnd()
        so = st.mem[src.obj]
        parts = self.readparts(st, so, src.off, n)
        do = st.wobj(dst.obj)
        if do.lanes is None and tm.is_const(dst.off):
            off = tm.sval(dst.off)
            ex.clear(st, do, off, n)
            for d, m, ty, v in parts:
                if ty is None:
                    do.zeros = do.zeros + [(off + d, off + d + m)]
                elif v is not UNDEF:
                    ex.putscalar(st, do, off + d, m, ty, v)
            return
        for d, m, ty, v in parts:
            if v is UNDEF:
                continue
            if ty is None:
                q = ex.padd_ptr(dst, iconst(d, 64)) if d else dst
                self.memset(st, q, iconst(0, 8), iconst(m, 64))
                continue
            ex.store(st, ty, v, ex.padd_ptr(dst, iconst(d, 64)) if d else dst)

    def guess_type(self, st, p, n):
        while isinstance(p, PIte):
            p = p.a
        o = st.mem[p.obj]
        parts = self.readparts(st, o, p.off, n)
        offs, els = [], []
        pos = 0
        for d, m, ty, v in parts:
            els.append(ty if ty is not None else ir.INT(8 * m))
            pos = d + m
        return ir.Ty("struct", el=els, packed=True)

    def readparts(self, st, so, off, n):
        """[(delta, size, type, value)] describing n bytes"""
        ex = self.ex
        out = []
        if so.lanes is not None:
            d = 0
            while d < n:
                r = ex.lane(so, tm.padd(off, tm.rawconst(d, 64), 64), 1)
                if r is None:
                    raise Unsupported("unaligned array read")
                idx, lane = r
                L = so.lanes.get(lane)
                if L is None:
                    if so.lzero or any(tm.ieq(idx, r0) is TRUE and tm.is_const(cnt) and tm.sval(cnt) > 0 for r0, cnt in so.pend):
                        # size up to the next known lane
                        nxt = min([x for x in list(so.lanes) + [so.stride] if x > lane])
                        m = min(nxt - lane, n - d)
                        out.append((d, m, None, None))
                        d += m
                        continue
                    out.append((d, 1, ir.INT(8), UNDEF))
                    d += 1
                    continue
                m = L[0].size
                out.append((d, m, L[0], tm.select(L[1], idx)))
                d += m
            return out
        if not tm.is_const(off):
            ks = ex.symoffsets(so, off, n)
            if not ks:
                raise Unsupported("symbolic copy: no place")
            # layout from the first place
            lay = self.readparts(st, so, iconst(ks[0], 64), n)
            for d, m, ty, v in lay:
                t = ty if ty is not None else ir.INT(8 * m)
                val = None
                for kk in ks:
                    x = ex.get(st, so, kk + d, t)
                    val = x if val is None else ex.vite(ex.ieq(off, iconst(kk, 64)), x, val, t)
                out.append((d, m, t, val))
            return out
        o = tm.sval(off)
        p = o
        while p < o + n:
            c = so.cells.get(p)
            if c is not None and p + c[0] <= o + n:
                out.append((p - o, c[0], c[1], c[2]))
                p += c[0]
                continue
            covered = c is not None
            if not covered:
                for q in range(p - 1, p - so.maxsz, -1):
                    c2 = so.cells.get(q)
                    if c2 is not None:
                        covered = q + c2[0] > p
                        break
            if covered:
                v = ex.get(st, so, p, ir.INT(8))
                out.append((p - o, 1, ir.INT(8), v))
                p += 1
                continue
            z = [hi for lo, hi in so.zeros if lo <= p < hi]
            if z:
                m = min(z[0], o + n)
                nx = [x for x in so.cells if p < x < m] if len(so.cells) < 64 else [x for x in range(p + 1, m) if x in so.cells]
                if nx:
                    m = min(nx)
                out.append((p - o, m - p, None, None))
                p = m
                continue
            out.append((p - o, 1, ir.INT(8), UNDEF))
            p += 1
        return out

    def memset(self, st, dst, v, n):
        ex = self.ex
        n = ex.use(n, ir.INT(64))
        if isinstance(v, T) and tm.is_const(v):
            b = tm.uval(v) & 255
        else:
            b = None
        if isinstance(dst, PIte):
            raise Unsupported("memset through a choice of pointers")
        if tm.is_const(n):
            n = tm.sval(n)
            if n == 0:
                return
            if dst.obj is None:
                ex.oblige(st, FALSE, "null pointer write", "memory")
                raise PathEnd()
            ex.bounds(st, st.mem[dst.obj], dst.off, n, "write")
            o = st.wobj(dst.obj)
            if o.lanes is None and tm.is_const(dst.off):
                off = tm.sval(dst.off)
                ex.clear(st, o, off, n)
                if b == 0:
                    o.zeros = o.zeros + [(off, off + n)]
                else:
                    bv = iconst(b, 8) if b is not None else ex.cast(st, "trunc", v, ir.INT(v.sort[1]), ir.INT(8)) if v.sort != ("i", 8) else v
                    for i in range(n):
                        o.cells[off + i] = (1, ir.INT(8), bv)
                return
            r = ex.lane(o, dst.off, 1) if b == 0 and o.lanes is not None and n % o.stride == 0 else None
            if r is not None and r[1] == 0 and n // o.stride <= 64 and n > 1 and not (self.active and n == o.stride and n > 4 and n % 4 == 0):
                for d, (ty, arr) in sorted(o.lanes.items()):
                    for i in range(n // o.stride):
                        ex.store(st, ty, ex.zero(ty), ex.padd_ptr(dst, iconst(d + i * o.stride, 64)) if d or i else dst)
                st.wobj(dst.obj).pend += ((r[0], tm.rawconst(n // o.stride, 64)),)
                return
            if b == 0 and (o.lanes or o.lanes is not None and o.stride > 4):
                d = 0
                while d < n:
                    r = ex.lane(o, tm.padd(dst.off, tm.rawconst(d, 64), 64), 1)
                    if r is None or r[1] not in o.lanes and (r[1] % 4 or n - d < 4 or o.stride % 4):
                        raise Unsupported("memset in an array")
                    ty = o.lanes[r[1]][0] if r[1] in o.lanes else ir.FLOAT # a guess; refused later if wrong
                    ex.store(st, ty, ex.zero(ty), ex.padd_ptr(dst, iconst(d, 64)) if d else dst)
                    d += ty.size
                return
            if o.lanes is not None and not o.lanes and o.stride == 1 or (o.lanes and all(L[0].size == 1 for L in o.lanes.values())):
                for i in range(n):
                    ex.store(st, ir.INT(8), iconst(b, 8), ex.padd_ptr(dst, iconst(i, 64)) if i else dst)
                return
            raise Unsupported("memset of %d bytes in an array" % n)
        if dst.obj is None:
            ex.safety(st, tm.ieq(n, iconst(0, 64)), "null pointer write", "memory")
            return
        if ex.im != "INT":
            raise Unsupported("memset of symbolic length")
        o = st.wobj(dst.obj)
        size = o.size if isinstance(o.size, T) else iconst(o.size, 64)
        ex.safety(st, tm.ile(tm.rawconst(0, 64), n), "memset of negative length", "memory")
        ex.safety(st, tm.ile(tm.rawconst(0, 64), dst.off), "memset before " + o.name, "memory")
        ex.safety(st, tm.ile(tm.padd(dst.off, n, 64), size), "memset past the end of " + o.name, "memory")
        if o.lanes is None:
            raise Unsupported("memset of symbolic length in a fixed object")
        if b == 0 and tm.ieq(dst.off, iconst(0, 64)) is TRUE and tm.ieq(n, size) is TRUE:
            o.lanes = {}
            o.lzero = True
            return
        if b == 0 and tm.is_const(dst.off) and 0 < tm.sval(dst.off) < o.stride and tm.ieq(tm.padd(dst.off, n, 64), size) is TRUE:
            # std::vector<unsigned char>(n) zeroes the first element alone and then the rest
            d = tm.sval(dst.off)
            lo = [o.lanes.get(j) for j in range(d)]
            if all(L is not None and L[0].k == "int" and L[0].size == 1 and tm.ieq(tm.select(L[1], tm.rawconst(0, 64)), iconst(0, L[0].w)) is TRUE for L in lo):
                o.lanes = {}
                o.lzero = True
                return
        if b is None:
            raise Unsupported("memset with a symbolic byte")
        r, cnt = self.splitoff(dst.off, o.stride), tm.divexact(n, o.stride, 64)
        if r is None or cnt is None or r[1] != 0:
            # std::vector<float>(n) zeroes the first element alone and then the rest
            raise Unsupported("unaligned memset")
        if b == 0:
            lanes = list(o.lanes.items())
            o.pend += ((r[0], cnt),)
            for lane, (ty, arr) in lanes:
                o.lanes[lane] = (ty, tm.mk("lam", (r[0], cnt, tm.karray(ex.zero(ty)), tm.rawconst(0, 64), arr), arr.sort))
            return
        raise Unsupported("memset with %d" % b)

    def fill(self, st, I, a, fn):
        """std::__fill_a1(first, last, value): [first, last) := value"""
        ex = self.ex
        first, last, val = a
        if not (isinstance(first, Ptr) and isinstance(last, Ptr)) or first.obj != last.obj:
            return NotImplemented
        n = tm.psub(last.off, first.off, 64) if ex.im == "INT" else None
        if n is None or n.op == "const":
            return NotImplemented
        o = st.mem[first.obj]
        if o.lanes is None or not isinstance(val, Ptr):
            return NotImplemented
        S = o.stride
        cnt = tm.divexact(n, S, 64)
        r = self.splitoff(first.off, S)
        if cnt is None or r is None or r[1] != 0:
            return NotImplemented
        size = o.size
        ex.safety(st, tm.ile(tm.rawconst(0, 64), first.off), "fill before " + o.name, "memory")
        ex.safety(st, tm.ile(last.off, size), "fill past the end of " + o.name, "memory")
        parts = self.readparts(st, st.mem[val.obj], val.off, S)
        o = st.wobj(first.obj)
        pend = False
        for d, m, ty, v in parts:
            if ty is None:
                L = o.lanes.get(d)
                if L is None:
                    pend = True
                    continue
                ty, v = L[0], ex.zero(L[0])
            v = ex.use(v, ty)
            whole = tm.ieq(r[0], iconst(0, 64)) is TRUE and tm.ieq(last.off, size) is TRUE
            if whole:
                o.lanes[d] = (ty, tm.karray(v))
            else:
                rest = ex.loops_lane(o, d, ty)
                o.lanes[d] = (ty, tm.mk("lam", (r[0], cnt, tm.karray(v), tm.rawconst(0, 64), rest), rest.sort))
        if pend:
            o.pend += ((r[0], cnt),)
        return None


