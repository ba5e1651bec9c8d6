"""C08: partial reductions of a segment tree equal the reduction over the leaves of the range."""
import functools
import numpy as onp
import z3
import coax
from coax.utils import SegmentTree, SumTree, MinTree, MaxTree
from lib import pyvc as V
from lib.pyvc import inp, assume, sand, sor, snot, same, truth, objarray, SList, SSeq, Forall, wrap, implies
from checks.c01 import fields, V_seed
from checks.c07 import mk_tree, red, leaf0, OPS, RED

LO = z3.Function('Lo', z3.IntSort(), z3.IntSort())      # first leaf below a node
HI = z3.Function('Hi', z3.IntSort(), z3.IntSort())      # one past the last leaf below a node
R = z3.Function('R', z3.IntSort(), z3.IntSort(), z3.RealSort())     # reduction of values[x:y]


def lo(p):
    return wrap(LO(V.num(p)))


def hi(p):
    return wrap(HI(V.num(p)))


def rng(x, y):
    return wrap(R(V.num(x), V.num(y)))


def split(x, y, z):
    """R(x, z) = red(R(x, y), R(y, z)), in either order (associative, commutative reducer)"""
    assume(implies(sand(x < y, y < z), sand(same(rng(x, z), red(rng(x, y), rng(y, z))), same(rng(x, z), red(rng(y, z), rng(x, y))))))


def geometry(p, H):
    """facts on the leaf range of node p (see geometry_lemma)"""
    n = V.pow2(H) - 1
    L0 = leaf0(H)
    assume(implies(sand(p >= 0, p < n), lo(p) < hi(p)))
    assume(implies(sand(p >= L0, p < n), sand(same(lo(p), p - L0), same(hi(p), p - L0 + 1))))
    assume(implies(sand(p >= 0, p < L0), sand(same(lo(2 * p + 1), lo(p)), same(hi(2 * p + 1), lo(2 * p + 2)), same(hi(2 * p + 2), hi(p)))))


def adjacent(p, off, size):
    """neighbours within a level (see geometry_lemma)"""
    assume(implies(sand(p >= off, p + 1 < off + size), same(hi(p), lo(p + 1))))


class ReduceLoop(V.LoopSpec):
    """before level L-1 is entered: a reduces [start, Hi(i)), b reduces [Lo(j), stop), i < j nodes of level L; finished queries: a and b combine to the answer"""
    vars = ('i', 'j', 'a', 'b', 'done', 'level_offset')

    def __init__(self, t, H, C, q):
        self.t, self.H, self.C, self.q = t, H, C, q
        self.node = None

    def facts(self, I, i, j, k):
        """instances of the tree facts around the nodes i, j"""
        H = self.H
        L = H - 1 - k
        off, size = V.pow2(L) - 1, V.pow2(L)
        for (s, e), x, y in zip(self.q, i, j):
            for p in (x, y, x + 1, y - 1, (x - 1) // 2, (y - 1) // 2):
                geometry(p, H)
                self.node(p)
            for p in (x, y - 1):
                adjacent(p, off, size)
            pof, psz = V.pow2(L - 1) - 1, V.pow2(L - 1)
            for p in ((x - 1) // 2, (y - 1) // 2 - 1, (y - 1) // 2):
                assume(implies(L >= 1, implies(sand(p >= pof, p + 1 < pof + psz), same(hi(p), lo(p + 1)))))
            split(s, hi(x), hi(x + 1))
            split(lo(y - 1), lo(y), e)
            split(s, hi(x), e)
            split(s, lo(y), e)

    def inv(self, I, fr, k):
        H = self.H
        L = H - 1 - k
        off, size = V.pow2(L) - 1, V.pow2(L)
        v = fr.vars
        i, j, a, b = [v[n].ravel().tolist() for n in 'ijab']
        done = onp.ravel(v['done']).tolist()
        out = [('level offset', same(v['level_offset'], off)), ('not all done', snot(sand(*done)))]
        self.facts(I, i, j, k)
        for (s, e), x, y, u, w, d in zip(self.q, i, j, a, b, done):
            out.append(('nodes within the level', sand(x >= off, x <= y, y < off + size)))
            out.append(('finished queries keep their result', implies(d, same(red(u, w), rng(s, e)))))
            out += [(nm, sor(d, c)) for nm, c in [('unfinished: two different nodes', x < y), ('left part', sand(same(u, rng(s, hi(x))), s < hi(x))), ('right part', sand(same(w, rng(lo(y), e)), lo(y) < e))]]
        return out

    def havoc(self, I, fr, k):
        H = self.H
        L = H - 1 - k
        assume(sand(L >= 0, L <= H - 1))
        off, size = V.pow2(L) - 1, V.pow2(L)
        v = fr.vars
        n = len(self.q)
        i, j = [V.fresh('int', 'i') for _ in range(n)], [V.fresh('int', 'j') for _ in range(n)]
        a, b = [V.fresh('real', 'a') for _ in range(n)], [V.fresh('real', 'b') for _ in range(n)]
        done = [V.fresh('bool', 'done') for _ in range(n)]
        assume(snot(sand(*done)))
        for (s, e), x, y, u, w, d in zip(self.q, i, j, a, b, done):
            assume(sand(x >= off, x <= y, y < off + size))
            assume(implies(d, same(red(u, w), rng(s, e))))
            assume(sor(d, sand(x < y, same(u, rng(s, hi(x))), same(w, rng(lo(y), e)), s < hi(x), lo(y) < e)))
        self.facts(I, i, j, k)
        v.update(i=objarray(i), j=objarray(j), a=objarray(a), b=objarray(b), done=objarray(done), level_offset=off)


class ReduceLoopAny(ReduceLoop):
    """the same for any number of ranges: self.q is a function of the position, self.N their number"""

    def conds(self, s, e, x, y, u, w, d, off, size):
        return [('nodes within the level', sand(x >= off, x <= y, y < off + size)), ('finished queries keep their result', implies(d, same(red(u, w), rng(s, e))))] + \
            [(nm, sor(d, c)) for nm, c in [('unfinished: two different nodes', x < y), ('left part', sand(same(u, rng(s, hi(x))), s < hi(x))), ('right part', sand(same(w, rng(lo(y), e)), lo(y) < e))]]

    def at(self, I, k, r, x, y):
        q, self.q = self.q, [self.q(r)]
        try:
            self.facts(I, [x], [y], k)
        finally:
            self.q = q

    def inv(self, I, fr, k):
        L = self.H - 1 - k
        off, size = V.pow2(L) - 1, V.pow2(L)
        v = fr.vars
        if not all(V.isseq(v[n]) for n in ('i', 'j', 'a', 'b', 'done')):
            raise V.Unsupported('arrays expected')
        i, j, a, b, done = [V.view(v[n]).get for n in ('i', 'j', 'a', 'b', 'done')]
        rows = [r for m, r in V._P.rows if V.same_n(m, self.N)]
        out = [('level offset', same(v['level_offset'], off)), ('not all done', sor(*[sand(V.in_range(r, self.N), snot(done(r))) for r in rows])),
               ('one node, partial result and flag per range', sand(*[same(V.view(v[n]).n, self.N) for n in ('i', 'j', 'a', 'b', 'done')]))]

        def cond(c):
            def pred(r):
                s, e = self.q(r)
                x, y = i(r), j(r)
                self.at(I, k, r, x, y)
                return self.conds(s, e, x, y, a(r), b(r), done(r), off, size)[c][1]
            return Forall(self.N, pred)
        return out + [(nm, cond(c)) for c, nm in enumerate(['nodes within the level', 'finished queries keep their result', 'unfinished: two different nodes', 'left part', 'right part'])]

    def havoc(self, I, fr, k):
        L = self.H - 1 - k
        assume(sand(L >= 0, L <= self.H - 1))
        off, size = V.pow2(L) - 1, V.pow2(L)
        F = dict(i=V.fun('i', 'int', 'int'), j=V.fun('j', 'int', 'int'), a=V.fun('a', 'int', 'real'), b=V.fun('b', 'int', 'real'), done=V.fun('done', 'int', 'bool'))

        def known(r):
            s, e = self.q(r)
            x, y = F['i'](r), F['j'](r)
            self.at(I, k, r, x, y)
            return sand(*[c for _, c in self.conds(s, e, x, y, F['a'](r), F['b'](r), F['done'](r), off, size)])
        V.univ(self.N, known)
        w = V.fresh('int', 'w')
        assume(sand(V.in_range(w, self.N), snot(F['done'](w))))
        V.row(self.N, w)
        fr.vars.update({n: SList(self.N, f, 'array') for n, f in F.items()}, level_offset=off)


def reduce_any_body(form):
    def body(I):
        t, C, H, init = mk_tree(I)
        A = z3.Function('A', z3.IntSort(), z3.RealSort())

        def node(p):
            p = V.num(p)
            V.fact(z3.Implies(z3.And(p >= 0, p < V.num(V.pow2(H)) - 1), A(p) == R(LO(p), HI(p))))
            V.fact(RED(A(p), V.num(init)) == A(p))
        t._arr = SList(V.pow2(H) - 1, lambda p: wrap(A(V.num(p))), 'array')
        n = inp('int', 'n')
        assume(n >= (2 if form == 'to' else 1))
        st, sp = V.fun('start', 'int', 'int'), V.fun('stop', 'int', 'int')
        s0, e0 = inp('int', 's0'), inp('int', 'e0')
        start = (lambda r: s0) if form == 'to' else st
        stop = (lambda r: e0) if form == 'from' else (lambda r: C) if form == 'none' else sp
        args = {'array': (SList(n, st, 'array'), SList(n, sp, 'array')), 'none': (SList(n, st, 'array'),), 'from': (SList(n, st, 'array'), e0), 'to': (s0, SList(n, sp, 'array'))}[form]

        def q(r):
            s, e = start(r), stop(r)
            return V.ite(s < 0, s + C, s), V.ite(e < 0, e + C, e)

        def good(r):
            s, e = start(r), stop(r)
            s1, e1 = q(r)
            return sand(s >= 0 - C, s < C, e > 0 - C, e <= C, snot(same(e, 0)), s1 < e1)

        def leaves(r):
            s, e = q(r)
            for p in (leaf0(H) + s, leaf0(H) + e - 1):
                geometry(p, H)
                node(p)
            return True
        V.univ(n, leaves)
        spec = ReduceLoopAny(t, H, C, q)
        spec.node, spec.N = node, n
        I.loops[SegmentTree.partial_reduce.__qualname__] = spec
        try:
            r = I.call(t.partial_reduce, args)
        except IndexError as ex:
            if not getattr(ex, '_by_code', False):
                raise
            rows = [k for m, k in V._P.rows if V.same_n(m, n)] + ([0] if form == 'to' else [])
            return [('rejected only if a range is empty or out of bounds', sor(*[sand(V.in_range(k, n), snot(good(k))) for k in rows]))]
        r = V.view(r) if V.isseq(r) else None
        if r is None:
            raise V.Unsupported('result is not an array of symbolic length')
        return [('accepted only if all ranges are non-empty and within bounds', Forall(n, good)), ('one result per range', same(r.n, n)),
                ('result is the reduction of values[start:stop]', Forall(n, lambda k: (same(r.get(k), rng(*q(k))))))]
    return body


def reduce_body(n, form):
    def body(I):
        t, C, H, init = mk_tree(I)
        A = z3.Function('A', z3.IntSort(), z3.RealSort())

        def node(p):
            """the tree is consistent: a node holds the reduction of the leaves below it (C07)"""
            p = V.num(p)
            V.fact(z3.Implies(z3.And(p >= 0, p < V.num(V.pow2(H)) - 1), A(p) == R(LO(p), HI(p))))
            V.fact(RED(A(p), V.num(init)) == A(p))
        t._arr = SList(V.pow2(H) - 1, lambda p: wrap(A(V.num(p))), 'array')
        starts = [inp('int', 's%d' % k) for k in range(n)]
        stops = [inp('int', 'e%d' % k) for k in range(n)] if form not in ('none', 'from') else [None] * n
        if form == 'from':
            stops = [inp('int', 'e0')] * n
        if form == 'int':
            args = (starts[0], stops[0])
        elif form == 'none':
            args = (starts[0],) if n == 1 else (objarray(starts),)
        elif form == 'from':
            args = (objarray(starts), stops[0])
        elif form == 'to':
            args = (starts[0], objarray(stops))
        else:
            args = (objarray(starts), objarray(stops))
        q, ok = [], []
        for s, e in zip(starts, stops):
            e = C if e is None else e
            s1 = V.ite(s < 0, s + C, s)
            e1 = V.ite(e < 0, e + C, e)
            good = sand(s >= 0 - C, s < C, e > 0 - C, e <= C, snot(same(e, 0)), s1 < e1)
            q.append((s1, e1))
            ok.append(good)
        spec = ReduceLoop(t, H, C, q)
        spec.node = node
        I.loops[SegmentTree.partial_reduce.__qualname__] = spec
        for s, e in q:
            for p in (leaf0(H) + s, leaf0(H) + e - 1):
                geometry(p, H)
                node(p)
        try:
            r = I.call(t.partial_reduce, args)
        except IndexError as ex:
            if not getattr(ex, '_by_code', False):
                raise
            return [('rejected only if a range is empty or out of bounds', snot(sand(*ok)))]
        return [('accepted only if all ranges are non-empty and within bounds', sand(*ok)), ('one result per range', onp.shape(r) == (n,)),
                ('result is the reduction of values[start:stop]', sand(*[same(x, rng(s, e)) for x, (s, e) in zip(onp.ravel(r).tolist(), q)]))]
    return body


def geometry_lemma(I):
    """induction step (from a level to the next): neighbouring nodes have adjacent leaf ranges"""
    p, off, size = inp('int', 'p'), inp('int', 'off'), inp('int', 'size')
    assume(sand(size >= 1, p >= off, p < off + size, off >= 0, same(off, size - 1)))
    for x in (p, p + 1):
        assume(sand(same(lo(2 * x + 1), lo(x)), same(hi(2 * x + 1), lo(2 * x + 2)), same(hi(2 * x + 2), hi(x))))
    assume(implies(p + 1 < off + size, same(hi(p), lo(p + 1))))
    out = []
    for c in (2 * p + 1, 2 * p + 2):
        out.append(('children of neighbours are neighbours', implies(c + 1 < 2 * off + 1 + 2 * size, same(hi(c), lo(c + 1)))))
    x, y, z = lo(2 * p + 1), lo(2 * p + 2), hi(2 * p + 2)
    split(x, y, z)
    A = z3.Function('A', z3.IntSort(), z3.RealSort())
    g = lambda n: wrap(A(V.num(n)))       # noqa
    assume(sand(lo(2 * p + 1) < hi(2 * p + 1), lo(2 * p + 2) < hi(2 * p + 2), same(g(p), red(g(2 * p + 1), g(2 * p + 2))), same(g(2 * p + 1), rng(lo(2 * p + 1), hi(2 * p + 1))), same(g(2 * p + 2), rng(lo(2 * p + 2), hi(2 * p + 2)))))
    out.append(('a consistent node reduces the leaves below it (induction step)', same(g(p), rng(lo(p), hi(p)))))
    return out


# ---------------------------------------------------------------- native

def one(case):
    seed, cap, ci = case
    rnd = onp.random.RandomState(seed)
    cls = (SumTree, MinTree, MaxTree)[ci % 3]
    t = cls(capacity=cap)
    v = rnd.randint(-8, 9, size=cap) / 4.
    t.set_values(..., v)
    op = OPS[cls]
    fold = lambda s, e: functools.reduce(op, v[s:e], t.init_value)     # noqa
    pairs = [(s, e) for s in range(cap) for e in range(s + 1, cap + 1)]
    if len(pairs) > 60:
        pairs = [pairs[k] for k in rnd.permutation(len(pairs))[:60]] + [(0, cap), (cap - 1, cap), (0, 1)]
    for s, e in pairs:
        w = fold(s, e)
        for a in ((s, e), (s - cap, e), (s, e - cap if e < cap else e)):
            g = t.partial_reduce(*a)
            if onp.shape(g) != (1,) or g[0] != w:
                return 'partial_reduce%s of %s is %s, expected %s' % (a, v, g, w)
    for s in range(cap)[:20]:
        if t.partial_reduce(s)[0] != fold(s, cap):
            return 'partial_reduce(%d) of %s is %s' % (s, v, t.partial_reduce(s))
    if t.partial_reduce()[0] != fold(0, cap):
        return 'partial_reduce() of %s' % v
    for _ in range(12):
        k = rnd.randint(1, 7)
        qs = [pairs[rnd.randint(len(pairs))] for _ in range(k)]
        S, E = onp.array([s for s, e in qs]), onp.array([e for s, e in qs])
        keep = (S.copy(), E.copy(), onp.array(t._arr))
        w = [fold(s, e) for s, e in qs]
        g = t.partial_reduce(S, E)
        if onp.shape(g) != (k,) or not onp.array_equal(g, w):
            return 'partial_reduce(%s, %s) of %s is %s, expected %s' % (S, E, v, g, w)
        if not (onp.array_equal(S, keep[0]) and onp.array_equal(E, keep[1]) and onp.array_equal(t._arr, keep[2])):
            return 'partial_reduce modified its arguments or the tree'
        g = t.partial_reduce(S)
        if not onp.array_equal(g, [fold(s, cap) for s in S]):
            return 'partial_reduce(%s) of %s is %s' % (S, v, g)
        Sn, En = onp.where(rnd.rand(k) < .5, S - cap, S), onp.where((rnd.rand(k) < .5) & (E < cap), E - cap, E)     # negative positions count from the end
        for args, ww in (((Sn, En), w), ((Sn,), [fold(s, cap) for s in S]), ((int(Sn[0]),), [fold(S[0], cap)]), ((int(Sn[0]), int(En[0])), w[:1])):
            g = t.partial_reduce(*args)
            if not onp.array_equal(g, ww):
                return 'partial_reduce%s of %s is %s, expected %s' % (args, v, g, ww)
        s = int(S.min())
        ok = E > s
        g = t.partial_reduce(s, E[ok])
        if not onp.array_equal(g, [fold(s, e) for e in E[ok]]):
            return 'partial_reduce(%d, %s) of %s is %s' % (s, E[ok], v, g)
    for bad in ((0, cap + 1), (cap, cap), (-cap - 1, cap), (0, 0), (cap - 1, cap - 1) if cap > 1 else (0, 0), (0, -cap)):
        try:
            g = t.partial_reduce(*bad)
            return 'partial_reduce%s of a tree of capacity %d returned %s' % (bad, cap, g)
        except IndexError:
            pass
    for bad in ((0.5, 2), (onp.array([0.]), 1), ('a',)):
        try:
            t.partial_reduce(*bad)
            return 'partial_reduce%s accepted' % (bad,)
        except TypeError:
            pass
    return None


def cases(k, salt=0):
    rnd = onp.random.RandomState(17 * V_seed() + salt)
    return [(int(rnd.randint(1 << 30)), c, ci) for c in (1, 2, 3, 4, 5, 7, 8, 9) for ci in range(3)] + [(int(rnd.randint(1 << 30)), int(rnd.choice([3, 4, 6, 8, 11, 16, 17, 32, 40, 100, 1030])), int(rnd.randint(3))) for _ in range(k)]


def replay(v):
    C = int(v['C'])
    if not 1 <= C <= 100000:
        return None
    S = [int(v[k]) for k in sorted(v) if k[0] == 's' and k[1:].isdigit()]
    E = [int(v[k]) for k in sorted(v) if k[0] == 'e' and k[1:].isdigit()]
    no_stop = not E
    if no_stop:
        E = [C] * len(S)
    E = E * (len(S) if len(E) == 1 else 1)
    for cls in (SumTree, MinTree, MaxTree):
        t = cls(capacity=C)
        vals = onp.random.RandomState(0).randint(-8, 9, size=C) / 4.
        t.set_values(..., vals)
        norm = [(s + C if s < 0 else s, e + C if e < 0 else e) for s, e in zip(S, E)]
        ok = all(-C <= s < C and -C < e <= C and e != 0 and a < b for s, e, (a, b) in zip(S, E, norm))
        try:
            g = t.partial_reduce(onp.array(S)) if no_stop else t.partial_reduce(onp.array(S), onp.array(E))
        except IndexError as ex:
            if ok:
                return 'partial_reduce(%s, %s), capacity %d, raised IndexError: %s' % (S, E, C, ex)
            continue
        if not ok:
            return 'partial_reduce(%s, %s), capacity %d, returned %s' % (S, E, C, g)
        w = [functools.reduce(OPS[cls], vals[a:b], t.init_value) for a, b in norm]
        if not onp.array_equal(g, w):
            return 'partial_reduce(%s, %s), capacity %d: %s, expected %s' % (S, E, C, g, w)
    return None


def job(name, body, rp=replay, **kw):
    def f(ck):
        V.LINEAR_MOD[0] = True
        ck.assume('the reducer is associative and commutative with identity init_value (sum, min, max)', 'the tree is consistent (C07): each node holds the reduction of the leaves below it',
                  'real arithmetic: the order of summation does not matter', 'any number of ranges per call; facts about all of them are instantiated at the positions that come up')
        V.contract(ck, 'SegmentTree.' + name, body, replay=rp, search=lambda: next((m for m in (one(c) for c in cases(40, 3)) if m), None), **kw)
    return (name, f)


def job_native(ck):
    n = 300 if ck.thorough else 40
    ck.concrete('trees/partial_reduce', one, cases(n), bound='%d trees, capacity <= 1030, all or 60 random ranges each, batches of <= 6 ranges' % (n + 24))


JOBS = [job('partial_reduce ' + nm, reduce_body(n, f), deadline_s=150) for nm, n, f in (('(int, int)', 1, 'int'), ('(int)', 1, 'none'), ('(array of 1)', 1, 'array'), ('(array of 2)', 2, 'array'), ('(array of 2, int)', 2, 'from'), ('(int, array of 1)', 1, 'to'))] + [
    job('partial_reduce (any number%s)' % nm, reduce_any_body(f), rp=None, deadline_s=150) for nm, f in (('', 'array'), (', no stop', 'none'), (', one stop', 'from'), (' > 1, one start', 'to'))] + [
    job('geometry lemma', geometry_lemma, rp=None), ('native', job_native)]
