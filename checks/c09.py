"""C09: SumTree.inverse_cdf / sample invert the cumulative distribution of the leaf values."""
import numpy as onp
import z3
import coax
from coax.utils import SegmentTree, SumTree
from lib import pyvc as V
from lib.pyvc import inp, assume, sand, sor, snot, same, truth, objarray, SList, SSeq, Forall, wrap, implies
from checks.c01 import fields, V_seed
from checks.c07 import leaf0
from checks.c08 import lo, hi, geometry, LO, HI

PS = z3.Function('PS', z3.IntSort(), z3.RealSort())     # PS(x) = sum of the first x leaves
A = z3.Function('A', z3.IntSort(), z3.RealSort())


def ps(x):
    return wrap(PS(V.num(x)))


def arr(p):
    return wrap(A(V.num(p)))


class Tree:
    """a consistent sum tree (C07) of arbitrary capacity with non-negative leaves"""

    def __init__(self, I, cls=SumTree):
        self.C = C = inp('int', 'C')
        assume(C >= 1)
        self.t = t = I.construct(cls, (C,), {})
        fields(t, '_arr', '_height', 'capacity')
        self.H = H = I.getattr(t, 'height')
        self.n = V.pow2(H) - 1
        t._arr = SList(self.n, lambda p: arr(p), 'array')
        geometry(0, H)
        assume(sand(same(lo(0), 0), same(hi(0), V.pow2(H - 1)), same(ps(0), 0)))
        self.node(0)
        self.root = arr(0)

    def node(self, p):
        H = self.H
        geometry(p, H)
        p_, n = V.num(p), V.num(self.n)
        V.fact(z3.Implies(z3.And(p_ >= 0, p_ < n), z3.And(A(p_) == PS(HI(p_)) - PS(LO(p_)), A(p_) >= 0)))
        V.fact(z3.Implies(z3.And(p_ >= V.num(leaf0(H) + self.C), p_ < n), A(p_) == 0))

    def family(self, p):
        for q in (p, 2 * p + 1, 2 * p + 2):
            self.node(q)


class CdfLoop(V.LoopSpec):
    """before level k+1 is entered: idx is a node of level k with positive mass, whose leaf range contains the requested quantile"""
    vars = ('idx', 'values', 'level_offset_parent')

    def __init__(self, T, u):
        self.T, self.u = T, u

    def cond(self, x, v, u, off, size):
        T = self.T
        return [('node within the level', sand(x >= off, x < off + size)), ('the remaining value lies within the node', sand(v >= 0, v <= arr(x), arr(x) > 0)), ('strictly, for u < 1', implies(u < 1, v < arr(x))),
                ('the remaining value is the quantile minus the mass before the node', same(ps(lo(x)) + v, u * T.root)), ('the mass up to the end of the node is at most the total', ps(hi(x)) <= T.root)]

    def inv(self, I, fr, k):
        v = fr.vars
        off, size = V.pow2(k) - 1, V.pow2(k)
        out = [('level offset', same(v['level_offset_parent'], off))]
        idx, val = onp.ravel(v['idx']).tolist(), onp.ravel(v['values']).tolist()
        out.append(('one node per request', len(idx) == len(self.u) and len(val) == len(self.u)))
        for x, w, u in zip(idx, val, self.u):
            self.T.family(x)
            out += self.cond(x, w, u, off, size)
        return out

    def havoc(self, I, fr, k):
        T = self.T
        assume(sand(k >= 0, k <= T.H - 1))
        off, size = V.pow2(k) - 1, V.pow2(k)
        idx, val = [], []
        for u in self.u:
            x, w = V.fresh('int', 'idx'), V.fresh('real', 'value')
            T.family(x)
            for _, c in self.cond(x, w, u, off, size):
                assume(c)
            idx.append(x)
            val.append(w)
        fr.vars.update(idx=objarray(idx), values=objarray(val), level_offset_parent=off)


class CdfLoopAny(CdfLoop):
    """the same for any number of quantiles: self.u is a function of the position, self.N their number"""

    def inv(self, I, fr, k):
        v = fr.vars
        off, size = V.pow2(k) - 1, V.pow2(k)
        if not (V.isseq(v['idx']) and V.isseq(v['values'])):
            raise V.Unsupported('arrays expected')
        x, w = V.view(v['idx']), V.view(v['values'])
        out = [('level offset', same(v['level_offset_parent'], off)), ('one node per request', sand(same(x.n, self.N), same(w.n, self.N)))]

        def cond(c):
            def pred(r):
                self.T.family(x.get(r))
                return self.cond(x.get(r), w.get(r), self.u(r), off, size)[c][1]
            return Forall(self.N, pred)
        return out + [(nm, cond(c)) for c, (nm, _) in enumerate(self.cond(V.fresh('int', 'x'), V.fresh('real', 'w'), V.fresh('real', 'u'), off, size))]

    def havoc(self, I, fr, k):
        T = self.T
        assume(sand(k >= 0, k <= T.H - 1))
        off, size = V.pow2(k) - 1, V.pow2(k)
        x, w = V.fun('idx', 'int', 'int'), V.fun('value', 'int', 'real')

        def known(r):
            T.family(x(r))
            return sand(*[c for _, c in self.cond(x(r), w(r), self.u(r), off, size)])
        V.univ(self.N, known)
        fr.vars.update(idx=SList(self.N, x, 'array'), values=SList(self.N, w, 'array'), level_offset_parent=off)


def cdf_any_body(form):
    def body(I):
        T = Tree(I)
        n = inp('int', 'n')
        assume(n >= 1)
        u = V.fun('u', 'int', 'real')
        spec = CdfLoopAny(T, u)
        spec.N = n
        I.loops[SumTree.inverse_cdf.__qualname__] = spec
        good = lambda r: sand(u(r) >= 0, u(r) <= 1)       # noqa

        def products(r):
            unit(T, u(r))
            return True
        V.univ(n, products)
        drawn = []
        if form == 'sample':
            fields(T.t, '_rnd')

            class R:
                def rand(self, *m):
                    if len(m) != 1 or drawn:
                        raise V.Unsupported('rand%r' % (m,))
                    drawn.append(m[0])
                    V.univ(m[0], lambda r: sand(u(r) >= 0, u(r) < 1))
                    return SList(m[0], u, 'array')
            T.t._rnd = R()
        try:
            r = I.call(T.t.sample, (n,)) if form == 'sample' else I.call(T.t.inverse_cdf, (SList(n, u, 'array'),))
        except ValueError as e:
            if not getattr(e, '_by_code', False):
                raise
            rows = [k for m, k in V._P.rows if V.same_n(m, n)]
            return [('ValueError only for u outside [0, 1]', sor(*[sand(V.in_range(k, n), snot(good(k))) for k in rows]))]
        except RuntimeError as e:
            if not getattr(e, '_by_code', False):
                raise
            return [('RuntimeError only if there is no mass', T.root <= 0)]
        if not V.isseq(r):
            raise V.Unsupported('result is not an array of symbolic length')
        r = V.view(r)
        out = [('accepted only for u in [0, 1]', Forall(n, good)), ('accepted only if there is mass', T.root > 0), ('one index per u', same(r.n, n))]
        if form == 'sample':
            out.append(('one draw of the own generator per leaf', len(drawn) == 1 and same(drawn[0], n)))

        def post(c):
            return Forall(n, lambda k: posts(T, [u(k)], [r.get(k)])[c][1])
        return out + [(nm, post(c)) for c, nm in enumerate(['the leaf exists', 'the leaf has positive mass', 'cdf(x) <= u', 'u < cdf(x+1)', 'u = 1 gives the last leaf with any mass'])]
    return body


def posts(T, us, xs):
    out = []
    for u, x in zip(us, xs):
        T.node(leaf0(T.H) + x)
        a = arr(leaf0(T.H) + x)
        out += [('the leaf exists', sand(x >= 0, x < T.C)), ('the leaf has positive mass', a > 0), ('cdf(x) <= u', ps(x) <= u * T.root), ('u < cdf(x+1)', implies(u < 1, u * T.root < ps(x + 1))),
                ('u = 1 gives the last leaf with any mass', implies(same(u, 1), same(ps(x + 1), T.root)))]
    return out


def unit(T, u):
    """linear consequences of 0 <= u <= 1 < root (products are opaque to the linear solver)"""
    a, r = V.num(u), V.num(T.root)
    V.fact(z3.Implies(z3.And(a >= 0, r > 0), a * r >= 0))
    V.fact(z3.Implies(z3.And(a <= 1, r > 0), a * r <= r))
    V.fact(z3.Implies(z3.And(a < 1, r > 0), a * r < r))
    V.fact(z3.Implies(a == 1, a * r == r))


def cdf_body(n, form):
    def body(I):
        T = Tree(I)
        us = [inp('real', 'u%d' % k) for k in range(n)]
        for u in us:
            unit(T, u)
        I.loops[SumTree.inverse_cdf.__qualname__] = CdfLoop(T, us)
        good = sand(*[sand(u >= 0, u <= 1) for u in us])
        arg = us[0] if form == 'scalar' else (list(us) if form == 'list' else objarray(us))
        try:
            r = I.call(T.t.inverse_cdf, (arg,))
        except ValueError as e:
            if not getattr(e, '_by_code', False):
                raise
            return [('ValueError only for u outside [0, 1]', snot(good))]
        except RuntimeError as e:
            if not getattr(e, '_by_code', False):
                raise
            return [('RuntimeError only if there is no mass', T.root <= 0)]
        out = [('accepted only for u in [0, 1]', good), ('accepted only if there is mass', T.root > 0)]
        if form == 'scalar':
            out.append(('a scalar gives a scalar', onp.shape(r) == ()))
        else:
            out.append(('one index per u', onp.shape(r) == (n,)))
        return out + posts(T, us, onp.ravel(r).tolist())
    return body


class Rnd:
    """the tree's own generator: rand(n) returns n numbers in [0, 1)"""

    def __init__(self):
        self.drawn = []

    def rand(self, *n):
        if len(n) != 1 or not isinstance(n[0], int):
            raise V.Unsupported('rand%r' % (n,))
        u = [V.fresh('real', 'rand') for _ in range(n[0])]
        for x in u:
            assume(sand(x >= 0, x < 1))
        self.drawn += u
        return objarray(u)


def sample_body(n):
    def body(I):
        T = Tree(I)
        fields(T.t, '_rnd')
        rnd = T.t._rnd = Rnd()

        class Lazy(CdfLoop):
            u = property(lambda s: rnd.drawn, lambda s, v: None)
        I.loops[SumTree.inverse_cdf.__qualname__] = Lazy(T, None)
        draw = rnd.rand

        def rand(*a):
            r = draw(*a)
            for u in rnd.drawn:
                unit(T, u)
            return r
        rnd.rand = rand
        try:
            r = I.call(T.t.sample, (n,))
        except RuntimeError as e:
            if not getattr(e, '_by_code', False):
                raise
            return [('RuntimeError only if there is no mass', T.root <= 0)]
        out = [('n leaves, one per draw of the own generator', onp.shape(r) == (n,) and len(rnd.drawn) == n)]
        if len(rnd.drawn) != n:
            return out
        return out + posts(T, rnd.drawn, onp.ravel(r).tolist())
    return body


# ---------------------------------------------------------------- native

def mass(rnd, cap):
    """multiples of 1/8: all sums are exact"""
    v = rnd.randint(0, 17, size=cap) / 8.
    if rnd.rand() < .6:
        v *= rnd.rand(cap) < rnd.choice([.15, .5])
    if rnd.rand() < .3:
        v[-(-cap // 2):] = 0
    if rnd.rand() < .2:
        v[:cap // 2] = 0
    if not v.any():
        v[rnd.randint(cap)] = 1.
    return v


def one(case):
    seed, cap = case
    rnd = onp.random.RandomState(seed)
    t = SumTree(capacity=cap)
    v = mass(rnd, cap)
    if rnd.rand() < .25:
        v[rnd.randint(cap)] = 2. ** rnd.randint(20, 31)         # a wide range of magnitudes (all sums are still exact)
    t.set_values(..., v)
    cdf = onp.cumsum(v)
    tot = cdf[-1]
    if t.root_value != tot:
        return 'root value'
    # exact quantiles: k/tot such that u*tot is exact
    p = 2.0 ** onp.ceil(onp.log2(tot))
    v2 = v.copy()
    v2[int(onp.flatnonzero(v)[0])] += p - tot           # total mass a power of two: u * root is exact for dyadic u
    for vals in (v2, v):
        t.set_values(..., vals)
        cdf = onp.cumsum(vals)
        tot = cdf[-1]
        if vals is v2:
            us = onp.unique(onp.concatenate([cdf[cdf < tot] / tot, onp.arange(0, 1, 1 / 64.), [0., 1., 1 - 2. ** -30]]))
        else:
            lo = onp.append(0., cdf[:-1])
            us = onp.concatenate([rnd.rand(40), [0., 1.], ((lo + vals / 2) / tot)[vals > 0]])       # with the middle of every leaf's interval
        last = int(onp.flatnonzero(vals)[-1])
        want = onp.array([last if u == 1 else int(onp.searchsorted(cdf, u * tot, side='right')) for u in us])
        keep = us.copy()
        got = t.inverse_cdf(us)
        if not onp.array_equal(us, keep):
            return 'inverse_cdf modified its argument'
        if not onp.array_equal(got, want):
            j = int(onp.flatnonzero(onp.asarray(got) != want)[0])
            return 'inverse_cdf(%r) of %s is %s, expected %s' % (us[j], vals, got[j], want[j])
        j = rnd.randint(len(us))
        if t.inverse_cdf(float(us[j])) != want[j] or list(t.inverse_cdf([float(x) for x in us[:5]])) != list(want[:5]):
            return 'scalar or list form differs, u=%r, values=%s' % (us[j], vals)
    for bad in (-1e-3, 1.001, [0.5, 2.], onp.array([-.5])):
        try:
            r = t.inverse_cdf(bad)
            return 'inverse_cdf(%s) returned %s' % (bad, r)
        except ValueError:
            pass
    z = SumTree(capacity=cap)
    for f in (lambda: z.inverse_cdf(.5), lambda: z.sample(1)):
        try:
            return 'a tree without mass returned %s' % f()
        except RuntimeError:
            pass
    for n in (0, -1, 1.5):
        try:
            return 'sample(%s) returned %s' % (n, t.sample(n))
        except TypeError:
            pass
    return None


def sampling(case):
    seed, cap = case
    rnd = onp.random.RandomState(seed)
    v = mass(rnd, cap)
    t, s = SumTree(cap, random_seed=seed % 1000), SumTree(cap, random_seed=seed % 1000)
    t.set_values(..., v)
    s.set_values(..., v)
    onp.random.seed(1)
    x = t.sample(4000)
    onp.random.seed(2)
    y = s.sample(4000)
    if not onp.array_equal(x, y):
        return 'two trees with the same seed sample differently'
    if onp.array_equal(t.sample(4000), x) and (v > 0).sum() > 1:
        return 'the second sample repeats the first'
    s.random_seed = seed % 1000
    if not onp.array_equal(s.sample(4000), x):
        return 'reseeding does not reproduce the sample'
    freq = onp.bincount(x, minlength=cap) / 4000.
    p = v / v.sum()
    z = onp.abs(freq - p) / onp.sqrt(p * (1 - p) / 4000 + 1e-12)
    if (freq[p == 0] > 0).any() or (z[p > 0] > 6.5).any():
        return 'sampling frequencies %s, expected %s' % (freq, p)
    return None


def cases(k, salt=0):
    rnd = onp.random.RandomState(23 * V_seed() + salt)
    return [(int(rnd.randint(1 << 30)), c) for c in (1, 2, 3, 4, 5, 8) for _ in range(3)] + [(int(rnd.randint(1 << 30)), int(rnd.choice([3, 4, 5, 6, 7, 8, 9, 11, 16, 17, 32, 40, 100, 1030]))) for _ in range(k)]


def search():
    return next((m for m in (one(c) for c in [(1, 4097), (2, 70000), (3, 33000)] + cases(150, 3)) if m), None)


def job(name, body, **kw):
    def f(ck):
        V.LINEAR_MOD[0] = True
        ck.trust('numpy.random.RandomState.rand(n): n independent uniform draws from [0, 1)')
        ck.assume('the tree is consistent (C07) and its leaves are non-negative; nodes cover adjacent leaf ranges (geometry lemma of C08)', 'real arithmetic', 'any number of quantiles per call; facts about all of them are instantiated at the positions that come up')
        V.contract(ck, 'SumTree.' + name, body, search=search, **kw)
    return (name, f)


def job_native(ck):
    n = 1500 if ck.thorough else 150
    ck.concrete('sumtree/inverse_cdf', one, cases(n), bound='%d trees, capacity <= 1030, 40-100 quantiles each' % (n + 18))
    ck.concrete('sumtree/sample', sampling, cases(30 if ck.thorough else 8, 5), bound='4000 draws from random trees, 6.5 sigma')


JOBS = [job('inverse_cdf scalar', cdf_body(1, 'scalar'), deadline_s=120), job('inverse_cdf array of 1', cdf_body(1, 'array'), deadline_s=120), job('inverse_cdf array of 2', cdf_body(2, 'array'), deadline_s=120), job('inverse_cdf list of 2', cdf_body(2, 'list'), deadline_s=120),
        job('sample 1', sample_body(1), deadline_s=120), job('sample 2', sample_body(2), deadline_s=120), job('inverse_cdf any number', cdf_any_body('array'), deadline_s=120), job('sample any number', cdf_any_body('sample'), deadline_s=120), ('native', job_native)]
