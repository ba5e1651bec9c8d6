"""C07: segment trees: leaves and every internal node stay consistent under updates."""
import itertools
import numpy as onp
import z3
import coax
from coax.utils import SegmentTree, SumTree, MinTree, MaxTree
from lib import pyvc as V
from lib.pyvc import inp, assume, sand, sor, snot, same, truth, objarray, SList, SSeq, Forall, wrap, implies
from checks.c01 import fields, V_seed

RED = z3.Function('red', z3.RealSort(), z3.RealSort(), z3.RealSort())


def red(x, y):
    """an arbitrary reducer, elementwise"""
    if isinstance(x, onp.ndarray) and x.ndim:
        return objarray([red(u, v) for u, v in zip(x.ravel().tolist(), y.ravel().tolist())], x.shape)
    if V.isseq(x):
        return V.ewise(red, x, y)
    u, v = V.num(x), V.num(y)
    u, v = [z3.ToReal(t) if t.sort() == z3.IntSort() else t for t in (u, v)]
    return wrap(RED(u, v))


def mk_tree(I, reducer=red, cls=SegmentTree):
    """a tree of arbitrary capacity: constructed by the real code, then with arbitrary consistent contents"""
    C = inp('int', 'C')
    assume(C >= 1)
    init = inp('real', 'init')
    V.fact(RED(V.term(init), V.term(init)) == V.term(init))
    t = I.construct(cls, (C, reducer, init), {}) if cls is SegmentTree else I.construct(cls, (C,), {})
    fields(t, '_arr', '_height', 'capacity', 'reducer', 'init_value')
    H = I.getattr(t, 'height')
    return t, C, H, init


def arbitrary(t, H, name='A'):
    A = z3.Function(name, z3.IntSort(), z3.RealSort())
    n = V.pow2(H) - 1
    t._arr = SList(n, lambda p: wrap(A(V.num(p))), 'array')
    return lambda p: wrap(A(V.num(p)))


def cons(get, p, reducer=red):
    return same(get(p), reducer(get(2 * p + 1), get(2 * p + 2)))


def leaf0(H):
    return V.pow2(H - 1) - 1


class SetLoop(V.LoopSpec):
    """before iteration k (which recomputes level H-2-k): all internal nodes are consistent, except the parents of the nodes idx of level H-1-k"""
    vars = ('idx', 'level_offset')
    allowed = ('self._arr',)

    def __init__(self, t, H, pre):
        self.t, self.H, self.pre, self.hyp = t, H, pre, None
        self.n = 0

    def start(self):
        g = V.view(self.t._arr).get
        return g

    def exc(self, p, lo, idx):
        return sor(*[same(p, (lo + x - 1) // 2) for x in idx])

    def inv(self, I, fr, k):
        idx, lo, H = fr.vars['idx'], fr.vars['level_offset'], self.H
        if not isinstance(idx, onp.ndarray):
            raise V.Unsupported('idx is a %s' % type(idx).__name__)
        idx = idx.ravel().tolist()
        arr = V.view(self.t._arr)
        L = H - 1 - k
        size = V.pow2(L)
        if self.hyp is None:
            self.leaves = arr.get

            def hyp(p):
                return implies(sand(p >= 0, p < leaf0(H)), cons(self.pre, p))
        else:
            hyp = self.hyp
        get = arr.get

        def pred(p):
            assume(hyp(p))
            return sor(self.exc(p, lo, idx), cons(get, p))

        def leaves(p):
            if self.hyp is not None:
                assume(self.leafhyp(p))
            return same(get(p), self.leaves(p))
        return [('level offset', same(lo, size - 1)), ('indices within the level', sand(*[sand(x >= 0, x < size) for x in idx])), ('array length', same(arr.n, V.pow2(H) - 1)),
                ('nodes are consistent', Forall(leaf0(H), pred)), ('leaves are not touched', Forall(V.pow2(H) - 1, leaves, lo=leaf0(H)))]

    def havoc(self, I, fr, k):
        H = self.H
        n0 = len(fr.vars['idx'])
        m = n0
        while m > 1 and truth(V.fresh('bool', 'fewer')):
            m -= 1
        L = H - 1 - k
        assume(sand(L >= 0, L <= H - 1))
        size = V.pow2(L)
        idx = [V.fresh('int', 'idx') for _ in range(m)]
        assume(sand(*[sand(x >= 0, x < size) for x in idx]))
        lo = size - 1
        fr.vars['idx'], fr.vars['level_offset'] = objarray(idx), lo
        self.n += 1
        get = arbitrary(self.t, H, 'A!%d' % self.n)

        def hyp(p):
            return implies(sand(p >= 0, p < leaf0(H), snot(self.exc(p, lo, idx))), cons(get, p))

        def leafhyp(p):
            return implies(sand(p >= leaf0(H), p < V.pow2(H) - 1), same(get(p), self.leaves(p)))
        self.hyp, self.leafhyp = hyp, leafhyp


def set_body(k, scalar=False):
    def body(I):
        t, C, H, init = mk_tree(I)
        pre = arbitrary(t, H)
        assume(sand(H >= 1))
        spec = SetLoop(t, H, pre)
        I.loops[SegmentTree.set_values.__qualname__] = spec
        ids = [inp('int', 'i%d' % j) for j in range(k)]
        vals = objarray([inp('real', 'v%d' % j) for j in range(k)])
        arg = ids[0] if scalar else objarray(ids)
        good = sand(*[sand(x < C, x >= 0 - C) for x in ids])
        try:
            I.call(t.set_values, (arg, vals[0] if scalar else vals))
        except IndexError:
            return [('rejected only if an index is out of range', snot(good)), ('nothing changes on rejection', Forall(V.pow2(H) - 1, lambda p: same(V.view(t._arr).get(p), pre(p))))]
        out = [('accepted only if all indices are in range', good)]
        get = V.view(t._arr).get
        pos = [V.ite(x < 0, x + C, x) for x in ids]

        def leaf(i):
            p = leaf0(H) + i
            if spec.hyp is not None and spec.n:
                assume(spec.leafhyp(p))
            for j in reversed(range(k)):
                if truth(same(pos[j], i)):
                    return same(get(p), vals[j])
            return same(get(p), pre(p))

        def node(p):
            assume(spec.hyp(p) if spec.hyp is not None else implies(sand(p >= 0, p < leaf0(H)), cons(pre, p)))
            return cons(get, p)
        vs = I.getattr(t, 'values')
        vs = V.view(vs)
        out += [('the written leaves hold the new values, all others the old', Forall(V.pow2(H - 1), leaf)), ('every internal node is the reduction of its children', Forall(leaf0(H), node)),
                ('values has one entry per leaf', same(vs.n, C)), ('values are the leaves', Forall(C, lambda i: same(vs.get(i), get(leaf0(H) + i)))),
                ('root_value is the root', same(I.getattr(t, 'root_value'), get(0))), ('capacity is kept', same(t.capacity, C))]
        return out
    return body


class SetLoopAny(SetLoop):
    """the same, with any number of indices"""

    def par(self, lo, x):
        return (lo + x - 1) // 2

    def inv(self, I, fr, k):
        idx, lo, H = fr.vars['idx'], fr.vars['level_offset'], self.H
        if not V.isseq(idx):
            raise V.Unsupported('idx is a %s' % type(idx).__name__)
        idx = V.view(idx)
        x, m = idx.get, idx.n
        arr = V.view(self.t._arr)
        size = V.pow2(H - 1 - k)
        if self.hyp is None:
            self.leaves = arr.get

            def hyp(p):
                return implies(sand(p >= 0, p < leaf0(H)), cons(self.pre, p))
        else:
            hyp = self.hyp
        get = arr.get

        def pred(p):
            assume(hyp(p))
            V.univ(m, lambda j: snot(same(self.par(lo, x(j)), p)))      # p is not the parent of an idx node
            return cons(get, p)

        def leaves(p):
            if self.hyp is not None:
                assume(self.leafhyp(p))
            return same(get(p), self.leaves(p))
        return [('level offset', same(lo, size - 1)), ('indices within the level', Forall(m, lambda j: sand(x(j) >= 0, x(j) < size))), ('array length', same(arr.n, V.pow2(H) - 1)),
                ('nodes are consistent', Forall(leaf0(H), pred)), ('leaves are not touched', Forall(V.pow2(H) - 1, leaves, lo=leaf0(H)))]

    def havoc(self, I, fr, k):
        H = self.H
        m = V.fresh('int', 'm')
        L = H - 1 - k
        assume(sand(L >= 0, L <= H - 1, m >= 0))
        size = V.pow2(L)
        f, exc, wit = V.fun('idx', 'int', 'int'), V.fun('exc', 'int', 'bool'), V.fun('wit', 'int', 'int')
        lo = size - 1

        def idx(j):
            assume(implies(V.in_range(j, m), sand(f(j) >= 0, f(j) < size)))
            return f(j)
        fr.vars['idx'], fr.vars['level_offset'] = SList(m, idx, 'array'), lo
        self.n += 1
        get = arbitrary(self.t, H, 'A!%d' % self.n)

        def hyp(p):
            j = wit(p)
            assume(implies(exc(p), sand(V.in_range(j, m), same(self.par(lo, idx(j)), p))))
            V.row(m, j)
            return implies(sand(p >= 0, p < leaf0(H), snot(exc(p))), cons(get, p))

        def leafhyp(p):
            return implies(sand(p >= leaf0(H), p < V.pow2(H) - 1), same(get(p), self.leaves(p)))
        self.hyp, self.leafhyp = hyp, leafhyp


def set_any_body(form):
    def body(I):
        t, C, H, init = mk_tree(I)
        pre = arbitrary(t, H)
        assume(sand(H >= 1))
        spec = SetLoopAny(t, H, pre)
        I.loops[SegmentTree.set_values.__qualname__] = spec
        val = V.fun('val', 'int', 'real')
        if form == 'all':
            n, ix = C, lambda j: j
            arg, good = Ellipsis, None
        else:
            n = inp('int', 'n')
            assume(n >= 0)
            ix = V.fun('ix', 'int', 'int')
            arg = SList(n, ix, 'array')
        inr = lambda j: sand(ix(j) < C, ix(j) >= 0 - C)       # noqa
        vals = SList(n, val, 'array') if form != 'scalar' else inp('real', 'v')
        v = (lambda j: vals) if form == 'scalar' else val
        try:
            I.call(t.set_values, (arg, vals))
        except IndexError as e:
            if not getattr(e, '_by_code', False):
                raise
            bad = [k for m, k in V._P.rows if V.same_n(m, n)]
            return [('rejected only if an index is out of range', sor(*[sand(V.in_range(k, n), snot(inr(k))) for k in bad])),
                    ('nothing changes on rejection', Forall(V.pow2(H) - 1, lambda p: same(V.view(t._arr).get(p), pre(p))))]
        get = V.view(t._arr).get
        pos = lambda j: V.ite(ix(j) < 0, ix(j) + C, ix(j))     # noqa
        lengths = [n] + [m for m in [m for m, _ in V._P.univ] if form == 'all' and not V.same_n(m, n) and V._P.oracle(lambda: V.valid(same(m, n)))]      # other names of the same length

        def univ(pred):
            for m in lengths:
                V.univ(m, pred)

        def row(j):
            for m in lengths:
                V.row(m, j)
        out = [('accepted only if all indices are in range', Forall(n, inr))]

        def other(i):
            """a leaf that is not mentioned"""
            p = leaf0(H) + i
            if spec.hyp is not None and spec.n:
                assume(spec.leafhyp(p))
            univ(lambda j: snot(same(pos(j), i)))
            return same(get(p), pre(p))

        def written(j):
            """a leaf whose last mention is at position j"""
            row(j)
            p = leaf0(H) + pos(j)
            if spec.hyp is not None and spec.n:
                assume(spec.leafhyp(p))
            univ(lambda l: implies(l > j, snot(same(pos(l), pos(j)))))
            return same(get(p), v(j))

        def node(p):
            assume(spec.hyp(p) if spec.hyp is not None else implies(sand(p >= 0, p < leaf0(H)), cons(pre, p)))
            return cons(get, p)
        vs = V.view(I.getattr(t, 'values'))
        out += [('a leaf holds the last value written to it', Forall(n, written)), ('all other leaves hold the old value', Forall(V.pow2(H - 1), other)),
                ('every internal node is the reduction of its children', Forall(leaf0(H), node)),
                ('values has one entry per leaf', same(vs.n, C)), ('values are the leaves', Forall(C, lambda i: same(vs.get(i), get(leaf0(H) + i)))),
                ('root_value is the root', same(I.getattr(t, 'root_value'), get(0))), ('capacity is kept', same(t.capacity, C))]
        return out
    return body


def init_body(I):
    t, C, H, init = mk_tree(I)
    arr = V.view(t._arr)
    vs = V.view(I.getattr(t, 'values'))
    return [('height is the least with enough leaves', sand(H >= 1, C <= V.pow2(H - 1), implies(H >= 2, C > V.pow2(H - 2)))), ('array length', same(arr.n, V.pow2(H) - 1)),
            ('all nodes hold the initial value', Forall(arr.n, lambda p: same(arr.get(p), init))), ('initially consistent', Forall(leaf0(H), lambda p: cons(arr.get, p))),
            ('values has one entry per leaf', same(vs.n, C)), ('initial values', Forall(C, lambda i: same(vs.get(i), init))), ('capacity', same(t.capacity, C))]


def reduce_lemma(I):
    """if every internal node reduces its children, then so does any node over the leaves below it (induction on the height of the node; here the step)"""
    A = z3.Function('A', z3.IntSort(), z3.RealSort())
    FOLD = z3.Function('fold', z3.IntSort(), z3.RealSort())     # reduction of the leaves below a node, in a balanced bracketing
    p = inp('int', 'p')
    g = lambda q: wrap(A(V.num(q)))       # noqa
    f = lambda q: wrap(FOLD(V.num(q)))    # noqa
    assume(sand(p >= 0, cons(g, p), same(f(p), red(f(2 * p + 1), f(2 * p + 2))), same(g(2 * p + 1), f(2 * p + 1)), same(g(2 * p + 2), f(2 * p + 2))))
    return [('induction step', same(g(p), f(p)))]


# ---------------------------------------------------------------- all values, concrete capacities

def conc_body(cls, cap, k):
    """real trees at a given capacity, with symbolic contents: unfolds the loop instead of using an invariant"""
    def body(I):
        t = cls(capacity=cap)
        if not isinstance(getattr(t, '_arr', None), onp.ndarray) or t._arr.shape != (2 ** t.height - 1,):
            raise V.Unsupported('representation changed')
        op = {SumTree: lambda x, y: x + y, MinTree: lambda x, y: V.ite(x <= y, x, y), MaxTree: lambda x, y: V.ite(x >= y, x, y)}[cls]
        red1 = lambda x, y: x if V._inf(y) else (y if V._inf(x) else op(x, y))      # noqa
        n = 2 ** (t.height - 1)
        arr = onp.empty(2 ** t.height - 1, dtype=object)
        for i in range(n):
            arr[n - 1 + i] = inp('real', 'a%d' % i) if i < cap else t.init_value
        for p in reversed(range(n - 1)):
            arr[p] = red1(arr[2 * p + 1], arr[2 * p + 2])
        old = arr.copy()
        t._arr = arr
        t.reducer = lambda x, y: objarray([red1(u, v) for u, v in zip(onp.asarray(x, dtype=object).ravel().tolist(), onp.asarray(y, dtype=object).ravel().tolist())], onp.shape(x))
        if k is None:
            ids, vals = list(range(cap)), objarray([inp('real', 'v%d' % j) for j in range(cap)])
            I.call(t.set_values, (..., vals))
        else:
            ids = [inp('int', 'i%d' % j) for j in range(k)]
            assume(sand(*[sand(x < cap, x >= -cap) for x in ids]))
            ids = [V.concretize(x, range(-cap, cap)) for x in ids]
            vals = objarray([inp('real', 'v%d' % j) for j in range(k)])
            I.call(t.set_values, (onp.array(ids), vals))
        leaf = {i: old[n - 1 + i] for i in range(n)}
        for x, v in zip(ids, vals.tolist()):
            leaf[x % cap] = v
        eq = lambda x, y: (x == y) if V._inf(x) or V._inf(y) else same(x, y)     # noqa
        out = [('leaves', sand(*[eq(t._arr[n - 1 + i], leaf[i]) for i in range(n)])), ('nodes', sand(*[eq(t._arr[p], red1(t._arr[2 * p + 1], t._arr[2 * p + 2])) for p in range(n - 1)]))]
        return out
    return body


# ---------------------------------------------------------------- native

OPS = {SumTree: onp.add, MinTree: onp.minimum, MaxTree: onp.maximum}


def check_tree(t, want, cls, cap):
    op = OPS.get(cls, OPS[SumTree])
    v = onp.asarray(t.values)
    if v.shape != (cap,) or not onp.array_equal(v, want):
        return 'values %s, expected %s' % (v, want)
    full = onp.full(2 ** (t.height - 1), t.init_value)
    if not (2 ** (t.height - 1) >= cap and (t.height == 1 or 2 ** (t.height - 2) < cap)):
        return 'height %d for capacity %d' % (t.height, cap)
    full[:cap] = want
    level = full
    for l in reversed(range(t.height)):
        got = onp.asarray(t[l])
        w = level[:min(2 ** l, cap)] if True else level
        if not onp.allclose(got[:len(w)], w, rtol=1e-9, atol=1e-9, equal_nan=True):
            return 'level %d of a tree of capacity %d is %s, expected %s' % (l, cap, got, w)
        level = op(level[0::2], level[1::2]) if l else level
    if not onp.allclose(t.root_value, level[0], rtol=1e-9, atol=1e-9):
        return 'root value %s, expected %s' % (t.root_value, level[0])
    return None


def history(case):
    seed, cap, ci = case
    rnd = onp.random.RandomState(seed)
    cls = (SumTree, MinTree, MaxTree)[ci % 3]
    t = cls(capacity=cap)
    want = onp.full(cap, t.init_value)
    msg = check_tree(t, want, cls, cap)
    if msg:
        return 'new tree: ' + msg
    for _ in range(8):
        op = rnd.randint(6)
        if op == 0:
            v = rnd.randn(cap)
            t.set_values(... if rnd.rand() < .5 else None, v)
            want = v.copy()
            v[...] = 99
            arg = '...'
        elif op == 1:
            i = int(rnd.randint(-cap, cap))
            v = float(rnd.choice([0., rnd.randn(), 1e3]))
            t.set_values(i, v)
            want[i] = v
            arg = (i, v)
        elif op == 2:
            ids = [int(x) for x in rnd.randint(-cap, cap, size=rnd.randint(1, 5))]
            v = rnd.randn(len(ids))
            t.set_values(ids, v)
            for i, x in zip(ids, v):
                want[i] = x
            arg = (ids, v)
        elif op == 3:
            ids = rnd.randint(-cap, cap, size=rnd.randint(0, 2 * cap + 2)).astype(rnd.choice(['int32', 'int64']))
            v = rnd.randn(len(ids))
            keep = ids.copy()
            t.set_values(ids, v)
            if not onp.array_equal(keep, ids):
                return 'set_values modified its argument'
            for i, x in zip(ids, v):
                want[i] = x
            arg = (ids, v)
        elif op == 4:
            ids = rnd.permutation(cap)[:rnd.randint(1, cap + 1)]
            v = float(rnd.randn())
            t.set_values(ids, v)
            want[ids] = v
            arg = (ids, v)
        else:
            bad = rnd.choice([cap, -cap - 1, cap + 3])
            for b in (int(bad), onp.array([0, bad]), [int(bad)]):
                try:
                    t.set_values(b, 1.0)
                    return 'out-of-range index %s accepted (capacity %d)' % (b, cap)
                except IndexError:
                    pass
            try:
                t.set_values(onp.array([0.5]), 1.0)
                return 'a float index was accepted'
            except IndexError:
                pass
            arg = None
        msg = check_tree(t, want, cls, cap)
        if msg:
            return 'after set_values%s: %s' % (arg, msg)
    return None


def lookups(case):
    cap, ci = case
    cls = (SumTree, MinTree, MaxTree)[ci % 3]
    t = cls(capacity=cap)
    rnd = onp.random.RandomState(cap)
    t.set_values(..., rnd.rand(cap))
    for l in range(t.height):
        if not (onp.array_equal(t[l], t[l - t.height]) and onp.array_equal(t[(l,)], t[l]) and t[l, 0] == t[l][0]):
            return 'lookup of level %d is inconsistent' % l
    if t[0, 0] != t.root_value or not onp.array_equal(t[-1], t.values):
        return 'tree[0, 0] / tree[-1] do not give root and values'
    for bad in (t.height, -t.height - 1, 'x', (0, 0, 0)):
        try:
            t[bad]
            return 'lookup %r accepted' % (bad,)
        except IndexError:
            pass
    return None


def cases(k, salt=0):
    rnd = onp.random.RandomState(7 * V_seed() + salt)
    return [(int(rnd.randint(1 << 30)), int(rnd.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 33, 100])), int(rnd.randint(3))) for _ in range(k)]


def replay(v):
    C = int(v['C'])
    if not 1 <= C <= 4096:
        return None
    ids = [int(v[k]) for k in sorted(v) if k[0] == 'i' and k[1:].isdigit()]
    vals = [float(v[k]) for k in sorted(v) if k[0] == 'v' and k[1:].isdigit()]
    for cls in (SumTree, MinTree, MaxTree):
        t = cls(capacity=C)
        want = onp.arange(C) * 1.5 + .25
        t.set_values(..., want)
        msg = check_tree(t, want, cls, C)
        if msg:
            return msg
        ok = all(-C <= i < C for i in ids)
        try:
            t.set_values(onp.array(ids, dtype=int), onp.array(vals))
        except IndexError:
            if ok:
                return 'indices %s rejected (capacity %d)' % (ids, C)
            continue
        if not ok:
            return 'indices %s accepted (capacity %d)' % (ids, C)
        want = want.copy()
        for i, x in zip(ids, vals):
            want[i] = x
        msg = check_tree(t, want, cls, C)
        if msg:
            return 'set_values(%s, %s), capacity %d: %s' % (ids, vals, C, msg)
    return None


def search(n=300):
    big = [(k, c, k) for k in range(4) for c in (1000, 1025, 2048, 4097, 70000)]
    return next((m for m in (history(c) for c in big + cases(n, 3)) if m), None)


def job(name, body, rp=replay, **kw):
    def f(ck):
        V.LINEAR_MOD[0] = True
        ck.trust('numpy.unique (as an index set), numpy.ceil/log2 of a positive integer: the least h with c <= 2**h')
        ck.assume('real arithmetic, unbounded integers', 'any number of indices per call, in any order, with repetitions')
        V.contract(ck, 'SegmentTree.' + name, body, replay=rp, search=search, **kw)
    return (name, f)


def job_conc(cls, cap, k):
    name = '%s(%d) set %s' % (cls.__name__, cap, '...' if k is None else k)

    def f(ck):
        ck.assume('%s: instantiated at capacity %d, all contents' % (name, cap))
        V.contract(ck, name, conc_body(cls, cap, k), funcs=['coax.utils._segment_tree.SegmentTree.set_values'], search=search)
    return (name, f)


def job_native(ck):
    n = 4000 if ck.thorough else 500
    ck.fn('coax.utils._segment_tree.SegmentTree.__getitem__', how='bounded')
    ck.concrete('trees/histories', history, cases(n), bound='%d random histories of updates, capacity <= 100' % n)
    ck.concrete('trees/lookups', lookups, [(c, k) for c in (1, 2, 3, 5, 8, 9) for k in range(3)], bound='capacities 1..9')
    hi = 70000 if ck.thorough else 5000
    ck.concrete('trees/height', lambda c: None if 2 ** (SumTree(c).height - 1) >= c and (c == 1 or 2 ** (SumTree(c).height - 2) < c) else 'height of capacity %d' % c, list(range(1, 300)) + [2 ** k + d for k in range(8, 20) for d in (-1, 0, 1)], bound='capacities 1..299 and around powers of two up to 2^19')


JOBS = [job('init', init_body), job('set_values int', set_body(1, True))] + [job('set_values %d' % k, set_body(k), deadline_s=120) for k in (1, 2, 3)] + [
    job('set_values ' + nm, set_any_body(f), rp=None, deadline_s=200) for nm, f in (('any number', 'array'), ('any number, one value', 'scalar'), ('...', 'all'))] + [job('fold lemma', reduce_lemma, rp=None)] + [
    job_conc(cls, cap, k) for cls, cap, k in [(SumTree, 3, None), (SumTree, 8, None), (SumTree, 5, 2), (MinTree, 3, 2), (MinTree, 5, None), (MaxTree, 4, 2), (MaxTree, 6, None), (SumTree, 1, 1)]] + [('native', job_native)]
