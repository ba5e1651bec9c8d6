"""C28: array, tree and space utilities that everything else is built on."""
import gymnasium
import numpy as onp
import coax
import haiku as hk
from coax import utils
from coax.utils._array import tree_sample
from coax.utils._misc import getattr_safe
from lib import alg
from lib import pyvc as V
from lib.contract import jax_contract
from lib.nets import *   # noqa

KEY = jax.random.PRNGKey(5)
sp = gymnasium.spaces
U = 'coax.utils.'


# ------------------------------------------------------------------ arg-extrema
def arg_job(n, which):
    def job(ck):
        f = getattr(utils, which)

        def fun(a, b):
            return dict(last=f(KEY, a), first=jnp.atleast_1d(f(KEY, b, axis=0)))

        def post(o, ar):
            a, b = ar
            res = []
            for lbl, i, xs in (('axis=-1', o['last'][0], list(a[0])), ('axis=0', o['first'][0], list(b[:, 0]))):
                sel = sum((alg.eq(i, k) * xs[k] for k in range(n)), alg.ZERO)
                res.append(('%s: a[%s(a)] is the extremum' % (lbl, which), sel, (amax if which == 'argmax' else amin)(xs)))
                res.append(('%s: index in range' % lbl, sum((alg.eq(i, k) for k in range(n)), alg.ZERO), alg.ONE))
            return res
        jax_contract(ck, '%s/%d' % (which, n), fun, (SymArg('a', (B, n), lo=-4, hi=4), SymArg('b', (n, B), lo=-4, hi=4)), post,
                     funcs=[U + which], max_paths=20000, deadline_s=120)
    return ('%s-%d' % (which, n), job)


def tie_job(ck):
    """ties are broken randomly: every maximiser is selected for some key, non-maximisers never"""
    def case(c):
        arr, axis = c
        which = [(utils.argmax, onp.max), (utils.argmin, onp.min)]
        for f, ext in which:
            ok = onp.moveaxis(onp.asarray(arr) == ext(arr, axis=axis, keepdims=True), axis, -1)
            idx = onp.asarray(jax.vmap(lambda k: f(k, arr, axis=axis))(jax.random.split(KEY, 400)))
            if idx.shape[1:] != ok.shape[:-1]:
                return 'shape %r' % (idx.shape,)
            hit = onp.any(idx[..., None] == onp.arange(ok.shape[-1]), axis=0)
            if not onp.array_equal(hit, ok):
                return '%s picks %r, extremal entries %r' % (f.__name__, hit.tolist(), ok.tolist())
    cases = [(onp.array([1., 1., 0.]), -1), (onp.array([[0., 3., 3.], [5., 5., 5.]]), -1), (onp.array([[0., 3.], [0., -3.], [0., 3.]]), 0), (onp.array([2, 7, 7, 7]), 0),
             (onp.array([0, 3, 5, 3, 0], 'uint8'), -1), (onp.array([-2 ** 31, 0, 2 ** 31 - 1], 'int32'), -1), (onp.array([True, False, False]), -1), ([2., 0.5, 2.], -1)]
    ck.concrete('ties', case, cases, bound='%d arrays (floats, signed and unsigned integers, booleans, a list), 400 keys each' % len(cases))


# ------------------------------------------------------------------ preprocessors
def pre_job(ck):
    lo, hi = onp.array([-1., 0., -3.], 'float32'), onp.array([2., 3., 1.], 'float32')
    box = sp.Box(lo, hi)
    comp = sp.Dict(a=sp.Discrete(3), b=sp.Tuple((sp.Box(lo, hi), sp.Discrete(2))), c=sp.Box(lo, hi))
    NV = [2, 4]

    pp = utils.default_preprocessor
    i = lambda nm, n: SymArg(nm, (B,), 'int32', lo=0, hi=n - 1)   # noqa
    x3 = lambda nm: SymArg(nm, (B, 3), lo=-5, hi=5)   # noqa

    def cl(v):
        return [alg.minimum(alg.maximum(v[0, j], alg.ex(float(lo[j]))), alg.ex(float(hi[j]))) for j in range(3)]

    def all_(lbl, got, want):
        return [('%s: shape' % lbl, alg.ex(got.shape[-1]), alg.ex(len(want)))] + [('%s[%d]' % (lbl, k), got[0, k], want[k]) for k in range(len(want))]

    def con(name, args, fun, post):
        jax_contract(ck, 'default_preprocessor/' + name, fun, args, post, funcs=[U + 'default_preprocessor'], max_paths=20000, deadline_s=120)
    con('Discrete', (i('d', 3),), lambda d: pp(sp.Discrete(3))(KEY, d), lambda o, ar: all_('one-hot', o, onehot(ar[0][0], 3)))
    con('Box', (x3('x'),), lambda x: pp(box)(KEY, x), lambda o, ar: all_('clipped to the bounds', o, cl(ar[0])))
    con('MultiDiscrete', (i('m0', 2), i('m1', 4)), lambda a, b: pp(sp.MultiDiscrete(NV))(KEY, jnp.stack([a, b], axis=-1)),
        lambda o, ar: all_('component 0', o[0], onehot(ar[0][0], 2)) + all_('component 1', o[1], onehot(ar[1][0], 4)))
    con('MultiBinary', (SymArg('mb', (B, 2), 'int32', lo=0, hi=1),), lambda mb: pp(sp.MultiBinary(2))(KEY, mb), lambda o, ar: all_('unchanged', o, [ar[0][0, 0], ar[0][0, 1]]))
    con('Dict/a', (i('d', 3),), lambda d: pp(comp)(KEY, dict(a=d, b=(jnp.zeros((1, 3)), jnp.zeros(1, 'int32')), c=jnp.zeros((1, 3))))['a'], lambda o, ar: all_('one-hot', o, onehot(ar[0][0], 3)))
    con('Dict/b', (x3('x'), i('m', 2)), lambda x, m: pp(comp)(KEY, dict(a=m, b=(x, m), c=jnp.zeros((1, 3))))['b'],
        lambda o, ar: all_('Tuple[0]: clipped', o[0], cl(ar[0])) + all_('Tuple[1]: one-hot', o[1], onehot(ar[1][0], 2)))
    con('Dict/c', (x3('x'),), lambda x: pp(comp)(KEY, dict(a=jnp.zeros(1, 'int32'), b=(jnp.zeros((1, 3)), jnp.zeros(1, 'int32')), c=x))['c'], lambda o, ar: all_('clipped', o, cl(ar[0])))

    def case(c):
        s, n = c
        one = utils.safe_sample(s, seed=n)
        pre = utils.default_preprocessor(s)
        batch = [utils.safe_sample(s, seed=n + k) for k in range(3)]
        X = jax.tree_util.tree_map(lambda *l: onp.stack(l), *batch)
        Y = pre(KEY, X)
        Y1 = [pre(KEY, b) for b in batch]
        for k in range(3):
            if not all(onp.array_equal(a[k:k + 1], b) for a, b in zip(jax.tree_util.tree_leaves(Y), jax.tree_util.tree_leaves(Y1[k]))):
                return 'row %d of the preprocessed batch is not the preprocessed single instance (space %r)' % (k, s)
        return None if one is not None else 'none'
    spaces = [sp.Discrete(4), box, sp.Box(-1, 1, (2, 3)), sp.Box(0, 255, (2, 2), 'uint8'), sp.MultiDiscrete([3, 2, 4]), sp.MultiBinary(3), comp, sp.Box(-onp.inf, 2, (2,)), sp.Tuple((sp.Discrete(2), sp.MultiBinary(2)))]
    ck.concrete('default_preprocessor/single-vs-batch', case, [(s, n) for s in spaces for n in (0, 7)], bound='%d spaces' % len(spaces))


# ------------------------------------------------------------------ element-wise maps, frame differences, shared parameters
def elt_job(ck):
    def fun(x, p):
        return dict(dr=utils.double_relu(x), lg=utils.clipped_logit(p), lg0=utils.clipped_logit(jnp.array([0., 1.]), epsilon=.25))

    def post(o, ar):
        x, p = ar
        z = alg.ZERO
        res = [('double_relu[%d]' % k, o['dr'][0, k], alg.minimum(x[0, k], z) if k < 2 else alg.maximum(x[0, k - 2], z)) for k in range(4)]
        res.append(('clipped_logit', o['lg'][0], alg.flog(p[0]) - alg.flog(alg.ONE - p[0])))
        res += [('clipped_logit(%d)' % k, o['lg0'][k], (alg.flog(alg.ex(.25)), -alg.flog(alg.ex(.25)))[k]) for k in (0, 1)]
        return res
    jax_contract(ck, 'activations', fun, (SymArg('x', (B, 2), lo=-4, hi=4), real('p', lo=0.0625, hi=0.9375)), post, funcs=[U + 'double_relu', U + 'clipped_logit'])


def diff_job(n):
    def job(ck):
        def fun(x):
            return dict(d=utils.diff_transform(x), m=utils.diff_transform_matrix(n))

        def post(o, ar):
            x = list(ar[0][0])
            # k-th finite difference of the frames, latest frame last: 0th difference is the latest frame itself
            cur, res = x, []
            for k in range(n):
                res.append(('column %d is the difference of order %d of the latest frames' % (n - 1 - k, k), o['d'][0, n - 1 - k], cur[-1]))
                cur = [b - a for a, b in zip(cur, cur[1:])]
            return res
        jax_contract(ck, 'diff_transform/%d' % n, fun, (SymArg('x', (B, n), lo=-4, hi=4),), post, funcs=[U + 'diff_transform', U + 'diff_transform_matrix'])
    return ('diff-%d' % n, job)


def sync_job(ck):
    W = (1.5, .25, 2.25)

    def fun(a1, a2, a3, b1, b2, c1):
        p = dict(x=dict(w=a1), y=dict(w=b1), z=dict(w=c1))
        q = dict(x=dict(w=a2))
        r = dict(x=dict(w=a3), y=dict(w=b2))
        u = utils.sync_shared_params(p, q, r, weights=W)
        v = utils.sync_shared_params(p, q, r)
        one = utils.sync_shared_params(p)
        return dict(u=[hk.data_structures.to_mutable_dict(t) for t in u], v=[hk.data_structures.to_mutable_dict(t) for t in v], one=one[0])

    def post(o, ar):
        a1, a2, a3, b1, b2, c1 = [ex_(x) for x in ar]
        res = []
        for lbl, t, w in (('weighted', o['u'], [alg.ex(w) for w in W]), ('plain', o['v'], (alg.ONE,) * 3)):
            x = (w[0] * a1 + w[1] * a2 + w[2] * a3) / (w[0] + w[1] + w[2])
            y = (w[0] * b1 + w[2] * b2) / (w[0] + w[2])
            want = (dict(x=x, y=y, z=c1), dict(x=x), dict(x=x, y=y))
            for i, (g, e) in enumerate(zip(t, want)):
                res.append(('%s/keys of params %d' % (lbl, i), alg.ex(int(set(g) == set(e))), alg.ONE))
                for k in e:
                    res.append(('%s/params %d, %s' % (lbl, i, k), ex_(g[k]['w']), e[k]))
        res += [('a single set of params is returned unchanged (%s)' % k, ex_(o['one'][k]['w']), v) for k, v in (('x', a1), ('y', b1), ('z', c1))]
        return res
    s = [scal(n) for n in ('a1', 'a2', 'a3', 'b1', 'b2', 'c1')]
    jax_contract(ck, 'sync_shared_params', fun, tuple(s), post, funcs=[U + 'sync_shared_params'])


def ex_(x):
    return x.item() if hasattr(x, 'item') else x


def tree_job(ck):
    def fun(a, b, c, d):
        t = dict(u=a, v=(b, [c]))
        sb = utils.single_to_batch(dict(q=c, r=d))
        st = utils.stack_trees((dict(k=a), dict(k=b)), (c, d))
        return dict(ravel=utils.tree_ravel(t), sb=sb, bs=utils.batch_to_single(sb), bs1=utils.batch_to_single(dict(m=jnp.stack([c, d])), index=1), st=st,
                    uv=utils.unvectorize(lambda X, Y: (X + Y, 2 * X))(c, d), uv1=utils.unvectorize(lambda X, Y: X * Y[None], in_axes=(0, None))(c, d),
                    q=utils.get_magnitude_quantiles(t), g=utils.get_grads_diagnostics(t))

    def post(o, ar):
        a, b, c, d = ar
        flat = list(a.ravel()) + list(b.ravel()) + list(c.ravel())
        absf = [alg.fabs(x) if hasattr(alg, 'fabs') else alg.maximum(x, -x) for x in flat]
        res = [('tree_ravel: size', alg.ex(len(o['ravel'].ravel())), alg.ex(len(flat)))]
        res += [('tree_ravel[%d]' % k, o['ravel'][k], flat[k]) for k in range(len(flat))]
        for k in range(2):
            res += [('single_to_batch[%d]' % k, o['sb']['q'][0, k], c[k]), ('batch_to_single(single_to_batch)[%d]' % k, o['bs']['r'][k], d[k]),
                    ('batch_to_single(index=1)[%d]' % k, o['bs1']['m'][k], d[k]), ('unvectorize[%d]' % k, o['uv'][0][k], c[k] + d[k]), ('unvectorize, 2nd output[%d]' % k, o['uv'][1][k], 2 * c[k]),
                    ('unvectorize, in_axes[%d]' % k, o['uv1'][k], c[k] * d[k]),
                    ('stack_trees[0][%d]' % k, o['st'][0]['k'][0, k], a[k]), ('stack_trees[0][1,%d]' % k, o['st'][0]['k'][1, k], b[k]),
                    ('stack_trees[1][%d]' % k, o['st'][1][0, k], c[k]), ('stack_trees[1][1,%d]' % k, o['st'][1][1, k], d[k])]
        res += [('get_grads_diagnostics max', ex_(o['g']['max']), amax(absf)), ('get_grads_diagnostics norm^2', ex_(o['g']['norm']) ** 2, sum((x * x for x in flat), alg.ZERO)),
                ]
        return res
    v = lambda n: SymArg(n, (2,), lo=-4, hi=4)   # noqa
    jax_contract(ck, 'trees', lambda *a: {k: x for k, x in fun(*a).items() if k != 'q'}, (v('a'), v('b'), v('c'), v('d')), post, max_paths=20000, deadline_s=120,
                 funcs=[U + n for n in ('tree_ravel', 'single_to_batch', 'batch_to_single', 'stack_trees', 'unvectorize', 'get_grads_diagnostics')])

    def case(seed):
        rnd = onp.random.RandomState(seed)
        t = [jnp.asarray(rnd.randn(*s)) for s in ((3,), (2, 2), ())]
        q = utils.get_magnitude_quantiles(t, key_prefix='x_')
        flat = onp.abs(onp.concatenate([onp.ravel(x) for x in t]))
        want = dict(x_min=flat.min(), x_p25=onp.quantile(flat, .25), x_p50=onp.median(flat), x_p75=onp.quantile(flat, .75), x_max=flat.max())
        if set(q) != set(want) or any(abs(float(q[k]) - want[k]) > 1e-4 for k in want):
            return '%r, expected %r' % (q, want)
        g = utils.get_grads_diagnostics(dict(a=t[0], b=t[1]), key_prefix='g/', keep_tree_structure=True)
        for k, x in (('a', t[0]), ('b', t[1])):
            if abs(float(g[k]['g/max']) - float(onp.abs(x).max())) > 1e-5 or abs(float(g[k]['g/norm']) - float(onp.sqrt((onp.asarray(x) ** 2).sum()))) > 1e-4:
                return 'diagnostics of leaf %s' % k
    ck.concrete('diagnostics', case, range(8), bound='8 random trees')


# ------------------------------------------------------------------ batches
def batch(n, extra=False):
    r = lambda *s: onp.random.RandomState(n + len(s)).randn(n, *s)   # noqa
    return coax.reward_tracing.TransitionBatch(S=dict(u=r(2), v=(r(),)), A=onp.arange(n), logP=r(), Rn=onp.arange(n) / 2., In=r(), S_next=dict(u=r(2), v=(r(),)), A_next=onp.arange(n) + 7,
                                               logP_next=r(), W=onp.arange(n) + 1., idx=onp.arange(n) + 100, extra_info=dict(k=r(3)) if extra else None)


def chunks_case(n):
    b = batch(n, extra=True)
    ch = list(utils.chunks_pow2(b))
    sizes = [c.batch_size for c in ch]
    if any(s & (s - 1) for s in sizes) or sum(sizes) != n or len(set(sizes)) != len(sizes):
        return 'chunk sizes %r of a batch of size %d' % (sizes, n)
    if not all(type(c) is type(b) for c in ch):
        return 'chunk type'
    leaves = [jax.tree_util.tree_leaves(c) for c in ch]
    for ref, *parts in zip(jax.tree_util.tree_leaves(b), *leaves):
        if not onp.array_equal(onp.concatenate(parts), ref):
            return 'chunks of a batch of size %d do not concatenate to the batch' % n


def sample_case(c):
    n, k, replace, axis = c
    key = jax.random.PRNGKey(n * 7 + k)
    t = dict(a=onp.arange(n), b=onp.arange(2 * n).reshape(n, 2))
    if axis == 1:
        t = dict(a=onp.arange(3 * n).reshape(3, n), b=onp.arange(2 * n).reshape(2, n))
    if k > n and not replace:
        try:
            tree_sample(t, key, n=k, replace=False, axis=axis)
        except Exception:
            return
        return 'sampling %d out of %d without replacement did not fail' % (k, n)
    s = tree_sample(t, key, n=k, replace=replace, axis=axis)
    if axis == 0:
        ix = onp.asarray(s['a'])
        ok = onp.array_equal(s['b'], t['b'][ix]) and set(ix) <= set(range(n))
    else:
        ix = onp.asarray(s['a'])[0]
        ok = s['a'].shape == (3, k) and onp.array_equal(s['a'], t['a'][:, ix]) and onp.array_equal(s['b'], t['b'][:, ix])
    if not ok or len(ix) != k:
        return 'the leaves are not sampled at the same %d positions along axis %d: %r' % (k, axis, s)
    if not replace and len(set(ix)) != k:
        return 'repeated entries %r without replacement' % ix


def merge_case(c):
    ds, want = c
    import warnings
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        got = utils.merge_dicts(*ds)
    over = sum(len(d) for d in ds) > len(want)
    if got != want or bool(w) != over:
        return 'merge_dicts(%r) = %r, warned: %r' % (ds, got, bool(w))
    if any(got is d for d in ds):
        return 'the result aliases an argument'


def inside(space, x):
    if isinstance(space, sp.Dict):
        return set(x) == set(space.spaces) and all(inside(space.spaces[k], x[k]) for k in x)
    if isinstance(space, sp.Tuple):
        return len(x) == len(space.spaces) and all(inside(s, v) for s, v in zip(space.spaces, x))
    if isinstance(space, sp.Discrete):
        return 0 <= x < space.n and int(x) == x
    return space.contains(onp.asarray(x).astype(space.dtype)) and onp.array_equal(onp.asarray(x), onp.asarray(x).astype(space.dtype))


def spaces_(rnd):
    def leaf():
        k = rnd.randint(5)
        if k == 0:
            return sp.Discrete(int(rnd.randint(1, 9)))
        if k == 1:
            return sp.MultiDiscrete([int(x) for x in rnd.randint(1, 6, size=rnd.randint(1, 4))])
        if k == 2:
            return sp.MultiBinary(int(rnd.randint(1, 5)))
        shape = tuple(int(x) for x in rnd.randint(1, 4, size=rnd.randint(1, 3)))
        if k == 3:
            lo = rnd.randn(*shape) * 10 ** rnd.uniform(-2, 3)
            return sp.Box(lo.astype('float32'), (lo + rnd.rand(*shape) * 10 ** rnd.uniform(-1, 3)).astype('float32'))
        return [sp.Box(-onp.inf, onp.inf, shape), sp.Box(0, 255, shape, 'uint8'), sp.Box(100, 120, shape, 'int32'), sp.Box(-onp.inf, -7., shape), sp.Box(20., onp.inf, shape)][rnd.randint(5)]

    def tree(d):
        k = rnd.randint(4) if d else 0
        if k == 1:
            return sp.Tuple(tuple(tree(d - 1) for _ in range(rnd.randint(1, 4))))
        if k == 2:
            return sp.Dict({'k%d' % i: tree(d - 1) for i in range(rnd.randint(1, 4))})
        return leaf()
    return [leaf() for _ in range(20)] + [tree(2) for _ in range(20)]


def safe_case(space):
    for seed in (0, 1, 5, 23):
        x = utils.safe_sample(space, seed=seed)
        if not inside(space, x):
            return 'safe_sample(%r, seed=%d) = %r is not an element of the space' % (space, seed, x)
        y = utils.safe_sample(space, seed=seed)
        if not all(onp.array_equal(a, b) for a, b in zip(jax.tree_util.tree_leaves(x), jax.tree_util.tree_leaves(y))):
            return 'safe_sample is not reproducible for a fixed seed'
        if not all(onp.all(onp.isfinite(onp.asarray(l, 'float64'))) for l in jax.tree_util.tree_leaves(x)):
            return 'not finite'


def gtb_case(c):
    o, a, n, g = c

    class E:
        observation_space, action_space = o, a
    b = utils.get_transition_batch(E, batch_size=n, gamma=g, random_seed=n)
    if b.batch_size != n:
        return 'batch_size %r' % b.batch_size
    for nm, s in (('S', o), ('S_next', o), ('A', a), ('A_next', a)):
        x = getattr(b, nm)
        for k in range(n):
            if not inside(s, jax.tree_util.tree_map(lambda l: l[k], x)):
                return '%s[%d] is not in the space' % (nm, k)
    if not set(onp.asarray(b.In)) <= {0, g} or onp.any(b.logP > 0) or onp.any(b.logP_next > 0) or onp.any(b.W <= 0):
        return 'In in {0, gamma}, logP <= 0, W > 0 expected: %r' % (b,)
    if b.Rn.shape != (n,) or b.logP.shape != (n,) or b.W.shape != (n,):
        return 'shapes'


def batch_job(ck):
    N = 1200 if ck.thorough else 140
    big = sorted({2 ** k + d for k in range(7, 13) for d in (-1, 0, 1)} | {int(x) for x in ck.rnd.randint(140, 5000, size=12)})
    ck.concrete('chunks_pow2', chunks_case, list(range(1, N)) + big, bound='batch sizes 1..%d and %d larger ones, up to 5000' % (N - 1, len(big)))
    ck.concrete('tree_sample', sample_case, [(n, k, r, ax) for n in (1, 2, 5, 9) for k in (1, 2, 5, 7) for r in (True, False) for ax in (0, 1)], bound='64 shape/size combinations')
    ck.concrete('merge_dicts', merge_case, [((), {}), (({'a': 1},), {'a': 1}), (({'a': 1}, {'b': 2}), {'a': 1, 'b': 2}), (({'a': 1, 'b': 3}, {'b': 2}, {'c': 4, 'a': 9}), {'a': 9, 'b': 2, 'c': 4})],
                bound='4 argument lists')
    ss = [s for _ in range(5 if ck.thorough else 1) for s in spaces_(ck.rnd)]
    ck.concrete('safe_sample', safe_case, ss, bound='%d random spaces x 4 seeds' % len(ss))
    ck.concrete('get_transition_batch', gtb_case, [(ss[i], ss[-1 - i], n, g) for i in range(6) for n in (1, 4) for g in (.9, .5)], bound='24 environments')
    ck.fn(*[U + n for n in ('chunks_pow2', 'tree_sample', 'merge_dicts', 'safe_sample', 'get_transition_batch', 'get_magnitude_quantiles')], how='bounded')


class Epi(gymnasium.Env):
    """a scripted environment that records what is done to it"""
    observation_space, action_space, render_mode = sp.Discrete(50), sp.Discrete(50), 'rgb_array'
    spec = None

    def __init__(self, n, how):
        self.n, self.how, self.log, self.t, self.frames = n, how, [], 0, []

    def reset(self, **kw):
        self.t = 0
        self.log.append('reset')
        return 0, {}

    def step(self, a):
        self.log.append(int(a))
        self.t += 1
        end = self.t >= self.n
        return self.t, 1.5, end and self.how == 'done', end and self.how == 'truncated', {}

    def render(self):
        self.frames.append(self.t)
        return onp.full((4, 4, 3), self.t, 'uint8')


def render_case(c):
    n, how, monitored, gif = c
    env = Epi(n, how)
    w = coax.wrappers.TrainMonitor(env, tensorboard_dir=None) if monitored else env
    pi = lambda s: s + 20     # noqa
    if gif:
        import os
        import tempfile
        with tempfile.TemporaryDirectory(prefix='verif_') as d:
            path = os.path.join(d, 'x', 'y.gif')
            utils.generate_gif(w, path, policy=pi, max_episode_steps=gif)
            if not os.path.isfile(path):
                return 'no file was written'
        want = ['reset'] + [20 + t for t in range(min(n, gif))]
    else:
        utils.render_episode(w, policy=pi)
        want = ['reset'] + [20 + t for t in range(n)]
        if env.frames != list(range(n + 1)):
            return 'rendered frames %r' % env.frames
    if env.log != want:
        return 'the environment saw %r, expected %r (actions follow the policy at the latest observation until the episode ends)' % (env.log, want)
    if monitored and w.T != 0:
        return 'the train monitor counted a rendered episode'


class Wrap:
    def __init__(self, env, **kw):
        self.env = env
        self.__dict__.update(kw)


def attr_case(depth):
    e = Wrap.__new__(Wrap)
    e.inner = 'i'
    for k in range(depth):
        e = Wrap(e, **({'mid': k} if k in (0, 2) else {}))
    e.__dict__.setdefault('own', 'o')
    want = dict(inner='i', own='o')
    if depth:
        want['mid'] = 2 if depth > 2 else 0
    for k in ('inner', 'own', 'mid', 'missing'):
        if utils.has_env_attr(e, k) != (k in want):
            return 'has_env_attr(%r) is wrong at depth %d' % (k, depth)
        if utils.get_env_attr(e, k, default='dflt') != want.get(k, 'dflt'):
            return 'get_env_attr(%r) = %r, expected %r' % (k, utils.get_env_attr(e, k, default='dflt'), want.get(k, 'dflt'))
    if getattr_safe(e, 'own') != 'o' or getattr_safe(e, 'missing', 3) != 3:
        return 'getattr_safe'
    try:
        utils.get_env_attr(e, 'missing')
    except AttributeError:
        return
    return 'no AttributeError for a missing attribute'


KINDS = ('is_policy', 'is_qfunction', 'is_reward_function', 'is_stochastic', 'is_transition_model', 'is_vfunction')


def kind_case(name):
    from checks.c22 import makers
    from checks.c30 import build
    m = makers()
    q = m['Q2']()
    objs = {'EpsilonGreedy': lambda: coax.EpsilonGreedy(q, .1), 'BoltzmannPolicy': lambda: coax.BoltzmannPolicy(q, .1), 'SuccessorStateQ': lambda: build(1, 1, False, False, None, 3, .9)[3],
            'StochasticTransitionModel': lambda: build(1, 1, True, False, None, 3, .9)[1], 'StochasticRewardFunction': lambda: build(1, 1, False, True, None, 3, .9)[2], 'object': object}
    table = dict(V='is_vfunction', Q1='is_qfunction', Q2='is_qfunction', Policy='is_policy is_stochastic', PolicyC='is_policy is_stochastic', StochasticV='is_vfunction is_stochastic',
                 StochasticQ='is_qfunction is_stochastic', RewardFunction='is_reward_function', TransitionModel='is_transition_model', EpsilonGreedy='is_policy', BoltzmannPolicy='is_policy',
                 SuccessorStateQ='is_qfunction', StochasticTransitionModel='is_transition_model is_stochastic', StochasticRewardFunction='is_reward_function is_stochastic', object='')
    if name is None:
        return list(table)
    o = (objs.get(name) or m[name])()
    for k in KINDS:
        if k == 'is_qfunction' and 'Reward' in name:
            continue       # reward functions are implemented as q-functions
        if bool(getattr(utils, k)(o)) != (k in table[name].split()):
            return '%s(%s) is %r' % (k, name, getattr(utils, k)(o))


def misc_job(ck):
    ck.concrete('render_episode, generate_gif', render_case, [(n, h, m, g) for n in (1, 2, 5) for h in ('done', 'truncated') for m in (False, True) for g in (0, 3, 40)], bound='36 scripted episodes')
    ck.concrete('environment attributes', attr_case, range(6), bound='wrapper depth 0..5')
    ck.concrete('kinds of functions', kind_case, kind_case(None), bound='all function classes')
    ck.fn(*[U + n for n in ('render_episode', 'generate_gif', 'has_env_attr', 'get_env_attr', 'getattr_safe') + KINDS], how='bounded')


def check_job(ck):
    """check_array raises TypeError exactly when one of the requested conditions fails; isscalar"""
    import itertools
    arrs = [onp.zeros(()), onp.zeros(2, 'int32'), onp.zeros((1, 3), 'float32'), jnp.zeros(()), jnp.zeros(3, 'int32'), jnp.zeros((2, 1)), jnp.zeros((1, 2, 3)), [1., 2.], 3.]
    opts = dict(ndim=[None, 0, 1, (1, 2), [0, 3]], ndim_min=[None, 0, 1, 2], ndim_max=[None, 0, 1, 2], dtype=[None, 'float32', ('int32', 'bool')],
                shape=[None, (), (3,), (2, 1)], axis=[(None, None), (3, -1), (1, 0), ((1, 2), -1)], except_np=[False, True])

    def many(v):
        return v if isinstance(v, (tuple, list, set)) else [v]

    def case(i):
        arr = arrs[i]
        for nd, mi, ma, dt, sh, (size, axis), np_ok in itertools.product(*opts.values()):
            is_j, is_n = isinstance(arr, jnp.ndarray), isinstance(arr, onp.ndarray)
            if not (is_j or is_n):
                ok = False
            else:
                if size is not None and arr.ndim == 0:
                    continue
                ok = (is_j or np_ok) and (nd is None or arr.ndim in many(nd)) and (mi is None or arr.ndim >= mi) and (ma is None or arr.ndim <= ma) \
                    and (dt is None or str(arr.dtype) in many(dt)) and (sh is None or tuple(arr.shape) == sh) and (size is None or arr.shape[axis] in many(size))
            try:
                utils.check_array(arr, ndim=nd, ndim_min=mi, ndim_max=ma, dtype=dt, shape=sh, axis_size=size, axis=axis, except_np=np_ok)
                got = True
            except TypeError:
                got = False
            if got != ok:
                return 'check_array(%r, ndim=%r, ndim_min=%r, ndim_max=%r, dtype=%r, shape=%r, axis_size=%r, axis=%r, except_np=%r) %s' % (
                    arr, nd, mi, ma, dt, sh, size, axis, np_ok, 'accepts' if got else 'raises')
        want = not isinstance(arr, list) and onp.size(arr) == 1
        if utils.isscalar(arr) != want:
            return 'isscalar(%r) is not %r' % (arr, want)
    ck.concrete('check_array, isscalar', case, list(range(len(arrs))), bound='%d inputs, all combinations of the listed options' % len(arrs))
    ck.fn(U + 'check_array', U + 'isscalar', how='bounded')


def common(ck):
    ck.trust('JAX tracing and its primitive semantics (jax.make_jaxpr); z3', 'lib/symjax.py, lib/alg.py')
    ck.assume('machine arithmetic treated as real arithmetic', 'random keys are modelled by arbitrary draws in the range of the float32 Gumbel sampler',
              'array sizes instantiated (argmax over 2..4 entries, 2..6 stacked frames, small trees), entries symbolic', 'Discrete spaces start at 0')


# ------------------------------------------------------------------ samples of arbitrary spaces, symbolically
class Rnd(onp.random.RandomState):
    """an arbitrary source of randomness (a callee contract of numpy's generator)"""

    def rand(self, *n):
        k = int(onp.prod(n)) if n else 1
        u = [V.fresh('real', 'u') for _ in range(k)]
        for x in u:
            V.assume(V.sand(x >= 0, x < 1))
        return V.objarray(u, tuple(int(i) for i in n)) if n else u[0]

    def randint(self, hi, size=None):
        def one():
            i = V.fresh('int', 'i')
            V.assume(V.sand(i >= 0, i < hi))
            return i
        if size is None:
            return one()
        return V.objarray([one() for _ in range(int(onp.prod(size)))], size if isinstance(size, tuple) else (int(size),))


def box_body(shape):
    def body(I):
        k = int(onp.prod(shape))
        b = sp.Box(onp.zeros(shape, 'float32'), onp.ones(shape, 'float32'))
        lo, hi = [[V.inp('real', '%s%d' % (s, i)) for i in range(k)] for s in ('lo', 'hi')]
        for x, y in zip(lo, hi):
            V.assume(x <= y)
        b.low, b.high = V.objarray(lo, shape), V.objarray(hi, shape)
        n = V.inp('int', 'n')
        V.assume(n >= 1)
        d = sp.Discrete(3)
        d.n = n
        out = I.call(utils.safe_sample, (sp.Tuple((b, sp.Dict(d=d, m=sp.MultiBinary(2)))),), {'seed': Rnd(0)})
        x = out[0]
        if onp.shape(x) != shape:
            return [('shape', False)]
        x = onp.ravel(x).tolist() if shape else [x.item() if isinstance(x, onp.ndarray) else x]
        return [('entry %d lies in the box' % i, V.sand(lo[i] <= x[i], x[i] <= hi[i])) for i in range(k)] + [
            ('discrete sample', V.sand(out[1]['d'] >= 0, out[1]['d'] < n)), ('binary sample', V.sand(*[V.sand(v >= 0, v <= 1) for v in out[1]['m'].ravel().tolist()])), ('keys', set(out[1]) == {'d', 'm'})]

    def native(v):
        lo = onp.array([float(v['lo%d' % i]) for i in range(int(onp.prod(shape)))], 'float32').reshape(shape)
        hi = onp.maximum(onp.array([float(v['hi%d' % i]) for i in range(int(onp.prod(shape)))], 'float32').reshape(shape), lo)
        return safe_case(sp.Tuple((sp.Box(lo, hi), sp.Discrete(max(1, min(int(v['n']), 10 ** 6))))))
    return body, native


def safe_job(ck):
    for shape in ((1,), (2,), (2, 2)):
        body, native = box_body(shape)

        def search():
            for s in spaces_(onp.random.RandomState(4)):
                m = safe_case(s)
                if m:
                    return m
        V.contract(ck, 'safe_sample/%s' % (shape,), body, funcs=[U + 'safe_sample'], replay=native, search=search)


def quantile_job(ck):
    """the quantile fractions of the implicit-quantile networks"""
    for n in (2, 3, 4):
        def fun(x):
            return dict(u=utils.quantiles_uniform(jax.random.PRNGKey(0), 2, n), q=utils.quantiles(2, n), x=x)

        def post(o, ar):
            res = [('shapes', alg.ex(float(o['u'].shape == (2, n) and o['q'].shape == (2, n))), alg.ONE)]
            for b in range(2):
                u = [o['u'][b, k] for k in range(n)]
                res.append(('random fractions end at 1 [%d]' % b, u[-1], alg.ONE))
                res += [('random fractions increase [%d, %d]' % (b, k), alg.lt(z, y), alg.ZERO) for k, (y, z) in enumerate(zip([alg.ZERO] + u[:-1], u))]
                res += [('equally spaced fractions [%d, %d]' % (b, k), o['q'][b, k], alg.ex(float(onp.float32(k) / onp.float32(n)))) for k in range(n)]
            return res
        jax_contract(ck, 'quantiles/%d' % n, fun, (SymArg('x', (1,)),), post, funcs=[U + 'quantiles', U + 'quantiles_uniform'])

    def case(c):
        seed, b, n = c
        u, q = onp.asarray(utils.quantiles_uniform(jax.random.PRNGKey(seed), b, n)), onp.asarray(utils.quantiles(b, n))
        if u.shape != (b, n) or q.shape != (b, n):
            return 'shapes %s, %s' % (u.shape, q.shape)
        if not onp.allclose(u[:, -1], 1, atol=1e-4) or onp.any(onp.diff(u, axis=1) < 0) or onp.any(u < 0):
            return 'quantiles_uniform: %s' % u
        if b > 1 and n > 1 and onp.array_equal(u[0], u[1]):
            return 'quantiles_uniform: the same fractions in every row'
        if not onp.allclose(q, onp.arange(n) / n, atol=1e-6):
            return 'quantiles: %s' % q
    ck.concrete('quantiles/native', case, [(s, b, n) for s in range(3) for b in (1, 2, 5) for n in (1, 2, 7, 32, 200)], bound='45 shapes and keys')


def jobs():
    return [arg_job(2, 'argmax'), arg_job(3, 'argmax'), arg_job(2, 'argmin'), arg_job(3, 'argmin'), ('ties', tie_job), ('check', check_job), ('pre', pre_job), ('elt', elt_job), ('sync', sync_job), ('tree', tree_job),
            ('batch', batch_job), ('misc', misc_job), ('safe', safe_job), ('quantiles', quantile_job), ('common', common)] + [diff_job(n) for n in (1, 2, 3, 4, 6)]
