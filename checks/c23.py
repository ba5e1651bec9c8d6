"""C23: the two call conventions f(s, a) and f(s)[a] of action-value functions and models agree."""
import numpy as onp
import coax
from gymnasium.spaces import Discrete, Dict, Box
from lib import alg
from lib.contract import jax_contract
from lib.nets import *   # noqa
from checks.c10 import vec, X
from checks.c15 import logp, dot

KEY = jax.random.PRNGKey(3)
BINS = 2


# observation spaces: a vector, a matrix, a dict of vectors
OBSK = {'1': (1,), '2': (2,), '2x2': (2, 2), 'dict': dict(x=(1,), y=(2,))}


def space(ob):
    t = OBSK[ob]
    return Dict({k: Box(-9, 9, v) for k, v in t.items()}) if isinstance(t, dict) else Box(-9, 9, t)


def sargs(ob, name='S'):
    t = OBSK[ob]
    t = t if isinstance(t, dict) else {'': t}
    return {name + k: SymArg(name + k, (B,) + v, lo=-8, hi=8) for k, v in t.items()}


def getS(a, ob, name='S'):
    t = OBSK[ob]
    return {k: a[name + k] for k in t} if isinstance(t, dict) else a[name]


def rowS(ar, ob, name='S'):
    """the components of the generic row"""
    return [x for k in sargs(ob, name) for x in onp.asarray(ar[k])[0].ravel()]


def template(cls, ob):
    """shapes of the leaves of the output, per state and action"""
    if cls in ('Q', 'RewardFunction'):
        return ()
    if cls == 'StochasticQ':
        return {'logits': (BINS,)}
    t = OBSK[ob]
    if cls == 'TransitionModel':
        return t
    one = lambda v: {'mu': v, 'logvar': v}   # noqa
    return {k: one(v) for k, v in t.items()} if isinstance(t, dict) else one(t)


def shapes(t):
    return [t] if isinstance(t, tuple) else [x for k in sorted(t) for x in shapes(t[k])]


def width(t):
    return sum(int(onp.prod(v)) for v in shapes(t))


def fill(t, r, lead):
    """split the last axis of r into a tree of leaves"""
    pos = [0]

    def go(t):
        if isinstance(t, dict):
            return {k: go(t[k]) for k in sorted(t)}
        n = int(onp.prod(t))
        x = r[..., pos[0]:pos[0] + n].reshape(r.shape[:lead] + t)
        pos[0] += n
        return x
    return go(t)


def flat(out, lead):
    """(leading axes..., all components)"""
    return jnp.concatenate([x.reshape(x.shape[:lead] + (-1,)) for x in jax.tree_util.tree_leaves(out)], axis=-1)


def func(cls, kind, n, ob, nm=None):
    nm, t = nm or NAME[cls], template(cls, ob)

    def f1(S, A, is_training):
        return fill(t, rowfn(nm, width(t), *_ps_(is_training), *jax.tree_util.tree_leaves(S), A), 1)

    def f2(S, is_training):
        return fill(t, rowfn(nm, n * width(t), *_ps_(is_training), *jax.tree_util.tree_leaves(S)).reshape(-1, n, width(t)), 2)
    return f1 if kind == 1 else f2


def _ps_(tr):
    from lib.nets import _ps
    return _ps(tr)


def make(cls, kind, n, ob='1', **kw):
    e = Env(space(ob), Discrete(n))
    if cls == 'StochasticQ':
        kw.update(value_range=(-1, 1), num_bins=BINS)
    return getattr(coax, cls)(func(cls, kind, n, ob), e, random_seed=1, **kw)


NAME = dict(Q='q', RewardFunction='q', StochasticQ='sq', TransitionModel='p', StochasticTransitionModel='sp')


def fn_job(cls, kind, n=3, training=False, ob='1'):
    def job(ck):
        args = dict(th=scal('th'), st=scal('st'), A=act_d('A', n), **sargs(ob))
        wd, nm, tr = width(template(cls, ob)), NAME[cls], int(training)

        def fun(a):
            S, a = getS(a, ob), X(a)
            f = make(cls, kind, n, ob)
            setp(f, a.th, a.st)
            A = f.action_preprocessor(KEY, a.A)
            o1, s1 = f.function_type1(f.params, f.function_state, KEY, S, A, training)
            o2, s2 = f.function_type2(f.params, f.function_state, KEY, S, training)
            one = lambda t: jax.tree_util.tree_leaves(t)[0]   # noqa
            return dict(o1=flat(o1, 1), o2=flat(o2, 2), s1=one(s1), s2=one(s2), st=one(f.function_state))

        def post(o, ar):
            a, S = X(vec(ar[0])), rowS(ar[0], ob)
            oh = onehot(a.A, n)
            r = []
            for j in range(wd):
                if kind == 1:
                    net = [F(nm, j, a.th, a.st, tr, *S, *[alg.ex(int(i == k)) for i in range(n)]) for k in range(n)]
                else:
                    net = [F(nm, k * wd + j, a.th, a.st, tr, *S) for k in range(n)]
                for k in range(n):
                    r.append(('f(s)[%d][%d] is the value of action %d' % (k, j, k), o['o2'][0, k, j], net[k]))
                r.append(('f(s,a)[%d] == f(s)[a]' % j, o['o1'][0, j], dot(oh, [o['o2'][0, k, j] for k in range(n)])))
            want = alg.ex(0.5) * a.st + 1 if training else a.st
            r += [('state (s,a)', o['s1'][()], want), ('state (s)', o['s2'][()], want), ('evaluation has no side effect on the state', o['st'][()], a.st)]
            return r
        jax_contract(ck, '%s/type%d/obs %s/n%d%s' % (cls, kind, ob, n, '/training' if training else ''), fun, (args,), post,
                     funcs=['coax.%s.function_type1' % cls, 'coax.%s.function_type2' % cls])
    return ('%s-%d-%d-%s-%s' % (cls, kind, n, training, ob), job)


def x2_shape(x2, n):
    return (-1, n, flat(x2, 2).shape[-1])


def stat_job(cls, kind, n=2, ob='1'):
    """mean / mode / sample of stochastic functions per action"""
    def job(ck):
        args = dict(th=scal('th'), st=scal('st'), A=act_d('A', n), **sargs(ob))
        nm, t = NAME[cls], template(cls, ob)
        wd = width(t)

        # callees by contract (C15-C18): a sample is some function of the distribution parameters (for any fixed noise), its log-probability some
        # function of the parameters and the variate
        def s_(self):
            def sample(dp, rng):
                t = template('TransitionModel', ob) if cls != 'StochasticQ' else (BINS,)
                return fill(t, rowfn('draw', width(t), *jax.tree_util.tree_leaves(dp)), 1)
            return sample

        def lp_(self):
            return lambda dp, x: rowfn('lp', 1, *jax.tree_util.tree_leaves(dp), *jax.tree_util.tree_leaves(x))[:, 0]

        def fun(a):
            f = make(cls, kind, n, ob)
            with stubbed(type(f.proba_dist), sample=property(s_), log_proba=property(lp_)):
                return fun_(f, a)

        def fun_(f, a):
            S, a = getS(a, ob), X(a)
            setp(f, a.th, a.st)
            A = f.action_preprocessor(KEY, a.A)
            p, s = f.params, f.function_state
            x1, lp1 = f.sample_func_type1(p, s, KEY, S, A)
            x2, lp2 = f.sample_func_type2(p, s, KEY, S)
            d1, _ = f.function_type1(p, s, KEY, S, A, False)
            d2, _ = f.function_type2(p, s, KEY, S, False)
            rep = lambda q: jax.tree_util.tree_map(lambda v: v.reshape((-1,) + v.shape[2:]), q)   # noqa
            return dict(lp1=lp1, lp2=lp2, w1=f.proba_dist.log_proba(d1, x1), want=f.proba_dist.log_proba(rep(d2), rep(x2)).reshape(-1, n), x1=flat(x1, 1), x2=flat(x2, 2),
                        y1=flat(f.proba_dist.sample(d1, KEY), 1), y2=flat(f.proba_dist.sample(rep(d2), KEY), 1).reshape(x2_shape(x2, n)))

        def fun_mm(a):
            S, a = getS(a, ob), X(a)
            f = make(cls, kind, n, ob)
            setp(f, a.th, a.st)
            A = f.action_preprocessor(KEY, a.A)
            p, s = f.params, f.function_state
            return dict(m1=flat(f.mean_func_type1(p, s, KEY, S, A), 1), m2=flat(f.mean_func_type2(p, s, KEY, S), 2), o1=flat(f.mode_func_type1(p, s, KEY, S, A), 1),
                        o2=flat(f.mode_func_type2(p, s, KEY, S), 2))

        def post(o, ar):
            return [('sampled from the distribution [%d]' % j, o['x1'][0, j], o['y1'][0, j]) for j in range(o['x1'].shape[1])] + \
                [('sampled from the distribution for action %d [%d]' % (k, j), o['x2'][0, k, j], o['y2'][0, k, j]) for k in range(n) for j in range(o['x1'].shape[1])] + \
                [('log-probability of the sample', o['lp1'][0], o['w1'][0])] + \
                [('log-probability of the sample for action %d' % k, o['lp2'][0, k], o['want'][0, k]) for k in range(n)]

        def post_mm(o, ar):
            a, S = X(vec(ar[0])), rowS(ar[0], ob)
            oh = onehot(a.A, n)
            r = []
            w = o['m1'].shape[1]
            for j in range(w):
                r.append(('mean(s,a)[%d] == mean(s)[a]' % j, o['m1'][0, j], dot(oh, [o['m2'][0, k, j] for k in range(n)])))
                r.append(('mode(s,a)[%d] == mode(s)[a]' % j, o['o1'][0, j], dot(oh, [o['o2'][0, k, j] for k in range(n)])))
            for k in range(n):
                if kind == 1:
                    net = [F(nm, j, a.th, a.st, 0, *S, *[alg.ex(int(i == k)) for i in range(n)]) for j in range(wd)]
                else:
                    net = [F(nm, k * wd + j, a.th, a.st, 0, *S) for j in range(wd)]
                if cls == 'StochasticQ':
                    mean = softmax(net)
                else:
                    net = fill(t, onp.array(net, dtype=object), 0)
                    mean = [x for m in ([net] if 'mu' in net else [net[y] for y in sorted(net)]) for x in m['mu'].ravel()]
                for j in range(w):
                    r.append(('mean(s)[%d][%d]' % (k, j), o['m2'][0, k, j], mean[j]))
            return r
        F_ = 'coax._core.base_stochastic_func_type1.BaseStochasticFuncType1.%s_func_type%d'
        jax_contract(ck, '%s/type%d/obs %s/samples' % (cls, kind, ob), fun, (args,), post, funcs=[F_ % ('sample', k) for k in (1, 2)])
        jax_contract(ck, '%s/type%d/obs %s/statistics' % (cls, kind, ob), fun_mm, (args,), post_mm, funcs=[F_ % (m, k) for m in ('mean', 'mode') for k in (1, 2)])
    return ('stat-%s-%d-%s' % (cls, kind, ob), job)


def call_job(ck):
    """the public single-state methods (bounded): q(s)[k] == q(s, k)"""
    rnd = ck.rnd

    def eq(x, y):
        x, y = [[onp.asarray(v, 'float64') for v in jax.tree_util.tree_leaves(z)] for z in (x, y)]
        return len(x) == len(y) and all(a.shape == b.shape and onp.allclose(a, b, atol=1e-5, rtol=1e-4) for a, b in zip(x, y))

    def case(c):
        cls, kind, n, ob, seed, vt = c
        r = onp.random.RandomState(seed)
        f = make(cls, kind, n, ob, **(dict(value_transform=coax.value_transforms.LogTransform(vt)) if vt else {}))
        setp(f, jnp.float32(r.uniform(-2, 2)), jnp.float32(.5))
        draw = lambda v: r.uniform(-3, 3, size=v).astype('float32')   # noqa
        s = {k: draw(v) for k, v in OBSK[ob].items()} if ob == 'dict' else draw(OBSK[ob])
        get = [lambda *a: f(*a)] if cls in ('Q', 'RewardFunction', 'TransitionModel') else [f.mean, f.mode]
        for g in get:
            all_ = g(s)
            if len(all_) != n:
                return 'f(s) has %d entries' % len(all_)
            for k in range(n):
                x = g(s, k)
                if not eq(x, all_[k]):
                    return 'f(s)[%d] = %r but f(s, %d) = %r' % (k, all_[k], k, x)
        if cls == 'Q':
            S = jax.tree_util.tree_map(lambda x: x[None], s)
            q2, _ = f.function_type2(f.params, f.function_state, KEY, S, False)
            raw = onp.asarray(q2[0], 'float64')
            want = onp.sign(raw) * vt * (onp.exp(onp.abs(raw) / vt) - 1) if vt else raw
            if not onp.allclose(f(s), want, atol=1e-4, rtol=1e-3):
                return 'q(s) is not the back-transformed output of the function'
        if cls in ('StochasticQ', 'StochasticTransitionModel'):
            dp = f.dist_params(s)
            for k in range(n):
                if not eq(f.dist_params(s, k), dp[k]):
                    return 'dist_params(s)[%d] != dist_params(s, %d)' % (k, k)
            x, lp = f(s, return_logp=True)
            if len(x) != n or len(lp) != n:
                return 'bad number of samples'
    cases = [(c, k, n, ob, int(rnd.randint(9999)), vt) for c in NAME for k in (1, 2) for ob, n in (('1', 2), ('2', 3), ('2x2', 2), ('dict', 3)) for vt in ((None, 2.) if c == 'Q' else (None,))]
    ck.concrete('single-state calls', case, cases, bound='%d function/space combinations, one random state each' % len(cases))
    ck.fn('coax.Q.__call__', 'coax.StochasticQ.mean', 'coax.TransitionModel.__call__', how='bounded')


def common(ck):
    ck.trust('JAX tracing and its primitive semantics; z3', 'lib/symjax.py, lib/alg.py')
    ck.assume('machine arithmetic treated as real arithmetic', 'function approximators are arbitrary row-wise functions', 'number of actions instantiated at 2 and 3, observation spaces at Box (1,), (2,), (2,2) and a Dict of two boxes')


def jobs():
    js = []
    for c in NAME:
        for k in (1, 2):
            js += [fn_job(c, k), fn_job(c, k, 2, True, '2'), fn_job(c, k, 2, True, 'dict')]
            if c.endswith('TransitionModel'):
                js += [fn_job(c, k, 2, False, '2x2')]
    for c in ('StochasticQ', 'StochasticTransitionModel'):
        js += [stat_job(c, 1), stat_job(c, 2), stat_job(c, 1, 2, 'dict'), stat_job(c, 2, 2, 'dict')]
    js += [stat_job('StochasticTransitionModel', 2, 2, '2x2')]
    return js + [('call', call_job), ('common', common)]
