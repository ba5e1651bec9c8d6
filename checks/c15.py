"""C15: categorical distribution."""
import coax
import numpy as onp
from gymnasium.spaces import Discrete
from lib import alg
from lib.contract import jax_contract
from lib.nets import *   # noqa
from lib.symjax import SymArg, B

CD = coax.proba_dists.CategoricalDist
PD = coax.proba_dists.ProbaDist


def dist(which, n, tau=None):
    if which == 'leaf':
        return CD(Discrete(n)) if tau is None else CD(Discrete(n), gumbel_softmax_tau=tau)
    return PD(Discrete(n))


def lg(name, n):
    return SymArg(name, (B, n), lo=-30, hi=30)


def logp(x):
    l = logsumexp(x)
    return [v - l for v in x]


def dot(a, b):
    return sum((x * y for x, y in zip(a, b)), alg.ZERO)


def fn_job(which, n, tau=None):
    def job(ck):
        t = alg.ex(0.2 if tau is None else tau)

        def fun(p, q, x, a, key):
            d = dist(which, n, tau)
            P, Q = {'logits': p}, {'logits': q}
            s = d.sample(P, key)
            pre = d.preprocess_variate(key, a)
            return dict(mean=d.mean(P), mode=d.mode(P), logp=d.log_proba(P, x), H=d.entropy(P), ce=d.cross_entropy(P, Q),
                        kl=d.kl_divergence(P, Q), sample=s, pre=pre, lpa=d.log_proba(P, pre))

        def post(o, ar):
            p, q, x, a = [list(ar[0][0]), list(ar[1][0]), list(ar[2][0]), ar[3][0]]
            P, lp, lq = softmax(p), logp(p), logp(q)
            u = [alg.var('u0[0, %d]' % k, row=True) for k in range(n)]
            g = [-alg.flog(-alg.flog(v)) for v in u]
            r = [('log_proba', o['logp'][0], dot(x, lp)), ('entropy', o['H'][0], -dot(P, lp)),
                 ('cross_entropy', o['ce'][0], -dot(P, lq)), ('kl_divergence', o['kl'][0], dot(P, [b - c for b, c in zip(lp, lq)])),
                 ('kl == cross_entropy - entropy', o['kl'][0], o['ce'][0] - o['H'][0])]
            oh = onehot(a, n)
            sm = softmax([(x_ + y) / t for x_, y in zip(g, lp)])
            md = softmax([y / t for y in lp])
            for k in range(n):
                r += [('mean[%d] == softmax' % k, o['mean'][0, k], P[k]), ('one-hot[%d]' % k, o['pre'][0, k], oh[k]),
                      ('mode[%d] == softmax(logp/tau)' % k, o['mode'][0, k], md[k]),
                      ('sample[%d] == gumbel-softmax' % k, o['sample'][0, k], sm[k])]
            r.append(('log_proba of an action == its log-probability', o['lpa'][0], dot(oh, lp)))
            return r
        jax_contract(ck, 'Categorical/%s/n=%d%s' % (which, n, '' if tau is None else '/tau'), fun,
                     (lg('p', n), lg('q', n), SymArg('x', (B, n)), act_d('a', n), jax.random.PRNGKey(3)), post,
                     funcs=['coax.proba_dists.CategoricalDist.' + m for m in
                            ('sample', 'mean', 'mode', 'log_proba', 'entropy', 'cross_entropy', 'kl_divergence', 'preprocess_variate')])
    return ('fn-%s-%d-%s' % (which, n, tau), job)


def conc_job(ck):
    """samples, mode, and postprocess∘preprocess on concrete inputs; sampling frequencies follow the probabilities"""
    def case(c):
        which, n, seed = c
        rnd = onp.random.RandomState(seed)
        d = dist(which, n)
        logits = (rnd.randn(1, n) * 2).astype('float32')
        key = jax.random.PRNGKey(seed)
        for a in range(n):
            if int(d.postprocess_variate(key, d.preprocess_variate(key, a))) != a:
                return 'postprocess(preprocess(%d)) differs' % a
        arr = onp.arange(n)
        back = onp.asarray(d.postprocess_variate(key, d.preprocess_variate(key, arr), batch_mode=True))
        if not onp.array_equal(back, arr):
            return 'batch postprocess(preprocess) differs: %s' % back
        P = {'logits': jnp.asarray(logits)}
        if int(d.postprocess_variate(key, d.mode(P))) != int(onp.argmax(logits)):
            return 'mode is not the most probable action'
        m = 6000
        X = d.sample({'logits': jnp.repeat(P['logits'], m, axis=0)}, key)
        f = onp.bincount(onp.asarray(d.postprocess_variate(key, X, batch_mode=True)), minlength=n) / m
        pr = onp.exp(logits[0] - logits[0].max())
        pr /= pr.sum()
        if onp.abs(f - pr).max() > 6 * onp.sqrt(.25 / m):
            return 'sampling frequencies %s vs probabilities %s' % (f, pr)
        if not onp.isfinite(onp.asarray(X)).all():
            return 'sample not finite'
    ck.concrete('Categorical/variates', case, [(w, n, s) for w in ('leaf', 'composite') for n in (2, 3, 7) for s in range(3)], bound='18 cases')
    ck.fn('coax.proba_dists.CategoricalDist.postprocess_variate', how='bounded')


def multi_job(kind):
    """composite distributions: componentwise variates, summed log-probabilities, entropies and divergences"""
    from gymnasium import spaces

    def job(ck):
        if kind == 'multidiscrete':
            sp, ns = spaces.MultiDiscrete([2, 3]), [2, 3]
        elif kind == 'multibinary':
            sp, ns = spaces.MultiBinary(2), [2, 2]
        elif kind == 'tuple':
            sp, ns = spaces.Tuple((Discrete(2), Discrete(3))), [2, 3]
        else:
            sp, ns = spaces.Dict({'a': Discrete(2), 'b': Discrete(3)}), [2, 3]
        mk = (lambda xs: {'a': xs[0], 'b': xs[1]}) if kind == 'dict' else (lambda xs: list(xs))
        get = (lambda t, i: t['ab'[i]]) if kind == 'dict' else (lambda t, i: t[i])

        def fun(p, q, x):
            d = PD(sp)
            P = mk([{'logits': v} for v in p])
            Q = mk([{'logits': v} for v in q])
            m, mo = d.mean(P), d.mode(P)
            return dict(mean=[get(m, 0), get(m, 1)], mode=[get(mo, 0), get(mo, 1)], logp=d.log_proba(P, mk(x)), H=d.entropy(P),
                        ce=d.cross_entropy(P, Q), kl=d.kl_divergence(P, Q))

        def post(o, ar):
            p, q, x = [[list(v[0]) for v in t] for t in ar]
            lp, lq, P = [logp(v) for v in p], [logp(v) for v in q], [softmax(v) for v in p]
            r = [('log_proba', o['logp'][0], sum((dot(a, b) for a, b in zip(x, lp)), alg.ZERO)),
                 ('entropy', o['H'][0], -sum((dot(a, b) for a, b in zip(P, lp)), alg.ZERO)),
                 ('cross_entropy', o['ce'][0], -sum((dot(a, b) for a, b in zip(P, lq)), alg.ZERO)),
                 ('kl', o['kl'][0], sum((dot(a, [y - z for y, z in zip(b, c)]) for a, b, c in zip(P, lp, lq)), alg.ZERO))]
            for i in range(2):
                md = softmax([5 * y for y in lp[i]])
                for k in range(ns[i]):
                    r += [('mean[%d][%d]' % (i, k), o['mean'][i][0, k], P[i][k]), ('mode[%d][%d]' % (i, k), o['mode'][i][0, k], md[k])]
            return r
        jax_contract(ck, 'ProbaDist/%s' % kind, fun,
                     ([lg('p%d' % i, n) for i, n in enumerate(ns)], [lg('q%d' % i, n) for i, n in enumerate(ns)],
                      [SymArg('x%d' % i, (B, n)) for i, n in enumerate(ns)]), post,
                     funcs=['coax.proba_dists.ProbaDist.' + m for m in ('mean', 'mode', 'log_proba', 'entropy', 'cross_entropy', 'kl_divergence')])

        def case(seed):
            d = PD(sp)
            sp.seed(seed)
            a = sp.sample()
            key = jax.random.PRNGKey(seed)
            b = d.postprocess_variate(key, d.preprocess_variate(key, a))
            la, lb = jax.tree_util.tree_leaves(a), jax.tree_util.tree_leaves(b)
            if len(la) != len(lb) or not all(onp.array_equal(u, v) for u, v in zip(la, lb)):
                return 'postprocess(preprocess(%s)) == %s' % (a, b)
            if not sp.contains(jax.tree_util.tree_map(onp.asarray, b) if kind not in ('tuple', 'dict') else b):
                return 'variate %r not in the space' % (b,)
        ck.concrete('ProbaDist/%s/variates' % kind, case, range(12), bound='12 actions')

        def joint(seed):
            d = PD(sp)
            rnd = onp.random.RandomState(seed)
            m = 6000
            lg_ = [rnd.randn(n).astype('float32') for n in ns]
            P = mk([{'logits': jnp.repeat(jnp.asarray(v)[None], m, axis=0)} for v in lg_])
            key = jax.random.PRNGKey(seed)
            x = d.sample(P, key)
            y = d.sample(P, key)
            if not all(onp.array_equal(get(x, i), get(y, i)) for i in range(2)):
                return 'the same key gives different samples'
            z = d.sample(P, jax.random.PRNGKey(seed + 1))
            if any(onp.array_equal(get(x, i), get(z, i)) for i in range(2)):
                return 'different keys give the same sample'
            ix = [onp.argmax(onp.asarray(get(x, i)), axis=-1) for i in range(2)]
            pr = [onp.exp(v) / onp.exp(v).sum() for v in lg_]
            for i in range(ns[0]):
                for j in range(ns[1]):
                    f, w = onp.mean((ix[0] == i) & (ix[1] == j)), pr[0][i] * pr[1][j]
                    if abs(f - w) > 6 * onp.sqrt(w * (1 - w) / m):
                        return 'components are drawn jointly: frequency of (%d, %d) is %.3f, product of the probabilities %.3f' % (i, j, f, w)
        ck.concrete('ProbaDist/%s/joint frequencies' % kind, joint, range(3), bound='3 distributions, 6000 draws, 6 sigma')
    return ('multi-' + kind, job)


def affine_job(ck):
    """affine transforms act on every component with its own scale and shift"""
    from gymnasium import spaces
    N = coax.proba_dists.NormalDist
    b = [Box(-9, 9, (1,)), Box(-9, 9, (2,)), Box(-9, 9, (1,))]
    ns = [1, 2, 1]
    sps = {'dict': (spaces.Dict({'x': b[0], 'y': spaces.Tuple((b[1], b[2]))}), lambda v: {'x': v[0], 'y': [v[1], v[2]]}, lambda t: [t['x'], t['y'][0], t['y'][1]]),
           'tuple': (spaces.Tuple((b[0], b[1], b[2])), lambda v: list(v), lambda t: list(t))}
    for nm, (sp, tree, untree) in sps.items():
        def fun(p, sc, sh, sp=sp, tree=tree, untree=untree):
            out = untree(PD(sp).affine_transform(tree(p), tree(sc), tree(sh)))
            return dict(out=out, want=[N(x).affine_transform(*v) for x, *v in zip(b, p, sc, sh)])

        def post(o, ar):
            return [('component %d: %s[%d]' % (i, m, k), o['out'][i][m][0, k], o['want'][i][m][0, k]) for i in range(3) for m in ('mu', 'logvar') for k in range(ns[i])]
        jax_contract(ck, 'ProbaDist/affine_transform/%s' % nm, fun,
                     ([{'mu': SymArg('m%d' % i, (B, n)), 'logvar': SymArg('v%d' % i, (B, n), lo=-9, hi=9)} for i, n in enumerate(ns)],
                      [SymArg('sc%d' % i, (B, n), lo=0.1, hi=9) for i, n in enumerate(ns)], [SymArg('sh%d' % i, (B, n)) for i, n in enumerate(ns)]), post,
                     funcs=['coax.proba_dists.ProbaDist.affine_transform'], syntactic=True)


def nested_job(ck):
    """nested composite spaces, discrete and continuous components mixed: sums and componentwise results of the leaf distributions (C15, C16)"""
    from gymnasium import spaces
    N = coax.proba_dists.NormalDist
    box = Box(onp.array([-1., 0.], 'float32'), onp.array([1., 3.], 'float32'))
    sp = spaces.Tuple((Discrete(2), spaces.Dict({'m': spaces.MultiDiscrete([2, 3]), 'u': box, 'v': spaces.Tuple((Discrete(3),))})))
    leaves = [('c', 2), ('c', 2), ('c', 3), ('n', 2), ('c', 3)]

    def tree(x):
        return (x[0], {'m': [x[1], x[2]], 'u': x[3], 'v': [x[4]]})

    def untree(t):
        return [t[0], t[1]['m'][0], t[1]['m'][1], t[1]['u'], t[1]['v'][0]]

    def params(nm):
        return [{'logits': lg('%s%d' % (nm, i), n)} if k == 'c' else {'mu': SymArg('%s%dm' % (nm, i), (B, n)), 'logvar': SymArg('%s%dv' % (nm, i), (B, n), lo=-9, hi=9)} for i, (k, n) in enumerate(leaves)]

    def fun(p, q, x):
        d = PD(sp)
        L = [coax.proba_dists.CategoricalDist(Discrete(n)) if k == 'c' else N(box) for k, n in leaves]
        one = lambda P: dict(mean=untree(d.mean(P)), mode=untree(d.mode(P)), H=d.entropy(P))   # noqa
        return dict(one(tree(p)), lp=d.log_proba(tree(p), tree(x)), ce=d.cross_entropy(tree(p), tree(q)), kl=d.kl_divergence(tree(p), tree(q)),
                    wmean=[l.mean(v) for l, v in zip(L, p)], wmode=[l.mode(v) for l, v in zip(L, p)], wH=[l.entropy(v) for l, v in zip(L, p)],
                    wlp=[l.log_proba(v, y) for l, v, y in zip(L, p, x)], wce=[l.cross_entropy(v, y) for l, v, y in zip(L, p, q)], wkl=[l.kl_divergence(v, y) for l, v, y in zip(L, p, q)])

    def post(o, ar):
        tot = lambda k: sum((alg.ex(v[0]) for v in o[k]), alg.ZERO)   # noqa
        r = [('%s is the sum over the components' % k, o[k][0], tot('w' + k)) for k in ('H', 'lp', 'ce', 'kl')]
        for i, (_, n) in enumerate(leaves):
            for k in range(n):
                r += [('mean of component %d [%d]' % (i, k), o['mean'][i][0, k], o['wmean'][i][0, k]), ('mode of component %d [%d]' % (i, k), o['mode'][i][0, k], o['wmode'][i][0, k])]
        return r
    jax_contract(ck, 'ProbaDist/nested', fun, (params('p'), params('q'), [SymArg('x%d' % i, (B, n)) for i, (_, n) in enumerate(leaves)]), post,
                 funcs=['coax.proba_dists.ProbaDist.' + m for m in ('mean', 'mode', 'log_proba', 'entropy', 'cross_entropy', 'kl_divergence')], syntactic=True)

    def case(seed):
        d, rnd = PD(sp), onp.random.RandomState(seed)
        sp.seed(seed)
        key = jax.random.PRNGKey(seed)
        As = [sp.sample() for _ in range(4)]
        X = [d.preprocess_variate(key, a) for a in As]
        Xb = jax.tree_util.tree_map(lambda *v: jnp.concatenate(v, axis=0), *X)

        def eq(a, b):
            la, lb = jax.tree_util.tree_leaves(a), jax.tree_util.tree_leaves(b)
            return len(la) == len(lb) and all(onp.shape(u) == onp.shape(v) and onp.allclose(u, v, atol=1e-4) for u, v in zip(la, lb))
        for i, a in enumerate(As):
            for b in (d.postprocess_variate(key, X[i]), d.postprocess_variate(key, Xb, index=i)):
                if not eq(a, b):
                    return 'postprocess(preprocess(%s)) == %s (position %d of the batch)' % (a, b, i)
                if not isinstance(b, tuple) or not sp.contains(b):
                    return 'variate %r not in the space' % (b,)
        back = d.postprocess_variate(key, Xb, batch_mode=True)
        want = jax.tree_util.tree_map(lambda *v: onp.stack(v), *As)
        if not eq(back, want):
            return 'batch postprocess(preprocess) == %s, expected %s' % (back, want)
        P = tree([{'logits': jnp.asarray(rnd.randn(1, n), 'float32')} if k == 'c' else {'mu': jnp.asarray(rnd.randn(1, n), 'float32'), 'logvar': jnp.zeros((1, n))} for k, n in leaves])
        if not sp.contains(d.postprocess_variate(key, d.sample(P, key))):
            return 'sample not in the space'
        pr = d.default_priors
        if jax.tree_util.tree_structure(jax.tree_util.tree_leaves(pr)) != jax.tree_util.tree_structure(jax.tree_util.tree_leaves(P)) or not onp.allclose(d.entropy(pr), float(
                2 * onp.log(2) + 2 * onp.log(3) + 2 * .5 * (onp.log(2 * onp.pi) + 1)), atol=1e-4):
            return 'default priors are not the uniform / standard normal distributions of the components'
    ck.concrete('ProbaDist/nested/variates', case, range(6), bound='6 batches of 4 actions')
    ck.fn('coax.proba_dists.ProbaDist.postprocess_variate', 'coax.proba_dists.ProbaDist.preprocess_variate', 'coax.proba_dists.ProbaDist.default_priors', how='bounded')


def common(ck):
    ck.trust('JAX tracing and its primitive semantics; z3', 'lib/symjax.py, lib/alg.py', 'the pseudo-random generator of jax.random')
    ck.assume('machine arithmetic treated as real arithmetic', 'number of categories instantiated (2, 3); batch size symbolic')


def jobs():
    return [fn_job('leaf', 2), fn_job('leaf', 3), fn_job('leaf', 3, 0.5), fn_job('composite', 3), ('variates', conc_job)] + \
        [multi_job(k) for k in ('multidiscrete', 'multibinary', 'tuple', 'dict')] + [('nested', nested_job), ('affine', affine_job), ('common', common)]
