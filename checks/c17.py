"""C17: bounded continuous actions: squashed normal distribution, and the box <-> reals transformation."""
import coax
import numpy as onp
from gymnasium.spaces import Box
from lib import alg
from lib.contract import jax_contract, Violation
from lib.nets import *   # noqa
from lib.symjax import SymArg, B
from checks.c16 import fl, S, LOG2PI, ND

SQ = coax.proba_dists.SquashedNormalDist


def tanh(x):
    e = alg.fexp(-2 * x)
    return (1 - e) / (1 + e)


def sq_job(low, high, clipv=None):
    low, high = onp.asarray(low, 'float32'), onp.asarray(high, 'float32')
    shape = low.shape

    def job(ck):
        sc, of = [[alg.ex(float(v)) for v in t.ravel()] for t in ((high - low) / 2, (high + low) / 2)]

        def fun(a, key):
            d = SQ(Box(low, high)) if clipv is None else SQ(Box(low, high), clip_logvar=clipv)
            p, q = {'mu': a['mu'], 'logvar': a['lv']}, {'mu': a['mu2'], 'logvar': a['lv2']}
            return dict(mean=d.mean(p), mode=d.mode(p), sample=d.sample(p, key), H=d.entropy(p), kl=d.kl_divergence(p, q))

        def post(o, ar):
            a = ar[0]
            mu, lv, mu2, lv2 = (fl(a[k]) for k in ('mu', 'lv', 'mu2', 'lv2'))
            quad = [(alg.fexp(l1) + (m1 - m2) * (m1 - m2)) * alg.fexp(-l2) for m1, l1, m2, l2 in zip(mu, lv, mu2, lv2)]
            r = [('entropy of the underlying normal', o['H'][0], S([LOG2PI + l + 1 for l in lv]) / 2),
                 ('kl of the underlying normals', o['kl'][0], S([l2 - l1 + q - 1 for l1, l2, q in zip(lv, lv2, quad)]) / 2)]
            for k, i in enumerate(onp.ndindex(*shape)):
                eps = alg.var('normal0[0, %d]' % k, row=True)
                m = of[k] + sc[k] * tanh(mu[k])
                r += [('mean%s' % (i,), o['mean'][(0,) + i], m), ('mode%s' % (i,), o['mode'][(0,) + i], m),
                      ('sample%s' % (i,), o['sample'][(0,) + i], of[k] + sc[k] * tanh(mu[k] + alg.fexp(lv[k] / 2) * eps)),
                      ('sample%s inside the box' % (i,), alg.lt(alg.ex(float(high.ravel()[k])), o['sample'][(0,) + i]) +
                       alg.lt(o['sample'][(0,) + i], alg.ex(float(low.ravel()[k]))), alg.ZERO)]
            return r
        mk = lambda n, **k: SymArg(n, (B,) + shape, **k)    # noqa
        a = dict(mu=mk('mu', lo=-4, hi=4), lv=mk('lv', lo=-4, hi=1), mu2=mk('mu2', lo=-4, hi=4), lv2=mk('lv2', lo=-4, hi=1))
        jax_contract(ck, 'SquashedNormal/%s..%s' % (low.tolist(), high.tolist()), fun, (a, jax.random.PRNGKey(3)), post,
                     funcs=['coax.proba_dists.SquashedNormalDist.' + m for m in ('sample', 'mean', 'mode', 'entropy', 'kl_divergence')],
                     tol=lambda x, y, s: abs(x - y) <= 1e-3 * (1 + abs(y)))
    return ('sq-%s' % low.tolist(), job)


def logp_job(low, high):
    """the density of the squashed variable: change of variables, evaluated at X = offset + scale*tanh(z)"""
    low, high = onp.asarray(low, 'float32'), onp.asarray(high, 'float32')
    shape = low.shape

    def job(ck):
        sc, of = [[alg.ex(float(v)) for v in t.ravel()] for t in ((high - low) / 2, (high + low) / 2)]
        scn, ofn = (high - low) / 2, (high + low) / 2

        def fun(a):
            d = SQ(Box(low, high))
            p = {'mu': a['mu'], 'logvar': a['lv']}
            X = ofn + scn * a['t']
            return d.log_proba(p, X)

        def post(o, ar):
            a = ar[0]
            mu, lv, t = (fl(a[k]) for k in ('mu', 'lv', 't'))
            tot = alg.ZERO
            for k in range(len(mu)):
                z = (alg.flog(1 + t[k]) - alg.flog(1 - t[k])) / 2
                n = -(LOG2PI + lv[k] + (z - mu[k]) * (z - mu[k]) * alg.fexp(-lv[k])) / 2
                tot = tot + n - alg.flog(1 - t[k]) - alg.flog(1 + t[k]) - alg.flog(sc[k])
            return [('log-density == normal(arctanh) - log|d tanh| - log scale', o[0], tot)]
        mk = lambda n, **k: SymArg(n, (B,) + shape, **k)    # noqa
        a = dict(mu=mk('mu', lo=-4, hi=4), lv=mk('lv', lo=-4, hi=1), t=mk('t', lo=-0.95, hi=0.95))
        jax_contract(ck, 'SquashedNormal/log_proba/%s..%s' % (low.tolist(), high.tolist()), fun, (a,), post,
                     funcs=['coax.proba_dists.SquashedNormalDist.log_proba'],
                     tol=lambda x, y, s: abs(x - y) <= 3e-3 * (1 + abs(y)))
    return ('sqlogp-%s' % low.tolist(), job)


def box_job(low, high):
    low, high = onp.asarray(low, 'float32'), onp.asarray(high, 'float32')
    shape = low.shape

    def job(ck):
        def fun(a, key):
            d = ND(Box(low, high))
            z = d.preprocess_variate(key, a['x'])
            y = d.postprocess_variate(key, a['z'], batch_mode=True)
            return dict(z=z, y=y, back=d.postprocess_variate(key, z, batch_mode=True), fwd=d.preprocess_variate(key, y))

        def post(o, ar):
            a = ar[0]
            r = []
            for k, i in enumerate(onp.ndindex(*shape)):
                l, h = alg.ex(float(low.ravel()[k])), alg.ex(float(high.ravel()[k]))
                x, z = a['x'][(0,) + i], a['z'][(0,) + i]
                u = (x - l) / (h - l)
                J = (0,) + i
                r += [('preprocess%s == logit of the rescaled value' % (i,), o['z'][J], alg.flog(u) - alg.flog(1 - u)),
                      ('postprocess%s == low + (high-low)*sigmoid' % (i,), o['y'][J], l + (h - l) / (1 + alg.fexp(-z))),
                      ('postprocess(preprocess(x))%s == x' % (i,), o['back'][J], x),
                      ('preprocess(postprocess(z))%s == z' % (i,), o['fwd'][J], z)]
            return r
        a = dict(x=SymArg('x', (B,) + shape), z=SymArg('z', (B,) + shape, lo=-7, hi=7))
        hyps = []
        for k, i in enumerate(onp.ndindex(*shape)):
            x = a['x'].arr[(0,) + i]
            l, h = float(low.ravel()[k]), float(high.ravel()[k])
            m = (h - l) / 64
            hyps += [(alg.ex(l + m) - x, '<='), (x - alg.ex(h - m), '<=')]
            z = a['z'].arr[(0,) + i]
            lgt = alg.flog(x - alg.ex(l)) - alg.flog(alg.ex(h) - x)
            # the same domain, said in terms of the logarithms / exponentials that occur
            hyps += [(lgt - 6, '<='), (-6 - lgt, '<='), (alg.fexp(z) - 1200, '<='), (alg.fexp(-z) - 1200, '<=')]

        def gen(env, rnd):
            for row in env['#rows']:
                for k, i in enumerate(onp.ndindex(*shape)):
                    l, h = float(low.ravel()[k]), float(high.ravel()[k])
                    row['x[%s]' % ', '.join(map(str, (0,) + i))] = float(onp.float32(rnd.uniform(l + (h - l) / 50, h - (h - l) / 50)))
        jax_contract(ck, 'NormalDist box transform/%s..%s' % (low.tolist(), high.tolist()), fun, (a, jax.random.PRNGKey(0)), post, hyps,
                     gen_env=gen, funcs=['coax.proba_dists.NormalDist.preprocess_variate', 'coax.proba_dists.NormalDist.postprocess_variate'])
    return ('box-%s' % low.tolist(), job)


def range_job(ck):
    """bounded: every variate handed to the environment lies in the box, for extreme parameters too"""
    def case(c):
        cls, low, high, seed = c
        rnd = onp.random.RandomState(seed)
        sp = Box(onp.asarray(low, 'float32'), onp.asarray(high, 'float32'))
        d = {'n': ND, 's': SQ, 'p': coax.proba_dists.ProbaDist}[cls](sp)
        mu = (rnd.randn(16, *sp.shape) * 10. ** rnd.randint(-2, 3)).astype('float32')
        lv = (rnd.randn(16, *sp.shape) * 10. ** rnd.randint(-2, 2)).astype('float32')
        mu[0], mu[1], lv[:2] = 50, -50, -5
        key = jax.random.PRNGKey(seed)
        P = {'mu': jnp.asarray(mu), 'logvar': jnp.asarray(lv)}
        for X in (d.sample(P, key), d.mean(P), d.mode(P)):
            Y = onp.asarray(d.postprocess_variate(key, X, batch_mode=True))
            if Y.shape != (16,) + sp.shape:
                return 'shape %s' % (Y.shape,)
            if not all(sp.contains(onp.asarray(y, sp.dtype)) for y in Y):
                return 'variate outside the box: min %s max %s' % (Y.min(0), Y.max(0))
            y0 = d.postprocess_variate(key, X, index=3)
            if not onp.allclose(y0, Y[3]) or onp.shape(y0) != sp.shape:
                return 'index selection differs'
        edge = onp.stack([sp.low, sp.high])
        for e in edge:
            b = onp.asarray(d.postprocess_variate(key, d.preprocess_variate(key, e)))
            if not onp.allclose(b, e, atol=1e-4 * (1 + onp.abs(sp.high - sp.low).max())):
                return 'boundary point %s maps to %s' % (e, b)
        lp = onp.asarray(d.log_proba(P, d.sample(P, key)))
        if lp.shape != (16,) or onp.isnan(lp).any():
            return 'log_proba of a sample: shape %s %s' % (lp.shape, lp)
    ck.concrete('variates stay in the box', case,
                [(c, l, h, s) for c in 'nsp' for l, h in (([-1.], [1.]), ([0., -3.], [2., 5.]), ([[-1., 2.], [3., 4.]], [[0., 3.], [8., 9.]])) for s in range(5)],
                bound='45 parameter batches')
    # boxes for which lo + (hi - lo) rounds to another number than hi
    odd = [([lo], [hi]) for lo, hi in [(ck.rnd.uniform(-5, 5), ck.rnd.uniform(5.1, 9)) for _ in range(12)] + [(-4.797816, -0.6179788), (-1.8201682, 0.30972046)]]
    ck.concrete('variates stay in the box, odd boxes', case, [(c, l, h, s) for c in 'ns' for l, h in odd for s in (11, 12)], bound='14 boxes')
    ck.fn('coax.proba_dists.SquashedNormalDist.postprocess_variate', how='bounded')


def common(ck):
    ck.trust('JAX tracing and its primitive semantics; z3', 'lib/symjax.py, lib/alg.py', 'the pseudo-random generator of jax.random')
    ck.assume('machine arithmetic treated as real arithmetic', 'boxes instantiated: [-1,1], [0,2]x[-3,5]; batch size symbolic',
              'variates away from the box boundary by 1/64 of its width (closer ones are clipped by design)')


def jobs():
    b1, b2 = ([-1.], [1.]), ([0., -3.], [2., 5.])
    return [sq_job(*b1), sq_job(*b2), logp_job(*b1), logp_job(*b2), box_job(*b1), box_job([-3.], [5.]), ('range', range_job), ('common', common)]
