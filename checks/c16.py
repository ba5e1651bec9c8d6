"""C16: normal distribution (diagonal covariance)."""
import math
import coax
import numpy as onp
from gymnasium.spaces import Box
from lib import alg
from lib.contract import jax_contract
from lib.nets import *   # noqa
from lib.symjax import SymArg, B

ND = coax.proba_dists.NormalDist
LOG2PI = alg.ex(1.8378770664093453)


def args_(shape, lv=19):
    mk = lambda n, **k: SymArg(n, (B,) + shape, **k)    # noqa
    return dict(mu=mk('mu'), lv=mk('lv', lo=-lv, hi=lv), mu2=mk('mu2'), lv2=mk('lv2', lo=-lv, hi=lv), X=mk('X'))


def fl(a):
    return list(onp.asarray(a[0], dtype=object).ravel())


def S(xs):
    return sum(xs, alg.ZERO)


def fn_job(shape, which='leaf', clipv=None, wide=False):
    """wide: log-variances outside the clipping range are clipped"""
    def job(ck):
        lo, hi = (-20, 20) if clipv is None else clipv

        def dist():
            sp = Box(-1, 1, shape)
            if which != 'leaf':
                return coax.proba_dists.ProbaDist(sp)
            return ND(sp) if clipv is None else ND(sp, clip_logvar=tuple(map(float, clipv)))

        def fun(a, key):
            d = dist()
            p, q = {'mu': a['mu'], 'logvar': a['lv']}, {'mu': a['mu2'], 'logvar': a['lv2']}
            return dict(mean=d.mean(p), mode=d.mode(p), logp=d.log_proba(p, a['X']), H=d.entropy(p), ce=d.cross_entropy(p, q),
                        kl=d.kl_divergence(p, q), sample=d.sample(p, key))

        def post(o, ar):
            a = ar[0]
            mu, lv, mu2, lv2, x = (fl(a[k]) for k in ('mu', 'lv', 'mu2', 'lv2', 'X'))
            if wide or clipv:
                lv, lv2 = [[clip(v, alg.ex(lo), alg.ex(hi)) for v in t] for t in (lv, lv2)]
            n = len(mu)
            quad = [(alg.fexp(l1) + (m1 - m2) * (m1 - m2)) * alg.fexp(-l2) for m1, l1, m2, l2 in zip(mu, lv, mu2, lv2)]
            r = [('log_proba', o['logp'][0], -S([LOG2PI + l + (y - m) * (y - m) * alg.fexp(-l) for y, m, l in zip(x, mu, lv)]) / 2),
                 ('entropy', o['H'][0], S([LOG2PI + l + 1 for l in lv]) / 2),
                 ('cross_entropy', o['ce'][0], S([LOG2PI + l2 + q for l2, q in zip(lv2, quad)]) / 2),
                 ('kl_divergence', o['kl'][0], S([l2 - l1 + q - 1 for l1, l2, q in zip(lv, lv2, quad)]) / 2)]
            shp = o['sample'].shape[1:]
            for k, i in enumerate(onp.ndindex(*shp)):
                eps = alg.var('normal0[0, %d]' % k, row=True)
                r += [('mean%s == mu' % (i,), o['mean'][(0,) + i], mu[k]), ('mode%s == mu' % (i,), o['mode'][(0,) + i], mu[k]),
                      ('sample%s == mu + sigma*eps' % (i,), o['sample'][(0,) + i], mu[k] + alg.fexp(lv[k] / 2) * eps)]
            return r
        jax_contract(ck, 'Normal/%s/%s%s%s' % (which, shape, '/clip' if clipv else '', '/wide' if wide else ''), fun,
                     (args_(shape, 40 if wide else 19 if clipv is None else 9), jax.random.PRNGKey(3)), post,
                     funcs=['coax.proba_dists.NormalDist.' + m for m in ('sample', 'mean', 'mode', 'log_proba', 'entropy', 'cross_entropy', 'kl_divergence')],
                     deadline_s=120)
    return ('fn-%s-%s-%s-%s' % (shape, which, clipv, wide), job)


def affine_job(shape, rows):
    """scale*X + shift is normal with mean scale*mu + shift and variance scale^2*var"""
    def job(ck):
        a = dict(mu=SymArg('mu', (B,) + shape), lv=SymArg('lv', (B,) + shape, lo=-19, hi=19),
                 c=SymArg('c', (B,) + shape if rows else (), lo=0.125, hi=9), s=SymArg('s', (B,) + shape if rows else ()))

        def fun(a):
            d = ND(Box(-1, 1, shape))
            r = d.affine_transform({'mu': a['mu'], 'logvar': a['lv']}, a['c'], a['s'])
            return [r['mu'], r['logvar']]

        def post(o, ar):
            a = ar[0]
            r = []
            for i in onp.ndindex(*o[0].shape[1:]):
                c, s = (a['c'][(0,) + i], a['s'][(0,) + i]) if rows else (a['c'][()], a['s'][()])
                r += [('mean%s' % (i,), o[0][(0,) + i], c * a['mu'][(0,) + i] + s),
                      ('logvar%s' % (i,), o[1][(0,) + i], a['lv'][(0,) + i] + 2 * alg.flog(c))]
            return r
        jax_contract(ck, 'Normal/affine_transform/%s/%s' % (shape, 'rows' if rows else 'scalar'), fun, (a,), post,
                     funcs=['coax.proba_dists.NormalDist.affine_transform'])
    return ('affine-%s-%s' % (shape, rows), job)


def common(ck):
    ck.trust('JAX tracing and its primitive semantics; z3', 'lib/symjax.py, lib/alg.py', 'the pseudo-random generator of jax.random')
    ck.assume('machine arithmetic treated as real arithmetic', 'event shapes instantiated: (), (1,), (2,), (2, 2); batch size symbolic')


def jobs():
    return [fn_job((2,)), fn_job(()), fn_job((2, 2)), fn_job((2,), 'composite'), fn_job((1,), wide=True), fn_job((1,), clipv=(-2, 1)),
            affine_job((), True), affine_job((), False), affine_job((2,), False), ('common', common)]
