"""C18: discretized value distributions: atoms, projection, conversions."""
import coax
import numpy as onp
from gymnasium.spaces import Box
from lib import alg
from lib.contract import jax_contract
from lib.nets import *   # noqa
from lib.symjax import SymArg, B
from checks.c15 import logp, dot

DI = coax.proba_dists.DiscretizedIntervalDist


def atoms(lo, hi, k):
    d = alg.ex(hi - lo) / k
    return [alg.ex(lo) + (alg.ex(j) + alg.ex(0.5)) * d for j in range(k)], d


def kernel(p, R, I, z, d):
    tz = [clip(R + I * zj, z[0], z[-1]) for zj in z]
    return [sum((pj * alg.maximum(alg.ZERO, 1 - abs(t - zi) / d) for pj, t in zip(p, tz)), alg.ZERO) for zi in z], tz


def proj_job(k, lo, hi, scale='row', top=None):
    def job(ck):
        z, d = atoms(lo, hi, k)
        a = dict(l=SymArg('l', (B, k), lo=-9, hi=9), R=SymArg('R', (B,) if scale == 'row' else ()), I=SymArg('I', (B,) if scale == 'row' else ()))

        def fun(a):
            D = DI(Box(lo, hi, ()), num_bins=k)
            out = D.affine_transform({'logits': a['l']}, a['I'], a['R'])
            return out['logits']

        def post(o, ar):
            a = ar[0]
            R, I = (a['R'][0], a['I'][0]) if scale == 'row' else (a['R'][()], a['I'][()])
            p = softmax(list(a['l'][0]))
            m, tz = kernel(p, R, I, z, d)
            r = []
            e = [alg.fexp(o[0, i]) for i in range(k)]
            for i in range(k):
                r.append(('mass %d == share of every shifted, scaled and clipped atom' % i, e[i], alg.maximum(m[i], alg.ex(1e-16))))
            return r
        hyps = [] if top is None else [(a['l'].arr[0, j] - a['l'].arr[0, top], '<=' if j > top else '<') for j in range(k) if j != top]
        jax_contract(ck, 'affine_transform/%d bins/%s%s' % (k, scale, '' if top is None else '/largest logit %d' % top), fun, (a,), post, hyps, deadline_s=300, max_paths=20000, timeout_ms=4000,
                     funcs=['coax.proba_dists.DiscretizedIntervalDist.affine_transform'])
    return ('proj-%d-%s-%s' % (k, scale, top), job)


def lemma_job(k):
    """consequences of the projection contract: total mass 1; the mean is that of the clipped target atoms"""
    def job(ck):
        lo, hi = -3, 3
        z, d = atoms(lo, hi, k)
        a = dict(p=SymArg('p', (B, k), lo=0, hi=1), R=real('R'), I=real('I'))

        def fun(a):
            return a['R'] * 0

        def post(o, ar):
            a = ar[0]
            p = list(a['p'][0])
            m, tz = kernel(p, a['R'][0], a['I'][0], z, d)
            return [('lemma: total mass is preserved', sum(m, alg.ZERO), sum(p, alg.ZERO)),
                    ('lemma: mean == mean of the clipped atoms', dot(m, z), dot(p, tz))]
        jax_contract(ck, 'projection lemmas/%d bins' % k, fun, (a,), post, deadline_s=120, max_paths=20000, ntests=2)
    return ('lemma-%d' % k, job)


def fn_job(k, lo, hi):
    def job(ck):
        z, d = atoms(lo, hi, k)

        def fun(p, q, x):
            D = DI(Box(lo, hi, ()), num_bins=k)
            P, Q = {'logits': p}, {'logits': q}
            return dict(atoms=D.atoms, mean=D.postprocess_variate(jax.random.PRNGKey(0), D.mean(P), batch_mode=True),
                        ce=D.cross_entropy(P, Q), kl=D.kl_divergence(P, Q), H=D.entropy(P), x=D.postprocess_variate(jax.random.PRNGKey(0), x, batch_mode=True))

        def post(o, ar):
            p, q, x = (list(v[0]) for v in ar)
            P, lp, lq = softmax(p), logp(p), logp(q)
            r = [('mean == sum p*atom', o['mean'][0], dot(P, z)), ('cross entropy', o['ce'][0], -dot(P, lq)),
                 ('kl', o['kl'][0], dot(P, [b - c for b, c in zip(lp, lq)])), ('entropy', o['H'][0], -dot(P, lp)),
                 ('value of a variate', o['x'][0], dot(x, z))]
            r += [('atom %d is the bin centre' % i, o['atoms'][i], z[i]) for i in range(k)]
            return r
        mk = lambda n: SymArg(n, (B, k), lo=-9, hi=9)    # noqa
        jax_contract(ck, 'DiscretizedInterval/%d bins %s..%s' % (k, lo, hi), fun, (mk('p'), mk('q'), mk('x')), post,
                     funcs=['coax.proba_dists.DiscretizedIntervalDist.' + m for m in ('atoms', 'postprocess_variate', 'mean', 'cross_entropy', 'kl_divergence')])
    return ('fn-%d' % k, job)


def conv_job(k, lo, hi):
    """scalars to bins and back; the relaxed variates use the distribution's own temperature"""
    def job(ck):
        z, d = atoms(lo, hi, k)
        t = alg.ex(0.5)

        def fun(x, p, key):
            D = DI(Box(lo, hi, ()), num_bins=k, gumbel_softmax_tau=0.5)
            oh = D.preprocess_variate(key, x)
            return dict(oh=oh, back=D.postprocess_variate(key, oh, batch_mode=True), again=D.preprocess_variate(key, D.postprocess_variate(key, oh, batch_mode=True)),
                        mode=D.mode({'logits': p}), sample=D.sample({'logits': p}, key), lp=D.log_proba({'logits': p}, oh))

        def post(o, ar):
            x, p = ar[0][0], list(ar[1][0])
            ind = []
            for i in range(k):
                l = alg.ZERO if i == 0 else alg.lt(x, alg.ex(lo) + alg.ex(i) * d)
                h = alg.ONE if i == k - 1 else alg.lt(x, alg.ex(lo) + alg.ex(i + 1) * d)
                ind.append((1 - l) * h)
            lp = logp(p)
            g = [-alg.flog(-alg.flog(alg.var('u0[0, %d]' % j, row=True))) for j in range(k)]
            sm, md = softmax([(a + b) / t for a, b in zip(g, lp)]), softmax([b / t for b in lp])
            r = [('value of the bin of x == its centre', o['back'][0], dot(ind, z)), ('log-probability of a scalar == that of its bin', o['lp'][0], dot(ind, lp))]
            for i in range(k):
                r += [('bin %d holds exactly the scalars of its interval' % i, o['oh'][0, i], ind[i]), ('the centre of bin %d lies in it' % i, o['again'][0, i], ind[i]),
                      ('mode[%d] == softmax(logp/tau)' % i, o['mode'][0, i], md[i]), ('sample[%d] == gumbel-softmax' % i, o['sample'][0, i], sm[i])]
            return r
        jax_contract(ck, 'conversions/%d bins %s..%s' % (k, lo, hi), fun, (SymArg('x', (B,), lo=lo, hi=hi), SymArg('p', (B, k), lo=-9, hi=9), jax.random.PRNGKey(3)), post,
                     funcs=['coax.proba_dists.DiscretizedIntervalDist.' + m for m in ('preprocess_variate', 'postprocess_variate', 'sample', 'mode', 'log_proba')])

        def case(c):
            x, batch = c
            D, key = DI(Box(lo, hi, ()), num_bins=k), jax.random.PRNGKey(0)
            n = 3
            X = onp.full(n, x, 'float32') if batch else x
            oh = onp.asarray(D.preprocess_variate(key, X))
            w = (hi - lo) / k
            i = min(k - 1, int((x - lo) // w))
            if oh.shape != (n if batch else 1, k) or not onp.allclose(oh, onp.eye(k)[i]):
                return 'preprocess_variate(%r) == %s, expected bin %d' % (X, oh, i)
            for j in range(len(oh)):
                y = D.postprocess_variate(key, jnp.asarray(oh), index=j)
                if onp.ndim(y) or abs(y - x) > w / 2 + 1e-5:
                    return 'postprocess(preprocess(%s)) == %s' % (x, y)
        ck.concrete('conversions/%d bins %s..%s/single and batch' % (k, lo, hi), case, [(x, b) for x in (float(lo), lo + .3, (lo + hi) / 2 + .1, float(hi), hi - 1) for b in (False, True)], bound='10 scalars')
    return ('conv-%d' % k, job)


def conc_job(ck):
    """bounded: realistic bin counts, transforms, interval edges, against a direct computation in float64"""
    def case(c):
        k, lo, hi, seed, vt = c
        rnd = onp.random.RandomState(seed)
        D = DI(Box(lo, hi, ()), num_bins=k)
        z = lo + (onp.arange(k) + .5) * (hi - lo) / k
        n = 5
        l = (rnd.randn(n, k) * 2).astype('float32')
        I = onp.array([0., .9, 1., .5, rnd.rand()], 'float32')
        R = onp.array([0., rnd.randn(), 3 * hi, 3 * lo, rnd.randn() * (hi - lo)], 'float32')
        f, g = (lambda x: x), (lambda x: x)
        t = None
        if vt:
            f, g = (lambda x: onp.sign(x) * onp.log1p(abs(x))), (lambda x: onp.sign(x) * onp.expm1(abs(x)))
            t = coax.value_transforms.LogTransform(1.0)
        out = onp.asarray(D.affine_transform({'logits': jnp.asarray(l)}, jnp.asarray(I), jnp.asarray(R), t)['logits'], 'float64')
        p = onp.exp(l.astype('float64') - l.max(1, keepdims=True))
        p /= p.sum(1, keepdims=True)
        tz = onp.clip(f(R[:, None] + I[:, None] * g(z)[None]), z[0], z[-1])
        m = (p[:, :, None] * onp.maximum(0, 1 - abs(tz[:, :, None] - z) / (z[1] - z[0]))).sum(1)
        if not onp.allclose(onp.exp(out), m, atol=5e-4 * max(1, k / 20)):
            return 'projected masses differ by %g' % abs(onp.exp(out) - m).max()
        if abs(onp.exp(out).sum(1) - 1).max() > 1e-3:
            return 'masses do not sum to one'
    ck.concrete('projection, realistic sizes', case,
                [(k, lo, hi, s, v) for k, lo, hi in ((51, -10., 10.), (20, 0., 5.), (7, -3., 4.)) for s in range(4) for v in (False, True)], bound='24 batches')


def common(ck):
    ck.trust('JAX tracing and its primitive semantics; z3', 'lib/symjax.py, lib/alg.py')
    ck.assume('machine arithmetic treated as real arithmetic', 'number of bins instantiated (2, 3); batch size symbolic; larger bin counts bounded',
              'masses are clamped at 1e-16 before the logarithm')


def jobs():
    return [proj_job(3, -3, 3, top=0), proj_job(3, -3, 3, top=1), proj_job(3, -3, 3, top=2), proj_job(2, -1, 1), proj_job(2, -1, 1, 'scalar'), lemma_job(2), lemma_job(3), fn_job(3, -3, 3), fn_job(4, 0, 2), conv_job(3, -3, 3), conv_job(4, 0, 2),
            ('concrete', conc_job), ('common', common)]
