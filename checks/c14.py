"""C14: value transforms are mutually inverse bijections, and values are reported in the original space."""
import coax
import numpy as onp
from coax.value_transforms import LogTransform, ValueTransform
from lib import alg
from lib.contract import jax_contract
from lib.nets import *   # noqa
from checks.c10 import logt, X


def lt_job(c):
    def job(ck):
        f, g = logt(alg.ex(c))

        def fun(x):
            t = LogTransform(c)
            F_, G_ = t
            return dict(f=t.transform_func(x), g=t.inverse_func(x), fg=t.transform_func(t.inverse_func(x)),
                        gf=t.inverse_func(t.transform_func(x)), gf2=G_(F_(x)))

        def post(o, ar):
            x = ar[0][0]
            return [('f(x) == sign(x)*c*log(1+|x|/c)', o['f'][0], f(x)), ('f_inv(x)', o['g'][0], g(x)),
                    ('f_inv(f(x)) == x', o['gf'][0], x), ('f(f_inv(x)) == x', o['fg'][0], x), ('unpacking', o['gf2'][0], x)]
        jax_contract(ck, 'LogTransform(%s)' % c, fun, (real('x', lo=-20, hi=20),), post,
                     funcs=['coax.value_transforms.LogTransform.transform_func', 'coax.value_transforms.LogTransform.inverse_func'])
    return ('log-%s' % c, job)


def mono_job(c):
    """strictly increasing, odd and contracting: order of values is preserved"""
    def job(ck):
        def fun(x, y):
            t = LogTransform(c)
            return dict(d=t.transform_func(x) - t.transform_func(y), o=t.transform_func(x) + t.transform_func(-x))

        def post(o, ar):
            x, y = ar[0][0], ar[1][0]
            return [('x < y implies f(x) < f(y)', alg.lt(o['d'][0], alg.ZERO), alg.ONE), ('f(-x) == -f(x)', o['o'][0], alg.ZERO)]
        x, y = real('x', lo=-20, hi=20), real('y', lo=-20, hi=20)
        jax_contract(ck, 'LogTransform(%s)/monotone' % c, fun, (x, y), post, [(x.arr[0] - y.arr[0] + alg.ex(0.125), '<')])
    return ('mono-%s' % c, job)


def report_job(kind):
    """V and Q report f_inv(network output)"""
    def job(ck):
        env = env_d()

        def case(c):
            seed, scale = c
            rnd = onp.random.RandomState(seed)
            vt = LogTransform(scale) if scale is not None else None
            s = onp.asarray(rnd.uniform(-8, 8, 1), 'float32')
            th, st = float(rnd.randn()), float(rnd.randn())
            if kind == 'v':
                f = coax.V(func_v(), env, value_transform=vt, random_seed=3)
                setp(f, jnp.float32(th), jnp.float32(st))
                out, k = [f(s)], [0]
                raw = [f.function(f.params, f.function_state, f.rng, s[None], False)[0][0]]
            else:
                f = coax.Q(func_q1() if kind == 'q1' else func_q2(), env, value_transform=vt, random_seed=3)
                setp(f, jnp.float32(th), jnp.float32(st))
                out = list(f(s)) + [f(s, a) for a in range(NA)]
                raw = list(f.function_type2(f.params, f.function_state, f.rng, s[None], False)[0][0])
                raw = raw + raw
            for o, r in zip(out, raw):
                e = float(r) if scale is None else float(onp.sign(r) * scale * (onp.exp(abs(float(r)) / scale) - 1))
                if not onp.allclose(o, e, rtol=2e-3, atol=1e-4):
                    return 'reported %r, expected %r' % (float(o), e)
        ck.concrete('report/%s' % kind, case, [(i, s) for i in range(6) for s in (None, 1.0, 7.0)], bound='18 random inputs')
        ck.fn('coax.V.__call__' if kind == 'v' else 'coax.Q.__call__', how='bounded')
    return ('report-' + kind, job)


def common(ck):
    ck.trust('JAX tracing and its primitive semantics (jax.make_jaxpr); z3', 'lib/symjax.py, lib/alg.py')
    ck.assume('machine arithmetic treated as real arithmetic', 'scales instantiated: 1/2, 1, 7, 100')


def jobs():
    return [lt_job(c) for c in (0.5, 1.0, 7.0, 100.0)] + [mono_job(c) for c in (1.0, 7.0)] + [report_job(k) for k in ('v', 'q1', 'q2')] + [('common', common)]
