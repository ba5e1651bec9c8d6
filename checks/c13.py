"""C13: value losses."""
import coax
from coax.value_losses import mse, huber, logloss, logloss_sign
from coax.value_losses._losses import quantile_huber
from lib import alg
from lib.contract import jax_contract
from lib.nets import *   # noqa
from lib.symjax import SymArg, B


def hub(e, d):
    a = abs(e)
    return alg.ite(alg.lt(d, a), d * (a - d / 2), e * e / 2)


def loss_job(name, weighted, cols=None, delta=None, nth=None):
    def job(ck):
        shp = (B,) if cols is None else (B, cols)
        kw = dict(lo=0.05, hi=0.95) if name == 'logloss' else {}
        args = dict(y=SymArg('y', shp, **(dict(lo=0, hi=1) if name == 'logloss' else {})), x=SymArg('x', shp, **kw))
        if weighted:
            args['w'] = real('w', lo=0, hi=50)
        if delta:
            args['d'] = scal('d', lo=0.01, hi=50)

        def fun(a):
            f = getattr(coax.value_losses, name)
            k = {'delta': a['d']} if delta else {}
            return f(a['y'], a['x'], a['w'], **k) if weighted else f(a['y'], a['x'], **k)

        def post(out, ar):
            a = ar[0]
            tot = []
            for j in range(cols or 1):
                y, x = (a['y'][0], a['x'][0]) if cols is None else (a['y'][0, j], a['x'][0, j])
                if name == 'mse':
                    l = (x - y) * (x - y) / 2
                elif name == 'huber':
                    l = hub(x - y, a['d'][()] if delta else alg.ONE)
                elif name == 'logloss':
                    l = -y * alg.flog(x) - (1 - y) * alg.flog(1 - x)
                else:
                    l = alg.flog(1 + alg.fexp(-y * x))
                tot.append(l)
            l = sum(tot, alg.ZERO) / len(tot)
            if weighted:
                l = a['w'][0] * l
            return [('== mean of the documented per-sample loss', out[()], bmean(l))]
        jax_contract(ck, '%s%s%s%s' % (name, '/weighted' if weighted else '', '/2d' if cols else '', '/delta' if delta else ''), fun, (args,), post,
                     funcs=['coax.value_losses.%s' % name])
    return ('%s-%s-%s-%s' % (name, weighted, cols, delta), job)


def q_job(weighted, nq=1, nt=2, delta=False):
    def job(ck):
        args = dict(y=SymArg('y', (B, nt)), x=SymArg('x', (B, nq)), t=SymArg('t', (B, nq), lo=0, hi=1))
        if weighted:
            args['w'] = real('w', lo=0, hi=50)
        if delta:
            args['d'] = scal('d', lo=0.01, hi=50)

        def fun(a):
            return quantile_huber(a['y'], a['x'], a['t'], a.get('w'), **({'delta': a['d']} if delta else {}))

        def post(out, ar):
            a = ar[0]
            d = a['d'][()] if delta else alg.ONE
            l = alg.ZERO
            for i in range(nq):
                for j in range(nt):
                    e = a['y'][0, j] - a['x'][0, i]
                    l = l + abs(a['t'][0, i] - alg.lt(e, alg.ZERO)) * hub(e, d) / d
            l = l / nq
            if weighted:
                l = a['w'][0] * l
            return [('== mean over predicted quantiles of sum over targets', out[()], bmean(l))]
        jax_contract(ck, 'quantile_huber/%dx%d%s%s' % (nq, nt, '/weighted' if weighted else '', '/delta' if delta else ''), fun, (args,), post,
                     funcs=['coax.value_losses.quantile_huber'], max_paths=8000, deadline_s=150)
    return ('quantile-%s-%s-%s-%s' % (weighted, nq, nt, delta), job)


def grad_job(name):
    """the negative gradient with respect to the prediction, per sample (what every updater uses as TD error)"""
    def job(ck):
        args = dict(y=real('y'), x=real('x'), w=real('w', lo=0, hi=50))

        def fun(a):
            f = getattr(coax.value_losses, name)
            return jax.grad(f, argnums=1)(a['y'], a['x'], a['w'])

        def post(out, ar):
            y, x, w = (ar[0][k][0] for k in 'yxw')
            e = x - y
            g = e if name == 'mse' else clip(e, -1, 1)
            return [('gradient', out[0], w * g / alg.BATCH)]
        hyps = []
        if name == 'huber':
            e = args['x'].arr[0] - args['y'].arr[0]
            hyps = [(e - 1, '!='), (e + 1, '!=')]
        jax_contract(ck, 'grad %s' % name, fun, (args,), post, hyps)
    return ('grad-' + name, job)


def common(ck):
    ck.trust('JAX tracing and its primitive semantics (jax.make_jaxpr); z3', 'lib/symjax.py, lib/alg.py')
    ck.assume('machine arithmetic treated as real arithmetic', 'batch size symbolic; trailing sizes instantiated (1 and 2 columns, up to 2x2 quantiles)')


def jobs():
    js = []
    for n in ('mse', 'huber', 'logloss', 'logloss_sign'):
        for w in (False, True):
            js.append(loss_job(n, w))
        js.append(loss_job(n, True, cols=2))
    js += [loss_job('huber', False, delta=True), loss_job('huber', True, delta=True)]
    js += [q_job(False), q_job(True), q_job(True, delta=True), q_job(False, 2, 1), q_job(True, 2, 2), grad_job('mse'), grad_job('huber'), ('common', common)]
    return js
