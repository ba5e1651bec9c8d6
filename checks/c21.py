"""C21: policy regularizers."""
import numpy as onp
import coax
from lib import alg
from lib.contract import jax_contract
from lib.nets import *   # noqa
from lib.symjax import SymArg, B
from checks.c10 import tb, vec, X
from checks.c15 import logp, dot
from checks.c16 import LOG2PI

RG = coax.regularizers
KEY = jax.random.PRNGKey(3)


def func_pic_nt(name='pi'):
    """normal policy, the same in training and inference mode"""
    def func(S, is_training):
        th = hk.get_parameter('th', (), init=jnp.zeros)
        st = hk.get_state('st', (), init=jnp.zeros)
        r = rowfn(name, 2, th, st, S)
        return {'mu': r[:, :1], 'logvar': r[:, 1:]}
    return func


def mk(kind, n):
    if kind == 'disc':
        return coax.Policy(func_pid(n=n), env_d(n), random_seed=1)
    if kind == 'cont':
        return coax.Policy(func_pic(), env_c(), random_seed=1)
    if kind == 'type1':
        return coax.StochasticQ(func_sq1(bins=2), env_d(n), value_range=(-1, 1), num_bins=2, random_seed=1)


def entropy_kl(kind, n, a, prior=None):
    """entropy of the distribution in the generic row, KL divergence from the prior"""
    if kind == 'cont':
        lv = clip(F('pi', 1, a.th, a.st, 0, a.S), alg.ex(-20), alg.ex(20))
        mu = F('pi', 0, a.th, a.st, 0, a.S)
        m2, l2 = prior or (alg.ZERO, alg.ZERO)
        return (LOG2PI + lv + 1) / 2, (l2 - lv + (alg.fexp(lv) + (mu - m2) * (mu - m2)) * alg.fexp(-l2) - 1) / 2
    if kind == 'disc':
        lg = [F('pi', k, a.th, a.st, 0, a.S) for k in range(n)]
    else:
        lg = [F('sq', k, a.th, a.st, 0, a.S, *onehot(a.A, n)) for k in range(2)]
    p, lp = softmax(lg), logp(lg)
    pr = logp(prior) if prior else [-alg.flog(alg.ex(len(lg)))] * len(lg)
    return -dot(p, lp), dot(p, [x - y for x, y in zip(lp, pr)])


def reg_job(which, kind, n=3, prior=False, retune=False):
    def job(ck):
        args = dict(th=scal('th'), st=scal('st'), S=obs('S'), A=act_c('A') if kind == 'cont' else act_d('A', n), beta=scal('beta', lo=0, hi=5), Z=real('Z'))
        if prior:
            m = 2 if kind in ('cont', 'type1') else n
            args['pr'] = SymArg('pr', (1, m), lo=-8, hi=8)

        def fun(a):
            a = X(a)
            f = mk(kind, n)
            b0 = 0.125 if retune else a.beta
            if which == 'ent':
                r = RG.EntropyRegularizer(f, beta=b0)
            else:
                kw = {}
                if prior:
                    kw['priors'] = {'mu': a.pr[:, :1], 'logvar': a.pr[:, 1:]} if kind == 'cont' else {'logits': a.pr}
                r = RG.KLDivRegularizer(f, beta=b0, **kw)
            if retune:
                r.beta = a.beta
            setp(f, a.th, a.st)
            b = tb(a.S, a.A, a.S, a.A, a.Z, a.Z)
            v, m = r.batch_eval(f.params, r.hyperparams, f.function_state, KEY, b)
            nm = r.__class__.__name__
            return dict(v=v, beta=m[nm + '/beta'], m=m[nm + ('/entropy' if which == 'ent' else '/kl_div')], st=jax.tree_util.tree_leaves(f.function_state)[0])

        def post(o, ar):
            ar = dict(ar[0])
            pr = ar.pop('pr', None)
            a = X(vec(ar))
            p = None if pr is None else list(pr[0])
            H, KL = entropy_kl(kind, n, a, p)
            x = H if which == 'ent' else KL
            return [('regularization term', o['v'][0], (-a.beta if which == 'ent' else a.beta) * x), ('beta metric', o['beta'][()], a.beta),
                    ('mean metric', o['m'][()], bmean(x)), ('function state untouched', o['st'][()], a.st)]
        jax_contract(ck, '%s/%s%s%s' % ('EntropyRegularizer' if which == 'ent' else 'KLDivRegularizer', kind, '/prior' if prior else '', '/retuned' if retune else ''),
                     fun, (args,), post, funcs=['coax.regularizers.%s' % ('EntropyRegularizer' if which == 'ent' else 'KLDivRegularizer'),
                                                'coax.regularizers.Regularizer.batch_eval'])
    return ('%s-%s-%s-%s' % (which, kind, prior, retune), job)


def nstep_job(ns, win, gamma, retune=False):
    """window of win+1 consecutive states; only states up to and including the one in which the episode ended count"""
    def job(ck):
        args = dict(th=scal('th'), st=scal('st'), beta=scal('beta', lo=0, hi=5), A=act_c('A'), Z=real('Z'))
        for k in range(win + 1):
            args['S%d' % k] = obs('S%d' % k)
            args['d%d' % k] = SymArg('d%d' % k, (B,), 'int32', lo=0, hi=1)

        def fun(a):
            a = X(a)
            f = coax.Policy(func_pic_nt(), env_c(), random_seed=1)
            r = RG.NStepEntropyRegularizer(f, n=ns, beta=0.125 if retune else a.beta, gamma=gamma)
            if retune:
                r.beta = a.beta
            setp(f, a.th, a.st)
            b = tb(a.S0, a.A, a.S0, a.A, a.Z, a.Z)
            b.extra_info = {'states': tuple(getattr(a, 'S%d' % k) for k in range(win + 1)),
                            'dones': tuple(getattr(a, 'd%d' % k) == 1 for k in range(win + 1))}
            v, m = r.batch_eval(f.params, r.hyperparams, f.function_state, KEY, b)
            return dict(v=v, beta=m['EntropyRegularizer/beta'])

        def post(o, ar):
            a = X(vec(ar[0]))
            tot = alg.ZERO
            alive = alg.ONE
            for k in range(win + 1):
                if k in ns:
                    lv = clip(alg.fn('pi.1', a.th, a.st, getattr(a, 'S%d' % k)), alg.ex(-20), alg.ex(20))
                    g = alg.ONE
                    for _ in range(k):
                        g = g * alg.ex(gamma)
                    tot = tot + g * alive * (LOG2PI + lv + 1) / 2
                alive = alive * (1 - getattr(a, 'd%d' % k))
            return [('n-step entropy bonus', o['v'][0], -a.beta * tot), ('beta metric', o['beta'][()], a.beta)]
        # the recorded flags never fall back to false after the end of the episode
        da = {k: args['d%d' % k].arr[0] for k in range(win + 1)}
        hyps = [(da[k] - da[k + 1], '<=') for k in range(win)]
        jax_contract(ck, 'NStepEntropyRegularizer/%s/%d' % (list(ns), win), fun, (args,), post, hyps, max_paths=6000, deadline_s=150,
                     funcs=['coax.regularizers.NStepEntropyRegularizer.batch_eval', 'coax.regularizers.NStepEntropyRegularizer.valid_from_done'])
    return ('nstep-%s-%d' % (ns, win), job)


def common(ck):
    ck.trust('JAX tracing and its primitive semantics; z3', 'lib/symjax.py, lib/alg.py')
    ck.assume('machine arithmetic treated as real arithmetic', 'function approximators are arbitrary row-wise functions',
              'window lengths instantiated up to 4 states; number of actions at 3')


def jobs():
    return [reg_job('ent', 'disc'), reg_job('ent', 'cont'), reg_job('ent', 'type1'), reg_job('ent', 'disc', retune=True), reg_job('kl', 'disc'),
            reg_job('kl', 'cont'), reg_job('kl', 'type1'), reg_job('kl', 'disc', prior=True), reg_job('kl', 'cont', prior=True), reg_job('kl', 'cont', retune=True),
            nstep_job((0, 1), 1, 0.5), nstep_job((0, 1, 2), 2, 0.75), nstep_job((0,), 1, 0.5), nstep_job((2, 3), 3, 0.5), nstep_job((0, 2), 2, 0.5),
            nstep_job((1,), 2, 0.5, True), nstep_job((2, 0), 2, 0.5), nstep_job((3, 1), 3, 0.75), ('common', common)]
