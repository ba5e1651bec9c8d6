"""C29: dynamics-model updates."""
import numpy as onp
import optax
import coax
from lib import alg
from lib.contract import jax_contract
from lib.nets import *   # noqa
from checks.c10 import tb, vec, X, logt, ident
from checks.c12 import rowloss, L, dL
from checks.c16 import LOG2PI
from checks.c22 import func_p1, func_p2

MU = coax.model_updaters.ModelUpdater


def no_any():
    import coax.model_updaters._model_updater as m
    return stubbed(m, any=lambda it: False)


def flatobs(rng, s):
    return jnp.reshape(jnp.asarray(s), (-1, 1))


def upd_job(model, kind, vt=None, reg=None, via='update', n=3):
    def job(ck):
        args = dict(th=scal('th'), st=scal('st'), m=scal('m'), S=obs('S'), A=act_d('A', n), Sn=obs('Sn'), R=real('R'), W=real('W', lo=0.01, hi=20))
        if reg:
            args['beta'] = scal('beta', lo=0, hi=3)
        stoch = model == 'sp'
        f = ident[0] if vt is None else logt(alg.ex(vt))[0]

        def make():
            e = env_d(n)
            if model == 'r':
                return coax.RewardFunction(func_q1('r') if kind == 1 else func_q2('r', n), e, random_seed=1,
                                           value_transform=None if vt is None else coax.value_transforms.LogTransform(vt))
            if model == 'p':
                return coax.TransitionModel(func_p1() if kind == 1 else func_p2(n=n), e, observation_preprocessor=flatobs, random_seed=1)
            return coax.StochasticTransitionModel(func_sp1() if kind == 1 else func_sp2(n=n), e, observation_preprocessor=flatobs, random_seed=1)

        def fun(a):
            a = X(a)
            m = make()
            kw = {}
            if reg:
                kw['regularizer'] = coax.regularizers.EntropyRegularizer(m, beta=a.beta)
            u = MU(m, optimizer=probe_optimizer(), loss_function=rowloss, **kw)
            setp(m, a.th, a.st)
            probe_set(u, a.m)
            b = tb(a.S, a.A, a.Sn, a.A, a.R, a.R * 0, a.W)
            with no_any():
                if via == 'update':
                    mt = u.update(b)
                else:
                    g, fs, mt = u.grads_and_metrics(b)
                    u.apply_grads(g, fs)
            one = lambda t: jax.tree_util.tree_leaves(t)[0]   # noqa
            return dict(th=one(m.params), st=one(m.function_state), m=one(u.optimizer_state), loss=mt['ModelUpdater/loss'])

        def post(o, ar):
            a = X(vec(ar[0]))
            w = clip(a.W, alg.ex(0.1), 10)
            oh = onehot(a.A, n)

            def net(j, wd, fn):
                nm = model
                if kind == 1:
                    return fn(nm, j, a.th, a.st, 1, a.S, *oh)
                return sum((oh[k] * fn(nm, k * wd + j, a.th, a.st, 1, a.S) for k in range(n)), alg.ZERO)
            y = f(a.R) if model == 'r' else a.Sn
            if stoch:
                mu, lv, dm, dl = net(0, 2, F), net(1, 2, F), net(0, 2, DF), net(1, 2, DF)
                eps = alg.var('normal0[0, 0]', row=True)
                pred = mu + alg.fexp(lv / 2) * eps
                dp = dm + alg.fexp(lv / 2) * eps / 2 * dl
            else:
                pred, dp = net(0, 1, F), net(0, 1, DF)
            loss, g = bmean(w * L(y, pred)), bmean(w * dL(y, pred) * dp)
            if reg:
                loss = loss - bmean(w * a.beta * (LOG2PI + lv + 1) / 2)
                g = g - bmean(w * a.beta * dl / 2)
            return [('loss metric', o['loss'][()], loss), ('parameters == one optimizer step', o['th'][()], probe_step(g, a.m, a.th)[0]), ('optimizer state == that step\'s', o['m'][()], probe_step(g, a.m, a.th)[1]),
                    ('function state from the training-mode evaluation', o['st'][()], alg.ex(0.5) * a.st + 1)]
        hyps = []
        if stoch:
            a = X(vec({k: v.arr for k, v in args.items()}))
            for k in range(n):
                lv = F(model, 1, a.th, a.st, 1, a.S, *[alg.ex(int(i == k)) for i in range(n)]) if kind == 1 else F(model, 2 * k + 1, a.th, a.st, 1, a.S)
                hyps += [(lv - 19, '<'), (-19 - lv, '<')]
        jax_contract(ck, 'ModelUpdater/%s/type%d%s%s/%s' % ({'r': 'reward', 'p': 'transition', 'sp': 'stochastic transition'}[model], kind, '/transformed' if vt else '',
                                                            '/regularized' if reg else '', via), fun, (args,), post, hyps, deadline_s=120,
                     funcs=['coax.model_updaters.ModelUpdater.update', 'coax.model_updaters.ModelUpdater.grads_and_metrics', 'coax.model_updaters.ModelUpdater.apply_grads'])
    return ('%s-%d-%s-%s-%s' % (model, kind, vt, reg, via), job)


def tree_job(kind, ob, n=2):
    """transition models over vectors, matrices and dicts of observations; the loss sees all components"""
    from checks.c23 import sargs, getS, rowS, template, width, make as make_
    from checks.c30 import asis

    def job(ck):
        args = dict(th=scal('th'), st=scal('st'), m=scal('m'), A=act_d('A', n), R=real('R'), W=real('W', lo=0.01, hi=20), **sargs(ob), **sargs(ob, 'Sn'))
        wd = width(template('TransitionModel', ob))

        def loss(y_true, y_pred, w=None):
            l = rowfn('L', 1, *jax.tree_util.tree_leaves(y_true), *jax.tree_util.tree_leaves(y_pred))[:, 0]
            return jnp.mean(l if w is None else w * l)

        def fun(a):
            S, Sn, a = getS(a, ob), getS(a, ob, 'Sn'), X(a)
            m = make_('TransitionModel', kind, n, ob, observation_preprocessor=asis(ob))
            u = MU(m, optimizer=probe_optimizer(), loss_function=loss)
            setp(m, a.th, a.st)
            probe_set(u, a.m)
            with no_any():
                mt = u.update(tb(S, a.A, Sn, a.A, a.R, a.R * 0, a.W))
            one = lambda t: jax.tree_util.tree_leaves(t)[0]   # noqa
            return dict(th=one(m.params), st=one(m.function_state), m=one(u.optimizer_state), loss=mt['ModelUpdater/loss'])

        def post(o, ar):
            a, S, Sn = X(vec(ar[0])), rowS(ar[0], ob), rowS(ar[0], ob, 'Sn')
            w, oh = clip(a.W, alg.ex(0.1), 10), onehot(a.A, n)

            def net(j, fn):
                if kind == 1:
                    return fn('p', j, a.th, a.st, 1, *S, *oh)
                return sum((oh[k] * fn('p', k * wd + j, a.th, a.st, 1, *S) for k in range(n)), alg.ZERO)
            pred = [net(j, F) for j in range(wd)]
            g = sum((alg.fn("L.0'%d" % (wd + j), *Sn, *pred) * net(j, DF) for j in range(wd)), alg.ZERO)
            return [('loss metric', o['loss'][()], bmean(w * alg.fn('L.0', *Sn, *pred))), ('parameters == one optimizer step', o['th'][()], probe_step(bmean(w * g), a.m, a.th)[0]), ('optimizer state == that step\'s', o['m'][()], probe_step(bmean(w * g), a.m, a.th)[1]),
                    ('function state from the training-mode evaluation', o['st'][()], alg.ex(0.5) * a.st + 1)]
        jax_contract(ck, 'ModelUpdater/transition/obs %s/type%d' % (ob, kind), fun, (args,), post, deadline_s=120, funcs=['coax.model_updaters.ModelUpdater.update'])
    return ('tree-%s-%d' % (ob, kind), job)


def guard_job(ck):
    def lin(S, is_training):
        return S @ hk.get_parameter('w', (1, NA), init=hk.initializers.RandomNormal())

    def case(where):
        m = coax.RewardFunction(lin, env_d(), random_seed=1)
        u = MU(m, optimizer=optax.adam(.1))
        S = onp.linspace(-1, 1, 4, dtype='float32')[:, None]
        A, R = onp.array([0, 1, 2, 0]), onp.ones(4, 'float32')
        if where is not None:
            S[where] = onp.nan
        b = coax.reward_tracing.TransitionBatch(S=S, A=A, logP=onp.zeros(4), Rn=R, In=onp.zeros(4), S_next=S, A_next=A, logP_next=onp.zeros(4), W=onp.ones(4))
        snap = [onp.array(x) for x in jax.tree_util.tree_leaves((m.params, m.function_state, u.optimizer_state))]
        try:
            u.update(b)
            raised = False
        except RuntimeError:
            raised = True
        same = all(onp.array_equal(x, y) for x, y in zip(snap, jax.tree_util.tree_leaves((m.params, m.function_state, u.optimizer_state))))
        if where is None and (raised or same):
            return 'ordinary update raised or changed nothing'
        if where is not None and (not raised or not same):
            return 'NaN gradients did not raise, or had an effect'
    ck.concrete('NaN guard', case, [None, 0, 3], bound='3 placements')


def attr_job(ck):
    """documented defaults; optimizer and optimizer_state attributes"""
    S = onp.linspace(-1, 1, 4, dtype='float32')[:, None]
    A, R = onp.array([0, 1, 2, 0]), onp.array([1., -2., .5, 3.], 'float32')
    b = coax.reward_tracing.TransitionBatch(S=S, A=A, logP=onp.zeros(4), Rn=R, In=onp.zeros(4), S_next=S + .5, A_next=A, logP_next=onp.zeros(4), W=onp.ones(4))

    def case(kind):
        def make(**kw):
            if kind == 'r':
                m = coax.RewardFunction(lambda S, is_training: S @ hk.get_parameter('w', (1, NA), init=hk.initializers.RandomNormal()), env_d(), random_seed=1)
            else:
                m = coax.TransitionModel(lambda S, is_training: jnp.reshape(S @ hk.get_parameter('w', (1, NA), init=hk.initializers.RandomNormal()), (-1, NA, 1)), env_d(), random_seed=1)
            return MU(m, **kw), m
        return optimizer_case(make, lambda u: u.update(b), lambda u: u.grads_and_metrics(b)[0], dict(optimizer=optax.adam(1e-3), loss_function=coax.value_losses.huber))
    ck.concrete('documented defaults, optimizer and optimizer_state', case, ['r', 'p'], bound='2 models, one batch, two updates')


def common(ck):
    ck.trust('JAX tracing, autodiff and primitive semantics; z3', 'lib/symjax.py, lib/alg.py')
    ck.assume('the optimizer is a fixed linear function of (gradient, state, parameters); other optimizers are optax code (assumed)')
    ck.assume('machine arithmetic treated as real arithmetic', 'models are arbitrary row-wise functions; loss is an arbitrary row-wise loss', 'log-variances inside the clipping range',
              'number of actions instantiated at 3; the NaN test is assumed false while tracing and exercised on concrete batches')


def jobs():
    return [upd_job('r', 1), upd_job('r', 2), upd_job('r', 1, vt=2.), upd_job('r', 2, via='apply'), upd_job('p', 1), upd_job('p', 2), upd_job('sp', 1), upd_job('sp', 2, n=2),
            upd_job('sp', 1, reg=.25, n=2),
            tree_job(1, '2'), tree_job(2, '2'), tree_job(1, 'dict'), tree_job(2, 'dict'), tree_job(2, '2x2'), ('guard', guard_job), ('attr', attr_job), ('common', common)]
