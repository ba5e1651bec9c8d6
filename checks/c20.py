"""C20: policy objectives: objective, gradient step, metrics, frame, NaN guard."""
import numpy as onp
import optax
import coax
from lib import alg
from lib.contract import jax_contract
from lib.nets import *   # noqa
from checks.c10 import tb, vec, X
from checks.c15 import logp, dot
from checks.c16 import LOG2PI

PO = coax.policy_objectives


def qfun(name):
    """type-1 q-function, the same in training and inference mode"""
    def func(S, A, is_training):
        th = hk.get_parameter('th', (), init=jnp.zeros)
        st = hk.get_state('st', (), init=jnp.zeros)
        return rowfn(name, 1, th, st, S, A)[:, 0]
    return func


def quiet(cls):
    """Python-level guards that inspect concrete values (NaN test, all-zero propensities) are taken to be false while tracing"""
    import coax.policy_objectives._base as m

    class CM:
        def __enter__(self):
            self.a = stubbed(m, any=lambda it: False)
            self.b = stubbed(cls, REQUIRES_PROPENSITIES=False)
            self.a.__enter__()
            self.b.__enter__()

        def __exit__(self, *e):
            self.b.__exit__()
            self.a.__exit__()
    return CM()


def run(a, cls, pi, obj, others, batch, adv, via):
    probe_set(obj, a.m)
    with quiet(cls):
        if via == 'update':
            m = obj.update(batch, adv) if adv is not None else obj.update(batch)
        else:
            g, fs, m = obj.grads_and_metrics(batch, adv) if adv is not None else obj.grads_and_metrics(batch)
            obj.apply_grads(g, fs)
    one = lambda t: jax.tree_util.tree_leaves(t)[0]     # noqa
    n = cls.__name__
    return dict(th=one(pi.params), st=one(pi.function_state), m=one(obj.optimizer_state), loss=m[n + '/loss'], bare=m[n + '/loss_bare'], kl=m[n + '/kl_div_old'],
                others={k: one(v()) for k, v in others.items()})


def pg_job(clsname, n=3, reg=None, via='update', own=False):
    """VanillaPG / PPOClip on a discrete action space"""
    def job(ck):
        cls = getattr(PO, clsname)
        ppo = clsname == 'PPOClip'
        args = dict(th=scal('th'), st=scal('st'), m=scal('m'), S=obs('S'), A=act_d('A', n), Adv=real('Adv'), W=real('W', lo=0.01, hi=20), lP=real('lP', lo=-9, hi=0))
        if ppo:
            args['eps'] = scal('eps', lo=0.01, hi=0.9)
        if reg is not None:
            args['beta'] = scal('beta', lo=0, hi=3)
        env = env_d(n)

        def fun(a):
            a = X(a)
            pi = coax.Policy(func_pid(n=n), env, random_seed=1)
            rg = None if reg is None else coax.regularizers.EntropyRegularizer(pi, beta=a.beta)
            kw = dict(epsilon=a.eps) if ppo else {}
            obj = cls(pi, optimizer=probe_optimizer(), regularizer=rg, **kw)
            setp(pi, a.th, a.st)
            b = tb(a.S, a.A, a.S, a.A, a.Adv * 0, a.Adv * 0, a.W)
            b.logP = a.lP
            return run(a, cls, pi, obj, {}, b, a.Adv, via)

        def post(o, ar):
            a = X(vec(ar[0]))
            w = clip(a.W, alg.ex(0.1), 10)
            lg = [F('pi', k, a.th, a.st, 1, a.S) for k in range(n)]
            dg = [DF('pi', k, a.th, a.st, 1, a.S) for k in range(n)]
            p, lps, oh = softmax(lg), logp(lg), onehot(a.A, n)
            lp = dot(oh, lps)
            dlp = dot(oh, dg) - dot(p, dg)
            if ppo:
                r = alg.fexp(lp - a.lP)
                objective = w * alg.minimum(a.Adv * r, a.Adv * clip(r, 1 - a.eps, 1 + a.eps))
                act = 1 - alg.lt(0, a.Adv) * alg.lt(1 + a.eps, r) - alg.lt(a.Adv, 0) * alg.lt(r, 1 - a.eps)
                grad = w * a.Adv * r * dlp * act
            else:
                objective = w * a.Adv * lp
                grad = w * a.Adv * dlp
            loss, g = -bmean(objective), -bmean(grad)
            bare = loss
            if reg is not None:
                l2 = [F('pi', k, a.th, a.st, 0, a.S) for k in range(n)]
                d2 = [DF('pi', k, a.th, a.st, 0, a.S) for k in range(n)]
                p2, lp2 = softmax(l2), logp(l2)
                H = -dot(p2, lp2)
                dH = -sum((pk * dk * (lk + H) for pk, dk, lk in zip(p2, d2, lp2)), alg.ZERO)
                loss = loss - bmean(w * a.beta * H)
                g = g - bmean(w * a.beta * dH)
            r = [('loss metric', o['loss'][()], loss), ('bare loss metric == -mean(W * objective)', o['bare'][()], bare),
                 ('parameters == one optimizer step', o['th'][()], probe_step(g, a.m, a.th)[0]), ('optimizer state == that step\'s', o['m'][()], probe_step(g, a.m, a.th)[1]),
                 ('function state from the training-mode evaluation', o['st'][()], alg.ex(0.5) * a.st + 1),
                 ('kl_div_old metric', o['kl'][()], bmean(alg.fexp(a.lP) * (a.lP - lp)))]
            return r
        hyps = []
        if ppo:
            a = X(vec({k: v.arr for k, v in args.items()}))
            es = [alg.fexp(F('pi', k, a.th, a.st, 1, a.S)) for k in range(n)]
            old = alg.fexp(a.lP) * sum(es, alg.ZERO)
            for k in range(n):
                hyps += [(es[k] - (1 + a.eps) * old, '!='), (es[k] - (1 - a.eps) * old, '!=')]
        jax_contract(ck, '%s/n%d%s/%s' % (clsname, n, '/regularized' if reg else '', via), fun, (args,), post, hyps, max_paths=6000, deadline_s=150,
                     funcs=['coax.policy_objectives.%s.objective_func' % clsname, 'coax.policy_objectives.PolicyObjective.update',
                            'coax.policy_objectives.PolicyObjective.grads_and_metrics', 'coax.policy_objectives.PolicyObjective.apply_grads'])
    return ('%s-%s-%s-%s' % (clsname, n, reg, via), job)


def cont_job(clsname):
    """VanillaPG / PPOClip on a continuous action space; the log-density and the action preprocessor by contract (C16, C17)"""
    def job(ck):
        cls = getattr(PO, clsname)
        ppo = clsname == 'PPOClip'
        args = dict(th=scal('th'), st=scal('st'), m=scal('m'), S=obs('S'), A=act_c('A'), Adv=real('Adv'), W=real('W', lo=0.01, hi=20), lP=real('lP', lo=-9, hi=0))
        if ppo:
            args['eps'] = scal('eps', lo=0.01, hi=0.9)

        def fun(a):
            a = X(a)
            pi = coax.Policy(func_pic(), env_c(), random_seed=1)
            obj = cls(pi, optimizer=probe_optimizer(), **(dict(epsilon=a.eps) if ppo else {}))
            setp(pi, a.th, a.st)
            b = tb(a.S, a.A, a.S, a.A, a.Adv * 0, a.Adv * 0, a.W)
            b.logP = a.lP
            return run(a, cls, pi, obj, {}, b, a.Adv, 'update')

        def sfun(a):
            N = type(coax.proba_dists.ProbaDist(env_c().action_space)._structure)
            with stubbed(N, log_proba=property(lambda self: lambda dp, x: rowfn('LPN', 1, dp['mu'], dp['logvar'], x)[:, 0]),
                         preprocess_variate=lambda self, rng, x: rowfn('PRE', 1, x)):
                return fun(a)

        def post(o, ar):
            a = X(vec(ar[0]))
            w = clip(a.W, alg.ex(0.1), 10)
            x = [F('pi', 0, a.th, a.st, 1, a.S), F('pi', 1, a.th, a.st, 1, a.S), alg.fn('PRE.0', a.A)]
            lp = alg.fn('LPN.0', *x)
            dlp = alg.fn("LPN.0'0", *x) * DF('pi', 0, a.th, a.st, 1, a.S) + alg.fn("LPN.0'1", *x) * DF('pi', 1, a.th, a.st, 1, a.S)
            if ppo:
                r = alg.fexp(lp - a.lP)
                objective = w * alg.minimum(a.Adv * r, a.Adv * clip(r, 1 - a.eps, 1 + a.eps))
                grad = w * a.Adv * r * dlp * (1 - alg.lt(0, a.Adv) * alg.lt(1 + a.eps, r) - alg.lt(a.Adv, 0) * alg.lt(r, 1 - a.eps))
            else:
                objective, grad = w * a.Adv * lp, w * a.Adv * dlp
            g = -bmean(grad)
            return [('loss metric', o['loss'][()], -bmean(objective)), ('parameters == one optimizer step', o['th'][()], probe_step(g, a.m, a.th)[0]),
                    ('optimizer state == that step\'s', o['m'][()], probe_step(g, a.m, a.th)[1]), ('function state from the training-mode evaluation', o['st'][()], alg.ex(0.5) * a.st + 1),
                    ('kl_div_old metric', o['kl'][()], bmean(alg.fexp(a.lP) * (a.lP - lp)))]
        hyps = []
        if ppo:
            a = X(vec({k: v.arr for k, v in args.items()}))
            r = alg.fexp(alg.fn('LPN.0', F('pi', 0, a.th, a.st, 1, a.S), F('pi', 1, a.th, a.st, 1, a.S), alg.fn('PRE.0', a.A)))
            hyps = [(r - (1 + a.eps) * alg.fexp(a.lP), '!='), (r - (1 - a.eps) * alg.fexp(a.lP), '!=')]
        jax_contract(ck, '%s/continuous/update' % clsname, sfun, (args,), post, hyps, deadline_s=150, funcs=['coax.policy_objectives.%s.objective_func' % clsname])
    return ('cont-' + clsname, job)


def critic_job(clsname, disc, stoch, nq=1, n=2, k=2):
    """DeterministicPG / SoftPG: distributional critics, discrete actions; the variate and the mean of the critic's distribution by contract (C15-C18)"""
    def job(ck):
        from checks import c11
        cls = getattr(PO, clsname)
        soft = clsname == 'SoftPG'
        env = env_d(n) if disc else env_c()
        na = n if disc else 1
        args = dict(th=scal('th'), st=scal('st'), m=scal('m'), S=obs('S'), A=act_d('A', n) if disc else act_c('A'), W=real('W', lo=0.01, hi=20), lP=real('lP', lo=-9, hi=0))
        for i in range(nq):
            args['tq%d' % i], args['sq%d' % i] = scal('tq%d' % i), scal('sq%d' % i)

        def net(name):
            def func(S, A, is_training):
                th = hk.get_parameter('th', (), init=jnp.zeros)
                st = hk.get_state('st', (), init=jnp.zeros)
                r = rowfn(name, k if stoch else 1, th, st, S, A)
                return {'logits': r} if stoch else r[:, 0]
            return func

        def fun(a):
            a = X(a)
            pi = coax.Policy(func_pid(n=n) if disc else func_pic(), env, random_seed=1)
            kw = dict(action_preprocessor=pi.proba_dist.preprocess_variate, random_seed=1)
            qs = [coax.StochasticQ(net('q%d' % i), env, value_range=(c11.LO, c11.HI), num_bins=k, **kw) if stoch else coax.Q(net('q%d' % i), env, **kw) for i in range(nq)]
            import coax.policy_objectives._deterministic_pg as dpg
            with stubbed(dpg, check_preprocessors=lambda *x, **kk: True):        # only decides about a warning
                obj = cls(pi, qs if soft else qs[0], optimizer=probe_optimizer())
            setp(pi, a.th, a.st)
            others = {}
            for i, q in enumerate(qs):
                setp(q, getattr(a, 'tq%d' % i), getattr(a, 'sq%d' % i))
                others['tq%d' % i] = lambda q=q: q.params
                others['sq%d' % i] = lambda q=q: q.function_state
            b = tb(a.S, a.A, a.S, a.A, a.W * 0, a.W * 0, a.W)
            b.logP = a.lP
            return run(a, cls, pi, obj, others, b, None, 'update')

        def sfun(a):
            import contextlib
            D = type(coax.proba_dists.ProbaDist(env.action_space)._structure)
            flat = lambda dp: [dp[x] for x in (('logits',) if disc else ('mu', 'logvar'))]     # noqa
            with contextlib.ExitStack() as es:
                if stoch:
                    es.enter_context(c11.dist_stubs(k))
                es.enter_context(stubbed(D, mode=property(lambda self: lambda dp: rowfn('MODE', na, *flat(dp))),
                                         sample=property(lambda self: lambda dp, rng: rowfn('SAMPLE', na, *flat(dp), jax.random.normal(rng, flat(dp)[0].shape))),
                                         log_proba=property(lambda self: lambda dp, x: rowfn('LP', 1, *flat(dp), x)[:, 0])))
                return fun(a)

        z = c11.atoms(k)[0]

        def post(o, ar):
            a = X(vec(ar[0]))
            w = clip(a.W, alg.ex(0.1), 10)
            no = n if disc else 2
            y, dy = [F('pi', j, a.th, a.st, 1, a.S) for j in range(no)], [DF('pi', j, a.th, a.st, 1, a.S) for j in range(no)]
            xs = y + ([alg.var('normal0[0, %d]' % j, row=True) for j in range(na)] if soft else [])
            nm = 'SAMPLE' if soft else 'MODE'
            act = [alg.fn('%s.%d' % (nm, j), *xs) for j in range(na)]
            dact = [sum((alg.fn("%s.%d'%d" % (nm, j, i), *xs) * dy[i] for i in range(no)), alg.ZERO) for j in range(na)]
            qv = []
            for i in range(nq):
                v = [getattr(a, 'tq%d' % i), getattr(a, 'sq%d' % i), a.S, *act]
                out = [alg.fn('q%d.%d' % (i, j), *v) for j in range(k if stoch else 1)]
                dout = [sum((alg.fn("q%d.%d'%d" % (i, j, 3 + l), *v) * dact[l] for l in range(na)), alg.ZERO) for j in range(len(out))]
                if stoch:
                    q = sum((alg.fn('MEAN.%d' % j, *out) * z[j] for j in range(k)), alg.ZERO)
                    d = sum((alg.fn("MEAN.%d'%d" % (j, l), *out) * dout[l] * z[j] for j in range(k) for l in range(k)), alg.ZERO)
                else:
                    q, d = out[0], dout[0]
                qv.append((q, d))
            q, d = qv[0]
            for v, dv in qv[1:]:
                c = alg.lt(v, q)
                q, d = alg.ite(c, v, q), alg.ite(c, dv, d)
            g = -bmean(w * d)
            r = [('loss metric', o['loss'][()], -bmean(w * q)), ('parameters == one optimizer step', o['th'][()], probe_step(g, a.m, a.th)[0]),
                 ('optimizer state == that step\'s', o['m'][()], probe_step(g, a.m, a.th)[1]), ('function state from the training-mode evaluation', o['st'][()], alg.ex(0.5) * a.st + 1)]
            return r + [('frame: %s unchanged' % x, v[()], getattr(a, x)) for x, v in o['others'].items()]
        hyps = []
        if nq > 1:
            a = X(vec({x: v.arr for x, v in args.items()}))
            no = n if disc else 2
            xs = [F('pi', j, a.th, a.st, 1, a.S) for j in range(no)] + [alg.var('normal0[0, %d]' % j, row=True) for j in range(na)]
            act = [alg.fn('SAMPLE.%d' % j, *xs) for j in range(na)]
            vs = []
            for i in range(nq):
                out = [alg.fn('q%d.%d' % (i, j), getattr(a, 'tq%d' % i), getattr(a, 'sq%d' % i), a.S, *act) for j in range(k if stoch else 1)]
                vs.append(sum((alg.fn('MEAN.%d' % j, *out) * z[j] for j in range(k)), alg.ZERO) if stoch else out[0])
            hyps = [(vs[i] - vs[j], '!=') for i in range(nq) for j in range(i)]
        jax_contract(ck, '%s/%s/%s critic x%d/update' % (clsname, 'discrete' if disc else 'continuous', 'distributional' if stoch else 'scalar', nq), sfun, (args,), post, hyps, deadline_s=150,
                     funcs=['coax.policy_objectives.%s.objective_func' % clsname])
    return ('critic-%s-%s-%s-%d' % (clsname, disc, stoch, nq), job)


def q_job(clsname, via='update', nq=1, reg=None):
    """DeterministicPG / SoftPG on a continuous action space"""
    def job(ck):
        cls = getattr(PO, clsname)
        soft = clsname == 'SoftPG'
        args = dict(th=scal('th'), st=scal('st'), m=scal('m'), S=obs('S'), A=act_c('A'), W=real('W', lo=0.01, hi=20), lP=real('lP', lo=-9, hi=0))
        for i in range(nq):
            args['tq%d' % i], args['sq%d' % i] = scal('tq%d' % i), scal('sq%d' % i)
        if reg is not None:
            args['beta'] = scal('beta', lo=0, hi=3)
        env = env_c()

        def fun(a):
            a = X(a)
            pi = coax.Policy(func_pic(), env, random_seed=1)
            qs = [coax.Q(qfun('q%d' % i), env, action_preprocessor=pi.proba_dist.preprocess_variate, random_seed=1) for i in range(nq)]
            rg = None if reg is None else coax.regularizers.EntropyRegularizer(pi, beta=a.beta)
            import coax.policy_objectives._deterministic_pg as dpg
            with stubbed(dpg, check_preprocessors=lambda *x, **k: True):        # only decides about a warning
                obj = cls(pi, qs if soft else qs[0], optimizer=probe_optimizer(), regularizer=rg)
            setp(pi, a.th, a.st)
            others = {}
            for i, q in enumerate(qs):
                setp(q, getattr(a, 'tq%d' % i), getattr(a, 'sq%d' % i))
                others['tq%d' % i] = lambda q=q: q.params
                others['sq%d' % i] = lambda q=q: q.function_state
            b = tb(a.S, a.A, a.S, a.A, a.W * 0, a.W * 0, a.W)
            b.logP = a.lP
            return run(a, cls, pi, obj, others, b, None, via)

        def post(o, ar):
            a = X(vec(ar[0]))
            w = clip(a.W, alg.ex(0.1), 10)
            mu, lv = F('pi', 0, a.th, a.st, 1, a.S), F('pi', 1, a.th, a.st, 1, a.S)
            dmu, dlv = DF('pi', 0, a.th, a.st, 1, a.S), DF('pi', 1, a.th, a.st, 1, a.S)
            if soft:
                eps = alg.var('normal0[0, 0]', row=True)
                lc, inside = clip(lv, alg.ex(-20), alg.ex(20)), 1 - alg.lt(lv, -20) - alg.lt(20, lv)
                act = mu + alg.fexp(lc / 2) * eps
                dact = dmu + alg.fexp(lc / 2) * eps / 2 * inside * dlv
            else:
                act, dact = mu, dmu
            qv = [alg.fn('q%d.0' % i, getattr(a, 'tq%d' % i), getattr(a, 'sq%d' % i), a.S, act) for i in range(nq)]
            dq = [alg.fn("q%d.0'3" % i, getattr(a, 'tq%d' % i), getattr(a, 'sq%d' % i), a.S, act) for i in range(nq)]
            q, d = qv[0], dq[0]
            for v, dv in zip(qv[1:], dq[1:]):
                c = alg.lt(v, q)
                q, d = alg.ite(c, v, q), alg.ite(c, dv, d)
            loss, g = -bmean(w * q), -bmean(w * d * dact)
            if reg is not None:
                l2, d2 = F('pi', 1, a.th, a.st, 0, a.S), DF('pi', 1, a.th, a.st, 0, a.S)
                ins = 1 - alg.lt(l2, -20) - alg.lt(20, l2)
                loss = loss - bmean(w * a.beta * (LOG2PI + clip(l2, alg.ex(-20), alg.ex(20)) + 1) / 2)
                g = g - bmean(w * a.beta * d2 * ins / 2)
            r = [('loss metric', o['loss'][()], loss), ('parameters == one optimizer step', o['th'][()], probe_step(g, a.m, a.th)[0]), ('optimizer state == that step\'s', o['m'][()], probe_step(g, a.m, a.th)[1]),
                 ('function state from the training-mode evaluation', o['st'][()], alg.ex(0.5) * a.st + 1)]
            for k, v in o['others'].items():
                r.append(('frame: %s unchanged' % k, v[()], getattr(a, k)))
            return r
        a = X(vec({k: v.arr for k, v in args.items()}))
        hyps = []
        for tr in (0, 1):
            lv = F('pi', 1, a.th, a.st, tr, a.S)
            hyps += [(lv - 19, '<'), (-19 - lv, '<')]
        if nq > 1:
            eps = alg.var('normal0[0, 0]', row=True)
            act = F('pi', 0, a.th, a.st, 1, a.S) + alg.fexp(F('pi', 1, a.th, a.st, 1, a.S) / 2) * eps
            v = [alg.fn('q%d.0' % i, getattr(a, 'tq%d' % i), getattr(a, 'sq%d' % i), a.S, act) for i in range(nq)]
            hyps += [(v[i] - v[j], '!=') for i in range(nq) for j in range(i)]
        jax_contract(ck, '%s/%d%s/%s' % (clsname, nq, '/regularized' if reg else '', via), fun, (args,), post, hyps, deadline_s=120,
                     funcs=['coax.policy_objectives.%s.objective_func' % clsname, 'coax.policy_objectives.%s.update' % clsname])
    return ('%s-%s-%d-%s' % (clsname, via, nq, reg), job)


def lin_pi(S, is_training):
    w = hk.get_parameter('w', (1, NA), init=hk.initializers.RandomNormal())
    return {'logits': S @ w}


def guard_job(ck):
    """NaN gradients: raise, touch nothing; optimizer replacement keeps working"""
    def case(c):
        cls, where = c
        pi = coax.Policy(lin_pi, env_d(), random_seed=1)
        obj = getattr(PO, cls)(pi, optimizer=optax.adam(0.1))
        S = onp.linspace(-1, 1, 4, dtype='float32')[:, None]
        A = onp.array([0, 1, 2, 0])
        b = coax.reward_tracing.TransitionBatch(S=S, A=A, logP=-onp.ones(4), Rn=onp.zeros(4), In=onp.zeros(4), S_next=S, A_next=A, logP_next=-onp.ones(4), W=onp.ones(4))
        adv = onp.array([1., -1., 2., .5], 'float32')
        if where is not None:
            adv[where] = onp.nan
        snap = jax.tree_util.tree_map(onp.array, (pi.params, pi.function_state, obj.optimizer_state))
        try:
            obj.update(b, adv)
            raised = False
        except RuntimeError:
            raised = True
        now = jax.tree_util.tree_map(onp.array, (pi.params, pi.function_state, obj.optimizer_state))
        same = all(bool(onp.array_equal(x, y)) for x, y in zip(jax.tree_util.tree_leaves(snap), jax.tree_util.tree_leaves(now)))
        if where is None:
            if raised or same:
                return 'ordinary update raised or changed nothing'
            obj.optimizer = optax.adam(0.01)
            obj.update(b, adv)
            try:
                obj.optimizer = optax.sgd(0.1, momentum=.9)
                return 'optimizer with another state structure accepted'
            except AttributeError:
                pass
        elif not raised:
            return 'NaN gradients did not raise'
        elif not same:
            return 'NaN gradients modified parameters or optimizer state'
    ck.concrete('NaN guard / optimizer', case, [(c, w) for c in ('VanillaPG', 'PPOClip') for w in (None, 0, 3)], bound='2 objectives x 3 placements')
    ck.fn('coax.policy_objectives.PolicyObjective.update', how='bounded (NaN guard)')


def attr_job(ck):
    """documented defaults; optimizer and optimizer_state attributes"""
    S = onp.linspace(-1, 1, 4, dtype='float32')[:, None]
    A = onp.array([0, 1, 2, 0])
    b = coax.reward_tracing.TransitionBatch(S=S, A=A, logP=-onp.ones(4), Rn=onp.zeros(4), In=onp.zeros(4), S_next=S, A_next=A, logP_next=-onp.ones(4), W=onp.ones(4))
    adv = onp.array([1., -1., 2., .5], 'float32')

    def case(cls):
        def make(**kw):
            pi = coax.Policy(lin_pi, env_d(), random_seed=1)
            if cls in ('VanillaPG', 'PPOClip'):
                return getattr(PO, cls)(pi, **kw), pi
            q = coax.Q(lambda S, A, is_training: jnp.sum(A * jnp.sin(S @ hk.get_parameter('w', (1, NA), init=hk.initializers.RandomNormal()) + jnp.arange(NA)), -1), env_d(), random_seed=2)
            return PO.DeterministicPG(pi, q, **kw), pi
        args = (b, adv) if cls in ('VanillaPG', 'PPOClip') else (b,)
        return optimizer_case(make, lambda u: u.update(*args), lambda u: u.grads_and_metrics(b, adv)[0], dict(optimizer=optax.adam(1e-3)), checks_state=False)
    ck.concrete('documented defaults, optimizer and optimizer_state', case, ['VanillaPG', 'PPOClip', 'DeterministicPG'], bound='3 objectives, one batch, two updates')


def common(ck):
    ck.trust('JAX tracing, autodiff and primitive semantics; z3', 'lib/symjax.py, lib/alg.py')
    ck.assume('the optimizer is a fixed linear function of (gradient, state, parameters); other optimizers are optax code (assumed)')
    ck.assume('machine arithmetic treated as real arithmetic', 'probability ratios not exactly on the clipping boundary; minimum over target q-functions unique',
              'policy and q-function are arbitrary row-wise functions; q-function gives the same value in training and inference mode',
              'the Python-level NaN and zero-propensity tests are assumed false while tracing; exercised on concrete batches')


def jobs():
    return [pg_job('VanillaPG'), pg_job('VanillaPG', reg=0.25), pg_job('VanillaPG', n=2, via='apply'), pg_job('PPOClip', n=2), pg_job('PPOClip', n=3),
            pg_job('PPOClip', n=2, reg=0.25), pg_job('PPOClip', n=2, via='apply'), q_job('DeterministicPG'), q_job('DeterministicPG', reg=0.25), q_job('DeterministicPG', 'apply'),
            q_job('SoftPG'), q_job('SoftPG', nq=2), q_job('SoftPG', nq=2, via='apply', reg=0.25), cont_job('VanillaPG'), cont_job('PPOClip'), critic_job('DeterministicPG', False, True), critic_job('DeterministicPG', True, False), critic_job('DeterministicPG', True, True),
            critic_job('SoftPG', False, True), critic_job('SoftPG', True, False), critic_job('SoftPG', False, True, 2), ('guard', guard_job), ('attr', attr_job), ('common', common)]
