"""C12: what a TD update does: loss, gradient step, metrics, frame, NaN guard."""
import numpy as onp
import optax
import coax
from lib import alg
from lib.contract import jax_contract
from lib.nets import *   # noqa
from checks.c10 import TD, tb, base_args, vec, X, ident, logt, common as common10
from checks.c15 import dot



def rowloss(y_true, y_pred, w=None):
    """an arbitrary row-wise loss (uninterpreted)"""
    l = rowfn('L', 1, y_true, y_pred)[:, 0]
    return jnp.mean(l if w is None else w * l)


def L(y, x):
    return alg.fn('L.0', y, x)


def dL(y, x):
    return alg.fn("L.0'1", y, x)


def no_any():
    import coax.td_learning._base as m
    return stubbed(m, any=lambda it: False)


def upd_job(cls, kind=2, targ=True, reg=None, n=NA, via='update'):
    def job(ck):
        isv = cls == 'SimpleTD'
        clipped = cls.startswith('Clipped')
        args = base_args()
        args['W'] = real('W', lo=0.01, hi=20)
        args['m'] = scal('m')
        if not isv:
            args['A'], args['An'] = act_d('A', n), act_d('An', n)
        if clipped:
            args.update(th1=scal('th1'), st1=scal('st1'), th2=scal('th2'), st2=scal('st2'))
        if reg:
            args.update(thp=scal('thp'), stp=scal('stp'), beta=scal('beta', lo=0, hi=3))
        env = env_d(n)
        nm = 'v' if isv else 'q'

        def fun(a):
            a = X(a)
            rg = pi = None
            if reg:
                pi = coax.Policy(func_pid(n=n), env, random_seed=1)
                setp(pi, a.thp, a.stp)
                rg = coax.regularizers.EntropyRegularizer(pi, beta=a.beta)
            if isv:
                f = coax.V(func_v(), env, random_seed=1)
            else:
                f = coax.Q(func_q1() if kind == 1 else func_q2(n=n), env, random_seed=1)
            ft = f.copy() if targ else None
            kw = dict(loss_function=rowloss, policy_regularizer=rg, optimizer=probe_optimizer())
            others = {}
            if clipped:
                fa, fb = f.copy(), f.copy()
                td = getattr(TD, cls)(f, q_targ_list=[fa, fb], **kw)
                setp(fa, a.th1, a.st1)
                setp(fb, a.th2, a.st2)
                others = {'th1': fa.params, 'st1': fa.function_state, 'th2': fb.params, 'st2': fb.function_state}
            elif isv:
                td = TD.SimpleTD(f, ft, **kw)
            else:
                td = getattr(TD, cls)(f, q_targ=ft, **kw)
            setp(f, a.th, a.st)
            if targ and not clipped:
                setp(ft, a.tht, a.stt)
            b = tb(a.S, a.A, a.Sn, a.An, a.R, a.I, a.W)
            probe_set(td, a.m)
            with no_any():
                if via == 'update':
                    metrics, tde = td.update(b, return_td_error=True)
                else:
                    g, fs, metrics, tde = td.grads_and_metrics(b)
                    td.apply_grads(g, fs)
            if targ and not clipped:
                others = {'tht': ft.params, 'stt': ft.function_state}
            elif clipped:
                others = {'th1': fa.params, 'st1': fa.function_state, 'th2': fb.params, 'st2': fb.function_state}
            if reg:
                others.update(thp=pi.params, stp=pi.function_state)
            one = lambda t: jax.tree_util.tree_leaves(t)[0]    # noqa
            return dict(th=one(f.params), st=one(f.function_state), m=one(td.optimizer_state), tde=tde, others={k: one(v) for k, v in others.items()},
                        loss=metrics[cls + '/loss'], mtd=metrics[cls + '/td_error'])

        def post(o, ar):
            a = X(vec(ar[0]))
            if not targ and not clipped:
                a.tht, a.stt = a.th, a.st
            w = clip(a.W, alg.ex(0.1), 10)
            if isv:
                pred, dpred = F('v', 0, a.th, a.st, 1, a.S), DF('v', 0, a.th, a.st, 1, a.S)
                ptarg = F('v', 0, a.tht, a.stt, 0, a.S)
                nxt = F('v', 0, a.tht, a.stt, 0, a.Sn)
            else:
                oh = onehot(a.A, n)
                q = lambda th, st, tr, s, x, fn=F: q_oh(kind, 'q', th, st, tr, s, x, n, fn)    # noqa
                pred, dpred = q(a.th, a.st, 1, a.S, oh), q(a.th, a.st, 1, a.S, oh, DF)
                if clipped:
                    tt = ((a.th1, a.st1), (a.th2, a.st2))
                    ptarg = amin([q(t, s, 0, a.S, oh) for t, s in tt])
                    cands = []
                    for t, s in tt:
                        g = greedy_mix(q_all(kind, 'q', t, s, 0, a.Sn, n))
                        cands += [q(t2, s2, 0, a.Sn, g) for t2, s2 in tt]
                    nxt = amin(cands)
                else:
                    ptarg = q(a.tht, a.stt, 0, a.S, oh)
                    qs = q_all(kind, 'q', a.tht, a.stt, 0, a.Sn, n)
                    if cls == 'Sarsa':
                        nxt = q(a.tht, a.stt, 0, a.Sn, onehot(a.An, n))
                    elif cls == 'DoubleQLearning':
                        nxt = q(a.th, a.st, 0, a.Sn, greedy_mix(qs))
                    else:
                        nxt = amax(qs)
            G = a.R + a.I * nxt
            if reg:
                lg = [F('pi', j, a.thp, a.stp, 0, a.S) for j in range(n)]
                p, lse = softmax(lg), logsumexp(lg)
                G = G + a.beta * sum((pi * (lse - x) for pi, x in zip(p, lg)), alg.ZERO)
            th2, m2 = probe_step(bmean(w * dL(G, pred) * dpred), a.m, a.th)
            obs_ = [('loss metric == mean(clip(W,.1,10) * loss(target, prediction))', o['loss'][()], bmean(w * L(G, pred))),
                    ('parameters == one optimizer step on the gradient through the prediction only', o['th'][()], th2), ('optimizer state == that step\'s', o['m'][()], m2),
                    ('function state comes from the training-mode prediction', o['st'][()], alg.ex(0.5) * a.st + 1),
                    ('td_error == -dloss/dprediction (unweighted)', o['tde'][0], -dL(G, pred)),
                    ('td_error metric == mean(W * td_error)', o['mtd'][()], bmean(-w * dL(G, pred)))]
            for k, v in o['others'].items():
                obs_.append(('frame: %s unchanged' % k, v[()], getattr(a, k)))
            return obs_
        hyps = []
        if not isv and kind == 1 and cls != 'Sarsa':
            a = X(vec({k: v.arr for k, v in args.items()}))
            if not targ:
                a.tht, a.stt = a.th, a.st
            qt = q_all(1, 'q', a.tht, a.stt, 0, a.Sn, n)
            hyps = [(qt[i] - qt[j], '!=') for i in range(n) for j in range(i)]
        jax_contract(ck, '%s/type%d%s%s/%s' % (cls, kind, '' if targ else '/default-target', '/regularized' if reg else '', via), fun, (args,),
                     post, hyps,
                     funcs=['coax.td_learning._base.BaseTDLearning.update', 'coax.td_learning._base.BaseTDLearning.apply_grads',
                            'coax.td_learning._base.BaseTDLearning.grads_and_metrics', 'coax.td_learning.%s.loss_func' % cls])
    return ('%s-%d-%s-%s-%s' % (cls, kind, targ, reg, via), job)


def cont_job(cls, npi=1, nt=2):
    """continuous actions: the next action comes from the target policies, which are left alone like the target q-functions"""
    def job(ck):
        clip_, soft = 'Clipped' in cls, cls.startswith('Soft')
        args = base_args(False)
        args.update(W=real('W', lo=0.01, hi=20), m=scal('m'))
        tns = ['t%d' % i for i in range(nt)] if clip_ else ['t']
        pis = [] if cls == 'Sarsa' else ['pi', 'pj'][:npi]
        args.update({x + nm: scal(x + nm) for nm in (tns if clip_ else []) + pis for x in ('th', 'st')})
        env = env_c()

        def fun(d):
            a = X(d)
            f = coax.Q(func_q1(), env, random_seed=1)
            ps = [coax.Policy(func_pic(nm), env, random_seed=1) for nm in pis]
            ts = [f.copy() for _ in tns]
            kw = dict(loss_function=rowloss, optimizer=probe_optimizer())
            if clip_:
                td = getattr(TD, cls)(f, q_targ_list=ts, pi_targ_list=ps, **kw)
            else:
                td = getattr(TD, cls)(f, q_targ=ts[0], **({'pi_targ': ps[0]} if ps else {}), **kw)
            setp(f, a.th, a.st)
            for x, nm in zip(ts + ps, tns + pis):
                setp(x, d['th' + nm], d['st' + nm])
            probe_set(td, a.m)
            with no_any():
                metrics, tde = td.update(tb(a.S, a.A, a.Sn, a.An, a.R, a.I, a.W), return_td_error=True)
            one = lambda t: jax.tree_util.tree_leaves(t)[0]    # noqa
            oth = {k + nm: one(v) for x, nm in zip(ts + ps, tns + pis) for k, v in (('th', x.params), ('st', x.function_state))}
            return dict(th=one(f.params), st=one(f.function_state), m=one(td.optimizer_state), tde=tde, others=oth, loss=metrics[cls + '/loss'])

        def post(o, ar):
            a = X(vec(ar[0]))
            w = clip(a.W, alg.ex(0.1), 10)
            acts = [a.An]
            if pis:
                acts = []
                for i, nm in enumerate(pis):
                    thp, stp = getattr(a, 'th' + nm), getattr(a, 'st' + nm)
                    mu = F(nm, 0, thp, stp, 0, a.Sn)
                    if soft:
                        mu = mu + alg.fexp(F(nm, 1, thp, stp, 0, a.Sn) / 2) * alg.var('normal%d[0, 0]' % i, row=True)
                    acts.append(mu)
            qs = [(a.th, a.st)] if cls == 'DoubleQLearning' else [(getattr(a, 'th' + nm), getattr(a, 'st' + nm)) for nm in tns]
            G = a.R + a.I * amin([F('q', 0, t, s_, 0, a.Sn, x) for x in acts for t, s_ in qs])
            pred, dpred = F('q', 0, a.th, a.st, 1, a.S, a.A), DF('q', 0, a.th, a.st, 1, a.S, a.A)
            th2, m2 = probe_step(bmean(w * dL(G, pred) * dpred), a.m, a.th)
            r = [('loss metric == mean(clip(W,.1,10) * loss(target, prediction))', o['loss'][()], bmean(w * L(G, pred))),
                 ('parameters == one optimizer step on the gradient through the prediction only', o['th'][()], th2), ('optimizer state == that step\'s', o['m'][()], m2),
                 ('function state comes from the training-mode prediction', o['st'][()], alg.ex(0.5) * a.st + 1),
                 ('td_error == -dloss/dprediction (unweighted)', o['tde'][0], -dL(G, pred))]
            return r + [('frame: %s unchanged' % k, v[()], getattr(a, k)) for k, v in o['others'].items()]
        a = X(vec({k: v.arr for k, v in args.items()}))
        hyps = []
        for nm in pis:
            lv = F(nm, 1, getattr(a, 'th' + nm), getattr(a, 'st' + nm), 0, a.Sn)
            hyps += [(lv - 20, '<'), (-20 - lv, '<')]
        jax_contract(ck, '%s/continuous%s/update' % (cls, ' %d targets %d policies' % (nt, npi) if clip_ else ''), fun, (args,), post, hyps, deadline_s=150,
                     funcs=['coax.td_learning._base.BaseTDLearning.update', 'coax.td_learning.%s.loss_func' % cls])
    return ('cont-%s-%d-%d' % (cls, npi, nt), job)


def soft_job(cls, vt=None, n=2):
    """SoftQLearning, ExpectedSarsa, SoftClippedDoubleQLearning on discrete actions; QLearning with a value transform"""
    def job(ck):
        args = base_args()
        args.update(A=act_d('A', n), An=act_d('An', n), W=real('W', lo=0.01, hi=20), m=scal('m'))
        pi_ = cls == 'ExpectedSarsa'
        clip_ = 'Clipped' in cls
        if pi_:
            args.update(thpi=scal('thpi'), stpi=scal('stpi'))
        if clip_:
            args.update(thu=scal('thu'), stu=scal('stu'))
        env = env_d(n)
        f_, finv = ident if vt is None else logt(alg.ex(vt))

        def fun(d):
            a = X(d)
            f = coax.Q(func_q2(n=n), env, value_transform=None if vt is None else coax.value_transforms.LogTransform(vt), random_seed=1)
            ts = [f.copy() for _ in range(1 + clip_)]
            kw = dict(loss_function=rowloss, optimizer=probe_optimizer())
            oth = dict(zip(['t', 'u'], ts))
            if pi_:
                kw['pi_targ'] = oth['pi'] = coax.Policy(func_pid(n=n), env, random_seed=1)
            td = getattr(TD, cls)(f, **({'q_targ_list': ts} if clip_ else {'q_targ': ts[0]}), **kw)
            setp(f, a.th, a.st)
            for nm, x in oth.items():
                setp(x, d['th' + nm], d['st' + nm])
            probe_set(td, a.m)
            with no_any():
                metrics, tde = td.update(tb(a.S, a.A, a.Sn, a.An, a.R, a.I, a.W), return_td_error=True)
            one = lambda t: jax.tree_util.tree_leaves(t)[0]    # noqa
            return dict(th=one(f.params), st=one(f.function_state), m=one(td.optimizer_state), tde=tde, loss=metrics[cls + '/loss'],
                        others={k + nm: one(v) for nm, x in oth.items() for k, v in (('th', x.params), ('st', x.function_state))})

        def post(o, ar):
            a = X(vec(ar[0]))
            w = clip(a.W, alg.ex(0.1), 10)
            qs = q_all(2, 'q', a.tht, a.stt, 0, a.Sn, n)
            if pi_:
                nxt = dot(softmax([F('pi', k, a.thpi, a.stpi, 0, a.Sn) for k in range(n)]), [finv(x) for x in qs])
            elif clip_:
                tt = ((a.tht, a.stt), (a.thu, a.stu))
                nxt = amin([finv(q_oh(2, 'q', t2, s2, 0, a.Sn, greedy_mix(q_all(2, 'q', t, s_, 0, a.Sn, n)), n)) for t, s_ in tt for t2, s2 in tt])
            elif cls == 'SoftQLearning':
                nxt = logsumexp([finv(x) for x in qs])
            else:
                nxt = finv(amax(qs))
            G = f_(a.R + a.I * nxt)
            oh = onehot(a.A, n)
            pred, dpred = q_oh(2, 'q', a.th, a.st, 1, a.S, oh, n), q_oh(2, 'q', a.th, a.st, 1, a.S, oh, n, DF)
            th2, m2 = probe_step(bmean(w * dL(G, pred) * dpred), a.m, a.th)
            r = [('loss metric == mean(clip(W,.1,10) * loss(target, prediction))', o['loss'][()], bmean(w * L(G, pred))),
                 ('parameters == one optimizer step on the gradient through the prediction only', o['th'][()], th2), ('optimizer state == that step\'s', o['m'][()], m2),
                 ('function state comes from the training-mode prediction', o['st'][()], alg.ex(0.5) * a.st + 1),
                 ('td_error == -dloss/dprediction (unweighted)', o['tde'][0], -dL(G, pred))]
            return r + [('frame: %s unchanged' % k, v[()], getattr(a, k)) for k, v in o['others'].items()]
        jax_contract(ck, '%s/discrete%s/update' % (cls, '' if vt is None else '/log-transform'), fun, (args,), post, deadline_s=150,
                     funcs=['coax.td_learning._base.BaseTDLearning.update', 'coax.td_learning.%s.target_func' % cls])
    return ('soft-%s-%s' % (cls, vt), job)


def dist_job(cls, kind=2, k=2, n=2, quant=False):
    """distributional value functions: one step on the cross-entropy (quantile-Huber) against the projected target, through the prediction only"""
    def job(ck):
        from checks import c11
        isv = cls == 'SimpleTD'
        w_ = 2 * k if quant else k
        args = base_args()
        args.update(A=act_d('A', n), An=act_d('An', n), W=real('W', lo=0.01, hi=20), m=scal('m'))
        env = env_d(n)

        def fun(d):
            a = X(d)
            if isv:
                f = coax.StochasticV(func_sv('sq', k), env, value_range=(c11.LO, c11.HI), num_bins=k, random_seed=1)
            elif quant:
                f = coax.StochasticQ(c11.func_qv('sq', k, kind, n), env, num_bins=k, random_seed=1)
            else:
                f = coax.StochasticQ(func_sq1('sq', k) if kind == 1 else func_sq2('sq', k, n), env, value_range=(c11.LO, c11.HI), num_bins=k, random_seed=1)
            ft = f.copy()
            td = getattr(TD, cls)(f, ft, loss_function=coax.value_losses.mse, optimizer=probe_optimizer())
            setp(f, a.th, a.st)
            setp(ft, a.tht, a.stt)
            probe_set(td, a.m)
            with no_any():
                metrics = td.update(tb(a.S, a.A, a.Sn, a.An, a.R, a.I, a.W))
            one = lambda t: jax.tree_util.tree_leaves(t)[0]    # noqa
            return dict(th=one(f.params), st=one(f.function_state), m=one(td.optimizer_state), loss=metrics[cls + '/loss'], others=dict(tht=one(ft.params), stt=one(ft.function_state)))

        def sfun(a):
            import coax.td_learning._base as tdb
            with stubbed(tdb, quantile_huber=lambda yt, yp, q, w: jnp.mean(rowfn('QH', 1, yt, yp, q, w)[:, 0])) if quant else c11.dist_stubs(k):
                return fun(a)

        def post(o, ar):
            a = X(vec(ar[0]))
            w = clip(a.W, alg.ex(0.1), 10)

            def dl(th, st, tr, s, oh, fn=F):
                if isv:
                    return [fn('sq', j, th, st, tr, s) for j in range(w_)]
                if kind == 1:
                    return [fn('sq', j, th, st, tr, s, *oh) for j in range(w_)]
                return [sum((oh[i] * fn('sq', i * w_ + j, th, st, tr, s) for i in range(n)), alg.ZERO) for j in range(w_)]
            nx = dl(a.tht, a.stt, 0, a.Sn, onehot(a.An, n))
            pred, dpred = dl(a.th, a.st, 1, a.S, onehot(a.A, n)), dl(a.th, a.st, 1, a.S, onehot(a.A, n), DF)
            if quant:
                T = [a.R + a.I * v for v in nx[:k]]
                nm, xs, off = 'QH', [*T, *pred, w], k
            else:
                T = FN('AT', k, *nx, a.I, a.R)
                nm, xs, off = 'CE', [*T, *pred], k
            g = sum((alg.fn("%s.0'%d" % (nm, off + j), *xs) * dpred[j] for j in range(w_)), alg.ZERO)
            th2, m2 = probe_step(bmean(g), a.m, a.th)
            return [('loss metric', o['loss'][()], bmean(alg.fn(nm + '.0', *xs))),
                    ('parameters == one optimizer step on the gradient through the prediction only', o['th'][()], th2), ('optimizer state == that step\'s', o['m'][()], m2),
                    ('function state comes from the training-mode prediction', o['st'][()], alg.ex(0.5) * a.st + 1)] + [('frame: %s unchanged' % x, v[()], getattr(a, x)) for x, v in o['others'].items()]
        jax_contract(ck, '%s/%s/type%d/update' % (cls, 'quantile' if quant else 'categorical', kind), sfun, (args,), post, deadline_s=150,
                     funcs=['coax.td_learning._base.BaseTDLearning.update', 'coax.td_learning._base.loss_func (distributional branch)'])
    return ('dist-%s-%d-%s' % (cls, kind, quant), job)


def nan_job(ck):
    """a NaN gradient raises and leaves everything untouched"""
    env = env_d()

    def case(c):
        cls, where, via_huber = c
        f = coax.V(lin_v, env, random_seed=1) if cls == 'SimpleTD' else coax.Q(lin_q, env, random_seed=1)
        ft = f.copy()
        kw = dict(optimizer=optax.adam(0.1))
        if via_huber:
            kw['loss_function'] = coax.value_losses.huber
        td = TD.SimpleTD(f, ft, **kw) if cls == 'SimpleTD' else \
            TD.ClippedDoubleQLearning(f, q_targ_list=[ft, f.copy()], **kw) if cls.startswith('Cl') else getattr(TD, cls)(f, q_targ=ft, **kw)
        R = onp.zeros(4, 'float32')
        if where is not None:
            R[where] = onp.nan
        S = onp.linspace(-1, 1, 4, dtype='float32')[:, None]
        A = onp.array([0, 1, 2, 0])
        b = coax.reward_tracing.TransitionBatch(S=S, A=A, logP=onp.zeros(4), Rn=R, In=0.9 * onp.ones(4), S_next=S + .1, A_next=A,
                                                logP_next=onp.zeros(4), W=onp.ones(4))
        snap = jax.tree_util.tree_map(onp.array, (f.params, f.function_state, td.optimizer_state, ft.params))
        try:
            td.update(b)
            raised = False
        except RuntimeError:
            raised = True
        now = jax.tree_util.tree_map(onp.array, (f.params, f.function_state, td.optimizer_state, ft.params))
        same = [bool(onp.array_equal(x, y)) for x, y in zip(jax.tree_util.tree_leaves(snap), jax.tree_util.tree_leaves(now))]
        if where is None:
            if raised:
                return 'update with finite gradients raised RuntimeError'
            if all(same[:1]):
                return 'update with finite gradients did not change the parameters'
            return None
        if not raised:
            return 'update with NaN gradients did not raise'
        if not all(same):
            return 'update with NaN gradients modified parameters / state'
    cases = [(c, w, h) for c in ('SimpleTD', 'Sarsa', 'QLearning', 'DoubleQLearning', 'ClippedDoubleQLearning')
             for w, h in ((None, True), (0, True), (3, False))]
    ck.concrete('NaN guard', case, cases, bound='5 updaters x 3 placements')
    ck.fn('coax.td_learning._base.BaseTDLearning.update', how='bounded (NaN guard)')


def attr_job(ck):
    """documented defaults; optimizer and optimizer_state attributes"""
    env = env_d()
    S = onp.linspace(-1, 1, 4, dtype='float32')[:, None]
    A = onp.array([0, 1, 2, 0])
    b = coax.reward_tracing.TransitionBatch(S=S, A=A, logP=onp.zeros(4), Rn=onp.array([1., -2., .5, 3.], 'float32'), In=0.9 * onp.ones(4), S_next=S + .1, A_next=A,
                                            logP_next=onp.zeros(4), W=onp.ones(4))

    def case(cls):
        def make(**kw):
            if cls == 'SimpleTD':
                f = coax.V(lin_v, env, random_seed=1)
                return TD.SimpleTD(f, f.copy(), **kw), f
            f = coax.Q(lin_q, env, random_seed=1)
            if 'Clipped' in cls:
                return getattr(TD, cls)(f, q_targ_list=[f.copy(), f.copy()], **kw), f
            if cls == 'ExpectedSarsa':
                return TD.ExpectedSarsa(f, coax.Policy(lin_pi, env, random_seed=1), f.copy(), **kw), f
            return getattr(TD, cls)(f, q_targ=f.copy(), **kw), f
        return optimizer_case(make, lambda u: u.update(b), lambda u: u.grads_and_metrics(b)[0], dict(optimizer=optax.adam(1e-3), loss_function=coax.value_losses.huber))
    ck.concrete('documented defaults, optimizer and optimizer_state', case,
                ['SimpleTD', 'Sarsa', 'ExpectedSarsa', 'QLearning', 'DoubleQLearning', 'SoftQLearning', 'ClippedDoubleQLearning', 'SoftClippedDoubleQLearning'],
                bound='8 updaters, one batch, two updates')


def lin_pi(S, is_training):
    return {'logits': _lin(S, NA)}


def _lin(S, n):
    w = hk.get_parameter('w', (1, n), init=hk.initializers.RandomNormal())
    b = hk.get_parameter('b', (n,), init=jnp.zeros)
    return S @ w + b


def lin_v(S, is_training):
    return _lin(S, 1)[:, 0]


def lin_q(S, is_training):
    return _lin(S, NA)


def common(ck):
    common10(ck)
    ck.assume('gradient step obligations use an optimizer that is a fixed linear function of (gradient, state, parameters); other optimizers are optax code (assumed)',
              'the Python-level NaN test in update() is assumed false while tracing; it is exercised separately on concrete batches')


def jobs():
    return [upd_job('SimpleTD'), upd_job('SimpleTD', targ=False), upd_job('SimpleTD', reg=0.5),
            upd_job('Sarsa', 1), upd_job('Sarsa', 2, targ=False), upd_job('Sarsa', 2, via='apply'),
            upd_job('QLearning', 2), upd_job('QLearning', 1, n=2), upd_job('QLearning', 2, n=2, reg=0.5), upd_job('QLearning', 2, targ=False, n=2),
            upd_job('DoubleQLearning', 2, n=2), upd_job('DoubleQLearning', 1, n=2),
            upd_job('ClippedDoubleQLearning', 2, n=2)] + \
        [cont_job(c) for c in ('Sarsa', 'QLearning', 'DoubleQLearning', 'ClippedDoubleQLearning', 'SoftClippedDoubleQLearning')] + [cont_job('ClippedDoubleQLearning', 2, 1)] + \
        [soft_job(c) for c in ('SoftQLearning', 'ExpectedSarsa', 'SoftClippedDoubleQLearning')] + [soft_job('QLearning', 2.0)] + \
        [dist_job('SimpleTD'), dist_job('Sarsa', 1), dist_job('Sarsa', 2), dist_job('Sarsa', 1, quant=True), dist_job('Sarsa', 2, quant=True)] + [('nan', nan_job), ('attr', attr_job), ('common', common)]
