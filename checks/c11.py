"""C11: targets of the distributional TD updaters (categorical projection and quantile targets)."""
import jax
import coax
from lib import alg
from lib.contract import jax_contract
from lib.nets import *   # noqa
from checks.c10 import TD, mse, tb, base_args, vec, X, ident, logt, common as common10

LO, HI = -3., 3.


def func_qv(name='sq', nq=2, typ=1, n=NA):
    def f1(S, A, is_training):
        r = rowfn(name, 2 * nq, *_ps(is_training), S, A)
        return {'values': r[:, :nq], 'quantile_fractions': r[:, nq:]}

    def f2(S, is_training):
        r = rowfn(name, 2 * nq * n, *_ps(is_training), S)
        r = r.reshape(r.shape[0], n, 2 * nq)
        return {'values': r[:, :, :nq], 'quantile_fractions': r[:, :, nq:]}
    return f1 if typ == 1 else f2


from lib.nets import _ps   # noqa


def atoms(k, f=lambda x: x):
    lo = f(alg.ex(LO))
    d = (f(alg.ex(HI)) - lo) / k
    return [lo + (alg.ex(j) + alg.ex(0.5)) * d for j in range(k)], d


def project(p, R, I, k, f=lambda x: x, finv=lambda x: x):
    """categorical projection: every shifted, scaled and clipped atom is shared between its two neighbours"""
    z, d = atoms(k, f)
    out = []
    tz = [clip(f(R + I * finv(zj)), z[0], z[-1]) for zj in z]
    for i in range(k):
        out.append(sum((pj * alg.maximum(alg.ZERO, 1 - abs(t - z[i]) / d) for pj, t in zip(p, tz)), alg.ZERO))
    m = [alg.maximum(x, alg.ex(1e-16)) for x in out]
    s = sum(m, alg.ZERO)
    return [x / s for x in m]


def dist_logits(kind, nm, th, st, tr, s, oh, k, n):
    if kind == 1:
        return [F(nm, j, th, st, tr, s, *oh) for j in range(k)]
    return [sum((oh[a] * F(nm, a * k + j, th, st, tr, s) for a in range(n)), alg.ZERO) for j in range(k)]


def unit(i, n):
    return [alg.ex(int(i == j)) for j in range(n)]


def meanz(logits, k):
    return sum((p * z for p, z in zip(softmax(logits), atoms(k)[0])), alg.ZERO)


def dist_stubs(k):
    """contracts of the DiscretizedIntervalDist methods (proved under C15 / C18) as uninterpreted functions"""
    D = coax.proba_dists.DiscretizedIntervalDist

    def full(x, like):
        return jnp.broadcast_to(jnp.asarray(x, like.dtype), (like.shape[0],))

    def at(dp, scale, shift, vt=None):
        L = dp['logits']
        ext = []
        if vt is not None:
            with jax.ensure_compile_time_eval():
                ident_ = float(vt.transform_func(jnp.float32(2))) == 2 == float(vt.inverse_func(jnp.float32(2)))
        if vt is not None and not ident_:     # the contract depends on the transform
            one = jnp.ones(L.shape[0])
            ext = [vt.transform_func(one), vt.inverse_func(one)]
        return {'logits': rowfn('AT', k, L, full(scale, L), full(shift, L), *ext)}
    return stubbed(D, affine_transform=property(lambda self: at),
                   mean=property(lambda self: lambda dp: rowfn('MEAN', k, dp['logits'])),
                   cross_entropy=property(lambda self: lambda p, q: rowfn('CE', 1, p['logits'], q['logits'])[:, 0]))


class Real:
    """the meaning of the callees, for the replay on the unmodified code"""

    @staticmethod
    def AT(lg, I, R, k):
        return [alg.flog(x) for x in project(softmax(lg), R, I, k)]

    MEAN = staticmethod(lambda lg, k: softmax(lg))

    @staticmethod
    def CE(p, q, k):
        lse = logsumexp(q)
        return sum((a * (lse - b) for a, b in zip(softmax(p), q)), alg.ZERO)


class Stub:
    AT = staticmethod(lambda lg, I, R, k: FN('AT', k, *lg, I, R))
    MEAN = staticmethod(lambda lg, k: FN('MEAN', k, *lg))
    CE = staticmethod(lambda p, q, k: FN('CE', 1, *p, *q)[0])


def cat_job(cls, kind, k=3, n=NA, what='td_error', reg=False):
    def job(ck):
        isv = cls == 'SimpleTD'
        clipped = cls.startswith('Clipped')
        args = base_args()
        args['W'] = real('W', lo=0.01, hi=20)
        if not isv:
            args['A'], args['An'] = act_d('A', n), act_d('An', n)
        if clipped:
            args.update(th1=scal('th1'), st1=scal('st1'), th2=scal('th2'), st2=scal('st2'))
        if reg:
            args.update(thp=scal('thp'), stp=scal('stp'), beta=scal('beta', lo=0, hi=3))
        env = env_d(n)

        def fun(a):
            a = X(a)
            rg = None
            if reg:
                pi = coax.Policy(func_pid(n=n), env, random_seed=1)
                setp(pi, a.thp, a.stp)
                rg = coax.regularizers.EntropyRegularizer(pi, beta=a.beta)
            if isv:
                f = coax.StochasticV(func_sv('sq', k), env, value_range=(LO, HI), num_bins=k, random_seed=1)
            else:
                f = coax.StochasticQ(func_sq1('sq', k) if kind == 1 else func_sq2('sq', k, n), env, value_range=(LO, HI), num_bins=k, random_seed=1)
            ft = f.copy()
            if clipped:
                fa, fb = f.copy(), f.copy()
                td = TD.ClippedDoubleQLearning(f, q_targ_list=[fa, fb], loss_function=mse, policy_regularizer=rg)
                setp(fa, a.th1, a.st1)
                setp(fb, a.th2, a.st2)
            elif isv:
                td = TD.SimpleTD(f, ft, loss_function=mse, policy_regularizer=rg)
            else:
                td = getattr(TD, cls)(f, q_targ=ft, loss_function=mse, policy_regularizer=rg)
            setp(f, a.th, a.st)
            setp(ft, a.tht, a.stt)
            b = tb(a.S, a.A, a.Sn, a.An, a.R, a.I, a.W)
            if what == 'loss':
                return td.grads_and_metrics(b)[2][cls + '/loss']
            return td.td_error(b)

        def sfun(a):
            with dist_stubs(k):
                return fun(a)

        z = atoms(k)[0]

        def dl(th, st, tr, s, oh):
            return dist_logits(kind, 'sq', th, st, tr, s, oh, k, n)

        def mk(C):
            def mean(lg):
                return sum((m * x for m, x in zip(C.MEAN(lg, k), z)), alg.ZERO)

            def greedy(a, th, st):
                return greedy_mix([mean(dl(th, st, 0, a.Sn, unit(i, n))) for i in range(n)])

            def target(a):
                if isv:
                    return C.AT([F('sq', j, a.tht, a.stt, 0, a.Sn) for j in range(k)], a.I, a.R, k)
                if clipped:
                    cands = []
                    for th, st in ((a.th1, a.st1), (a.th2, a.st2)):
                        g = greedy(a, th, st)
                        for th2, st2 in ((a.th1, a.st1), (a.th2, a.st2)):
                            lg = dl(th2, st2, 0, a.Sn, g)
                            cands.append((mean(lg), lg))
                    best, lg = cands[0]
                    for m, l2 in cands[1:]:
                        c = alg.lt(m, best)
                        best = alg.ite(c, m, best)
                        lg = [alg.ite(c, x, y) for x, y in zip(l2, lg)]
                    return C.AT(lg, a.I, a.R, k)
                oh = onehot(a.An, n) if cls == 'Sarsa' else greedy(a, a.tht, a.stt)
                th, st = (a.th, a.st) if cls == 'DoubleQLearning' else (a.tht, a.stt)
                return C.AT(dl(th, st, 0, a.Sn, oh), a.I, a.R, k)

            def post(out, ar):
                a = X(vec(ar[0]))
                T = target(a)
                if reg:
                    lg = [F('pi', j, a.thp, a.stp, 0, a.S) for j in range(n)]
                    p, lse = softmax(lg), logsumexp(lg)
                    ent = sum((pi * (lse - x) for pi, x in zip(p, lg)), alg.ZERO)
                    T = C.AT(T, alg.ONE, a.beta * ent, k)
                pred = [F('sq', j, a.th, a.st, 1, a.S) for j in range(k)] if isv else dl(a.th, a.st, 1, a.S, onehot(a.A, n))
                if what == 'loss':
                    return [('loss == mean cross-entropy(target, prediction)', out[()], bmean(C.CE(T, pred, k)))]
                return [('td_error == mean(target) - mean(prediction)', out[0], mean(T) - mean(pred))]
            return post
        jax_contract(ck, '%s/categorical/type%d/%s%s' % (cls, kind, what, '/regularized' if reg else ''), sfun, (args,), mk(Stub), [],
                     real=(fun, mk(Real)),
                     funcs=['coax.td_learning._base._get_target_dist_params', 'coax.td_learning.%s.target_func' % cls,
                            'coax.td_learning._base.loss_func (distributional branch)'])
    return ('%s-cat-%d-%s-%s' % (cls, kind, what, reg), job)


def qhuber(y, x, tau):
    """sum over targets, per predicted quantile"""
    e = y - x
    ab = abs(e)
    c = alg.minimum(ab, alg.ONE)
    h = c * c / 2 + (ab - c)
    return abs(tau - alg.lt(e, alg.ZERO)) * h


def quant_job(cls, kind, nq=2, n=2, what='td_error'):
    def job(ck):
        args = base_args()
        args['A'], args['An'] = act_d('A', n), act_d('An', n)
        args['W'] = real('W', lo=0.01, hi=20)
        env = env_d(n)

        def fun(a):
            a = X(a)
            f = coax.StochasticQ(func_qv('sq', nq, kind, n), env, num_bins=nq, random_seed=1)
            ft = f.copy()
            td = getattr(TD, cls)(f, q_targ=ft, loss_function=mse)
            setp(f, a.th, a.st)
            setp(ft, a.tht, a.stt)
            b = tb(a.S, a.A, a.Sn, a.An, a.R, a.I, a.W)
            if what == 'loss':
                return td.grads_and_metrics(b)[2][cls + '/loss']
            return td.td_error(b)

        def sfun(a):
            import coax.td_learning._base as tdb
            with stubbed(tdb, quantile_huber=lambda yt, yp, q, w: jnp.mean(rowfn('QH', 1, yt, yp, q, w)[:, 0])):
                return fun(a)

        def vals(a, th, st, tr, s, oh):
            r = dist_logits(kind, 'sq', th, st, tr, s, oh, 2 * nq, n)
            return r[:nq], r[nq:]

        def mean(v):
            return sum(v, alg.ZERO) / nq

        def mk(stub):
          def post(out, ar):
            a = X(vec(ar[0]))
            if cls == 'Sarsa':
                oh = onehot(a.An, n)
            else:
                oh = greedy_mix([mean(vals(a, a.tht, a.stt, 0, a.Sn, unit(i, n))[0]) for i in range(n)])
            th, st = (a.th, a.st) if cls == 'DoubleQLearning' else (a.tht, a.stt)
            tgt = [a.R + a.I * v for v in vals(a, th, st, 0, a.Sn, oh)[0]]
            pred, tau = vals(a, a.th, a.st, 1, a.S, onehot(a.A, n))
            if what == 'loss':
                w = clip(a.W, alg.ex(0.1), 10)
                if stub:
                    return [('loss == mean quantile-huber(target, prediction, W)', out[()], bmean(FN('QH', 1, *tgt, *pred, *tau, w)[0]))]
                per = sum((qhuber(y, x, t) for x, t in zip(pred, tau) for y in tgt), alg.ZERO) / nq
                return [('loss == mean quantile-huber(target, prediction, W)', out[()], bmean(w * per))]
            return [('td_error == mean target - mean prediction', out[0], mean(tgt) - mean(pred))]
          return post
        hyps = []
        if kind == 1 and cls in ('QLearning', 'DoubleQLearning'):
            a = X(vec({k: v.arr for k, v in args.items()}))
            ms = [mean(vals(a, a.tht, a.stt, 0, a.Sn, unit(i, n))[0]) for i in range(n)]
            hyps = [(ms[i] - ms[j], '!=') for i in range(n) for j in range(i)]
        jax_contract(ck, '%s/quantile/type%d/%s' % (cls, kind, what), sfun, (args,), mk(True), hyps, real=(fun, mk(False)),
                     funcs=['coax.proba_dists.EmpiricalQuantileDist.affine_transform', 'coax.value_losses.quantile_huber',
                            'coax.td_learning.%s.target_func' % cls])
    return ('%s-quant-%d-%s' % (cls, kind, what), job)


def gen_job(cls, kind, dist='cat', disc=True, nt=1, npi=1, n=2, k=2, what='td_error', vt=None, reg=False):
    """every other combination: continuous actions with target policies, several targets, quantile models, value transforms.

    Callees (affine_transform, mean, cross_entropy, quantile_huber) are used through their contracts."""
    isv, clip_, soft = cls == 'SimpleTD', 'Clipped' in cls, cls.startswith('Soft')
    w = k if dist == 'cat' else 2 * k
    tns = ['t%d' % i for i in range(nt)] if clip_ else []
    pis = [] if disc or isv or cls == 'Sarsa' else ['pi', 'pj'][:npi]

    def job(ck):
        args = base_args(disc, n)
        args['W'] = real('W', lo=0.01, hi=20)
        if disc:
            args['A'], args['An'] = act_d('A', n), act_d('An', n)
        args.update({x + nm: scal(x + nm) for nm in tns + pis for x in ('th', 'st')})
        if reg:
            args.update(thpr=scal('thpr'), stpr=scal('stpr'), beta=scal('beta', lo=0, hi=3))
        env = env_d(n) if disc else env_c()
        kwf = dict(num_bins=k, random_seed=1)
        if dist == 'cat':
            kwf['value_range'] = (LO, HI)
        if vt is not None:
            kwf['value_transform'] = coax.value_transforms.LogTransform(vt)

        def net():
            if isv:
                return func_sv('sq', k)
            if dist == 'cat':
                return func_sq1('sq', k) if kind == 1 else func_sq2('sq', k, n)
            return func_qv('sq', k, kind, n)

        def fun(d):
            a = X(d)
            kw = dict(loss_function=mse)
            if reg:
                pr = coax.Policy(func_pid('pr', n) if disc else func_pic('pr'), env, random_seed=1)
                setp(pr, a.thpr, a.stpr)
                kw['policy_regularizer'] = coax.regularizers.EntropyRegularizer(pr, beta=a.beta)
            ps = [setp(coax.Policy(func_pic(nm), env, random_seed=1), d['th' + nm], d['st' + nm]) for nm in pis]
            with jax.ensure_compile_time_eval():      # as outside of a trace: the value range is a pair of numbers
                f = (coax.StochasticV if isv else coax.StochasticQ)(net(), env, **kwf)
            ft = f.copy()
            if clip_:
                ts = [f.copy() for _ in tns]
                td = getattr(TD, cls)(f, q_targ_list=ts, **({} if disc else {'pi_targ_list': ps}), **kw)
                for t, nm in zip(ts, tns):
                    setp(t, d['th' + nm], d['st' + nm])
            elif isv:
                td = TD.SimpleTD(f, ft, **kw)
            else:
                td = getattr(TD, cls)(f, q_targ=ft, **({'pi_targ': ps[0]} if ps else {}), **kw)
            setp(f, a.th, a.st)
            setp(ft, a.tht, a.stt)
            b = tb(a.S, a.A, a.Sn, a.An, a.R, a.I, a.W)
            if what == 'loss':
                return td.grads_and_metrics(b)[2][cls + '/loss']
            return td.td_error(b)

        def sfun(a):
            import contextlib
            import coax.td_learning._base as tdb
            import coax.td_learning._clippeddoubleqlearning as tdc
            qh = lambda yt, yp, q, w: jnp.mean(rowfn('QH', 1, yt, yp, q, w)[:, 0])   # noqa
            with contextlib.ExitStack() as es:
                if dist == 'cat':
                    es.enter_context(dist_stubs(k))
                else:
                    for m in (tdb, tdc):
                        es.enter_context(stubbed(m, quantile_huber=qh))
                return fun(a)

        z = atoms(k)[0]
        f, finv = ident if vt is None else logt(alg.ex(vt))
        wit = [] if vt is None else [f(alg.ex(1)), finv(alg.ex(1))]

        def mk(C):
            def mean(D):
                if dist == 'cat':
                    return sum((m * x for m, x in zip(C.MEAN(D, k), z)), alg.ZERO)
                return sum(D[:k], alg.ZERO) / k

            def at(D, I, R):
                if dist == 'cat':
                    return C.AT(D, I, R, k, f, finv, wit)
                return [f(R + I * finv(v)) for v in D[:k]] + D[k:]

            def dp(th, st, tr, s, act):
                if isv:
                    return [F('sq', j, th, st, tr, s) for j in range(w)]
                if not disc:
                    return [F('sq', j, th, st, tr, s, act) for j in range(w)]
                return dist_logits(kind, 'sq', th, st, tr, s, act, w, n)

            def greedy(a, th, st):
                return greedy_mix([mean(dp(th, st, 0, a.Sn, unit(i, n))) for i in range(n)])

            def piact(a, i):
                nm = pis[i]
                thp, stp = getattr(a, 'th' + nm), getattr(a, 'st' + nm)
                mu = F(nm, 0, thp, stp, 0, a.Sn)
                if soft:
                    mu = mu + alg.fexp(F(nm, 1, thp, stp, 0, a.Sn) / 2) * alg.var('normal%d[0, 0]' % i, row=True)
                return mu

            def target(a):
                if isv:
                    return at(dp(a.tht, a.stt, 0, a.Sn, None), a.I, a.R)
                if clip_:
                    qs = [(getattr(a, 'th' + nm), getattr(a, 'st' + nm)) for nm in tns]
                    acts = [greedy(a, *q) for q in qs] if disc else [piact(a, i) for i in range(len(pis))]
                    cands = [dp(th, st, 0, a.Sn, g) for g in acts for th, st in qs]
                    best, D = finv(mean(cands[0])), cands[0]
                    for D2 in cands[1:]:
                        m = finv(mean(D2))
                        c = alg.lt(m, best)
                        best, D = alg.ite(c, m, best), [alg.ite(c, x, y) for x, y in zip(D2, D)]
                    return at(D, a.I, a.R)
                if cls == 'Sarsa':
                    act = onehot(a.An, n) if disc else a.An
                else:
                    act = greedy(a, a.tht, a.stt) if disc else piact(a, 0)
                th, st = (a.th, a.st) if cls == 'DoubleQLearning' else (a.tht, a.stt)
                return at(dp(th, st, 0, a.Sn, act), a.I, a.R)

            def post(out, ar):
                a = X(vec(ar[0]))
                T = target(a)
                if reg:
                    lg = [F('pr', j, a.thpr, a.stpr, 0, a.S) for j in range(n)]
                    if disc:
                        p, lse = softmax(lg), logsumexp(lg)
                        ent = sum((pi * (lse - x) for pi, x in zip(p, lg)), alg.ZERO)
                    else:
                        import math
                        ent = (alg.ex(math.log(2 * math.pi)) + lg[1] + 1) / 2
                    T = at(T, alg.ONE, a.beta * ent)
                pred = dp(a.th, a.st, 1, a.S, onehot(a.A, n) if disc else a.A)
                if what == 'loss' and dist == 'cat':
                    return [('loss == mean cross-entropy(target, prediction)', out[()], bmean(C.CE(T, pred, k)))]
                if what == 'loss':
                    wt = clip(a.W, alg.ex(0.1), 10)
                    if C is GenStub:
                        return [('loss == mean quantile-huber(target, prediction, W)', out[()], bmean(FN('QH', 1, *T[:k], *pred, wt)[0]))]
                    per = sum((qhuber(y, x, t) for x, t in zip(pred[:k], pred[k:]) for y in T[:k]), alg.ZERO) / k
                    return [('loss == mean quantile-huber(target, prediction, W)', out[()], bmean(wt * per))]
                return [('td_error == mean(target) - mean(prediction)', out[0], mean(T) - mean(pred))]
            return post
        hyps = []
        a = X(vec({x: v.arr for x, v in args.items()}))
        for nm in pis:
            lv = F(nm, 1, getattr(a, 'th' + nm), getattr(a, 'st' + nm), 0, a.Sn)
            hyps += [(lv - 20, '<'), (-20 - lv, '<')]
        if reg and not disc:
            lv = F('pr', 1, a.thpr, a.stpr, 0, a.S)
            hyps += [(lv - 20, '<'), (-20 - lv, '<')]
        if disc and kind == 1 and not isv and cls != 'Sarsa':
            C = GenStub
            for nm in tns or ['t']:
                ms = [mk_mean(C, dist_logits(1, 'sq', getattr(a, 'th' + nm), getattr(a, 'st' + nm), 0, a.Sn, unit(i, n), w, n), dist, k) for i in range(n)]
                hyps += [(ms[i] - ms[j], '!=') for i in range(n) for j in range(i)]
        name = '%s/%s/%s%s/%s%s%s' % (cls, {'cat': 'categorical', 'quant': 'quantile'}[dist], 'state-value' if isv else 'type%d' % kind if disc else 'continuous',
                                     '' if not clip_ else ' %d targets' % nt + ('' if disc else ' %d policies' % npi), what,
                                     '' if vt is None else '/log-transform', '/regularized' if reg else '')
        jax_contract(ck, name, sfun, (args,), mk(GenStub), hyps, real=(fun, mk(GenReal)),
                     funcs=['coax.td_learning._base._get_target_dist_params', 'coax.td_learning.%s.target_func' % cls,
                            'coax.td_learning._base.loss_func (distributional branch)'], deadline_s=150)
    return ('gen-%s-%d-%s-%s-%d-%d-%s-%s-%s' % (cls, kind, dist, disc, nt, npi, what, vt, reg), job)


def mk_mean(C, D, dist, k):
    if dist == 'cat':
        return sum((m * x for m, x in zip(C.MEAN(D, k), atoms(k)[0])), alg.ZERO)
    return sum(D[:k], alg.ZERO) / k


class GenReal(Real):
    @staticmethod
    def AT(lg, I, R, k, f, finv, wit):
        return [alg.flog(x) for x in project(softmax(lg), R, I, k, f, finv)]


class GenStub(Stub):
    AT = staticmethod(lambda lg, I, R, k, f, finv, wit: FN('AT', k, *lg, I, R, *wit))


def common(ck):
    common10(ck)
    ck.assume('distributional learners: 2-3 atoms, 2 quantiles; 2-3 actions; 1-3 target functions, 1-2 target policies',
              'the categorical projection, mean and cross-entropy are used through their contracts (proved under C15 and C18)')


def jobs():
    js = [cat_job('SimpleTD', 2), cat_job('SimpleTD', 2, what='loss'), cat_job('SimpleTD', 2, reg=True), cat_job('QLearning', 2, reg=True),
          cat_job('Sarsa', 1, what='loss'), cat_job('Sarsa', 2, what='loss'),
          cat_job('ClippedDoubleQLearning', 2, n=2), cat_job('ClippedDoubleQLearning', 2, n=2, what='loss')]
    js += [cat_job(c, k) for c in ('Sarsa', 'QLearning', 'DoubleQLearning') for k in (1, 2)]
    js += [quant_job(c, k) for c in ('Sarsa', 'QLearning', 'DoubleQLearning') for k in (1, 2)]
    js += [quant_job('Sarsa', 1, what='loss'), quant_job('QLearning', 2, what='loss')]
    C, S = 'ClippedDoubleQLearning', 'SoftClippedDoubleQLearning'
    js += [gen_job('SimpleTD', 2, vt=2.0, what='loss')]
    for d in ('cat', 'quant'):
        js += [gen_job(c, 1, d, False) for c in ('Sarsa', 'QLearning', 'DoubleQLearning')]
        for c in (C, S):
            js += [gen_job(c, 2, d, True, 2), gen_job(c, 1, d, False, 2, 1), gen_job(c, 1, d, False, 1, 2), gen_job(c, 1, d, False, 2, 2)]
            js += [gen_job(c, 1, d, False, 2, 1, what='loss'), gen_job(c, 2, d, True, 2, what='loss')]
    js += [gen_job(C, 1, 'cat', True, 2), gen_job(C, 1, 'cat', False, 3), gen_job(S, 1, 'quant', False, 3), gen_job(C, 2, 'cat', True, 2, reg=True), gen_job(C, 1, 'quant', False, 2, reg=True)]
    js += [gen_job('QLearning', 2, 'quant', vt=2.0), gen_job('Sarsa', 1, 'cat', vt=2.0, what='loss'), gen_job('Sarsa', 2, 'cat', vt=2.0, reg=True, what='loss'),
           gen_job('QLearning', 1, 'cat', False, vt=2.0, what='loss'),
           gen_job('QLearning', 1, 'cat', False, reg=True), gen_job('Sarsa', 2, 'quant', reg=True)]
    js.append(('common', common))
    return js
