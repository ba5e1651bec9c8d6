"""C10: TD targets of the value-based updaters (deterministic value functions)."""
import jax
import coax
from coax.reward_tracing import TransitionBatch
from lib import alg
from lib.contract import jax_contract
from lib.nets import *   # noqa

TD = coax.td_learning
mse = coax.value_losses.mse
ident = (lambda x: x, lambda x: x)


def logt(c):
    f = lambda x: alg.fsign(x) * c * alg.flog(1 + abs(x) / c)          # noqa
    g = lambda x: alg.fsign(x) * c * (alg.fexp(abs(x) / c) - 1)        # noqa
    return f, g


def tb(S, A, Sn, An, R, I, W=None):
    return TransitionBatch(S=S, A=A, logP=R * 0, Rn=R, In=I, S_next=Sn, A_next=An, W=R * 0 + 1 if W is None else W, idx=R * 0)


def base_args(disc=True, n=NA):
    a = act_d if disc else act_c
    return dict(th=scal('th'), st=scal('st'), tht=scal('tht'), stt=scal('stt'), S=obs('S'), A=a('A'), Sn=obs('Sn'),
                An=a('An'), R=real('R'), I=real('I'))


def vec(args):
    """the generic row of every argument"""
    out = {}
    for k, v in args.items():
        out[k] = v[()] if v.ndim == 0 else (v[0] if v.ndim == 1 else v[0, 0])
    return out


class X:
    def __init__(self, d):
        self.__dict__.update(d)


COMMON = ['coax.td_learning._base.BaseTDLearning.td_error', 'coax.td_learning._base.BaseTDLearningQ.loss_func']


def q_job(clsname, kind, disc=True, vt=None, n=NA, temp=None):
    def job(ck):
        cls = getattr(TD, clsname)
        env = env_d(n) if disc else env_c()
        fq = func_q1() if kind == 1 else func_q2(n=n)
        vtc = None if vt is None else coax.value_transforms.LogTransform(vt)
        f, finv = ident if vt is None else logt(alg.ex(vt))
        need_pi = clsname == 'ExpectedSarsa' or not disc
        args = base_args(disc)
        if need_pi:
            args.update(thp=scal('thp'), stp=scal('stp'))

        def fun(a):
            a = X(a)
            q = coax.Q(fq, env, value_transform=vtc, random_seed=1)
            qt = q.copy()
            kw = dict(q_targ=qt, loss_function=mse)
            if need_pi and clsname != 'Sarsa':
                pi = coax.Policy(func_pid(n=n) if disc else func_pic(), env, random_seed=1)
                setp(pi, a.thp, a.stp)
                kw['pi_targ'] = pi
            if temp is not None:
                kw['temperature'] = temp
            td = cls(q, **kw)
            setp(q, a.th, a.st)
            setp(qt, a.tht, a.stt)
            return td.td_error(tb(a.S, a.A, a.Sn, a.An, a.R, a.I))

        def post(out, ar):
            a = X(vec(ar[0]))
            if disc:
                pred = q_oh(kind, 'q', a.th, a.st, 1, a.S, onehot(a.A, n), n)
                qt = q_all(kind, 'q', a.tht, a.stt, 0, a.Sn, n)
                if clsname == 'Sarsa':
                    nxt = q_oh(kind, 'q', a.tht, a.stt, 0, a.Sn, onehot(a.An, n), n)
                elif clsname == 'QLearning':
                    nxt = amax(qt)
                elif clsname == 'DoubleQLearning':
                    nxt = q_oh(kind, 'q', a.th, a.st, 0, a.Sn, greedy_mix(qt), n)
                elif clsname == 'ExpectedSarsa':
                    pr = softmax([F('pi', k, a.thp, a.stp, 0, a.Sn) for k in range(n)])
                    nxt = (sum((p * finv(x) for p, x in zip(pr, qt)), alg.ZERO))
                elif clsname == 'SoftQLearning':
                    t = alg.ex(1 if temp is None else temp)
                    nxt = t * logsumexp([finv(x) / t for x in qt])
            else:
                pred = F('q', 0, a.th, a.st, 1, a.S, a.A)
                an = a.An if clsname == 'Sarsa' else F('pi', 0, a.thp, a.stp, 0, a.Sn)
                thx, stx = (a.th, a.st) if clsname == 'DoubleQLearning' else (a.tht, a.stt)
                nxt = F('q', 0, thx, stx, 0, a.Sn, an)
            if clsname in ('ExpectedSarsa', 'SoftQLearning') and disc:
                tgt = f(a.R + a.I * nxt)          # expectation / soft maximum of the untransformed values
            else:
                tgt = f(a.R + a.I * finv(nxt))
            return [('td_error == f(Rn + In*f_inv(next)) - prediction', out[0], tgt - pred)]

        hyps = []
        if disc and kind == 1 and clsname in ('QLearning', 'DoubleQLearning'):
            # no exact ties: a model that takes the action as input is queried at one action
            a = X(vec({k: v.arr for k, v in args.items()}))
            qt = q_all(1, 'q', a.tht, a.stt, 0, a.Sn, n)
            hyps = [(qt[i] - qt[j], '!=') for i in range(n) for j in range(i)]
            ck.assume('type-1 q-functions on discrete actions: no exact ties between the target values of two actions')
        name = '%s/%s/type%d%s' % (clsname, 'discrete' if disc else 'continuous', kind, ('' if vt is None else '/log-transform') + ('' if temp is None else '/temperature'))
        jax_contract(ck, name, fun, (args,), post, hyps,
                     funcs=COMMON + ['coax.td_learning.%s.target_func' % clsname, 'coax.Q.function_type%d' % (3 - kind if disc else kind)])
    return ('%s-%d-%s-%s-%s' % (clsname, kind, disc, vt, temp), job)


def v_job(vt):
    def job(ck):
        vtc = None if vt is None else coax.value_transforms.LogTransform(vt)
        f, finv = ident if vt is None else logt(alg.ex(vt))
        args = base_args()

        def fun(a):
            a = X(a)
            v = coax.V(func_v(), env_d(), value_transform=vtc, random_seed=1)
            vt_ = v.copy()
            td = TD.SimpleTD(v, v_targ=vt_, loss_function=mse)
            setp(v, a.th, a.st)
            setp(vt_, a.tht, a.stt)
            return td.td_error(tb(a.S, a.A, a.Sn, a.An, a.R, a.I))

        def post(out, ar):
            a = X(vec(ar[0]))
            return [('td_error', out[0], f(a.R + a.I * finv(F('v', 0, a.tht, a.stt, 0, a.Sn))) - F('v', 0, a.th, a.st, 1, a.S))]
        jax_contract(ck, 'SimpleTD%s' % ('' if vt is None else '/log-transform'), fun, (args,), post,
                     funcs=['coax.td_learning.SimpleTD.target_func', 'coax.td_learning._base.BaseTDLearningV.loss_func'])
    return ('SimpleTD-%s' % vt, job)


def default_targ_job(clsname):
    """without an explicit target network the updater bootstraps from the current parameters"""
    def job(ck):
        args = base_args()

        def fun(a):
            a = X(a)
            if clsname == 'SimpleTD':
                f = coax.V(func_v(), env_d(), random_seed=1)
                td = TD.SimpleTD(f, loss_function=mse)
            else:
                f = coax.Q(func_q2(), env_d(), random_seed=1)
                td = getattr(TD, clsname)(f, loss_function=mse)
            setp(f, a.th, a.st)
            return td.td_error(tb(a.S, a.A, a.Sn, a.An, a.R, a.I))

        def post(out, ar):
            a = X(vec(ar[0]))
            if clsname == 'SimpleTD':
                nxt, pred = F('v', 0, a.th, a.st, 0, a.Sn), F('v', 0, a.th, a.st, 1, a.S)
            else:
                qs = q_all(2, 'q', a.th, a.st, 0, a.Sn)
                nxt = sum((o * q for o, q in zip(onehot(a.An), qs)), alg.ZERO) if clsname == 'Sarsa' else \
                    logsumexp(qs) if clsname == 'SoftQLearning' else amax(qs)
                pred = q_oh(2, 'q', a.th, a.st, 1, a.S, onehot(a.A))
            return [('td_error', out[0], a.R + a.I * nxt - pred)]
        jax_contract(ck, clsname + '/default-target', fun, (args,), post)
    return (clsname + '-default', job)


def clipped_job(clsname, kind, disc=True, n=2, vt=None, nq=2, npi=1):
    def job(ck):
        cls = getattr(TD, clsname)
        env = env_d(n) if disc else env_c()
        nms, pis = ['qa', 'qb', 'qc'][:nq], ['pi', 'pj'][:npi]
        mkf = lambda nm: func_q1(nm) if kind == 1 else func_q2(nm, n)   # noqa
        vtc = None if vt is None else coax.value_transforms.LogTransform(vt)
        f, finv = ident if vt is None else logt(alg.ex(vt))
        args = base_args(disc, n)
        if disc:
            args['A'], args['An'] = act_d('A', n), act_d('An', n)
        args.update({k + nm: scal(k + nm) for nm in nms + ([] if disc else pis) for k in ('th', 'st')})

        def fun(a):
            d = a
            a = X(a)
            q = coax.Q(mkf('qa'), env, value_transform=vtc, random_seed=1)
            qs_ = [coax.Q(mkf(nm), env, value_transform=vtc, random_seed=1) for nm in nms]
            kw = {}
            if not disc:
                kw['pi_targ_list'] = [setp(coax.Policy(func_pic(nm), env, random_seed=1), d['th' + nm], d['st' + nm]) for nm in pis]
            td = cls(q, q_targ_list=qs_, loss_function=mse, **kw)
            setp(q, a.th, a.st)
            for x, nm in zip(qs_, nms):
                setp(x, d['th' + nm], d['st' + nm])
            return td.td_error(tb(a.S, a.A, a.Sn, a.An, a.R, a.I))

        def qs(a):
            return [(nm, getattr(a, 'th' + nm), getattr(a, 'st' + nm)) for nm in nms]

        def post(out, ar):
            a = X(vec(ar[0]))
            cands = []
            if disc:
                pred = q_oh(kind, 'qa', a.th, a.st, 1, a.S, onehot(a.A, n), n)
                for nm, th, st in qs(a):
                    g = greedy_mix(q_all(kind, nm, th, st, 0, a.Sn, n))
                    for nm2, th2, st2 in qs(a):
                        cands.append(q_oh(kind, nm2, th2, st2, 0, a.Sn, g, n))
            else:
                pred = F('qa', 0, a.th, a.st, 1, a.S, a.A)
                for i, nm in enumerate(pis):
                    thp, stp = getattr(a, 'th' + nm), getattr(a, 'st' + nm)
                    mu = F(nm, 0, thp, stp, 0, a.Sn)
                    if clsname.startswith('Soft'):
                        lv = clip(F(nm, 1, thp, stp, 0, a.Sn), -20, 20)
                        mu = mu + alg.fexp(lv / 2) * alg.var('normal%d[0, 0]' % i, row=True)
                    cands += [F(nm2, 0, th2, st2, 0, a.Sn, mu) for nm2, th2, st2 in qs(a)]
            nxt = amin([finv(c) for c in cands])
            return [('td_error == f(Rn + In*min) - prediction', out[0], f(a.R + a.I * nxt) - pred)]
        hyps = []
        a = X(vec({k: v.arr for k, v in args.items()}))
        if not disc:
            for nm in pis:
                lv = F(nm, 1, getattr(a, 'th' + nm), getattr(a, 'st' + nm), 0, a.Sn)
                hyps += [(lv - 20, '<'), (-20 - lv, '<')]
        if disc and kind == 1:
            for nm, th, st in qs(a):
                qt = q_all(1, nm, th, st, 0, a.Sn, n)
                hyps += [(qt[i] - qt[j], '!=') for i in range(n) for j in range(i)]
        jax_contract(ck, '%s/%s/type%d%s/%d targets%s' % (clsname, 'discrete' if disc else 'continuous', kind, '' if vt is None else '/log-transform', nq, '' if disc else ', %d policies' % npi),
                     fun, (args,), post, hyps, funcs=['coax.td_learning.%s.target_func' % clsname], deadline_s=150)
    return ('%s-%d-%s-%s-%d-%d' % (clsname, kind, disc, vt, nq, npi), job)


def common(ck):
    ck.trust('JAX tracing and its primitive semantics (jax.make_jaxpr); haiku transform; z3 4.x',
             'lib/symjax.py: interpretation of JAX primitives; lib/alg.py: normal form of rational/exp/log terms')
    ck.assume('machine arithmetic treated as real arithmetic; NaN/inf not modelled',
              'structural sizes are instantiated: 3 discrete actions (2 for the clipped learners), 1-dim observations/actions; '
              'batch size is symbolic (all batch sizes)',
              'observations lie strictly inside the declared observation space (preprocessing clips otherwise)')


def jobs():
    js = []
    for c in ('Sarsa', 'QLearning', 'DoubleQLearning', 'ExpectedSarsa', 'SoftQLearning'):
        for kind in (1, 2):
            js.append(q_job(c, kind))
    for c in ('Sarsa', 'QLearning', 'DoubleQLearning'):
        js.append(q_job(c, 1, disc=False))
        js.append(q_job(c, 2, vt=2.0, n=2))
    js += [v_job(None), v_job(2.0)]
    js += [default_targ_job(c) for c in ('SimpleTD', 'Sarsa', 'QLearning', 'DoubleQLearning', 'SoftQLearning')]
    for c in ('ClippedDoubleQLearning', 'SoftClippedDoubleQLearning'):
        js += [clipped_job(c, 1), clipped_job(c, 2), clipped_job(c, 1, disc=False), clipped_job(c, 1, False, npi=2), clipped_job(c, 1, False, nq=1, npi=2), clipped_job(c, 1, False, nq=3),
               clipped_job(c, 2, nq=3)]
    js.append(clipped_job('ClippedDoubleQLearning', 1, disc=False, vt=2.0))
    js += [q_job('ExpectedSarsa', 2, vt=2.0, n=2), q_job('SoftQLearning', 2, vt=2.0, n=2),
           q_job('SoftQLearning', 2, temp=0.5), q_job('SoftQLearning', 1, temp=0.5)]
    js.append(('common', common))
    return js
