"""C30: action values composed from a dynamics model: q(s,a) = r(s,a) + gamma v(p(s,a))."""
import numpy as onp
import coax
from lib import alg
from lib.contract import jax_contract
from lib.nets import *   # noqa
from checks.c10 import vec, X, logt, ident
from checks.c15 import dot
from checks.c33 import elementwise
from checks.c23 import OBSK, space, sargs, getS, rowS, fill, width, func, template
from gymnasium.spaces import Discrete

KEY = jax.random.PRNGKey(3)
BINS, VR = 2, (-1., 2.)


def asis(ob):
    """observations are given in preprocessed form"""
    t = OBSK[ob]
    return lambda rng, s: {k: jnp.reshape(s[k], (-1,) + t[k]) for k in t} if isinstance(t, dict) else jnp.reshape(jnp.asarray(s), (-1,) + t)


def func_vt(name='v', w=1):
    def f(S, is_training):
        r = rowfn(name, w, *_ps_(is_training), *jax.tree_util.tree_leaves(S))
        return r[:, 0] if w == 1 else {'logits': r}
    return f


def _ps_(tr):
    from lib.nets import _ps
    return _ps(tr)


AFF = (lambda x: 2 * x + 0.5, lambda x: (x - 0.5) / 2)     # a transform of the reward function, exact in binary arithmetic


def build(pk, rk, stoch_p, stoch_r, vt, n, gamma, stoch_v=False, ob='1', rt=None):
    e = Env(space(ob), Discrete(n))
    kw = dict(observation_preprocessor=asis(ob), random_seed=1)
    if stoch_v:
        v = coax.StochasticV(func_vt('sv', BINS), e, value_range=VR, num_bins=BINS, **kw)
    else:
        v = coax.V(func_vt(), e, value_transform=None if vt is None else (elementwise('vt'), elementwise('vt_inv')) if vt == 'any' else coax.value_transforms.LogTransform(vt), **kw)
    cp = 'StochasticTransitionModel' if stoch_p else 'TransitionModel'
    p = getattr(coax, cp)(func(cp, pk, n, ob), e, **kw)
    if stoch_r:
        r = coax.StochasticRewardFunction(func('StochasticQ', rk, n, ob, 'sr'), e, value_range=VR, num_bins=BINS, value_transform=AFF if rt else None, **kw)
    else:
        r = coax.RewardFunction(func('RewardFunction', rk, n, ob, 'r'), e, value_transform=(elementwise('rt'), elementwise('rt_inv')) if rt else None, **kw)
    import coax._core.successor_state_q as m
    with stubbed(m, check_preprocessors=lambda *a, **k: True):       # only decides about a warning
        return v, p, r, coax.SuccessorStateQ(v, p, r, gamma=gamma)


def job_(pk, rk, stoch_p=False, stoch_r=False, vt=None, n=3, stoch_v=False, ob='1', training=False, rt=None):
    def job(ck):
        args = dict(tv=scal('tv'), sv=scal('sv'), tp=scal('tp'), sp=scal('sp'), tr=scal('tr'), sr=scal('sr'), g=scal('g', lo=0, hi=1), A=act_d('A', n), **sargs(ob))
        t = int(training)
        f, finv = ident if vt is None else [lambda x, k=k: FN(k, 1, x)[0] for k in ('vt', 'vt_inv')] if vt == 'any' else logt(alg.ex(vt))

        def fun(a):
            S, a = getS(a, ob), X(a)
            v, p, r, q = build(pk, rk, stoch_p, stoch_r, vt, n, a.g, stoch_v, ob, rt)
            setp(v, a.tv, a.sv)
            setp(p, a.tp, a.sp)
            setp(r, a.tr, a.sr)
            A = q.action_preprocessor(KEY, a.A)
            q1, s1 = q.function_type1(q.params, q.function_state, KEY, S, A, training)
            q2, s2 = q.function_type2(q.params, q.function_state, KEY, S, training)
            st = {'s%d%s' % (i, k): jax.tree_util.tree_leaves(s[k])[0] for i, s in ((1, s1), (2, s2)) for k in 'vpr'}
            return dict(q1=q1, q2=q2, **st)

        def post(o, ar):
            a, S = X(vec(ar[0])), rowS(ar[0], ob)
            oh = onehot(a.A, n)

            def net(nm, kind, j, wd, k, th, st):
                if kind == 1:
                    return F(nm, j, th, st, t, *S, *[alg.ex(int(i == k)) for i in range(n)])
                return F(nm, k * wd + j, th, st, t, *S)
            at = [alg.ex(VR[0] + (VR[1] - VR[0]) / BINS * (j + .5)) for j in range(BINS)]
            want = []
            for k in range(n):
                tp = template('StochasticTransitionModel' if stoch_p else 'TransitionModel', ob)
                s2 = fill(tp, onp.array([net('sp' if stoch_p else 'p', pk, j, width(tp), k, a.tp, a.sp) for j in range(width(tp))], dtype=object), 0)
                s2 = [s2[x] for x in sorted(s2)] if ob == 'dict' else [s2]
                s2 = [x for y in s2 for x in (y['mu'] if stoch_p else y).ravel()]
                if stoch_r:
                    lo, hi = [AFF[0](x) if rt else x for x in VR]
                    r = dot(softmax([net('sr', rk, j, BINS, k, a.tr, a.sr) for j in range(BINS)]), [alg.ex(lo + (hi - lo) / BINS * (j + .5)) for j in range(BINS)])
                    r = (r - alg.ex(0.5)) / 2 if rt else r
                else:
                    r = net('r', rk, 0, 1, k, a.tr, a.sr)
                    r = FN('rt_inv', 1, r)[0] if rt else r
                if stoch_v:
                    v = dot(softmax([F('sv', j, a.tv, a.sv, t, *s2) for j in range(BINS)]), at)
                else:
                    v = finv(F('v', 0, a.tv, a.sv, t, *s2))
                want.append(f(r + a.g * v))
            res = [('q(s)[%d] == f(r + gamma*finv(v(s\')))' % k, o['q2'][0, k], want[k]) for k in range(n)]
            res.append(('q(s,a)', o['q1'][0], dot(oh, want)))
            for i in (1, 2):
                for k, st in (('v', a.sv), ('p', a.sp), ('r', a.sr)):
                    res.append(('state of %s (type %d)' % (k, i), o['s%d%s' % (i, k)][()], alg.ex(0.5) * st + 1 if training else st))
            return res
        jax_contract(ck, 'SuccessorStateQ/p%d%s/r%d%s%s%s' % (pk, 's' if stoch_p else '', rk, 's' if stoch_r else '', '/vs' if stoch_v else '', ('/transformed' if vt else '') + ('/transformed reward' if rt else '') + '/obs ' + ob + ('/training' if training else '')), fun, (args,), post,
                     funcs=['coax.SuccessorStateQ.function_type1', 'coax.SuccessorStateQ.function_type2'], deadline_s=120, max_paths=6000)
    return ('%d%d%s%s%s%s%s%s%s' % (pk, rk, stoch_p, stoch_r, vt, stoch_v, ob, training, rt), job)


def call_job(ck):
    rnd = ck.rnd

    def case(c):
        pk, rk, s, th, g = c
        v, p, r, q = build(pk, rk, False, False, None, 3, g)
        for i, f in enumerate((v, p, r)):
            setp(f, jnp.float32(th + i), jnp.float32(.5))
        s = onp.array([s], 'float32')
        S = s[None]
        all_ = q(s)
        for k in range(3):
            A = p.action_preprocessor(KEY, onp.array([k]))
            s2, _ = p.function_type1(p.params, p.function_state, KEY, S, A, False)
            rr, _ = r.function_type1(r.params, r.function_state, KEY, S, A, False)
            vv, _ = v.function(v.params, v.function_state, KEY, s2, False)
            want = float(rr[0] + g * vv[0])
            if abs(all_[k] - want) > 1e-3 or abs(float(q(s, k)) - want) > 1e-3:
                return 'q(s)[%d] = %r, q(s,%d) = %r, expected %r' % (k, float(all_[k]), k, float(q(s, k)), want)
        q.gamma = 0.
        if not onp.allclose([q(s, k) for k in range(3)], [float(r(s, k)) for k in range(3)], atol=1e-4):
            return 'changing gamma has no effect'
    cases = [(pk, rk, float(rnd.uniform(-3, 3)), float(rnd.uniform(-2, 2)), float(rnd.rand())) for pk in (1, 2) for rk in (1, 2)]
    ck.concrete('single-state calls', case, cases, bound='4 model-type combinations')
    ck.fn('coax.SuccessorStateQ.__call__', how='bounded')


def common(ck):
    ck.trust('JAX tracing and its primitive semantics; z3', 'lib/symjax.py, lib/alg.py')
    ck.assume('machine arithmetic treated as real arithmetic', 'v, p, r are arbitrary row-wise functions with the same observation preprocessor',
              'number of actions instantiated at 2 and 3')


def jobs():
    return [job_(1, 1), job_(1, 2), job_(2, 1), job_(2, 2), job_(1, 1, vt=2., n=2), job_(2, 2, vt=2., n=2), job_(1, 1, True, n=2), job_(2, 2, True, n=2), job_(1, 2, False, True, n=2),
            job_(2, 1, False, True, n=2), job_(2, 2, False, False, stoch_v=True, n=2),
            job_(1, 2, n=2, ob='2x2', training=True), job_(2, 1, n=2, ob='2x2'), job_(1, 2, n=2, ob='dict'), job_(2, 1, n=2, ob='dict', training=True), job_(2, 1, True, n=2, ob='dict', training=True),
            job_(1, 2, True, True, n=2, ob='2', training=True, stoch_v=True),
            job_(1, 2, vt='any', n=2, rt=True), job_(2, 1, vt='any', n=2, rt=True), job_(1, 1, rt=True, n=2), job_(2, 2, rt=True, n=2), job_(1, 2, False, True, n=2, rt=True), job_(2, 1, False, True, vt='any', n=2, rt=True), ('call', call_job), ('common', common)]
