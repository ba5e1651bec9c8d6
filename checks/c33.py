"""C33: the single-observation methods of every function approximator agree with its function, preprocessors, distribution and value transform."""
import sys
import numpy as onp
import coax
from gymnasium.spaces import Discrete, Box, Dict, MultiDiscrete, MultiBinary
from lib import alg
from lib.contract import jax_contract
from lib.nets import *   # noqa
from lib.nets import _ps
from checks.c10 import vec, X

N = 2        # discrete actions
MIX = onp.array([[2., -0.5], [0.25, 3.]], 'float32')
W = 2        # width of the distribution parameters, variates and preprocessed observations
leaves = jax.tree_util.tree_leaves


# ------------------------------------------------------------------ the arbitrary user-supplied parts
def prep(rng, s):
    return rowfn('prep', W, jnp.atleast_2d(jnp.asarray(s)))


def aprep(rng, a):
    # applied to the constant actions 0..n-1 outside of the traced computation, hence explicit
    return jax.nn.one_hot(jnp.atleast_1d(jnp.asarray(a)), N) @ jnp.asarray(MIX)


def caprep(rng, a):
    return rowfn('aprep', W, jnp.atleast_2d(jnp.asarray(a)))


def elementwise(name):
    def f(x):
        x = jnp.asarray(x)
        return rowfn(name, 1, x.reshape(-1, 1)).reshape(x.shape)
    return f


class AnyDist:
    """a probability distribution about which nothing is known but its interface"""
    default_priors = {'logits': jnp.zeros((1, W))}

    def sample(self, dp, rng):
        return rowfn('draw', W, *leaves(dp))

    def mean(self, dp):
        return rowfn('mean', W, *leaves(dp))

    def mode(self, dp):
        return rowfn('mode', W, *leaves(dp))

    def log_proba(self, dp, x):
        return rowfn('lp', 1, *leaves(dp), x)[:, 0]

    def preprocess_variate(self, rng, x):
        return prep(rng, x)

    def postprocess_variate(self, rng, X, index=0, batch_mode=False):
        y = rowfn('post', W, X)
        return y if batch_mode else y[index]


def as_stubs(cls):
    """the same contract, on the class of a distribution that the approximator makes itself"""
    d = AnyDist()
    r = {k: property(lambda self, k=k: getattr(d, k)) for k in ('sample', 'mean', 'mode', 'log_proba')}
    return stubbed(cls, postprocess_variate=lambda self, rng, X, index=0, batch_mode=False: d.postprocess_variate(rng, X, index, batch_mode), **r)


class _Np:
    """numpy as the core modules see it while they are traced: asarray/array of a traced value is that value"""
    def __getattr__(self, k):
        f = getattr(onp, k)
        if k not in ('asarray', 'array'):
            return f
        return lambda x, *a, **kw: x if any(isinstance(v, jax.core.Tracer) for v in leaves(x)) else f(x, *a, **kw)


class traced_numpy:
    def __enter__(self):
        self.old = [(m, k, v) for n, m in list(sys.modules.items()) if n.startswith('coax._core') for k, v in list(vars(m).items()) if v is onp]
        for m, k, _ in self.old:
            setattr(m, k, _Np())

    def __exit__(self, *a):
        for m, k, v in self.old:
            setattr(m, k, v)


def net(cls, kind, n=N):
    """an arbitrary network with the shape the approximator needs"""
    w, nm = (1 if cls in ('V', 'Q', 'RewardFunction') else W), 'net'

    def out(r, lead):
        return r[..., 0] if w == 1 else r if cls == 'TransitionModel' else {'logits': r}

    def f1(S, A, is_training):
        return out(rowfn(nm, w, *_ps(is_training), S, A), 1)

    def f2(S, is_training):
        if kind == 2:
            return out(rowfn(nm, n * w, *_ps(is_training), S).reshape(-1, n, w), 2)
        return out(rowfn(nm, w, *_ps(is_training), S), 1)
    return f1 if kind in (1, 'c') else f2


STATE = ('V', 'StochasticV', 'Policy')
STOCH = ('StochasticV', 'Policy', 'StochasticQ', 'StochasticTransitionModel', 'StochasticRewardFunction')


def make(cls, kind, vt):
    env = Env(OBS, Box(-1, 1, (1,)) if kind == 'c' else Discrete(N))
    kw = dict(random_seed=1)
    if cls not in ('StochasticTransitionModel',):
        kw['observation_preprocessor'] = prep
    if cls not in STATE and kind != 2:
        kw['action_preprocessor'] = caprep if kind == 'c' else aprep
    if cls in ('Policy', 'StochasticTransitionModel'):
        kw['proba_dist'] = AnyDist()
    if cls in ('StochasticV', 'StochasticQ', 'StochasticRewardFunction'):
        kw.update(value_range=(-1, 1), num_bins=W)
    if cls == 'TransitionModel':
        kw['observation_postprocessor'] = AnyDist().postprocess_variate
    if vt:
        f, g = elementwise('vt'), elementwise('vt_inv')
        if cls in STOCH:      # applied to the value range at construction, hence explicit
            f, g = (lambda x: 2 * x + 0.5), (lambda x: (x - 0.5) / 2)
        kw['value_transform'] = (f, g) if vt == 'pair' else coax.value_transforms.ValueTransform(f, g)
    return getattr(coax, cls)(net(cls, kind), env, **kw)


def call_job(cls, kind=None, vt=None):
    """kind: None (state function), 1 / 2 (model types, discrete actions), 'c' (continuous actions)"""
    def job(ck):
        args = dict(s=SymArg('s', (1,), lo=-8, hi=8), th=scal('th'), st=scal('st'))
        if kind == 'c':
            args['a'] = SymArg('a', (1,), lo=-0.875, hi=0.875)
        elif kind is not None:
            args['a'] = SymArg('a', (), 'int32', lo=0, hi=N - 1)
        stoch = cls in STOCH

        def fun(a):
            a = X(a)
            f = make(cls, kind, vt)
            if cls in ('StochasticV', 'StochasticQ', 'StochasticRewardFunction'):
                with as_stubs(type(f.proba_dist)):
                    return body(f, a)
            return body(f, a)

        def body(f, a):
            setp(f, a.th, a.st)
            r = {}
            with traced_numpy():
                for tag, xs in (('s', (a.s,)), ('sa', (a.s, a.a) if kind else ())):
                    if not xs or (kind == 'c' and tag == 's'):
                        continue
                    r[tag] = f(*xs)
                    if stoch:
                        r[tag + '-logp'] = f(*xs, return_logp=True)
                        r[tag + '-no'] = f(*xs, return_logp=False)
                        for m in ('mean', 'mode', 'dist_params'):
                            r['%s-%s' % (tag, m)] = getattr(f, m)(*xs)
                r['state'] = leaves(f.function_state)[0]
                r['th'] = leaves(f.params)[0]
            return r

        def post(o, ar):
            a = X(vec(ar[0]))
            w = 1 if cls in ('V', 'Q', 'RewardFunction') else W
            s = ar[0]['s'].ravel()[0]
            S = FN('prep', W, s)

            def ap(A):
                return FN('aprep', W, *A) if kind == 'c' else [sum((A[i] * alg.ex(float(MIX[i, j])) for i in range(N)), alg.ZERO) for j in range(W)]

            def outs(A, k):
                """network output for the preprocessed input, in inference mode"""
                if kind is None:
                    r = [F('net', j, a.th, a.st, 0, *S) for j in range(w)]
                elif kind == 2:
                    r = [F('net', k * w + j, a.th, a.st, 0, *S) for j in range(w)]
                else:
                    r = [F('net', j, a.th, a.st, 0, *S, *ap(A)) for j in range(w)]
                if w == 1 and vt:
                    r = FN('vt_inv', 1, *r)
                return r

            def spec(net, what):
                if what == 'dist_params':
                    return net
                x = FN({'sample': 'draw'}.get(what, what), W, *net)
                x = FN('post', W, *x)
                return [(v - alg.ex(0.5)) / 2 for v in x] if vt else x

            def both(label, x, y):
                x = [v for l_ in leaves(x) for v in onp.asarray(l_).ravel()]
                r = [(label + ': number of values', alg.ex(len(x)), alg.ex(len(y)))]
                return r + [('%s[%d]' % (label, i), p, q) for i, (p, q) in enumerate(zip(x, y))]

            todo = []
            if kind in (1, 2):
                oh = [[alg.ex(int(i == k)) for i in range(N)] for k in range(N)]
                todo.append(('s', [outs(oh[k], k) for k in range(N)], None))
                sel = onehot(a.a, N)
                if kind == 1:
                    todo.append(('sa', [outs(sel, None)], None))
                else:
                    raw = [[F('net', k * w + j, a.th, a.st, 0, *S) for j in range(w)] for k in range(N)]
                    mix = [sum((sel[k] * raw[k][j] for k in range(N)), alg.ZERO) for j in range(w)]
                    todo.append(('sa', [FN('vt_inv', 1, *mix) if w == 1 and vt else mix], None))
            elif kind == 'c':
                todo.append(('sa', [outs(list(ar[0]['a'].ravel()), None)], None))
            else:
                todo.append(('s', [outs(None, None)], None))
            r = []
            for tag, nets, _ in todo:
                cat = lambda what: [v for n in nets for v in spec(n, what)]   # noqa
                if not stoch:
                    val = [v for n in nets for v in (n if w == 1 else FN('post', W, *n))]
                    r += both('f(%s) is the function at the preprocessed input' % tag, o[tag], val)
                    continue
                lps = [FN('lp', 1, *n, *FN('draw', W, *n))[0] for n in nets]
                r += both('f(%s) is a draw from the distribution, postprocessed' % tag, o[tag], cat('sample'))
                r += both('f(%s, return_logp=False)' % tag, o[tag + '-no'], cat('sample'))
                r += both('f(%s, return_logp=True)[0]' % tag, o[tag + '-logp'][0], cat('sample'))
                r += both('f(%s, return_logp=True)[1] is the log-probability of the draw' % tag, o[tag + '-logp'][1], lps)
                for m in ('mean', 'mode', 'dist_params'):
                    r += both('%s(%s)' % (m, tag), o['%s-%s' % (tag, m)], cat(m))
            r += [('the call leaves the function state alone', o['state'][()], a.st), ('the call leaves the parameters alone', o['th'][()], a.th)]
            return r
        B_ = {'V': 'V', 'Q': 'Q', 'RewardFunction': 'Q', 'TransitionModel': 'TransitionModel'}.get(cls)
        base = 'coax._core.base_stochastic_func_type%d' % (2 if cls in STATE else 1) + '.' + ('StochasticFuncType2Mixin' if cls in STATE else 'BaseStochasticFuncType1')
        fs = ['coax.%s.%s' % (cls, m) for m in ('__init__', '__call__') + (('mean', 'mode', 'dist_params') if stoch else ())]
        fs += [base + '.' + m for m in ('__call__', 'mean', 'mode', 'dist_params')] if not B_ else []
        jax_contract(ck, '%s%s%s' % (cls, '/type %s' % kind if kind else '', '/value transform ' + vt if vt else ''), fun, (args,), post, funcs=fs)
    return ('call-%s-%s-%s' % (cls, kind, vt), job)


# ------------------------------------------------------------------ construction (bounded)
def reject_job(ck):
    """constructors accept a function with the documented signature and output, and reject the others; setters reject other structures"""
    env, cenv = env_d(3), env_c()
    lin = lambda k: (lambda S: hk.Linear(k)(S))   # noqa

    def v(S, is_training):
        return lin(1)(S)[:, 0]

    def v_col(S, is_training):
        return lin(1)(S)

    def v_sig(S, A):
        return lin(1)(S)[:, 0]

    def v_int(S, is_training):
        return jnp.ones(S.shape[0], 'int32') + 0 * lin(1)(S)[:, 0].astype('int32')

    def v_tree(S, is_training):
        return {'v': lin(1)(S)[:, 0]}

    def q1(S, A, is_training):
        return lin(1)(jnp.concatenate([S, A], -1))[:, 0]

    def q1_col(S, A, is_training):
        return lin(1)(jnp.concatenate([S, A], -1))

    def q2(S, is_training):
        return lin(3)(S)

    def q2_bad(S, is_training):
        return lin(4)(S)

    def q_sig(S, A):
        return lin(1)(S)[:, 0]

    def p3(S, is_training):
        return {'logits': lin(3)(S)}

    def p4(S, is_training):
        return {'logits': lin(4)(S)}

    def p_raw(S, is_training):
        return lin(3)(S)

    def p_mu(S, is_training):
        return {'mu': lin(1)(S), 'logvar': lin(1)(S)}

    def p_sig(S):
        return {'logits': lin(3)(S)}

    def sq1(S, A, is_training):
        return {'logits': lin(5)(jnp.concatenate([S, A], -1))}

    def sq2(S, is_training):
        return {'logits': lin(15)(S).reshape(-1, 3, 5)}

    def sq2_bad(S, is_training):
        return {'logits': lin(10)(S).reshape(-1, 2, 5)}

    def sq_raw(S, A, is_training):
        return lin(5)(S)

    def t1(S, A, is_training):
        return S + 0 * lin(1)(S)

    def t2(S, is_training):
        return jnp.stack([S + lin(1)(S)] * 3, 1)

    def t2_bad(S, is_training):
        return jnp.stack([S + lin(1)(S)] * 2, 1)

    def t1_bad(S, A, is_training):
        return lin(2)(S)

    kv = dict(value_range=(-1, 1), num_bins=5)
    good = [('V', v, env, {}), ('Q', q1, env, {}), ('Q', q2, env, {}), ('Q', q1, cenv, {}), ('RewardFunction', q1, env, {}), ('RewardFunction', q2, env, {}), ('Policy', p3, env, {}),
            ('Policy', p_mu, cenv, {}), ('StochasticV', lambda S, is_training: {'logits': lin(5)(S)}, env, kv), ('StochasticQ', sq1, env, kv), ('StochasticQ', sq2, env, kv),
            ('StochasticQ', sq1, cenv, kv), ('TransitionModel', t1, env, {}), ('TransitionModel', t2, env, {}), ('StochasticTransitionModel', lambda S, A, is_training: p_mu(S, is_training), env, {}),
            ('StochasticRewardFunction', sq1, env, kv)]
    bad = [('V', v_col, env, {}), ('V', v_sig, env, {}), ('V', v_int, env, {}), ('V', v_tree, env, {}), ('V', q1, env, {}),
           ('Q', q1_col, env, {}), ('Q', q2_bad, env, {}), ('Q', q_sig, env, {}), ('Q', q2, cenv, {}), ('Q', v, env, {}), ('RewardFunction', q2_bad, env, {}), ('Q', p3, env, {}),
           ('Policy', p4, env, {}), ('Policy', p_raw, env, {}), ('Policy', p_mu, env, {}), ('Policy', p3, cenv, {}), ('Policy', p_sig, env, {}), ('Policy', sq1, env, {}),
           ('StochasticV', p4, env, kv), ('StochasticV', p_raw, env, kv), ('StochasticQ', sq2_bad, env, kv), ('StochasticQ', sq_raw, env, kv), ('StochasticQ', sq2, cenv, kv),
           ('StochasticQ', p_sig, env, kv), ('TransitionModel', t2_bad, env, {}), ('TransitionModel', t1_bad, env, {}), ('TransitionModel', t2, cenv, {}), ('TransitionModel', p_sig, env, {}),
           ('StochasticTransitionModel', sq1, env, {}), ('StochasticRewardFunction', sq2_bad, env, kv)]
    tab = dict([('good%d' % i, (g, True)) for i, g in enumerate(good)] + [('bad%d' % i, (g, False)) for i, g in enumerate(bad)])

    def case(c):
        (cls, f, e, kw), ok = tab[c]
        what = '%s with function %s' % (cls, f.__name__)
        try:
            x = getattr(coax, cls)(f, e, random_seed=2, **kw)
        except TypeError as ex_:
            return '%s is rejected: %s' % (what, ex_) if ok else None
        if not ok:
            return '%s is accepted, though its signature or output is not the documented one' % what
        p, st = x.params, x.function_state
        for attr, old in (('params', p), ('function_state', st)):
            try:
                setattr(x, attr, {'other': {'w': jnp.zeros(1)}})
                return '%s: %s with another structure accepted' % (what, attr)
            except TypeError:
                pass
            if getattr(x, attr) is not old:
                return '%s: rejected %s stored all the same' % (what, attr)
        y = getattr(coax, cls)(f, e, random_seed=2, **kw)
        if not all(onp.array_equal(u, w) for u, w in zip(leaves(p), leaves(y.params))):
            return '%s: the same random seed gives other initial parameters' % what
        if not (onp.array_equal(x.rng, y.rng) and onp.array_equal(x.rng, y.rng)) or onp.array_equal(x.rng, x.rng):
            return '%s: random keys are not a reproducible sequence of distinct keys' % what
    ck.concrete('construction', case, sorted(tab), bound='%d classes/functions' % len(tab))
    for r in ((1, -1), (0, 0), (1,), 'ab', None, (0, 1, 2)):
        def rng_case(c):
            try:
                coax.StochasticV(lambda S, is_training: {'logits': lin(5)(S)}, env, value_range=c, num_bins=5)
                return 'value_range %r accepted' % (c,)
            except TypeError:
                pass
        ck.concrete('value_range', rng_case, [r], bound='6 malformed ranges')
    ck.fn('coax._core.base_func.BaseFunc.__init__', 'coax.V._check_output', 'coax.Q._check_output', 'coax.Q._check_signature', how='bounded')


# ------------------------------------------------------------------ the real distributions, end to end (bounded)
def real_job(ck):
    """a policy over every kind of action space: actions are elements of the space, the log-propensity is the one of the returned action"""
    def outfn(priors):
        def f(S, is_training):
            t, pos = jax.tree_util.tree_structure(priors), []
            for i, x in enumerate(leaves(priors)):
                n = int(onp.prod(x.shape[1:]))
                pos.append(jnp.tanh(hk.Linear(n, w_init=hk.initializers.RandomNormal(), name='l%d' % i)(S)).reshape((-1,) + x.shape[1:]))
            return jax.tree_util.tree_unflatten(t, pos)
        return f

    spaces = dict(d=Discrete(4), md=MultiDiscrete([2, 3]), mb=MultiBinary(3), box=Box(-2, 3, (2,)), box0=Box(onp.float32(-1), onp.float32(1), ()),
                  dict=Dict(x=Discrete(3), y=Box(0, 1, (2,))))

    def case(c):
        k, seed = c
        sp = spaces[k]
        env = Env(OBS, sp)
        pd = coax.proba_dists.ProbaDist(sp)
        mk = lambda: coax.Policy(outfn(pd.default_priors), env, random_seed=seed)   # noqa
        pi, pi2 = mk(), mk()
        s = onp.float32([seed % 3 - 0.7])
        seen = []
        if repr([pi(s) for _ in range(3)]) != repr([pi2(s) for _ in range(3)]):
            return 'two policies with the same random seed draw different actions'
        for _ in range(8):
            a, lp = pi(s, return_logp=True)
            if not sp.contains(a):
                return 'action %r is not an element of the action space' % (a,)
            if onp.shape(lp) != ():
                return 'log-propensity is not a scalar'
            dp = jax.tree_util.tree_map(lambda x: x[None], pi.dist_params(s))
            A = pd.preprocess_variate(pi.rng, a)
            want = float(pd.log_proba(dp, A)[0])
            if k == 'd':
                # the variate of a discrete distribution is relaxed: its log-probability lies between those of the actions
                l_ = onp.asarray(jax.nn.log_softmax(dp['logits'][0]))
                if not l_.min() - 1e-4 <= float(lp) <= l_.max() + 1e-4:
                    return 'log-propensity %r outside of the range %r' % (float(lp), (l_.min(), l_.max()))
            if k not in ('box', 'box0'):
                seen.append(repr(a))
                continue
            # a bounded action next to its bound has lost the digits that determine the variate
            if abs(float(lp) - want) > 0.05 + 0.02 * abs(want) and not near_bound(sp, a):
                return 'log-propensity %r of action %r, expected %r' % (float(lp), a, want)
            seen.append(repr(a))
        x = pi(s)
        if isinstance(x, tuple) and not sp.contains(x):
            return 'pi(s) does not return an action'
        if not sp.contains(x) or not sp.contains(pi.mode(s)) or not sp.contains(pi.mean(s)):
            return 'pi(s), pi.mode(s) or pi.mean(s) is not an element of the action space'
        if repr(pi.mode(s)) != repr(pi.mode(s)) and k != 'mb':
            return 'mode differs from call to call'
        if len(set(seen)) == 1 and k not in ('d',):
            return 'eight draws of the same action'
        if k == 'd' and pi.mode(s) != int(onp.argmax(pi.dist_params(s)['logits'])):
            return 'mode is not the most likely action'

    def near_bound(sp, a):
        if isinstance(sp, Dict):
            return any(near_bound(sp[k], a[k]) for k in sp)
        if not isinstance(sp, Box):
            return False
        u = (onp.asarray(a, 'float64') - sp.low) / (sp.high - sp.low)
        return bool((onp.minimum(u, 1 - u) < 1e-3).any())
    ck.concrete('policies', case, [(k, s) for k in spaces for s in (1, 2, 3)], bound='6 action spaces, 3 seeds, 8 draws')
    ck.fn('coax.Policy.__call__', how='deductive (arbitrary distribution) and bounded (the distributions of ProbaDist)')


def common(ck):
    ck.trust('JAX tracing and its primitive semantics (jax.make_jaxpr); z3', 'lib/symjax.py, lib/alg.py', 'numpy.asarray of a computed array is that array (replaced by the identity while tracing)')
    ck.assume('machine arithmetic treated as real arithmetic', 'networks, preprocessors, value transforms and distributions are arbitrary row-wise functions; for a given random key a draw is some function of the distribution parameters',
              'number of actions and widths instantiated at 2 (the code is generic in them)')


def jobs():
    js = [call_job('V'), call_job('V', None, 'pair'), call_job('V', None, 'object'), call_job('Policy'), call_job('StochasticV')]
    for c in ('Q', 'RewardFunction', 'TransitionModel', 'StochasticQ', 'StochasticTransitionModel', 'StochasticRewardFunction'):
        for k in (1, 2, 'c'):
            js.append(call_job(c, k))
    for k in (1, 2, 'c'):
        js += [call_job('Q', k, 'pair'), call_job('Q', k, 'object')]
    for vt in ('pair', 'object'):
        js += [call_job('StochasticV', None, vt), call_job('StochasticQ', 1, vt), call_job('StochasticQ', 2, vt), call_job('StochasticQ', 'c', vt), call_job('StochasticRewardFunction', 1, vt)]
    return js + [('reject', reject_job), ('real', real_job), ('common', common)]
