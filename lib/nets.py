"""Function approximators and environments used as the arbitrary user-supplied parts of a contract.

Every approximator is an uninterpreted row-wise function of (parameter, state, is_training flag, inputs): what is
proved holds for every network of that input/output shape.
"""
import warnings
from collections import namedtuple
import numpy as onp
import jax
import jax.numpy as jnp
import haiku as hk
from gymnasium.spaces import Box, Discrete
from . import alg
from .symjax import SymArg, B, rowfn

warnings.simplefilter('ignore')
Env = namedtuple('Env', 'observation_space action_space')
NA = 3
OBS = Box(-9, 9, (1,))


def env_d(n=NA):
    return Env(OBS, Discrete(n))


def env_c():
    return Env(OBS, Box(-1, 1, (1,)))


def _ps(is_training):
    th = hk.get_parameter('th', (), init=jnp.zeros)
    st = hk.get_state('st', (), init=jnp.zeros)
    if is_training:
        hk.set_state('st', 0.5 * st + 1)
    return th, st, jnp.float32(1. if is_training else 0.)


def func_v(name='v'):
    def func(S, is_training):
        return rowfn(name, 1, *_ps(is_training), S)[:, 0]
    return func


def func_q1(name='q'):
    def func(S, A, is_training):
        return rowfn(name, 1, *_ps(is_training), S, A)[:, 0]
    return func


def func_q2(name='q', n=NA):
    def func(S, is_training):
        return rowfn(name, n, *_ps(is_training), S)
    return func


def func_pid(name='pi', n=NA):
    def func(S, is_training):
        return {'logits': rowfn(name, n, *_ps(is_training), S)}
    return func


def func_pic(name='pi'):
    def func(S, is_training):
        r = rowfn(name, 2, *_ps(is_training), S)
        return {'mu': r[:, :1], 'logvar': r[:, 1:]}
    return func


def func_sv(name='sv', bins=3):
    def func(S, is_training):
        return {'logits': rowfn(name, bins, *_ps(is_training), S)}
    return func


def func_sq1(name='sq', bins=3):
    def func(S, A, is_training):
        return {'logits': rowfn(name, bins, *_ps(is_training), S, A)}
    return func


def func_sq2(name='sq', bins=3, n=NA):
    def func(S, is_training):
        r = rowfn(name, bins * n, *_ps(is_training), S)
        return {'logits': r.reshape(r.shape[0], n, bins)}
    return func


def setp(f, w, st=None):
    f.params = jax.tree_util.tree_map(lambda _: w, f.params)
    if st is not None:
        f.function_state = jax.tree_util.tree_map(lambda _: st, f.function_state)
    return f


def obs(name):
    return SymArg(name, (B, 1), lo=-8, hi=8)


def act_d(name, n=NA):
    return SymArg(name, (B,), 'int32', lo=0, hi=n - 1)


def act_c(name):
    return SymArg(name, (B, 1), lo=-0.875, hi=0.875)


def real(name, **kw):
    return SymArg(name, (B,), **kw)


def scal(name, **kw):
    return SymArg(name, (), **kw)


# ------------------------------------------------------------------ specification side
def onehot(a, n=NA):
    return [alg.eq(a, k) for k in range(n)]


def F(name, k, th, st, tr, *xs):
    return alg.fn('%s.%d' % (name, k), th, st, alg.ex(tr), *[alg.ex(x) for x in xs])


def DF(name, k, th, st, tr, *xs):
    """partial derivative with respect to the parameter"""
    return alg.fn('%s.%d\'0' % (name, k), th, st, alg.ex(tr), *[alg.ex(x) for x in xs])


def q_oh(kind, name, th, st, tr, s, oh, n=NA, fn=F):
    if kind == 1:
        return fn(name, 0, th, st, tr, s, *oh)
    return sum((oh[k] * fn(name, k, th, st, tr, s) for k in range(n)), alg.ZERO)


def q_all(kind, name, th, st, tr, s, n=NA):
    return [q_oh(kind, name, th, st, tr, s, [alg.ex(int(j == k)) for j in range(n)], n) for k in range(n)]


def amax(xs):
    r = xs[0]
    for x in xs[1:]:
        r = alg.maximum(r, x)
    return r


def amin(xs):
    r = xs[0]
    for x in xs[1:]:
        r = alg.minimum(r, x)
    return r


def greedy_mix(xs):
    """uniform mixture over the maximisers"""
    m = amax(xs)
    g = [alg.eq(x, m) for x in xs]
    tot = sum(g, alg.ZERO)
    return [x / tot for x in g]


def softmax(xs):
    e = [alg.fexp(x) for x in xs]
    t = sum(e, alg.ZERO)
    return [x / t for x in e]


def logsumexp(xs):
    return alg.flog(sum((alg.fexp(x) for x in xs), alg.ZERO))


def clip(x, lo, hi):
    return alg.minimum(alg.maximum(alg.ex(x), lo), hi)


def bmean(x):
    return alg.bsum(alg.ex(x)) / alg.BATCH


# ------------------------------------------------------------------ callee contracts (modular proofs)
class stubbed:
    """replace attributes of a class by contract stubs while the real caller is being traced"""

    def __init__(self, cls, **attrs):
        self.cls, self.attrs = cls, attrs

    def __enter__(self):
        self.old = {k: self.cls.__dict__.get(k, None) for k in self.attrs}
        for k, v in self.attrs.items():
            setattr(self.cls, k, v)
        return self

    def __exit__(self, *a):
        for k, v in self.old.items():
            if v is None:
                delattr(self.cls, k)
            else:
                setattr(self.cls, k, v)


def FN(name, n, *xs):
    """uninterpreted vector-valued contract function"""
    return [alg.fn('%s.%d' % (name, j), *[alg.ex(x) for x in xs]) for j in range(n)]


def func_sp1(name='sp'):
    def func(S, A, is_training):
        r = rowfn(name, 2, *_ps(is_training), S, A)
        return {'mu': r[:, :1], 'logvar': r[:, 1:]}
    return func


def func_sp2(name='sp', n=NA):
    def func(S, is_training):
        r = rowfn(name, 2 * n, *_ps(is_training), S).reshape(-1, n, 2)
        return {'mu': r[:, :, :1], 'logvar': r[:, :, 1:]}
    return func


# ------------------------------------------------------------------ an optimizer with a state, linear with distinguishable coefficients
PROBE = (-0.5, 0.25, -0.125, 0.75, 1.0, 0.0625)


def probe_optimizer():
    """update and new state are different combinations of (gradient, state, parameters): a step that is skipped, repeated, or given other arguments shows"""
    import optax
    gu, mu, pu, mm, gm, pm = PROBE
    tm = jax.tree_util.tree_map

    def update(g, m, params=None):
        return tm(lambda g_, m_, p_: gu * g_ + mu * m_ + pu * p_, g, m, params), tm(lambda g_, m_, p_: mm * m_ + gm * g_ + pm * p_, g, m, params)
    return optax.GradientTransformation(lambda p: tm(jnp.zeros_like, p), update)


def probe_set(u, m):
    u.optimizer_state = jax.tree_util.tree_map(lambda _: m, u.optimizer_state)


def probe_step(g, m, p):
    gu, mu, pu, mm, gm, pm = [alg.ex(x) for x in PROBE]
    return p + gu * g + mu * m + pu * p, mm * m + gm * g + pm * p


# ------------------------------------------------------------------ optimizer attributes of an updater, on concrete values
def optimizer_case(make, call, grads, explicit, checks_state=True):
    """make(**kwargs) -> (updater, approximator), always from the same initial values; call(u): one update; grads(u): its gradient.  Returns what is wrong, or None."""
    import optax
    leaves = lambda t: [onp.asarray(x, 'float64') for x in jax.tree_util.tree_leaves(t)]   # noqa: E731
    near = lambda x, y: len(x) == len(y) and all(onp.allclose(a, b, rtol=1e-4, atol=1e-6) for a, b in zip(x, y))   # noqa: E731

    # documented defaults
    res = []
    for kw in ({}, explicit):
        u, f = make(**kw)
        call(u)
        call(u)
        res.append(leaves(f.params))
    if not near(*res):
        return 'the default optimizer / loss function is not the documented one'

    # a replaced optimizer is used from the next update on
    u, f = make(optimizer=optax.sgd(0.5))
    call(u)
    p0, g = leaves(f.params), leaves(grads(u))
    if not any(onp.abs(x).max() > 1e-5 for x in g):
        return None   # nothing to see: not a case
    u.optimizer = optax.sgd(0.125)
    call(u)
    if not near(leaves(f.params), [x - 0.125 * y for x, y in zip(p0, g)]):
        return 'the update after replacing the optimizer is not a step of the new optimizer'
    for attr, val in (('optimizer', optax.adam(0.1)), ('optimizer_state', {'other': onp.zeros(1)}))[:2 if checks_state else 1]:
        before = getattr(u, attr)
        try:
            setattr(u, attr, val)
            return f'{attr} with another state structure accepted'
        except AttributeError:
            if getattr(u, attr) is not before:
                return f'rejected {attr} was stored all the same'

    # a replaced optimizer state is the one the next update starts from
    u, f = make(optimizer=optax.sgd(0.5, momentum=0.75))
    u.optimizer_state = jax.tree_util.tree_map(lambda x: 2. + 0 * x, u.optimizer_state)
    p0, g = leaves(f.params), leaves(grads(u))
    call(u)
    if not near(leaves(f.params), [x - 0.5 * (y + 0.75 * 2) for x, y in zip(p0, g)]):
        return 'the update after setting optimizer_state does not start from it'
    if not near(leaves(u.optimizer_state), [y + 0.75 * 2 for y in g]):
        return 'optimizer_state after the update is not the new state'
