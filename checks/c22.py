"""C22: target-network synchronisation: soft updates, copies, structure-checked setters."""
import numpy as onp
import coax
from lib import alg
from lib.contract import jax_contract
from lib.nets import *   # noqa
from checks.c10 import vec, X


def makers():
    e = env_d()
    return {
        'V': lambda: coax.V(func_v(), e, random_seed=1),
        'Q1': lambda: coax.Q(func_q1(), e, random_seed=1),
        'Q2': lambda: coax.Q(func_q2(), e, random_seed=1),
        'Policy': lambda: coax.Policy(func_pid(), e, random_seed=1),
        'PolicyC': lambda: coax.Policy(func_pic(), env_c(), random_seed=1),
        'StochasticV': lambda: coax.StochasticV(func_sv(), e, value_range=(-1, 1), num_bins=3, random_seed=1),
        'StochasticQ': lambda: coax.StochasticQ(func_sq2(), e, value_range=(-1, 1), num_bins=3, random_seed=1),
        'RewardFunction': lambda: coax.RewardFunction(func_q1('r'), e, random_seed=1),
        'TransitionModel': lambda: coax.TransitionModel(func_p2(), e, random_seed=1),
    }


def func_p2(name='p', n=NA):
    def func(S, is_training):
        r = rowfn(name, n, *_ps_(is_training), S)
        return r.reshape(r.shape[0], n, 1)
    return func


def func_p1(name='p'):
    def func(S, A, is_training):
        return rowfn(name, 1, *_ps_(is_training), S, A)
    return func


def _ps_(tr):
    from lib.nets import _ps
    return _ps(tr)


def two(S, is_training):
    """a value function with two parameters and two state entries"""
    a = hk.get_parameter('a', (), init=jnp.zeros)
    b = hk.get_parameter('b', (2,), init=jnp.zeros)
    s = hk.get_state('s', (), init=jnp.zeros)
    t = hk.get_state('t', (2,), init=jnp.zeros)
    hk.set_state('s', s)
    return S[:, 0] * a + b.sum() + t.sum()


def soft_job(kind, chain=False):
    """f.soft_update(g, tau): both parameters and function state move; g is untouched"""
    def job(ck):
        args = dict(th=scal('th'), st=scal('st'), th2=scal('th2'), st2=scal('st2'), tau=scal('tau', lo=0, hi=1), tau2=scal('tau2', lo=0, hi=1))

        def fun(a):
            a = X(a)
            f = makers()[kind]()
            g = f.copy()
            setp(f, a.th, a.st)
            setp(g, a.th2, a.st2)
            f.soft_update(g, a.tau)
            if chain:
                f.soft_update(g, a.tau2)
            one = lambda t: jax.tree_util.tree_leaves(t)[0]   # noqa
            return dict(th=one(f.params), st=one(f.function_state), th2=one(g.params), st2=one(g.function_state))

        def post(o, ar):
            a = X(vec(ar[0]))
            k = 1 - a.tau
            if chain:
                k = k * (1 - a.tau2)
            return [('params == (1-tau)*old + tau*new', o['th'][()], k * a.th + (1 - k) * a.th2),
                    ('function_state == (1-tau)*old + tau*new', o['st'][()], k * a.st + (1 - k) * a.st2),
                    ('frame: source params', o['th2'][()], a.th2), ('frame: source state', o['st2'][()], a.st2)]
        jax_contract(ck, 'soft_update/%s%s' % (kind, '/twice' if chain else ''), fun, (args,), post, funcs=['coax._core.base_func.BaseFunc.soft_update'])
    return ('soft-%s-%s' % (kind, chain), job)


def multi_job(ck):
    """several leaves: every leaf moves with its own counterpart"""
    args = dict(a=scal('a'), b=SymArg('b', (2,)), s=scal('s'), t=SymArg('t', (2,)), a2=scal('a2'), b2=SymArg('b2', (2,)), s2=scal('s2'), t2=SymArg('t2', (2,)),
                tau=scal('tau', lo=0, hi=1))

    def put(f, d):
        f.params = jax.tree_util.tree_map_with_path(lambda p, x: d['a'] if "'a'" in str(p) else d['b'], f.params)
        f.function_state = jax.tree_util.tree_map_with_path(lambda p, x: d['s'] if "'s'" in str(p) else d['t'], f.function_state)

    def get(f):
        r = {}
        for p, x in jax.tree_util.tree_flatten_with_path((f.params, f.function_state))[0]:
            r[str(p[-1].key)] = x
        return r

    def fun(a):
        f = coax.V(two, env_d(), random_seed=1)
        g = f.copy()
        put(f, a)
        put(g, {k: a[k + '2'] for k in 'abst'})
        f.soft_update(g, a['tau'])
        return dict(f=get(f), g=get(g))

    def post(o, ar):
        a = ar[0]
        tau = a['tau'][()]
        r = []
        for k in 'abst':
            for i in onp.ndindex(*a[k].shape):
                r.append(('leaf %s%s' % (k, i), o['f'][k][i], (1 - tau) * a[k][i] + tau * a[k + '2'][i]))
                r.append(('frame leaf %s%s' % (k, i), o['g'][k][i], a[k + '2'][i]))
        return r
    jax_contract(ck, 'soft_update/several leaves', fun, (args,), post, funcs=['coax._core.base_func.BaseFunc.soft_update'])


def copy_job(ck):
    """copies are independent of their origin; setters reject other structures; other classes are rejected (bounded)"""
    S = onp.array([[.3], [-.7]], 'float32')

    def leaves(f):
        return [onp.array(x) for x in jax.tree_util.tree_leaves((f.params, f.function_state))]

    def same(x, y):
        return all(onp.array_equal(a, b) for a, b in zip(x, y))

    def case(c):
        kind, deep = c
        mk = makers()[kind]
        f = mk()
        setp(f, jnp.float32(.25), jnp.float32(.5))
        g = f.copy(deep=deep)
        if type(g) is not type(f) or not same(leaves(f), leaves(g)):
            return 'copy differs from its origin'
        before = leaves(f)
        setp(g, jnp.float32(2.), jnp.float32(3.))
        if not same(leaves(f), before):
            return 'changing the copy changed the original'
        mid = leaves(g)
        setp(f, jnp.float32(-1.), jnp.float32(-2.))
        if not same(leaves(g), mid):
            return 'changing the original changed the copy'
        f.soft_update(g, 1.0)
        if not same(leaves(f), mid):
            return 'soft_update with tau=1 does not copy'
        f.soft_update(g, 0.25)
        if not same(leaves(g), mid):
            return 'soft_update modified its source'
        for attr in ('params', 'function_state'):
            old = leaves(f)
            bad = {'other': {'x': jnp.zeros(())}, '~': {}}
            try:
                setattr(f, attr, bad)
                return '%s of another structure accepted' % attr
            except TypeError:
                pass
            if not same(leaves(f), old):
                return 'rejected assignment to %s had an effect' % attr
        other = coax.V(func_v('w'), env_d(), random_seed=1) if kind != 'V' else coax.Q(func_q2(), env_d(), random_seed=1)
        old = leaves(f)
        try:
            f.soft_update(other, 0.5)
            return 'soft_update from another class accepted'
        except TypeError:
            pass
        if not same(leaves(f), old):
            return 'rejected soft_update had an effect'
        # reproducible random streams: same seed, same stream; a copy does not disturb its origin
        f1, f2 = mk(), mk()
        k1 = [onp.array(f1.rng).tolist() for _ in range(3)]
        k2 = []
        for _ in range(3):
            f2.copy().rng
            k2.append(onp.array(f2.rng).tolist())
        if k1 != k2:
            return 'random stream not determined by the seed, or disturbed by a copy'
        if len(set(map(str, k1))) < 3:
            return 'random keys repeat'
    ck.concrete('copies and setters', case, [(k, d) for k in makers() for d in (False, True)], bound='9 function types x shallow/deep')
    ck.fn('coax._base.mixins.CopyMixin.copy', 'coax._core.base_func.BaseFunc.params', 'coax._core.base_func.BaseFunc.function_state', how='bounded')


def common(ck):
    ck.trust('JAX tracing and its primitive semantics; z3', 'lib/symjax.py, lib/alg.py')
    ck.assume('machine arithmetic treated as real arithmetic')


def jobs():
    return [soft_job(k) for k in makers()] + [soft_job('Q2', True), ('multi', multi_job), ('copy', copy_job), ('common', common)]
