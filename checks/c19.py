"""C19: value-based policies (epsilon-greedy, Boltzmann) and the random policy."""
import numpy as onp
import coax
from gymnasium.spaces import Discrete, Box
from lib import alg
from lib.contract import jax_contract
from lib.nets import *   # noqa
from checks.c10 import vec, X
from checks.c15 import logp, dot

BINS = 2
VR = (-1., 2.)


def mk_q(kind, n, stoch, vt=False):
    vt = coax.value_transforms.LogTransform(1.5) if vt else None
    if stoch:
        return coax.StochasticQ(func_sq1(bins=BINS) if kind == 1 else func_sq2(bins=BINS, n=n), env_d(n), value_range=VR, num_bins=BINS, value_transform=vt, random_seed=1)
    return coax.Q(func_q1() if kind == 1 else func_q2(n=n), env_d(n), value_transform=vt, random_seed=1)


def spec_q(kind, n, stoch, a, s):
    """the action values the policy has to use (inference mode)"""
    if not stoch:
        return q_all(kind, 'q', a.th, a.st, 0, s, n)
    out = []
    for k in range(n):
        if kind == 1:
            lg = [F('sq', j, a.th, a.st, 0, s, *[alg.ex(int(i == k)) for i in range(n)]) for j in range(BINS)]
        else:
            lg = [F('sq', k * BINS + j, a.th, a.st, 0, s) for j in range(BINS)]
        p = softmax(lg)
        w = (VR[1] - VR[0]) / BINS
        at = [alg.ex(VR[0] + w * (j + 0.5)) for j in range(BINS)]      # bin midpoints
        out.append(dot(p, at))
    return out


def setup(kind, n, stoch, a, eps, vt=False):
    q = mk_q(kind, n, stoch, vt)
    setp(q, a.th, a.st)
    return q, (coax.EpsilonGreedy(q, epsilon=a.eps) if eps else coax.BoltzmannPolicy(q, temperature=a.T))


def pol_job(eps, kind, n, stoch=False, retune=False, vt=False):
    """distribution parameters (of the transformed values, as documented, if the q-function has a value transform: `vt`); `retune`: the hyperparameter is reassigned after construction / through params"""
    def job(ck):
        args = dict(S=obs('S'), th=scal('th'), st=scal('st'))
        args.update(eps=scal('eps', lo=0, hi=1)) if eps else args.update(T=scal('T', lo=0.01, hi=100))
        if retune:
            args.update(x2=scal('x2', lo=0.01, hi=1), th2=scal('th2'))

        def fun(a):
            a = X(a)
            q, pi = setup(kind, n, stoch, a, eps, vt)
            if retune == 'attr':
                if eps:
                    pi.epsilon = a.x2
                else:
                    pi.temperature = a.x2
                setp(q, a.th2)
            elif retune == 'params':
                paths, tree = jax.tree_util.tree_flatten_with_path(pi.params)
                pi.params = jax.tree_util.tree_unflatten(tree, [a.th2 if 'th' in str(p) else a.x2 for p, _ in paths])
            key = jax.random.PRNGKey(3)
            d, _ = pi.function(pi.params, pi.function_state, key, a.S, False)
            x, lp = pi.sample_func(pi.params, pi.function_state, key, a.S) if not (eps or stoch) else (0, 0)
            r = dict(lg=d['logits'], mean=pi.mean_func(pi.params, pi.function_state, key, a.S) if not (eps or stoch) else 0, x=x, lp=lp,
                     qth=jax.tree_util.tree_leaves(q.params)[0])
            return r

        def post(o, ar):
            a = X(vec(ar[0]))
            if retune:
                a.th = a.th2
                a.eps = a.T = a.x2
            qs = spec_q(kind, n, stoch, a, a.S)
            lg = [o['lg'][0, k] for k in range(n)]
            tot = sum((alg.fexp(x) for x in lg), alg.ZERO)
            r = []
            if eps:
                g = greedy_mix(qs)
                for k in range(n):
                    p = (1 - a.eps) * g[k] + a.eps / n
                    r.append(('probability[%d] == (1-eps)*greedy + eps/n' % k, alg.fexp(lg[k]), p * tot))
            else:
                for k in range(1, n):
                    r.append(('log-odds[%d] == (Q_%d - Q_0)/temperature' % (k, k), lg[k] - lg[0], (qs[k] - qs[0]) / a.T))
            r.append(('q parameters as set', o['qth'][()], a.th))
            if not eps and not stoch:
                p = softmax([x / a.T for x in qs])
                lps = logp([x / a.T for x in qs])
                for k in range(n):
                    r.append(('mean[%d] == Boltzmann probabilities' % k, o['mean'][0, k], p[k]))
                xs = [o['x'][0, k] for k in range(n)]
                r.append(('reported log-propensity == log_proba of the drawn variate', o['lp'][0], dot(xs, lps)))
            return r
        jax_contract(ck, '%s/type%d/n%d%s%s' % ('EpsilonGreedy' if eps else 'Boltzmann', kind, n, '/stochastic' if stoch else '', ('/retuned:' + retune if retune else '') + ('/value transform' if vt else '')),
                     fun, (args,), post, max_paths=6000, deadline_s=120,
                     funcs=['coax.EpsilonGreedy.function' if eps else 'coax.BoltzmannPolicy.function', 'coax._core.value_based_policy.BaseValueBasedPolicy._Q_s',
                            'coax._core.base_stochastic_func_type2.StochasticFuncType2Mixin.sample_func'])
    return ('%s-%d-%d-%s-%s-%s' % ('eps' if eps else 'boltz', kind, n, stoch, retune, vt), job)


def single_job(eps, kind, n):
    """the single-state public method"""
    def job(ck):
        args = dict(s=SymArg('s', (1,), lo=-8, hi=8), th=scal('th'), st=scal('st'))
        args.update(eps=scal('eps', lo=0, hi=1)) if eps else args.update(T=scal('T', lo=0.01, hi=100))

        def fun(a):
            a = X(a)
            q, pi = setup(kind, n, False, a, eps)
            return pi.dist_params(a.s)['logits']

        def post(o, ar):
            a = X(vec(ar[0]))
            qs = spec_q(kind, n, False, a, a.s)
            tot = sum((alg.fexp(x) for x in o), alg.ZERO)
            if eps:
                g = greedy_mix(qs)
                return [('probability[%d]' % k, alg.fexp(o[k]), ((1 - a.eps) * g[k] + a.eps / n) * tot) for k in range(n)]
            return [('log-odds[%d]' % k, o[k] - o[0], (qs[k] - qs[0]) / a.T) for k in range(1, n)]
        jax_contract(ck, '%s.dist_params/type%d' % ('EpsilonGreedy' if eps else 'Boltzmann', kind), fun, (args,), post,
                     funcs=['coax.%s.dist_params' % ('EpsilonGreedy' if eps else 'BoltzmannPolicy')])
    return ('single-%s-%d' % (eps, kind), job)


def random_job(ck):
    """the random policy: actions in the space, documented log-propensities (bounded: space shapes enumerated)"""
    rnd = ck.rnd

    def case(c):
        kind, arg, seed = c
        sp = Discrete(arg) if kind == 'd' else Box(onp.array(arg[0], 'float32'), onp.array(arg[1], 'float32'))
        pi = coax.RandomPolicy(Env(OBS, sp), random_seed=seed)
        for _ in range(4):
            a, lp = pi(None, return_logp=True)
            want = -onp.log(arg) if kind == 'd' else -onp.sum(onp.log(onp.array(arg[1]) - onp.array(arg[0])))
            if not sp.contains(a) or not sp.contains(pi(None)) or not sp.contains(pi.mode(None)):
                return 'action outside the action space'
            if abs(float(lp) - want) > 1e-4 * (1 + abs(want)):
                return 'log-propensity %r, expected %r' % (float(lp), want)
        d = pi.dist_params(None)
        if kind == 'd' and not (onp.shape(d['logits']) == (arg,) and onp.ptp(onp.asarray(d['logits'])) == 0):
            return 'dist_params not uniform'
    cases = [('d', n, s) for n in (1, 2, 3, 7, 100) for s in (0, 5)]
    for k in range(8):
        m = rnd.randint(1, 4)
        lo = rnd.uniform(-5, 5, m)
        cases.append(('b', (lo.tolist(), (lo + rnd.uniform(.1, 4, m)).tolist()), k))
    ck.concrete('RandomPolicy', case, cases, bound='Discrete sizes 1..100, 8 random boxes')
    ck.fn('coax.RandomPolicy.__call__', how='bounded')


def act_job(ck):
    """end to end: pi(s) / pi.mode(s) return the actions the distribution says (bounded search)"""
    rnd = ck.rnd

    def tab(S, is_training):
        w = hk.get_parameter('w', (1, 4), init=jnp.zeros)
        return S @ w

    def case(c):
        w, eps, T = c
        q = coax.Q(tab, env_d(4), random_seed=1)
        q.params = jax.tree_util.tree_map(lambda _: jnp.asarray(w, 'float32')[None], q.params)
        best = onp.flatnonzero(onp.array(w) == max(w))
        s = onp.ones(1, 'float32')
        pi = coax.EpsilonGreedy(q, epsilon=0.)
        for _ in range(3):
            a, lp = pi(s, return_logp=True)
            if a not in best or pi.mode(s) not in best:
                return 'greedy policy chose action %r, maximisers are %r' % (a, best)
            if len(best) == 1 and abs(float(lp)) > 1e-3:
                return 'log-propensity %r of the greedy action' % float(lp)
        pi.epsilon = eps
        if eps < 1 and pi.mode(s) not in best:
            return 'mode of the epsilon-greedy policy is not greedy'
        n = onp.bincount([pi(s) for _ in range(60)], minlength=4)
        if eps == 1. and n.min() == 0:
            return 'epsilon=1 never chose some action: %r' % n.tolist()
        b = coax.BoltzmannPolicy(q, temperature=T)
        if b.mode(s) not in best:
            return 'mode of the Boltzmann policy is not greedy'
    cases = [([0., 0., 1., 0.], 1., .5), ([3., 3., 1., 0.], .1, .02), ([-1., -2., -3., -4.], .5, 1.)]
    cases += [(rnd.permutation(onp.linspace(-2, 2, 4)).round(3).tolist(), float(rnd.rand() * .7), float(rnd.uniform(.02, 2))) for _ in range(3)]
    ck.concrete('acting', case, cases, bound='6 q-tables, 60 draws each')
    ck.fn('coax.EpsilonGreedy.__call__', 'coax.BoltzmannPolicy.__call__', how='bounded (post-processing by tie-breaking argmax)')


def common(ck):
    ck.trust('JAX tracing and its primitive semantics (jax.make_jaxpr); z3', 'lib/symjax.py, lib/alg.py')
    ck.assume('machine arithmetic treated as real arithmetic; additive constants below 1e-12 count as rounding',
              'number of actions instantiated at 2 and 3 (the code is generic in it)', 'q-functions are arbitrary row-wise functions')


def jobs():
    return [pol_job(True, 2, 3), pol_job(True, 1, 3), pol_job(False, 2, 3), pol_job(False, 1, 3), pol_job(True, 2, 2, True), pol_job(True, 1, 2, True),
            pol_job(False, 2, 2, True), pol_job(False, 1, 2, True), pol_job(True, 2, 2, retune='attr'), pol_job(True, 2, 2, retune='params'),
            pol_job(False, 2, 2, retune='attr'), pol_job(False, 1, 2, retune='params'), pol_job(False, 2, 2, vt=True), pol_job(False, 1, 2, vt=True), pol_job(True, 2, 2, vt=True),
            single_job(True, 2, 3), single_job(False, 1, 3), single_job(False, 2, 3),
            ('random', random_job), ('act', act_job), ('common', common)]
