"""C06: prioritized sampling: probabilities proportional to priority, importance weights, reproducibility."""
import collections
import numpy as onp
import jax
import coax
from coax.reward_tracing import TransitionBatch
from coax.experience_replay import PrioritizedReplayBuffer
from lib import pyvc as V
from lib.pyvc import inp, assume, sand, sor, snot, same, truth, objarray, Forall, ufun
from checks.c01 import V_seed
from checks.c04 import COLS, is_row, row, rbatch, rows_of, eqrow
from checks.c05 import sym_per, state_is, prios, SMALL


def sample_body(k):
    def body(I):
        b, C, N, al, be, ep, F, sid, prio, memo = sym_per(I)
        assume(N >= 1)
        n = V.MODELS[min](I, C, N)
        tree = b._sumtree
        tb = I.call(b.sample, (), dict(batch_size=k))
        out = [('one leaf drawn per row', len(tree.sampled) == k)]
        pos = tree.sampled
        if len(pos) != k:
            return out
        root = tree.root_value
        out.append(('sampled slots are occupied', sand(*[p < N for p in pos])))
        for c in COLS:
            if c != 'W':
                out.append(('sampled %s are the stored ones' % c, same(getattr(tb, c), [row(F, p)[c] for p in pos])))
        out.append(('sampled idx are the stored ones', same(tb.idx, [sid(p) for p in pos])))
        raw = [V.power(prio(p) / root * n, 0 - be) for p in pos]
        mx = raw[0]
        for r in raw[1:]:
            mx = V.ite(r > mx, r, mx)
        W = [row(F, p)['W'] for p in pos]
        out.append(('one weight per row', onp.shape(tb.W) == (k,)))
        if onp.shape(tb.W) == (k,):
            for j in range(k):
                out.append(('W = stored W * (P * len)^-beta / max', same(tb.W[j] * mx, W[j] * raw[j])))
        out.append(('stored transitions are not modified', sand(*[is_row(t, row(F, i), sid(i)) for t, i in memo.values() if t is not None])))
        kept = [l for t, i in memo.values() if t is not None for l in jax.tree_util.tree_leaves(t)]
        out.append(('the sample does not share memory with the buffer', not any(onp.shares_memory(x, y) for x in jax.tree_util.tree_leaves(tb) for y in kept if isinstance(x, onp.ndarray) and isinstance(y, onp.ndarray))))
        return out + state_is(I, b, C, n, lambda i: (row(F, i), sid(i)), prio, N)
    return body


# ---------------------------------------------------------------- native

def make(seed, cap, adds, alpha, beta, eps, rseed, kind=0):
    rnd = onp.random.RandomState(seed)
    buf = PrioritizedReplayBuffer(cap, alpha=alpha, beta=beta, epsilon=eps, random_seed=rseed)
    p, rows = {}, {}
    for i in range(adds):
        adv = rnd.randn(1) * (rnd.choice([0., .1, 1., 5., 3e3]) if seed % 2 else rnd.choice([.1, 1., 5.]))
        tb = rbatch(rnd, 1, i, kind)
        if seed % 3 == 0:       # integer rewards, default weights
            tb = TransitionBatch(tb.S, tb.A, tb.logP, onp.array([i % 5]), tb.In, tb.S_next, tb.A_next, tb.logP_next)
        buf.add(tb, adv)
        p[i % cap] = (abs(adv[0]) + eps) ** alpha
        rows[i % cap] = rows_of(tb)[0]
    return buf, p, rows


def weights(case):
    """sampled rows are stored rows; W is the documented importance weight; repeated sampling does not accumulate"""
    seed, cap, adds, alpha, beta, eps, kind = case
    buf, p, rows = make(seed, cap, adds, alpha, beta, eps, seed % 97, kind)
    twin, _, _ = make(seed, cap, adds, alpha, beta, eps, seed % 97, kind)
    rnd = onp.random.RandomState(seed)
    n, tot = len(p), sum(p.values())
    byid = {int(r[-1]): r for r in rows.values()}
    for _ in range(6):
        k = int(rnd.randint(1, 7))
        onp.random.seed(int(rnd.randint(1000)))
        tb = buf.sample(batch_size=k)
        onp.random.rand(3)
        t2 = twin.sample(batch_size=k)
        r1, r2 = rows_of(tb), rows_of(t2)
        if len(r1) != k or tb.W.shape != (k,):
            return 'sample(%d) returned %d rows, W of shape %s' % (k, len(r1), tb.W.shape)
        if not all(eqrow(x, y) for x, y in zip(r1, r2)):
            return 'two buffers with the same seed and history sample differently'
        ids = [int(r[-1]) for r in r1]
        if not all(i in byid for i in ids):
            return 'sampled ids %s are not stored' % ids
        raw = onp.array([(p[i % cap] / tot * n) ** -beta for i in ids])
        for j, i in enumerate(ids):
            if not eqrow(r1[j][:-2], byid[i][:-2]):
                return 'sampled row %d is not the stored transition' % i
            w = byid[i][-2] * raw[j] / raw.max()
            if abs(tb.W[j] - w) > 1e-4 * abs(w) + 1e-9:
                return 'W of transition %d is %s, expected %s (priority %s of %s, %d stored, beta %s)' % (i, tb.W[j], w, p[i % cap], tot, n, beta)
        if rnd.rand() < .4:
            tb.W[...] = 7.
            tb.Rn[...] = 7.
    for s, t in enumerate(buf):
        if not eqrow(rows_of(t)[0], rows[s]):
            return 'sampling modified the stored transition in slot %d' % s
    return None


def frequencies(case):
    """empirical frequencies match priority / total (6 standard deviations)"""
    seed, cap, adds, alpha, update, alpha2, draws = case
    buf, p, rows = make(seed, cap, adds, alpha, .5, 1e-2, seed, 0)
    rnd = onp.random.RandomState(seed + 1)
    eps = 1e-2
    if update:
        ids = rnd.permutation(onp.arange(max(0, adds - cap), adds))[:4]
        adv = rnd.rand(len(ids)) * 3
        buf.update(ids, adv)
        for i, a in zip(ids, adv):
            p[int(i) % cap] = (a + eps) ** alpha
    if alpha2:
        buf.alpha = alpha2
        p = {k: v ** (alpha2 / alpha) for k, v in p.items()}
    cnt = collections.Counter()
    B = 50
    for _ in range(draws // B):
        cnt.update(onp.ravel(buf.sample(batch_size=B).idx).tolist())
    tot, m = sum(p.values()), draws // B * B
    for i in range(max(0, adds - cap), adds):
        q = p[i % cap] / tot
        sd = (m * q * (1 - q)) ** .5
        if abs(cnt[i] - m * q) > 6 * sd + 1:
            return 'transition %d (priority %.4f of %.4f) drawn %d times in %d, expected %.1f +- %.1f' % (i, p[i % cap], tot, cnt[i], m, m * q, sd)
    if sum(cnt.values()) != m:
        return 'draws lost'
    return None


def cases(k, salt=0):
    rnd = onp.random.RandomState(191 * V_seed() + salt)
    return [(int(rnd.randint(1 << 30)), int(rnd.choice([1, 2, 3, 4, 5, 8, 13])), int(rnd.randint(1, 30)), float(rnd.choice([.3, .6, 1.])), float(rnd.choice([.4, .7, 1.])), float(rnd.choice([1e-4, .1, 1.])), int(rnd.randint(3))) for _ in range(k)]


def replay(v):
    C, N = int(v['C']), int(v.get('N') or 0)
    if not (1 <= C <= 64 and 1 <= N <= 300):
        return None
    f = lambda k, d: float(v.get(k) or d)    # noqa
    if not (1e-3 < f('beta', 1.) < 20 and 1e-3 < f('alpha', 1.) < 20):
        return None
    return weights((1, C, N, f('alpha', 1.), f('beta', 1.), f('eps', 1e-4), 0))


def job(name, body, **kw):
    def f(ck):
        V.LINEAR_MOD[0] = True
        ck.trust('SumTree.sample returns leaves of positive value, each with probability value / total (C09; the uniform generator of NumPy is trusted and checked statistically)')
        ck.assume('real arithmetic; power is uninterpreted except for positivity')
        V.contract(ck, 'PrioritizedReplayBuffer.' + name, body, replay=replay, small=SMALL, search=lambda: next((m for m in (weights(c) for c in cases(300, 1)) if m), None), **kw)
    return (name, f)


def job_native(ck):
    n = 2000 if ck.thorough else 250
    ck.concrete('PrioritizedReplayBuffer/weights', weights, cases(n), bound='%d random buffers, capacity <= 13' % n)
    d = 200000 if ck.thorough else 30000
    s = V_seed()
    ck.concrete('PrioritizedReplayBuffer/frequencies', frequencies, [(s + 1, 8, 8, 1., False, None, d), (s + 2, 5, 17, .6, True, None, d), (s + 3, 13, 40, .6, True, .2, d), (s + 4, 16, 7, 1., True, 2., d)],
                bound='4 buffers, %d draws, 6 sigma' % d)


JOBS = [job('sample %d' % k, sample_body(k)) for k in (1, 2, 3)] + [('native', job_native)]
