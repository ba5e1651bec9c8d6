"""C02: Monte-Carlo reward tracing."""
import numpy as onp
from coax.reward_tracing import MonteCarlo
from coax._base.errors import InsufficientCacheError, EpisodeDoneError
from lib import pyvc as V
from lib.pyvc import inp, assume, sand, snot, same, SList, SSeq, Forall, truth
from checks.c01 import base_seq, fields, cmp_tb, gen_step, V_seed, _n, flush_body


def sym_mc(I):
    gamma, L, done, g = inp('real', 'gamma'), inp('int', 'L'), inp('bool', 'done'), inp('real', 'g')
    assume(sand(gamma >= 0, gamma <= 1, L >= 0))
    t = I.construct(MonteCarlo, (gamma,), {})
    fields(t, '_list', '_done', '_g', 'gamma')
    el = base_seq('q', L)

    def tup(i):
        e = el(i)
        return (e['s'], e['a'], e['r'], e['logp'], e['w'])
    t._list = SList(L, tup, 'list')
    t._done = done
    t._g = g
    for k in ('r', 'logp', 'w'):
        V._P.inputs[k] = SSeq(L, (lambda k: lambda i: el(i)[k])(k))
    return t, gamma, L, done, g, tup, el


def is_list(t, L, tup, extra=None):
    fields(t, '_list', '_done', '_g')
    ls = t._list
    q = V.view(ls) if isinstance(ls, (SList, SSeq)) else None
    n = L if extra is None else L + 1

    def pred(i):
        x = q.get(i) if q is not None else V.pick(list(ls), i)
        if extra is not None and truth(same(i, L)):
            return same(x, extra)
        return same(x, tup(i))
    return [('cache length', same(_n(ls), n)), ('cache contents', Forall(n, pred))]


def add_body(I):
    t, gamma, L, done, g, tup, el = sym_mc(I)
    s, a, r, d, lp, w = inp('obj', 's_new'), inp('obj', 'a_new'), inp('real', 'r_new'), inp('bool', 'd_new'), inp('real', 'logp_new'), inp('real', 'w_new')
    assume(sand(lp <= 0, w > 0))
    try:
        I.call(t.add, (s, a, r, d, lp, w))
    except EpisodeDoneError:
        return [('add rejected only on a finished, unflushed episode', sand(done, L > 0)), ('done flag', same(t._done, done)), ('running return kept', same(t._g, g))] + is_list(t, L, tup)
    return [('accepted only if the previous episode was flushed', snot(sand(done, L > 0))), ('done flag', same(t._done, d)),
            ('the return accumulated after the last step of an episode starts at zero', V.implies(d, same(t._g, 0)))] + is_list(t, L, tup, (s, a, r, lp, w))


def add_default_body(I):
    t, gamma, L, done, g, tup, el = sym_mc(I)
    s, a, r, d = inp('obj', 's_new'), inp('obj', 'a_new'), inp('real', 'r_new'), inp('bool', 'd_new')
    assume(snot(sand(done, L > 0)))
    I.call(t.add, (s, a, r, d))
    return [('done flag', same(t._done, d))] + is_list(t, L, tup, (s, a, r, 0, 1))


def ready_body(I):
    t, gamma, L, done, g, tup, el = sym_mc(I)
    return [('truth value == (non-empty and done)', same(I.call(bool, (t,)), sand(L > 0, done))), ('len', same(I.call(len, (t,)), L))] + is_list(t, L, tup)


def pop_body(I):
    t, gamma, L, done, g, tup, el = sym_mc(I)
    try:
        tb = I.call(t.pop, ())
    except InsufficientCacheError:
        return [('refused only when not ready', snot(sand(L > 0, done))), ('running return kept', same(t._g, g)), ('done flag', same(t._done, done))] + is_list(t, L, tup)
    e = el(L - 1)
    G = e['r'] + gamma * g
    return [('popped only when ready', sand(L > 0, done)), ('state', same(tb.S, [e['s']])), ('action', same(tb.A, [e['a']])), ('logp', same(tb.logP, [e['logp']])),
            ('weight', same(tb.W, [e['w']])), ('return G_t = r_t + gamma * G_{t+1}', same(tb.Rn, [G])), ('running return', same(t._g, G)), ('In == 0', same(tb.In, [0])),
            ('done flag', same(t._done, done))] + is_list(t, L - 1, tup)


def init_body(I):
    gamma = inp('real', 'gamma')
    assume(sand(gamma >= 0, gamma <= 1))
    t = I.construct(MonteCarlo, (gamma,), {})
    t2, *_ = sym_mc(I)
    I.call(t2.reset, ())
    return [('initially empty', same(I.call(len, (t,)), 0)), ('initially not ready', snot(I.call(bool, (t,)))), ('gamma', same(t.gamma, gamma)),
            ('reset empties', same(I.call(len, (t2,)), 0)), ('not ready after reset', snot(I.call(bool, (t2,))))]


def mc_history(case):
    seed, gamma, kind = case
    rnd = onp.random.RandomState(seed)
    t = MonteCarlo(gamma)
    for _ in range(4):
        ep = []
        T = rnd.randint(1, 9)
        for k in range(T):
            e = gen_step(rnd, k, kind)
            ep.append(e)
            if k == T - 1 and rnd.rand() < .15:
                t.reset()
                if len(t) or t:
                    return 'reset does not empty the cache'
                ep = [e]
            if rnd.rand() < .2:
                ep[-1] = e = e[:3] + (0., 1.)
                t.add(*e[:3], k == T - 1)
            else:
                t.add(e[0], e[1], e[2], k == T - 1, logp=e[3], w=e[4])
            if len(t) != len(ep) or bool(t) != (k == T - 1):
                return 'len/bool after %d steps: %d, %s' % (k + 1, len(t), bool(t))
            if k < T - 1:
                try:
                    t.pop()
                    return 'pop before the end of the episode succeeded'
                except InsufficientCacheError:
                    pass
        try:
            t.add(*e[:3], False)
            return 'add after done was accepted without flushing'
        except EpisodeDoneError:
            pass
        want = []
        G = 0.
        for e in reversed(ep):
            G = e[2] + gamma * G
            want.append((e, G, 0., None))
        k0 = rnd.randint(0, len(ep) + 1)
        got = [t.pop() for _ in range(k0)]
        if t:
            got += list(t.flush().to_singles())
        if len(got) != len(want):
            return '%d transitions came out of an episode of %d steps' % (len(got), len(want))
        for g, w in zip(got, want):
            msg = cmp_tb(g, w)
            if msg:
                return 'episode of %d steps, gamma=%s: %s' % (len(ep), gamma, msg)
        if len(t) or t:
            return 'cache not empty after all transitions were popped'
        for f in (t.pop, t.flush):
            try:
                f()
                return 'pop/flush of an empty cache succeeded'
            except InsufficientCacheError:
                pass
    return None


def replay(v):
    gamma, L = v['gamma'], v['L']
    if L > 40:
        return None
    r, lp, w = (v.get(k) or [0.] * L for k in ('r', 'logp', 'w'))
    for extra in (False, True):
        ep = [(float(i), i, r[i], lp[i], w[i] or 1.) for i in range(L)]
        if extra and 'r_new' in v:
            ep.append((77., 7, v['r_new'], v['logp_new'], v['w_new']))
        elif 'r_new' not in v and extra:
            # the running return g as the reward of one more, final step
            ep.append((77., 7, v['g'], 0., 1.))
        if not ep:
            continue
        t = MonteCarlo(gamma)
        for i, e in enumerate(ep):
            t.add(e[0], e[1], e[2], i == len(ep) - 1, logp=e[3], w=e[4])
        G, k = 0., 0
        while t:
            e = ep[len(ep) - 1 - k]
            G = e[2] + gamma * G
            msg = cmp_tb(t.pop(), (e, G, 0., None))
            if msg:
                return 'gamma=%s, episode %s: pop %d: %s' % (gamma, ep, k, msg)
            k += 1
        if k != len(ep):
            return 'only %d of %d transitions came out' % (k, len(ep))
    return None


def cases(k):
    out = []
    for s in range(k):
        rnd = onp.random.RandomState(1000 * V_seed() + s)
        out.append((int(rnd.randint(1 << 30)), float(rnd.choice([0., .5, .9, .99, 1.])), int(rnd.randint(3))))
    return out


BODIES = dict(add=add_body, add_defaults=add_default_body, ready=ready_body, pop=pop_body, init=init_body, flush=flush_body)


def job_sym(which):
    def job(ck):
        body = BODIES[which]
        ck.assume('rewards, discount and weights are real numbers (floating-point rounding is not modelled)',
                  'lemma over the contracts: G = 0 after the last add and G_t = r_t + gamma*G_{t+1} at each pop give, by induction on the pops, the discounted return of every step')
        V.contract(ck, 'MonteCarlo.' + which, body, replay=None if which in ('flush', 'add_defaults') else replay, small=[dict(L=L) for L in (1, 2, 3)],
                   search=lambda: next((m for m in (mc_history(c) for c in cases(150)) if m), None))
    return (which, job)


def job_hist(ck):
    k = 2000 if ck.thorough else 250
    ck.concrete('MonteCarlo/histories', mc_history, cases(k), bound='%d random histories of 4 episodes of up to 8 steps' % k)


JOBS = [job_sym(k) for k in BODIES] + [('histories', job_hist)]
