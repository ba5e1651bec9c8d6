"""C01: n-step reward tracing."""
import numpy as onp
import jax
import coax
from coax.reward_tracing import NStep, MonteCarlo, TransitionBatch
from coax.reward_tracing._base import BaseRewardTracer
from coax._base.errors import InsufficientCacheError, EpisodeDoneError
from lib import pyvc as V
from lib.pyvc import inp, assume, sand, sor, snot, same, truth, SList, SSeq, ufun, wrap, Forall, fresh, isseq
import z3


# ---------------------------------------------------------------- symbolic state

def fields(obj, *names):
    for n in names:
        if n not in vars(obj):
            raise V.Unsupported('representation changed: no field %s' % n)


def base_seq(pref, L):
    """elements of a cache of symbolic length: functions of the position"""
    F = lambda nm, srt: z3.Function(pref + nm, z3.IntSort(), srt)    # noqa
    s, a = F('s', V.Obj), F('a', V.Obj)
    lp, w, r = F('logp', z3.RealSort()), F('w', z3.RealSort()), F('r', z3.RealSort())

    def get(i):
        i = V.term(i)
        V.fact(z3.And(lp(i) <= 0, w(i) > 0))
        return dict(s=wrap(s(i)), a=wrap(a(i)), logp=wrap(lp(i)), w=wrap(w(i)), r=wrap(r(i)))
    return get


def sym_nstep(I):
    n, gamma, L, done = inp('int', 'n'), inp('real', 'gamma'), inp('int', 'L'), inp('bool', 'done')
    assume(sand(n >= 1, gamma >= 0, gamma <= 1, L >= 0))
    t = I.construct(NStep, (n, gamma), {})
    fields(t, '_deque_s', '_deque_r', '_done', 'n', 'gamma')
    el = base_seq('q', L)

    def tup(i):
        e = el(i)
        return (e['s'], e['a'], e['logp'], e['w'])
    t._deque_s = SList(L, tup, 'deque')
    t._deque_r = SList(L, lambda i: el(i)['r'], 'deque')
    t._done = done
    V._P.inputs['logp'] = SSeq(L, lambda i: el(i)['logp'])
    V._P.inputs['w'] = SSeq(L, lambda i: el(i)['w'])
    V._P.inputs['r'] = SSeq(L, lambda i: el(i)['r'])
    return t, n, gamma, L, done, el


def view(t):
    """abstract view of the tracer: the queued transitions and the done flag"""
    fields(t, '_deque_s', '_deque_r', '_done')
    return V.view(t._deque_s), V.view(t._deque_r), t._done


def is_queue(t, L, el, lo=0, extra=None):
    """the queue holds el(lo), el(lo+1), ... (L of them), then extra"""
    ds, dr, _ = view(t)
    n = L if extra is None else L + 1

    def want(i):
        e = el(i + lo)
        return (e['s'], e['a'], e['logp'], e['w']), e['r']

    def pred(i):
        if extra is not None and truth(same(i, L)):
            return sand(same(ds.get(i), extra[0]), same(dr.get(i), extra[1]))
        ws, wr = want(i)
        return sand(same(ds.get(i), ws), same(dr.get(i), wr))
    ln = sand(same(_n(ds), n), same(_n(dr), n))
    return [('queue length', ln), ('queue contents', Forall(n, pred))]


def _n(x):
    return x.n if isinstance(x, (SSeq, SList)) else len(x)


def add_body(I):
    t, n, gamma, L, done, el = sym_nstep(I)
    s, a, r, d, lp, w = inp('obj', 's_new'), inp('obj', 'a_new'), inp('real', 'r_new'), inp('bool', 'd_new'), inp('real', 'logp_new'), inp('real', 'w_new')
    assume(sand(lp <= 0, w > 0))
    try:
        I.call(t.add, (s, a, r, d, lp, w))
    except EpisodeDoneError:
        return [('add rejected only on a finished, unflushed episode', sand(done, L > 0))] + is_queue(t, L, el) + [('done flag', same(view(t)[2], done))]
    return [('accepted only if the previous episode was flushed', snot(sand(done, L > 0)))] + is_queue(t, L, el, 0, ((s, a, lp, w), r)) + [('done flag', same(view(t)[2], d))]


def add_default_body(I):
    t, n, gamma, L, done, el = sym_nstep(I)
    s, a, r, d = inp('obj', 's_new'), inp('obj', 'a_new'), inp('real', 'r_new'), inp('bool', 'd_new')
    assume(snot(sand(done, L > 0)))
    I.call(t.add, (s, a, r, d))
    return is_queue(t, L, el, 0, ((s, a, 0, 1), r)) + [('done flag', same(view(t)[2], d))]


def ready_body(I):
    t, n, gamma, L, done, el = sym_nstep(I)
    b = I.call(bool, (t,))
    k = I.call(len, (t,))
    return [('truth value == (non-empty and (done or more than n queued))', same(b, sand(L > 0, sor(done, L > n)))), ('len', same(k, L))] + is_queue(t, L, el)


def pop_body(I):
    t, n, gamma, L, done, el = sym_nstep(I)
    try:
        tb = I.call(t.pop, ())
    except InsufficientCacheError:
        return [('refused only when not ready', snot(sand(L > 0, sor(done, L > n))))] + is_queue(t, L, el) + [('done flag', same(view(t)[2], done))]
    e0 = el(0)
    out = [('popped only when ready', sand(L > 0, sor(done, L > n)))]
    m = V.MODELS[min](I, n, L)
    rn = V.seq_sum(SSeq(m, lambda i: ufun('pow', gamma, i) * el(i)['r']))
    full = L > n
    gn = ufun('pow', gamma, n)
    out += [('state', same(tb.S, [e0['s']])), ('action', same(tb.A, [e0['a']])), ('logp', same(tb.logP, [e0['logp']])), ('weight', same(tb.W, [e0['w']])),
            ('Rn is the discounted sum of the next n rewards (fewer at the end of the episode)', same(tb.Rn, [rn])),
            ('In is gamma**n if n steps fit, else 0', same(tb.In, [V.ite(full, gn, 0.0)])),
            ('done flag', same(view(t)[2], done))]
    if truth(full):
        en = el(n)
        out += [('next state', same(tb.S_next, [en['s']])), ('next action', same(tb.A_next, [en['a']])), ('next logp', same(tb.logP_next, [en['logp']]))]
    return out + is_queue(t, L - 1, el, 1)


class Extra(V.Template):
    """after k iterations: the k-th step following the popped one is next (the last step of the episode is repeated beyond its end)"""

    def __init__(self, E):
        self.E, self.k = E, 0

    def ghosts(self):
        return {'next ' + q: v for q, v in self.E(self.k).items()}

    def seqs(self):
        return {q: SSeq(self.k, (lambda q: lambda i: self.E(i)[q])(q)) for q in self.E(0)}

    def inv(self, I, k):
        self.k = k
        return []

    def havoc(self, I, k):
        self.k = k


def tree_map(I, f, x):
    if isinstance(x, (SSeq, SList)):
        q = V.view(x)
        return SSeq(q.n, lambda i: tree_map(I, f, q.get(i)))
    if isinstance(x, dict):
        return {k: tree_map(I, f, v) for k, v in x.items()}
    if isinstance(x, (tuple, list)):
        return type(x)(tree_map(I, f, v) for v in x)
    return x if x is None else I.call(f, (x,))


def extra_body(I):
    """record_extra_info: the popped step and the n that follow; the last step of the episode is repeated beyond its end"""
    t, n, gamma, L, done, el = sym_nstep(I)
    t.record_extra_info = True
    I.contracts = dict(I.contracts)
    I.contracts[jax.tree_map] = tree_map

    def E(i):
        last = truth(i >= L - 1)
        e = el(L - 1) if last else el(i)
        return dict(states=e['s'], actions=e['a'], rewards=e['r'], log_props=e['logp'], weights=e['w'], dones=sand(last, sor(done, i >= L)))      # beyond the queue only if the episode is done (or not recorded)
    I.loops['*'] = Extra(E)
    try:
        tb = I.call(t.pop, ())
    except InsufficientCacheError:
        return [('refused only when not ready', snot(sand(L > 0, sor(done, L > n))))]
    x = tb.extra_info
    keys = ['actions', 'dones', 'log_props', 'rewards', 'states', 'weights']
    out = [('the fields of the record', isinstance(x, dict) and sorted(x) == keys)]
    if not isinstance(x, dict) or sorted(x) != keys:
        return out
    for k in keys:
        q = x[k]
        out += [('%s: n + 1 steps' % k, same(_n(q), n + 1)),
                ('%s of the popped step and of the n that follow' % k, Forall(n + 1, (lambda q, k: lambda i: same(V.view(q).get(i) if isseq(q) else V.pick(list(q), i), [E(i)[k]]))(q, k)))]
    return out + is_queue(t, L - 1, el, 1)


def replay_extra(v):
    n, gamma, L, done = v['n'], v['gamma'], v['L'], v['done']
    if L > 40 or n > 40:
        return None
    t = NStep(n, gamma, record_extra_info=True)
    ep = [(float(i), i, (v.get('r') or [0.] * L)[i], (v.get('logp') or [0.] * L)[i], (v.get('w') or [1.] * L)[i]) for i in range(L)]
    for i, e in enumerate(ep):
        t.add(e[0], e[1], e[2], bool(done and i == L - 1), logp=e[3], w=e[4])
    k = 0
    while t:
        msg = check_extra(t.pop(), ep, k, n, bool(done))
        if msg:
            return 'n=%s rewards=%s done=%s, pop %d: %s' % (n, v.get('r'), done, k, msg)
        k += 1
    return None


class AbsTracer(BaseRewardTracer):
    """any tracer with K transitions ready (pop and truth value by their contracts)"""
    reset = add = None

    def __init__(self, K):
        self.K, self.k = K, 0

    def __bool__(self):
        raise V.Unsupported('native truth value')

    def pop(self):
        if not truth(self.k < self.K):
            raise InsufficientCacheError('not ready')
        self.k = self.k + 1
        return ufun_obj('popped', self.k - 1)


def ufun_obj(name, i):
    return wrap(z3.Function(name, z3.IntSort(), V.Obj)(V.term(i)))


class Flush(V.Template):
    def __init__(self, t):
        self.t = t

    def seqs(self):
        return {'the transitions popped so far': SSeq(self.t.k, lambda i: ufun_obj('popped', i))}

    def facts(self):
        return {'more is ready': self.t.k < self.t.K}

    def havoc(self, I, k):
        self.t.k = fresh('int', 'popped')
        V.assume(sand(self.t.k >= 0, self.t.k <= self.t.K))


def flush_body(I):
    K = inp('int', 'K')
    assume(K >= 0)
    t = AbsTracer(K)
    I.contracts = dict(I.contracts)
    I.contracts[AbsTracer.__bool__] = lambda I_, self: self.k < self.K
    I.loops['*'] = Flush(t)
    seen, cat = [], []

    def tm(I_, f, *trees):
        if len(trees) == 1 and isinstance(trees[0], V.Star):
            seen.append(trees[0].seq)
            leaves = V.Star(SSeq(trees[0].seq.n, lambda i: ufun_obj('leaf', i)))
            I_.call(f, (leaves,))
            return fresh('obj', 'flushed')
        seen.append(SSeq(len(trees), lambda i: V.pick(list(trees), i)))
        I_.call(f, tuple(ufun_obj('leaf', i) for i in range(len(trees))))
        return fresh('obj', 'flushed')

    def concatenate(I_, xs, axis=0):
        cat.append((V.view(xs) if isseq(xs) else SSeq(len(xs), lambda i: V.pick(list(xs), i)), axis))
        return fresh('obj', 'concatenated')
    I.contracts[jax.tree_map] = I.contracts[jax.tree_util.tree_map] = tm
    I.contracts[onp.concatenate] = concatenate
    try:
        I.call(t.flush, ())
    except InsufficientCacheError:
        return [('refused only when nothing is ready', same(K, 0)), ('nothing popped', same(t.k, 0))]
    ok = len(seen) == 1 and len(cat) == 1
    out = [('flushed only when something is ready', K > 0), ('everything that is ready is popped', same(t.k, K)), ('the transitions are stacked, once, along the batch axis', ok and cat[0][1] == 0)]
    if ok:
        out += [('as many as were ready', same(seen[0].n, K)), ('in the order of the pops', Forall(K, lambda i: same(seen[0].get(i), ufun_obj('popped', i)))),
                ('as many rows', same(cat[0][0].n, K)), ('rows in the order of the pops', Forall(K, lambda i: same(cat[0][0].get(i), ufun_obj('leaf', i))))]
    return out


def init_body(I):
    n, gamma = inp('int', 'n'), inp('real', 'gamma')
    assume(sand(n >= 1, gamma >= 0, gamma <= 1))
    t = I.construct(NStep, (n, gamma), {})
    out = [('initially empty', same(I.call(len, (t,)), 0)), ('initially not ready', snot(I.call(bool, (t,)))), ('n', same(t.n, n)), ('gamma', same(t.gamma, gamma))]
    t2, n, gamma, L, done, el = sym_nstep(I)
    I.call(t2.reset, ())
    out += [('reset empties', same(I.call(len, (t2,)), 0)), ('not ready after reset', snot(I.call(bool, (t2,)))), ('reset keeps n and gamma', sand(same(t2.n, n), same(t2.gamma, gamma)))]
    return out


# ---------------------------------------------------------------- native oracle

def oracle_nstep(ep, n, gamma, finished):
    """ep: list of (s,a,r,logp,w); -> expected transitions that must be available"""
    out = []
    T = len(ep)
    for t in range(T):
        k = min(n, T - t)
        if t + n < T:
            In, nxt = gamma ** n, ep[t + n]
        elif finished:
            In, nxt = 0.0, None
        else:
            break
        rn = sum(gamma ** i * ep[t + i][2] for i in range(k))
        out.append((ep[t], rn, In, nxt))
    return out


def cmp_tb(tb, want, S=lambda x: x):
    (s, a, r, lp, w), rn, In, nxt = want
    ok = lambda x, y: onp.shape(x) == onp.shape(y) and onp.allclose(x, y, rtol=1e-4, atol=1e-4)    # noqa
    tm = jax.tree_util.tree_leaves
    if len(tm(tb.S)) != len(tm(s)) or not all(ok(x, onp.expand_dims(y, 0)) for x, y in zip(tm(tb.S), tm(s))):
        return 'S: %s, expected %s' % (tb.S, s)
    if not ok(tb.A, onp.expand_dims(a, 0)):
        return 'A: %s, expected %s' % (tb.A, a)
    if not ok(tb.logP, onp.expand_dims(lp, 0)):
        return 'logP: %s, expected %s' % (tb.logP, lp)
    if not ok(tb.W, onp.array([w])):
        return 'W: %s, expected %s' % (tb.W, w)
    if not ok(tb.Rn, onp.expand_dims(rn, 0)):
        return 'Rn: %s, expected %s' % (tb.Rn, rn)
    if not ok(tb.In, onp.array([In])):
        return 'In: %s, expected %s' % (tb.In, In)
    if nxt is not None:
        if len(tm(tb.S_next)) != len(tm(nxt[0])) or not all(ok(x, onp.expand_dims(y, 0)) for x, y in zip(tm(tb.S_next), tm(nxt[0]))):
            return 'S_next: %s, expected %s' % (tb.S_next, nxt[0])
        if not ok(tb.A_next, onp.expand_dims(nxt[1], 0)):
            return 'A_next: %s, expected %s' % (tb.A_next, nxt[1])
        if not ok(tb.logP_next, onp.expand_dims(nxt[3], 0)):
            return 'logP_next: %s, expected %s' % (tb.logP_next, nxt[3])
    return None


def check_extra(tb, ep, t, n, finished):
    ei = tb.extra_info
    T = len(ep)
    for k in ('states', 'actions', 'rewards', 'dones', 'log_props', 'weights'):
        if len(ei[k]) != n + 1:
            return 'extra_info[%r] has %d entries, expected %d' % (k, len(ei[k]), n + 1)
    last = T - 1
    for i in range(n + 1):
        if t + i <= last:
            s, a, r, lp, w = ep[t + i]
            got = [ei[k][i] for k in ('states', 'actions', 'rewards', 'log_props', 'weights')]
            for nm, x, y in zip(('states', 'actions', 'rewards', 'log_props', 'weights'), got, (s, a, r, lp, w)):
                x = jax.tree_util.tree_leaves(x)
                y = jax.tree_util.tree_leaves(y)
                if not all(onp.allclose(u, onp.expand_dims(v, 0), rtol=1e-4, atol=1e-4) for u, v in zip(x, y)):
                    return 'extra_info[%r][%d]: %s, expected %s' % (nm, i, x, y)
        d = bool(onp.ravel(ei['dones'][i])[0])
        want = finished and t + i >= last
        if d != want:
            return 'extra_info[dones][%d] is %s at step %d of an episode of %d steps (n=%d)' % (i, d, t, T, n)
    return None


def gen_step(rnd, k, kind):
    s = {0: float(k), 1: onp.array([k, rnd.randn()]), 2: {'x': onp.array([k * 1.0]), 'y': k}}[kind]
    r = float(rnd.choice([0., 1., -1., rnd.randn()])) if kind != 1 else (float(rnd.randn()) if rnd.rand() < .5 else rnd.randn(2))
    if kind == 1:
        r = rnd.randn(2)
    return (s, int(rnd.randint(4)), r, float(-rnd.rand()) if rnd.rand() < .8 else 0.0, float(rnd.rand() + .1))


def nstep_history(case):
    """random history of add / pop / flush / reset against the oracle"""
    seed, n, gamma, kind, extra = case
    rnd = onp.random.RandomState(seed)
    t = NStep(n, gamma, record_extra_info=extra)
    for _ in range(4):
        ep, popped, finished = [], 0, False
        for k in range(rnd.randint(1, 3 * n + 4)):
            e = gen_step(rnd, k, kind)
            finished = False
            if rnd.rand() < .2:
                e = e[:3] + (0., 1.)
                t.add(*e[:3], False)
            else:
                t.add(e[0], e[1], e[2], False, logp=e[3], w=e[4])
            ep.append(e)
            msg = poll(t, ep, popped, n, gamma, False)
            if msg:
                return msg
            if t and rnd.rand() < .2:
                want = oracle_nstep(ep, n, gamma, False)
                got = list(t.flush().to_singles())
                if len(got) != len(want) - popped:
                    return 'flush of an unfinished episode returned %d transitions, expected %d' % (len(got), len(want) - popped)
                for g, x in zip(got, want[popped:]):
                    msg = cmp_tb(g, x)
                    if msg:
                        return 'flush of an unfinished episode of %d steps, n=%d, gamma=%s: %s' % (len(ep), n, gamma, msg)
                popped = len(want)
            while t and rnd.rand() < .6:
                want = oracle_nstep(ep, n, gamma, False)
                tb = t.pop()
                msg = cmp_tb(tb, want[popped]) or (check_extra(tb, ep, popped, n, False) if extra else None)
                if msg:
                    return 'pop %d of unfinished episode of %d steps, n=%d, gamma=%s: %s' % (popped, len(ep), n, gamma, msg)
                popped += 1
        if rnd.rand() < .15:
            t.reset()
            if len(t) or t:
                return 'reset does not empty the cache'
            continue
        e = gen_step(rnd, len(ep), kind)
        ep.append(e)
        t.add(e[0], e[1], e[2], rnd.choice([True, 1]) if False else True, logp=e[3], w=e[4])
        try:
            t.add(*e[:3], False)
            return 'add after done was accepted without flushing'
        except EpisodeDoneError:
            pass
        want = oracle_nstep(ep, n, gamma, True)
        msg = poll(t, ep, popped, n, gamma, True)
        if msg:
            return msg
        if rnd.rand() < .5:
            tb = t.flush()
            got = list(tb.to_singles())
            if len(got) != len(want) - popped:
                return 'flush returned %d transitions, expected %d' % (len(got), len(want) - popped)
            for g, w in zip(got, want[popped:]):
                msg = cmp_tb(g, w)
                if msg:
                    return 'flush, episode of %d steps, n=%d, gamma=%s: %s' % (len(ep), n, gamma, msg)
        else:
            while t:
                tb = t.pop()
                msg = cmp_tb(tb, want[popped]) or (check_extra(tb, ep, popped, n, True) if extra else None)
                if msg:
                    return 'pop %d of finished episode of %d steps, n=%d, gamma=%s: %s' % (popped, len(ep), n, gamma, msg)
                popped += 1
            if popped != len(want):
                return 'only %d of %d transitions came out' % (popped, len(want))
        if len(t):
            return 'cache not empty after the episode was popped'
        for f in (t.pop, t.flush):
            try:
                f()
                return 'pop/flush of an empty cache succeeded'
            except InsufficientCacheError:
                pass
    return None


def poll(t, ep, popped, n, gamma, finished):
    L = len(ep) - popped
    if len(t) != L:
        return 'len(tracer) == %d, expected %d' % (len(t), L)
    if bool(t) != (L > 0 and (finished or L > n)):
        return 'bool(tracer) is %s with %d cached, n=%d, done=%s' % (bool(t), L, n, finished)
    if not t:
        try:
            t.pop()
            return 'pop succeeded although not ready'
        except InsufficientCacheError:
            if len(t) != L:
                return 'failed pop changed the cache'
    return None


def replay_pop(v):
    n, gamma, L, done = v['n'], v['gamma'], v['L'], v['done']
    if L > 40 or n > 40:
        return None
    t = NStep(n, gamma)
    r = v.get('r') or [0.] * L
    ep = [(float(i), i, r[i] if i < len(r) else 0., (v.get('logp') or [0.] * L)[i], (v.get('w') or [1.] * L)[i]) for i in range(L)]
    for i, e in enumerate(ep):
        t.add(e[0], e[1], e[2], bool(done and i == L - 1), logp=e[3], w=e[4])
    msg = poll(t, ep, 0, n, gamma, bool(done))
    if msg or not t:
        return msg
    want = oracle_nstep(ep, n, gamma, bool(done))
    k = 0
    while t:
        msg = cmp_tb(t.pop(), want[k])
        if msg:
            return 'n=%s gamma=%s rewards=%s done=%s, pop %d: %s' % (n, gamma, r, done, k, msg)
        k += 1
    if 's_new' in v:
        pass
    return None


def replay_add(v):
    msg = replay_pop(v)
    if msg:
        return msg
    n, gamma, L, done = v['n'], v['gamma'], v['L'], v['done']
    t = NStep(n, gamma)
    ep = [(float(i), i, float(i), 0., 1.) for i in range(L)]
    for i, e in enumerate(ep):
        t.add(*e[:3], bool(done and i == L - 1))
    try:
        t.add(99., 9, v['r_new'], v['d_new'], v['logp_new'], v['w_new'])
    except EpisodeDoneError:
        return None if done and L else 'add rejected'
    if done and L:
        return 'add accepted after done'
    ep.append((99., 9, v['r_new'], v['logp_new'], v['w_new']))
    return poll(t, ep, 0, n, gamma, bool(v['d_new']))


def cases(ck, k):
    out = []
    for s in range(k):
        rnd = onp.random.RandomState(1000 * V_seed() + s)
        out.append((int(rnd.randint(1 << 30)), int(rnd.choice([1, 1, 2, 3, 4, 5, 7])), float(rnd.choice([0., .5, .9, .99, 1.])), int(rnd.randint(3)), bool(rnd.rand() < .4)))
    return out


def V_seed():
    from lib.contract import seed
    return seed()


BODIES = dict(add=add_body, add_defaults=add_default_body, ready=ready_body, pop=pop_body, init=init_body, extra_info=extra_body, flush=flush_body)


def replay_flush(v):
    return next((m for m in (nstep_history(c) for c in cases(None, 60)) if m), None)


def job_sym(which):
    def job(ck):
        body = BODIES[which]
        ck.assume('rewards, discount and weights are real numbers (floating-point rounding is not modelled); power(gamma, k) is uninterpreted with 0 <= gamma**k <= 1')
        V.contract(ck, 'NStep.' + which, body, small=[dict(n=n, L=L) for n in (1, 2, 3) for L in (1, 2, 3, 4)], replay=replay_add if which == 'add' else replay_extra if which == 'extra_info' else replay_flush if which == 'flush' else replay_pop,
                   search=lambda: next((m for m in (nstep_history(c) for c in cases(ck, 150)) if m), None))
    return (which, job)


def job_hist(ck):
    k = 2000 if ck.thorough else 250
    ck.concrete('NStep/histories', nstep_history, cases(ck, k), bound='%d random histories of 4 episodes, n <= 7, interleaved add/pop/flush/reset' % k)


JOBS = [job_sym(k) for k in BODIES] + [('histories', job_hist)]
