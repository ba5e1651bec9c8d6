"""C05: the prioritized replay buffer keeps slots, indices and priorities consistent."""
import itertools
import numpy as onp
import jax
import z3
import coax
from coax.reward_tracing import TransitionBatch
from coax.experience_replay import PrioritizedReplayBuffer
from coax.utils import SumTree
from lib import pyvc as V
from lib.pyvc import inp, assume, sand, sor, snot, same, truth, objarray, SList, SSeq, Forall, wrap, ufun
from checks.c01 import fields, V_seed
from checks.c04 import COLS, col_funcs, mk_single, new_batch, is_row, row, items, rbatch, rows_of, eqrow


class TreeContract:
    """SumTree, replaced by its contract (properties C07-C09): a vector of leaf values with a total and a sampler"""

    def __init__(self, C, vals=None, seed=None):
        self.vals = SList(C, vals or (lambda i: 0.0), 'array')
        self.capacity, self.random_seed = C, seed
        self.sampled = []
        self.root = None

    @property
    def values(self):
        return self.vals

    @property
    def root_value(self):
        if self.root is None:
            self.root = V.fresh('real', 'root')
        return self.root

    def set_values(self, idx, values):
        if idx is Ellipsis or idx is None:
            if V.isseq(values):
                self.vals[:] = values
            else:
                raise V.Unsupported('set_values of a whole tree')
        else:
            if not isinstance(idx, (int, list, onp.ndarray)):
                raise IndexError('idx must be an int or a 1d integer array')
            idx = onp.asarray(idx, dtype=object).reshape(-1) if not isinstance(idx, onp.ndarray) else idx
            vs = onp.asarray(values, dtype=object)
            vs = onp.broadcast_to(vs, idx.shape).ravel().tolist()
            for k, v in zip(idx.ravel().tolist(), vs):
                if not truth(sand(k < self.capacity, k >= 0 - self.capacity)):
                    raise IndexError('out of range')
                self.vals[k] = v
        self.root = None

    def sample(self, n):
        if not (isinstance(n, int) and n > 0):
            raise TypeError('n must be a positive integer')
        out = []
        for _ in range(n):
            p = V.fresh('int', 'slot')
            assume(sand(p >= 0, p < self.capacity))
            assume(self.vals.get(p) > 0)
            out.append(p)
        assume(self.root_value > 0)
        for p in out:
            assume(self.vals.get(p) <= self.root_value)
        self.sampled += out
        return objarray(out)


CONTRACTS = {SumTree: lambda I, capacity, random_seed=None: TreeContract(capacity, None, random_seed)}


def sym_per(I, positive=True):
    C, N = inp('int', 'C'), inp('int', 'N')
    al, be, ep = inp('real', 'alpha'), inp('real', 'beta'), inp('real', 'eps')
    assume(sand(C >= 1, N >= 0, al > 0, be > 0, ep > 0))
    I.contracts.update(CONTRACTS)
    b = I.construct(PrioritizedReplayBuffer, (C,), dict(alpha=al, beta=be, epsilon=ep, random_seed=13))
    fields(b, '_storage', '_sumtree', '_index', '_alpha', '_beta', '_epsilon', '_capacity')
    if not isinstance(b._sumtree, TreeContract) or not isinstance(b._storage, SList):
        raise V.Unsupported('representation changed')
    F = col_funcs('h')
    ID = z3.Function('h_id', z3.IntSort(), z3.IntSort())
    Q = z3.Function('h_q', z3.IntSort(), z3.IntSort())
    PR = z3.Function('h_prio', z3.IntSort(), z3.RealSort())
    memo = {}

    def stored_id(i):
        i, c, n = V.term(i), V.term(C), V.term(N)
        V.fact(z3.Implies(z3.And(i >= 0, i < n), z3.And(ID(i) == i + c * Q(i), ID(i) >= 0, ID(i) >= n - c, ID(i) < n, Q(i) >= 0)))
        return wrap(ID(i))

    def get(i):
        k = z3.simplify(V.num(i)).get_id()
        if k not in memo:
            memo[k] = (mk_single(I, F, i, stored_id(i)), i) if truth(i < N) else (None, i)
        return memo[k][0]

    def prio(i):
        t = V.term(i)
        V.fact(z3.Implies(t < V.term(N), PR(t) > 0))
        V.fact(z3.Implies(t >= V.term(N), PR(t) == 0))
        return wrap(PR(t))
    b._storage = SList(C, get, 'array')
    b._sumtree = TreeContract(C, prio, 13)
    b._index = N
    return b, C, N, al, be, ep, F, stored_id, prio, memo


def state_is(I, b, C, n, want, prio, N2):
    """slot i < n holds want(i) = (row, idx); priorities prio(i); next index N2"""
    seq, vals = items(I, b), V.view(b._sumtree.vals)
    return [('len', same(I.call(len, (b,)), n)), ('truth value', I.truth(b) == truth(n > 0)), ('number of stored transitions', same(seq.n, n)),
            ('stored transitions', Forall(n, lambda i: is_row(seq.get(i), *want(i)))),
            ('priorities', Forall(C, lambda i: same(vals.get(i), prio(i)))),
            ('number of priorities', same(b._sumtree.vals.n, C)), ('next index', same(b._index, N2)), ('capacity', same(I.getattr(b, 'capacity'), C))]


def add_body(B):
    def body(I):
        b, C, N, al, be, ep, F, sid, prio, memo = sym_per(I)
        tb, cols = new_batch(I, B)
        adv = objarray([inp('real', 'adv%d' % k) for k in range(B)])
        I.call(b.add, (tb, adv))
        slots = [(N + k) % C for k in range(B)]

        def hit(i):
            for k in reversed(range(B)):
                if truth(same(i, slots[k])):
                    return k
            return None

        def want(i):
            k = hit(i)
            if k is not None:
                return {c: cols[c][k] for c in COLS}, N + k
            return row(F, i), sid(i)

        def wprio(i):
            k = hit(i)
            return prio(i) if k is None else V.power(abs(adv[k]) + ep, al)
        n = V.MODELS[min](I, C, N + B)
        return state_is(I, b, C, n, want, wprio, N + B) + [('batch is numbered', same(tb.idx, [N + k for k in range(B)]))]
    return body


def again_body(I):
    """the same transition object, added twice (to one buffer or to two)"""
    b, C, N, al, be, ep, F, sid, prio, memo = sym_per(I)
    assume(C >= 2)
    tb, cols = new_batch(I, 1)
    adv = [inp('real', 'adv%d' % k) for k in range(2)]
    for k in range(2):
        I.call(b.add, (tb, objarray([adv[k]])))
    b2 = I.construct(PrioritizedReplayBuffer, (3,), dict(random_seed=1))
    for k in range(2):
        I.call(b2.add, (tb, objarray([adv[k]])))
    slots = [N % C, (N + 1) % C]

    def want(i):
        for k in (1, 0):
            if truth(same(i, slots[k])):
                return {c: cols[c][0] for c in COLS}, N + k
        return row(F, i), sid(i)

    def wprio(i):
        for k in (1, 0):
            if truth(same(i, slots[k])):
                return V.power(abs(adv[k]) + ep, al)
        return prio(i)
    return state_is(I, b, C, V.MODELS[min](I, C, N + 2), want, wprio, N + 2)


def fill_lemma(I):
    """while the buffer is not full, the slots are filled in order: N + k < C  ->  (N + k) % C == N + k"""
    C, N, k, i = inp('int', 'C'), inp('int', 'N'), inp('int', 'k'), inp('int', 'i')
    assume(sand(C >= 1, N >= 0, k >= 0))
    return [('fill order', V.implies(N + k < C, same((N + k) % C, N + k))),
            ('a full round reaches every slot', V.implies(sand(i >= 0, i < C), same((i + C * k) % C, i)))]


def window_lemma(I):
    """two indices of the latest C with the same slot are equal: a stored index equals idx iff idx is among the latest C"""
    C, N, a, q, r = inp('int', 'C'), inp('int', 'N'), inp('int', 'a'), inp('int', 'q'), inp('int', 'r')
    assume(sand(C >= 1, r >= 0, r < C))
    x, y = r + C * a, r + C * (a + q)
    V.fact(z3.Implies(V.term(q) >= 1, V.term(C) * V.term(q) >= V.term(C)))
    V.fact(z3.Implies(V.term(q) <= -1, V.term(C) * V.term(q) <= -V.term(C)))
    assume(sand(x >= N - C, x < N, y >= N - C, y < N))
    return [('same slot within the latest C indices implies equal', same(x, y))]


def update_body(k):
    def body(I):
        b, C, N, al, be, ep, F, sid, prio, memo = sym_per(I)
        ids = objarray([inp('int', 'id%d' % j) for j in range(k)])
        adv = objarray([inp('real', 'adv%d' % j) for j in range(k)])
        slots = [x % C for x in ids.tolist()]
        stored = [sand(x >= 0, x >= N - C, x < N) for x in ids.tolist()]
        for x, s, w in zip(ids.tolist(), slots, stored):
            assume(V.implies(s < N, same(same(sid(s), x), w)))       # instance of the window lemma
            assume(V.implies(sand(x >= 0, x < C), same(s, x)))
        I.call(b.update, (ids, adv))

        def wprio(i):
            for j in reversed(range(k)):
                if truth(sand(same(slots[j], i), stored[j])):
                    return V.power(abs(adv[j]) + ep, al)
            return prio(i)
        n = V.MODELS[min](I, C, N)
        return state_is(I, b, C, n, lambda i: (row(F, i), sid(i)), wprio, N)
    return body


def alpha_body(I):
    b, C, N, al, be, ep, F, sid, prio, memo = sym_per(I)
    a2 = inp('real', 'alpha2')
    V.POW_EXP[0] = True
    try:
        try:
            I.setattr(b, 'alpha', a2)
        except TypeError:
            return [('rejected only if not positive', a2 <= 0)] + state_is(I, b, C, V.MODELS[min](I, C, N), lambda i: (row(F, i), sid(i)), prio, N)
        out = [('accepted only if positive', a2 > 0)]
        changed = I.getattr(b, 'alpha')
        ratio = a2 / al

        def wprio(i):
            v = prio(i)
            if truth(v <= 0):
                return 0.0
            return V.power(v, ratio)
        if truth(same(changed, a2)) and not V.valid(same(a2, al)):
            out += state_is(I, b, C, V.MODELS[min](I, C, N), lambda i: (row(F, i), sid(i)), wprio, N)
        else:
            out += [('alpha is left unchanged only if the new value is within one percent', sand(same(changed, al), abs(a2 - al) <= 1e-8 + 0.01 * al))]
            out += state_is(I, b, C, V.MODELS[min](I, C, N), lambda i: (row(F, i), sid(i)), prio, N)
        return out
    finally:
        V.POW_EXP[0] = False


def misc_body(I):
    b, C, N, al, be, ep, F, sid, prio, memo = sym_per(I)
    n = V.MODELS[min](I, C, N)
    out = state_is(I, b, C, n, lambda i: (row(F, i), sid(i)), prio, N)
    v = inp('real', 'v')
    for nm, old in (('beta', be), ('epsilon', ep)):
        try:
            I.setattr(b, nm, v)
            out += [('%s accepted iff positive' % nm, v > 0), ('%s is set' % nm, same(I.getattr(b, nm), v))]
        except TypeError:
            out += [('%s accepted iff positive' % nm, v <= 0), ('%s is kept' % nm, same(I.getattr(b, nm), old))]
    out += state_is(I, b, C, n, lambda i: (row(F, i), sid(i)), prio, N)
    try:
        I.call(b.add, ((1, 2), onp.array([1.])))
        out += [('a non-batch is rejected', False)]
    except TypeError:
        out += state_is(I, b, C, n, lambda i: (row(F, i), sid(i)), prio, N)
    I.call(b.clear, ())
    out += [('clear empties', same(I.call(len, (b,)), 0)), ('cleared buffer is falsy', not I.truth(b)), ('clear resets the numbering', same(b._index, 0)),
            ('clear removes the priorities', Forall(C, lambda i: same(b._sumtree.vals.get(i), 0))), ('capacity is kept', same(I.getattr(b, 'capacity'), C))]
    return out


def init_body(I):
    C, al, be, ep = inp('int', 'C'), inp('real', 'alpha'), inp('real', 'beta'), inp('real', 'eps')
    I.contracts.update(CONTRACTS)
    try:
        b = I.construct(PrioritizedReplayBuffer, (C,), dict(alpha=al, beta=be, epsilon=ep))
    except TypeError:
        return [('rejected only if a parameter is not positive', snot(sand(C > 0, al > 0, be > 0, ep > 0)))]
    return [('accepted only if all parameters are positive', sand(C > 0, al > 0, be > 0, ep > 0)), ('empty', same(I.call(len, (b,)), 0)), ('capacity', same(I.getattr(b, 'capacity'), C)),
            ('alpha', same(I.getattr(b, 'alpha'), al)), ('beta', same(I.getattr(b, 'beta'), be)), ('epsilon', same(I.getattr(b, 'epsilon'), ep))]


# ---------------------------------------------------------------- native

def prios(buf):
    return onp.asarray(buf._sumtree.values, dtype=float)


class Twin:
    """the abstract buffer"""

    def __init__(self, cap, alpha, beta, eps):
        self.cap, self.alpha, self.beta, self.eps = cap, alpha, beta, eps
        self.clear()

    def clear(self):
        self.rows, self.p, self.N = {}, {}, 0

    def add(self, tb, adv):
        tb.idx = onp.arange(self.N, self.N + len(adv))
        for r, a in zip(rows_of(tb), adv):
            self.rows[self.N % self.cap] = r
            self.p[self.N % self.cap] = abs(float(a)) + self.eps
            self.N += 1

    def update(self, ids, adv):
        for i, a in zip(ids, adv):
            if max(0, self.N - self.cap) <= i < self.N:
                self.p[int(i) % self.cap] = abs(float(a)) + self.eps

    def want(self):
        out = onp.zeros(self.cap)
        for s, p in self.p.items():
            out[s] = p ** self.alpha
        return out


def check(buf, tw):
    n = min(tw.N, tw.cap)
    if len(buf) != n or bool(buf) != (n > 0):
        return 'len %d / bool %s, expected %d' % (len(buf), bool(buf), n)
    got = list(buf)
    if len(got) != n:
        return 'iteration yields %d, expected %d' % (len(got), n)
    for s, g in enumerate(got):
        if not isinstance(g, TransitionBatch) or len(g.Rn) != 1 or not eqrow(rows_of(g)[0], tw.rows[s]):
            return 'slot %d holds %s, expected %s' % (s, rows_of(g) if isinstance(g, TransitionBatch) else g, tw.rows[s])
    p, w = prios(buf), tw.want()
    if p.shape != w.shape or not onp.allclose(p, w, rtol=2e-4, atol=1e-12):
        return 'priorities %s, expected %s (capacity %d, %d added, alpha %s, eps %s)' % (p, w, tw.cap, tw.N, tw.alpha, tw.eps)
    if abs(buf._sumtree.root_value - w.sum()) > 1e-3 * (1 + w.sum()):
        return 'total priority %s, expected %s' % (buf._sumtree.root_value, w.sum())
    return None


def history(case):
    seed, cap, kind = case
    rnd = onp.random.RandomState(seed)
    alpha, beta, eps = float(rnd.choice([.3, .6, 1., 1.7])), float(rnd.choice([.4, 1.])), float(rnd.choice([1e-4, .1, 1.]))
    buf, tw = PrioritizedReplayBuffer(cap, alpha=alpha, beta=beta, epsilon=eps, random_seed=3), Twin(cap, alpha, beta, eps)
    t = 0
    for _ in range(rnd.randint(5, 25)):
        op = rnd.rand()
        if op < .5:
            B = int(rnd.choice([1, 1, 2, 3, cap, cap + 1]))
            st = rnd.get_state()
            t1 = rbatch(rnd, B, t, kind)
            rnd.set_state(st)
            t2 = rbatch(rnd, B, t, kind)
            adv = rnd.randn(B) * rnd.choice([0., 1., 10.], size=B)
            buf.add(t1, adv)
            tw.add(t2, adv)
            if not onp.array_equal(t1.idx, t2.idx):
                return 'indices %s, expected %s' % (t1.idx, t2.idx)
            t += B
            if B == 1 and rnd.rand() < .3:      # the same object again
                buf.add(t1, adv + 1.)
                tw.add(t2, adv + 1.)
        elif op < .8:
            k = int(rnd.randint(0, 6))
            ids = rnd.randint(tw.N - 2 * cap - 1, tw.N + 2, size=k)
            adv = rnd.randn(k)
            before = prios(buf).copy()
            buf.update(ids, adv)
            tw.update(ids, adv)
            msg = check(buf, tw)
            if msg:
                return 'update(%s, %s) with %d added, capacity %d: %s (before: %s)' % (ids.tolist(), adv.tolist(), tw.N, cap, msg, before)
        elif op < .87:
            a2 = float(rnd.choice([.2, .5, 1., 2., 5.]))
            buf.alpha = a2
            tw.alpha = a2
        elif op < .9:
            buf.epsilon = tw.eps = float(rnd.choice([1e-3, .5]))
        elif op < .93:
            buf.beta = tw.beta = float(rnd.choice([.3, .5]))
        elif op < .97 and tw.N:
            tb = buf.sample(batch_size=int(rnd.randint(1, 8)))
            tb.W[...] = 99.
        else:
            buf.clear()
            tw.clear()
        msg = check(buf, tw)
        if msg:
            return msg
        if (buf.capacity, buf.alpha, buf.beta, buf.epsilon) != (cap, tw.alpha, tw.beta, tw.eps):
            return 'hyperparameters %s' % ((buf.capacity, buf.alpha, buf.beta, buf.epsilon),)
    return None


def cases(k, salt=0):
    rnd = onp.random.RandomState(91 * V_seed() + salt)
    return [(int(rnd.randint(1 << 30)), int(rnd.choice([1, 2, 3, 4, 5, 7, 8, 13])), int(rnd.randint(3))) for _ in range(k)]


def replay(v):
    C, N = int(v['C']), int(v.get('N') or 0)
    if C < 1 or C > 64 or N > 300:
        return None
    al, be, ep = v.get('alpha') or 1., v.get('beta') or 1., v.get('eps') or 1e-4
    rnd = onp.random.RandomState(0)
    buf, tw = PrioritizedReplayBuffer(C, alpha=float(al), beta=float(be), epsilon=float(ep)), Twin(C, float(al), float(be), float(ep))

    def add(B, adv):
        st = rnd.get_state()
        t1 = rbatch(rnd, B, tw.N, 0)
        rnd.set_state(st)
        t2 = rbatch(rnd, B, tw.N, 0)
        buf.add(t1, onp.asarray(adv))
        tw.add(t2, adv)
    for i in range(N):
        add(1, [1. + i % 3])
    msg = check(buf, tw)
    if msg:
        return msg
    adv = [v[k] for k in sorted(v) if k.startswith('adv')]
    ids = [v[k] for k in sorted(v) if k.startswith('id')]
    if adv and any(abs(a) > 1e6 for a in adv):
        return None
    if ids:
        buf.update(onp.array(ids), onp.array(adv))
        tw.update(ids, adv)
        msg = check(buf, tw)
        return msg and 'capacity %d, %d added, update(%s, %s): %s' % (C, N, ids, adv, msg)
    if 'alpha2' in v:
        try:
            buf.alpha = float(v['alpha2'])
        except TypeError:
            return check(buf, tw)
        if buf.alpha != tw.alpha:
            tw.alpha = float(v['alpha2'])
        elif abs(v['alpha2'] - al) > 1e-8 + .011 * al:
            return 'setting alpha from %s to %s had no effect' % (al, v['alpha2'])
        return check(buf, tw)
    if adv:
        add(len(adv), adv)
        msg = check(buf, tw)
        return msg and 'capacity %d, %d added, then %d with advantages %s: %s' % (C, N, len(adv), adv, msg)
    return None


def rejects(case):
    """parameters that are not positive (or not numbers) are rejected, and a rejected change leaves the buffer as it is"""
    kw, = case
    try:
        PrioritizedReplayBuffer(**dict(dict(capacity=3), **kw))
        return 'PrioritizedReplayBuffer(%s) is accepted' % kw
    except TypeError:
        pass
    b = PrioritizedReplayBuffer(capacity=3, alpha=.6, beta=.5, epsilon=.01)
    for k, v in kw.items():
        if k != 'capacity':
            try:
                setattr(b, k, v)
                return '%s = %r is accepted' % (k, v)
            except TypeError:
                pass
    return None if (b.alpha, b.beta, b.epsilon, b.capacity) == (.6, .5, .01, 3) else 'a rejected change took effect'


BAD = [({k: v},) for k in ('capacity', 'alpha', 'beta', 'epsilon') for v in (0, -1, -.5, 0., None)] + [({'capacity': 2.5},), ({'alpha': 'x'},), ({'beta': 'x'},), ({'epsilon': 'x'},)]


SMALL = [dict(C=c, N=n) for c in (1, 2, 3) for n in (0, 1, 2, 3, 5)]


def job(name, body, small=SMALL, **kw):
    def f(ck):
        V.LINEAR_MOD[0] = 'lemma' not in name
        ck.trust('SumTree is replaced by its contract (leaf vector, total, sampler), which C07-C09 establish')
        ck.assume('real arithmetic; power/exp/log are uninterpreted except for positivity and a**b == exp(b log a)',
                  'representation invariant: slot i < min(N, C) holds the latest transition whose number is congruent to i modulo C, with positive priority; other slots are empty with priority 0')
        V.contract(ck, 'PrioritizedReplayBuffer.' + name, body, replay=replay, small=small, search=lambda: next((m for m in itertools.chain((rejects(c) for c in BAD), (history(c) for c in cases(300, 1))) if m), None), **kw)
    return (name, f)


def job_native(ck):
    n = 3000 if ck.thorough else 350
    ck.concrete('PrioritizedReplayBuffer/invalid parameters', rejects, BAD, bound='24 invalid parameters')
    ck.concrete('PrioritizedReplayBuffer/histories', history, cases(n), bound='%d random histories of add/update/sample/clear and hyperparameter changes, capacity <= 13' % n)


JOBS = [job('add %d' % B, add_body(B)) for B in (1, 2, 3)] + [job('update %d' % k, update_body(k)) for k in (0, 1, 2, 3)] + [
    job('add again', again_body), job('alpha', alpha_body), job('misc', misc_body), job('init', init_body), job('fill lemma', fill_lemma, small=()), job('window lemma', window_lemma, small=()), ('native', job_native)]
