"""C04: the simple replay buffer is a FIFO of the latest `capacity` transitions, sampled uniformly without replacement."""
import random
import collections
import numpy as onp
import jax
import z3
import coax
from coax.reward_tracing import TransitionBatch
from coax.experience_replay import SimpleReplayBuffer
from lib import pyvc as V
from lib.pyvc import inp, assume, sand, sor, snot, same, truth, objarray, SList, SSeq, Forall, wrap
from checks.c01 import fields, V_seed

COLS = ('S', 'A', 'logP', 'Rn', 'In', 'S_next', 'A_next', 'logP_next', 'W')


# ---------------------------------------------------------------- symbolic rows

def col_funcs(pref):
    out = {}
    for k in COLS:
        srt = V.Obj if k[0] in 'SA' else z3.RealSort()
        out[k] = z3.Function(pref + k, z3.IntSort(), srt)
    return out


def mk_single(I, F, i, idx):
    """the transition at position i of an abstract history"""
    i = V.term(i)
    return I.construct(TransitionBatch, (), dict({k: objarray([wrap(F[k](i))]) for k in COLS}, idx=objarray([idx])))


def new_batch(I, B, pref='n', extra=None):
    cols = {k: objarray([inp('obj' if k[0] in 'SA' else 'real', '%s%s%d' % (pref, k, b)) for b in range(B)]) for k in COLS}
    if extra:
        cols['extra_info'] = {'e': objarray([inp('real', '%se%d' % (pref, b)) for b in range(B)])}
    return I.construct(TransitionBatch, (), cols), cols


def is_row(t, want, idx):
    if not isinstance(t, TransitionBatch):
        return False
    return sand(*([same(getattr(t, k), [want[k]]) for k in COLS] + [same(t.idx, [idx])]))


def sym_container(native, n, get):
    """an abstract container of the same kind as the one the constructor made"""
    if isinstance(native, SList):
        return SList(n, get, native.kind, native.maxlen)
    if isinstance(native, collections.deque):
        return SList(n, get, 'deque', native.maxlen)
    if type(native) is list:
        return SList(n, get, 'list')
    raise V.Unsupported('representation changed: storage is a %s' % type(native).__name__)


def sym_buffer(I):
    C, L, N = inp('int', 'C'), inp('int', 'L'), inp('int', 'N')
    assume(sand(C >= 1, L >= 0, L <= C, N >= L, sor(same(N, L), same(L, C))))
    b = I.construct(SimpleReplayBuffer, (C,), {})
    fields(b, '_storage', '_index', '_capacity')
    F = col_funcs('h')
    b._storage = sym_container(b._storage, L, lambda i: mk_single(I, F, i, N - L + i))
    b._index = N
    return b, C, L, N, F


def row(F, i):
    i = V.term(i)
    return {k: wrap(F[k](i)) for k in COLS}


def items(I, b):
    it = I.call(iter, (b,))
    seq = I.iterate(it)
    if isinstance(seq, SSeq):
        return seq
    xs = list(seq)
    return SSeq(len(xs), lambda i: V.pick(xs, i))


def contents(I, b, n, want):
    """the buffer iterates over exactly n transitions, the i-th being want(i) = (row, idx)"""
    seq = items(I, b)
    return [('len', same(I.call(len, (b,)), n)), ('number of stored transitions', same(seq.n, n)),
            ('truth value', same(I.truth(b), n > 0) if not isinstance(n, int) else I.truth(b) == (n > 0)),
            ('stored transitions, in order', Forall(n, lambda i: is_row(seq.get(i), *want(i)))),
            ('capacity', same(I.getattr(b, 'capacity'), b._capacity))]


def add_body(B):
    def body(I):
        b, C, L, N, F = sym_buffer(I)
        tb, cols = new_batch(I, B)
        r = I.call(b.add, (tb,))
        n = V.MODELS[min](I, C, L + B)
        drop = L + B - n

        def want(i):
            j = i + drop
            if truth(j < L):
                return row(F, j), N - L + j
            k = j - L
            for q in range(B):
                if truth(same(k, q)):
                    return {c: cols[c][q] for c in COLS}, N + q
            raise V.Cut()
        out = contents(I, b, n, want)
        out += [('capacity is never exceeded', n <= C), ('next index', same(b._index, N + B)), ('returns nothing', r is None)]
        return out
    return body


def again_body(I):
    """the same transition object, added twice to this buffer and then to another one"""
    b, C, L, N, F = sym_buffer(I)
    assume(sand(C >= 2, L + 2 <= C))
    tb, cols = new_batch(I, 1)
    b2 = I.construct(SimpleReplayBuffer, (3,), {})
    I.call(b2.add, (new_batch(I, 1, 'm')[0],))
    for x in (b, b, b2):
        I.call(x.add, (tb,))

    def want(i):
        for k in (0, 1):
            if truth(same(i, L + k)):
                return {c: cols[c][0] for c in COLS}, N + k
        return row(F, i), N - L + i
    return contents(I, b, L + 2, want)


def bad_add_body(I):
    b, C, L, N, F = sym_buffer(I)
    try:
        I.call(b.add, ((1, 2, 3),))
        return [('a non-batch is rejected', False)]
    except TypeError:
        return [('a non-batch is rejected', True)] + contents(I, b, L, lambda i: (row(F, i), N - L + i))


def init_body(I):
    C = inp('int', 'C')
    assume(C >= 1)
    b = I.construct(SimpleReplayBuffer, (C,), {})
    out = [('empty at first', same(I.call(len, (b,)), 0)), ('capacity', same(I.getattr(b, 'capacity'), C))]
    b2, C, L, N, F = sym_buffer(I)
    I.call(b2.clear, ())
    tb, cols = new_batch(I, 1)
    out += [('clear empties', same(I.call(len, (b2,)), 0)), ('an empty buffer is falsy', not I.truth(b2))]
    I.call(b2.add, (tb,))
    return out + contents(I, b2, 1, lambda i: ({c: cols[c][0] for c in COLS}, 0))


def sample_body(k):
    def body(I):
        b, C, L, N, F = sym_buffer(I)
        ghost = dict(G='global', used=[], pos=[], objs={})

        def m_setstate(I, st):
            ghost['G'] = st

        def m_getstate(I):
            return ghost['G']

        def m_sample(I, population, kk, **kw):
            pop = I.iterate(population)
            n = pop.n if isinstance(pop, SSeq) else len(pop)
            if truth(sor(kk < 0, kk > n)):
                raise ValueError('Sample larger than population or is negative')
            ghost['used'].append(ghost['G'])
            ghost['G'] = ('next', ghost['G'])
            out = []
            for j in range(V.concretize(kk, range(8)) if isinstance(kk, V.SV) else kk):
                p = V.fresh('int', 'pos')
                assume(sand(p >= 0, p < n, *[snot(same(p, q)) for q in ghost['pos']]))
                ghost['pos'].append(p)
                t = pop.get(p)
                ghost['objs'][j] = t
                out.append(t)
            return out
        I.contracts.update({random.setstate: m_setstate, random.getstate: m_getstate, random.sample: m_sample})
        st0 = ('state', 0)
        fields(b, '_random_state')
        b._random_state = st0
        try:
            tb = I.call(b.sample, (), dict(batch_size=k))
        except ValueError:
            return [('sample refused only if too few transitions are stored', L < k)]
        out = [('sample succeeds whenever enough transitions are stored', L >= k), ('drawn from the buffer\'s own random state', ghost['used'] == [st0]),
               ('the random state advances', b._random_state == ('next', st0)), ('distinct positions', len(ghost['pos']) == k)]
        for c in COLS:
            out.append(('sampled %s are the stored ones' % c, same(getattr(tb, c), [row(F, p)[c] for p in ghost['pos']])))
        out.append(('sampled idx', same(tb.idx, [N - L + p for p in ghost['pos']])))
        out.append(('stored transitions are not modified', sand(*[is_row(ghost['objs'][j], row(F, p), N - L + p) for j, p in enumerate(ghost['pos'])])))
        return out + contents(I, b, L, lambda i: (row(F, i), N - L + i))
    return body


# ---------------------------------------------------------------- native

def rbatch(rnd, B, t0, kind):
    S = {0: lambda: onp.arange(t0, t0 + B) * 1., 1: lambda: {'x': rnd.randn(B, 2), 't': onp.arange(t0, t0 + B)}, 2: lambda: rnd.randn(B, 3)}[kind]()
    S2 = jax.tree_util.tree_map(lambda x: x + 1, S)
    ei = {'u': rnd.randn(B, 2)} if rnd.rand() < .0 else None
    return TransitionBatch(S=S, A=onp.arange(t0, t0 + B), logP=-rnd.rand(B), Rn=rnd.randn(B), In=rnd.rand(B), S_next=S2, A_next=rnd.randint(3, size=B), logP_next=-rnd.rand(B), W=rnd.rand(B) + .1, extra_info=ei)


def rows_of(tb):
    B = len(tb.Rn)
    tl = jax.tree_util.tree_leaves
    return [[onp.asarray(l)[b] for l in tl((tb.S, tb.A, tb.logP, tb.Rn, tb.In, tb.S_next, tb.A_next, tb.logP_next, tb.W, tb.idx))] for b in range(B)]


def eqrow(a, b):
    return len(a) == len(b) and all(onp.array_equal(x, y) for x, y in zip(a, b))


def check_state(buf, model, cap):
    if len(buf) != len(model):
        return 'len %d, expected %d (capacity %d)' % (len(buf), len(model), cap)
    if bool(buf) != bool(model):
        return 'bool(buffer) is %s with %d stored' % (bool(buf), len(model))
    got = list(buf)
    if len(got) != len(model):
        return 'iteration yields %d transitions, expected %d' % (len(got), len(model))
    for i, (g, w) in enumerate(zip(got, model)):
        if not isinstance(g, TransitionBatch) or len(g.Rn) != 1 or not eqrow(rows_of(g)[0], w):
            return 'stored transition %d of %d (capacity %d) is %s, expected %s' % (i, len(model), cap, rows_of(g), w)
    return None


def history(case):
    seed, cap, kind = case
    rnd = onp.random.RandomState(seed)
    buf = SimpleReplayBuffer(cap, random_seed=seed % 1000)
    random.seed(seed // 7)      # disturb the global generator
    twin = SimpleReplayBuffer(cap, random_seed=seed % 1000)
    if buf.capacity != cap:
        return 'capacity is %s' % buf.capacity
    model, t = [], 0
    N = 0
    for _ in range(rnd.randint(5, 25)):
        op = rnd.rand()
        if op < .65:
            B = int(rnd.choice([1, 1, 1, 2, 3, cap, cap + 1, 2 * cap + 1]))
            st = rnd.get_state()
            tb = rbatch(rnd, B, t, kind)
            rnd.set_state(st)
            twin.add(rbatch(rnd, B, t, kind))
            buf.add(tb)
            if not onp.array_equal(tb.idx, onp.arange(N, N + B)):
                return 'indices %s, expected %d..' % (tb.idx, N)
            tb.idx = onp.arange(N, N + B)
            model = (model + rows_of(tb))[-cap:]
            t, N = t + B, N + B
            if B == 1 and rnd.rand() < .3:      # the same object again
                buf.add(tb)
                rnd.set_state(st)
                twin.add(rbatch(rnd, B, t - B, kind))
                model = (model + [r[:-1] + [onp.int64(N)] for r in model[-1:]])[-cap:]
                N += 1
        elif op < .95:
            k = int(rnd.randint(1, len(model) + 2))
            if rnd.rand() < .5:
                random.seed(int(rnd.randint(1000)))       # disturb the global generator
            try:
                s1 = rows_of(buf.sample(batch_size=k))
            except ValueError:
                if k <= len(model):
                    return 'sample(%d) failed with %d stored' % (k, len(model))
                continue
            if k > len(model):
                return 'sample(%d) with only %d stored returned %d' % (k, len(model), len(s1))
            random.random()
            s2 = rows_of(twin.sample(batch_size=k))
            if len(s1) != k:
                return 'sample(%d) returned %d rows' % (k, len(s1))
            ids = [int(r[-1]) for r in s1]
            if len(set(ids)) != k:
                return 'sample drew the same transition twice: %s' % ids
            byid = {int(r[-1]): r for r in model}
            if not all(i in byid and eqrow(byid[i], r) for i, r in zip(ids, s1)):
                return 'sample returned rows that are not stored: ids %s' % ids
            if not all(eqrow(x, y) for x, y in zip(s1, s2)):
                return 'two buffers with the same seed and history sample differently'
        else:
            buf.clear()
            twin.clear()
            model, N = [], 0
        msg = check_state(buf, model, cap)
        if msg:
            return msg
    return None


def uniform(case):
    """every stored transition is equally likely (frequency within 6 standard deviations)"""
    seed, cap, adds, k, trials = case
    buf = SimpleReplayBuffer(cap, random_seed=seed)
    rnd = onp.random.RandomState(seed)
    for i in range(adds):
        buf.add(rbatch(rnd, 1, i, 0))
    n = len(buf)
    cnt, first = collections.Counter(), collections.Counter()
    for _ in range(trials):
        ids = onp.ravel(buf.sample(batch_size=k).idx).tolist()
        cnt.update(ids)
        first.update(ids[:1])
    for c, p, nm in ((cnt, k / n, 'inclusion'), (first, 1 / n, 'first position')):
        sd = (trials * p * (1 - p)) ** .5
        for i in range(adds - n, adds):
            if abs(c[i] - trials * p) > 6 * sd + 1e-9:
                return '%s frequency of transition %d is %d of %d draws of %d from %d stored; expected %.1f +- %.1f' % (nm, i, c[i], trials, k, n, trials * p, sd)
    return None


def cases(k):
    rnd = onp.random.RandomState(77 * V_seed())
    return [(int(rnd.randint(1 << 30)), int(rnd.choice([1, 2, 3, 4, 5, 7, 10])), int(rnd.randint(3))) for _ in range(k)]


def default_size(case):
    buf = SimpleReplayBuffer(100, random_seed=case)
    for i in range(40):
        buf.add(TransitionBatch.from_single(s=float(i), a=0, logp=0., r=0., done=False, gamma=.9, s_next=0., a_next=0, logp_next=0.))
    n = buf.sample().batch_size
    return None if n == 32 else 'sample() returned %d transitions, expected the documented 32' % n


def seeds_differ(case):
    a, b = case
    out = []
    for s in (a, b):
        buf = SimpleReplayBuffer(50, random_seed=s)
        rnd = onp.random.RandomState(0)
        for i in range(50):
            buf.add(rbatch(rnd, 1, i, 0))
        out.append([onp.ravel(buf.sample(batch_size=10).idx).tolist() for _ in range(3)])
    return 'seeds %d and %d give the same samples' % (a, b) if out[0] == out[1] else ('three successive samples are identical' if out[0][0] == out[0][1] == out[0][2] else None)


def late(C, N):
    """a buffer that has seen N transitions (its counter and the numbers of the stored ones are put in place), then three more adds"""
    rnd = onp.random.RandomState(0)
    buf = SimpleReplayBuffer(C)
    for i in range(C):
        buf.add(rbatch(rnd, 1, i, 0))
    if vars(buf).get('_index') != C or not isinstance(vars(buf).get('_storage'), list):
        return None
    buf._index = N
    for i, t in enumerate(buf._storage):
        t.idx = onp.array([N - C + i])
    for B in (1, 2, 3):
        tb = rbatch(rnd, B, 0, 0)
        buf.add(tb)
        if not onp.array_equal(tb.idx, onp.arange(N, N + B)):
            return 'after %d transitions, a batch of %d is numbered %s' % (N, B, tb.idx)
        N += B
        ids = [int(t.idx[0]) for t in buf]
        if ids != list(range(N - C, N)):
            return 'after %d transitions, %s are stored' % (N, ids)
    return None


def replay(v):
    C, L, N = v['C'], v.get('L', 0), v.get('N', 0)
    if N > 200:
        return late(min(C, 5), N)
    for adds in sorted({L, N}):
        if C > 60 or adds > 200:
            return None
        rnd = onp.random.RandomState(0)
        buf, model = SimpleReplayBuffer(C), []
        for i in range(adds):
            tb = rbatch(rnd, 1, i, 0)
            buf.add(tb)
            tb.idx = onp.array([i])
            model = (model + rows_of(tb))[-C:]
        msg = check_state(buf, model, C)
        if msg:
            return msg
        for B in (1, 2, 3):
            tb = rbatch(rnd, B, adds, 0)
            buf.add(tb)
            tb.idx = onp.arange(adds, adds + B)
            adds += B
            model = (model + rows_of(tb))[-C:]
            msg = check_state(buf, model, C)
            if msg:
                return msg
    return None


def job(name, body, **kw):
    def f(ck):
        ck.trust('random.sample(population, k) returns k elements at distinct, uniformly drawn positions (checked statistically); jax.tree_map and numpy.concatenate on stored leaves')
        ck.assume('representation invariant of the buffer (established by the constructor, preserved by every method): storage holds the latest min(N, capacity) transitions, numbered consecutively')
        V.contract(ck, 'SimpleReplayBuffer.' + name, body, replay=replay, search=lambda: next((m for m in (history(c) for c in cases(250)) if m), None),
                   small=[dict(C=c, L=l, N=n) for c in (1, 2, 3) for l in range(c + 1) for n in ((l,) if l < c else (l, l + 1, l + 4))], **kw)
    return (name, f)


def job_native(ck):
    n = 3000 if ck.thorough else 400
    ck.concrete('SimpleReplayBuffer/histories', history, cases(n), bound='%d random histories of add/sample/clear, capacity <= 10' % n)
    tr = 20000 if ck.thorough else 4000
    ck.concrete('SimpleReplayBuffer/uniformity', uniform, [(V_seed() + 5, 8, 8, 3, tr), (V_seed() + 6, 5, 13, 2, tr), (V_seed() + 7, 20, 11, 1, tr), (V_seed() + 8, 6, 9, 6, tr // 4)], bound='4 buffers, %d draws, 6 sigma' % tr)
    ck.concrete('SimpleReplayBuffer/default size', default_size, [1], bound='one buffer')
    ck.concrete('SimpleReplayBuffer/seeds', seeds_differ, [(1, 2), (3, 4)], bound='2 pairs of seeds')


JOBS = [job('add %d' % B, add_body(B)) for B in (1, 2, 3)] + [job('add again', again_body), job('add non-batch', bad_add_body), job('init/clear', init_body)] + [job('sample %d' % k, sample_body(k)) for k in (1, 2, 3)] + [('native', job_native)]
