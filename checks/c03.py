"""C03: TransitionBatch construction, validation, splitting and chunking."""
import numpy as onp
import jax
import coax
from coax.reward_tracing import TransitionBatch
from coax.utils import chunks_pow2
from lib import pyvc as V
from lib.pyvc import inp, assume, sand, sor, snot, same, truth, objarray
from checks.c01 import V_seed

SLOTS = ('S', 'A', 'logP', 'Rn', 'In', 'S_next', 'A_next', 'logP_next', 'W', 'idx', 'extra_info')


def from_single_body(with_next, done_sym):
    def body(I):
        s, a, lp, r, g, w = inp('obj', 's'), inp('obj', 'a'), inp('real', 'logp'), inp('real', 'r'), inp('real', 'gamma'), inp('real', 'w')
        d = inp('bool', 'done') if done_sym else True
        s2, a2, lp2, ix = inp('obj', 's2'), inp('obj', 'a2'), inp('real', 'logp2'), inp('int', 'idx')
        kw = dict(s_next=s2, a_next=a2, logp_next=lp2, idx=ix) if with_next else {}
        good = sand(lp <= 0, g >= 0, g <= 1, w > 0, lp2 <= 0 if with_next else True)
        try:
            tb = I.call(TransitionBatch.from_single, (s, a, lp, r, d, g), dict(kw, w=w))
        except TypeError:
            return [('rejected only if logp > 0, gamma outside [0, 1] or w <= 0', snot(good))]
        out = [('accepted only if logp <= 0, 0 <= gamma <= 1 and w > 0', good), ('S', same(tb.S, [s])), ('A', same(tb.A, [a])), ('logP', same(tb.logP, [lp])), ('Rn', same(tb.Rn, [r])),
               ('In == gamma * (1 - done)', same(tb.In, [V.ite(d, 0.0, g)])), ('W', same(tb.W, [w])), ('batch size', same(I.getattr(tb, 'batch_size'), 1))]
        if with_next:
            out += [('S_next', same(tb.S_next, [s2])), ('A_next', same(tb.A_next, [a2])), ('logP_next', same(tb.logP_next, [lp2])), ('idx', same(tb.idx, [ix]))]
        else:
            out += [('absent fields stay None', tb.S_next is None and tb.A_next is None and tb.logP_next is None and tb.extra_info is None), ('default idx', same(tb.idx, [0]))]
        return out
    return body


def ctor_body(B):
    def body(I):
        cols = {k: objarray([inp('obj' if k[0] in 'SA' else 'real', '%s%d' % (k, b)) for b in range(B)]) for k in ('S', 'A', 'logP', 'Rn', 'In', 'S_next', 'A_next', 'logP_next', 'W')}
        tb = I.construct(TransitionBatch, (), dict(cols))
        out = [(k, same(getattr(tb, k), cols[k])) for k in cols]
        out += [('idx defaults to the row numbers', same(tb.idx, list(range(B)))), ('batch_size', same(I.getattr(tb, 'batch_size'), B))]
        t2 = I.construct(TransitionBatch, (), {k: cols[k] for k in cols if k != 'W'})
        out += [('W defaults to ones', same(t2.W, [1] * B))]
        its = list(I.call(iter, (tb,)))
        out += [('iteration yields the fields in order', len(its) == len(SLOTS) and all(x is getattr(tb, k) for x, k in zip(its, SLOTS)))]
        d = I.call(tb._asdict, ())
        out += [('_asdict', list(d) == list(SLOTS) and all(d[k] is getattr(tb, k) for k in SLOTS))]
        # pytree round trip
        leaves, td = jax.tree_util.tree_flatten(tb)
        t3 = jax.tree_util.tree_unflatten(td, leaves)
        out += [('pytree round trip keeps every field', all(same(getattr(t3, k), getattr(tb, k)) is True or getattr(t3, k) is getattr(tb, k) for k in SLOTS))]
        return out
    return body


def split_body(B, nested):
    def body(I):
        mk = lambda k: objarray([inp('real', '%s%d' % (k, b)) for b in range(B)])    # noqa
        S = {'x': mk('Sx'), 'y': (mk('Sy0'), mk('Sy1'))} if nested else mk('S')
        S2 = {'x': mk('Tx'), 'y': (mk('Ty0'), mk('Ty1'))} if nested else mk('T')
        tb = I.construct(TransitionBatch, (), dict(S=S, A=mk('A'), logP=mk('logP'), Rn=mk('Rn'), In=mk('In'), S_next=S2, A_next=None if nested else mk('A2'), logP_next=mk('lp2'), W=mk('W'),
                                                   idx=objarray([inp('int', 'idx%d' % b) for b in range(B)]), extra_info={'e': mk('e')} if nested else None))
        singles = list(I.call(tb.to_singles, ()))
        out = [('one transition per row', len(singles) == B)]
        for b, t in enumerate(singles[:B]):
            for k in SLOTS:
                want = jax.tree_util.tree_map(lambda leaf: leaf[b:b + 1], getattr(tb, k))
                got = getattr(t, k)
                gl, wl = jax.tree_util.tree_leaves(got), jax.tree_util.tree_leaves(want)
                ok = jax.tree_util.tree_structure(got) == jax.tree_util.tree_structure(want) and sand(*[same(x, y) for x, y in zip(gl, wl)])
                out.append(('row %s is carried over unchanged' % k, ok))
        return out
    return body


def chunks_body(B):
    def body(I):
        mk = lambda k: objarray([inp('real', '%s%d' % (k, b)) for b in range(B)])    # noqa
        tb = I.construct(TransitionBatch, (), dict(S={'x': mk('S')}, A=mk('A'), logP=mk('logP'), Rn=mk('Rn'), In=mk('In'), S_next={'x': mk('T')}, A_next=None, logP_next=None, W=mk('W'),
                                                   idx=objarray([inp('int', 'idx%d' % b) for b in range(B)])))
        ch = list(I.call(chunks_pow2, (tb,)))
        sizes = [len(c.Rn) for c in ch]
        out = [('chunk sizes are distinct powers of two, in decreasing order, adding up to the batch size', sum(sizes) == B and all(x & (x - 1) == 0 for x in sizes) and sizes == sorted(set(sizes), reverse=True))]
        for k in SLOTS:
            got = [jax.tree_util.tree_leaves(getattr(c, k)) for c in ch]
            want = jax.tree_util.tree_leaves(getattr(tb, k))
            ok = all(len(g) == len(want) for g in got) and sand(*[same(onp.concatenate([g[j] for g in got]), want[j]) for j in range(len(want))])
            out.append(('the chunks concatenate to the batch', ok))
        return out
    return body


# ---------------------------------------------------------------- native

def rand_tree(rnd, B, kind):
    if kind == 0:
        return rnd.randn(B, 2)
    if kind == 1:
        return rnd.randint(5, size=B)
    if kind == 2:
        return {'u': rnd.randn(B, 3), 'v': (rnd.randn(B), rnd.randint(3, size=(B, 2)))}
    return (rnd.randn(B), {'w': rnd.randn(B, 1, 2)})


def rand_batch(rnd, B):
    k, ka = rnd.randint(4), rnd.randint(2)
    opt = lambda x: None if rnd.rand() < .25 else x    # noqa
    return dict(S=rand_tree(rnd, B, k), A=rand_tree(rnd, B, 1 - ka), logP=-rnd.rand(B), Rn=rnd.randn(B), In=rnd.rand(B), S_next=rand_tree(rnd, B, k), A_next=opt(rand_tree(rnd, B, 1 - ka)),
                logP_next=opt(-rnd.rand(B)), W=rnd.rand(B) + .1, idx=opt(rnd.permutation(1000)[:B]), extra_info=opt({'e': rnd.randn(B), 'f': (rnd.randn(B, 2),)}))


def tree_eq(a, b):
    la, lb = jax.tree_util.tree_leaves(a), jax.tree_util.tree_leaves(b)
    return jax.tree_util.tree_structure(a) == jax.tree_util.tree_structure(b) and all(onp.shape(x) == onp.shape(y) and onp.array_equal(x, y) for x, y in zip(la, lb))


def native_case(case):
    seed, B = case
    rnd = onp.random.RandomState(seed)
    d = rand_batch(rnd, B)
    tb = TransitionBatch(**d)
    want = dict(d)
    if d['idx'] is None:
        want['idx'] = onp.arange(B)
    for k in SLOTS:
        if not tree_eq(getattr(tb, k), want[k]):
            return 'field %s is not the one given' % k
    if tb.batch_size != B:
        return 'batch_size %s, expected %d' % (tb.batch_size, B)
    ones = list(tb.to_singles())
    if len(ones) != B:
        return 'to_singles yields %d transitions for a batch of %d' % (len(ones), B)
    for b, t in enumerate(ones):
        if t.batch_size != 1:
            return 'to_singles yields a batch of size %s' % t.batch_size
        for k in SLOTS:
            if not tree_eq(getattr(t, k), jax.tree_util.tree_map(lambda x: x[b:b + 1], want[k])):
                return 'to_singles: row %d of %s is %s' % (b, k, getattr(t, k))
    back = jax.tree_util.tree_map(lambda *xs: onp.concatenate(xs, axis=0), *ones)
    for k in SLOTS:
        if not tree_eq(getattr(back, k), want[k]):
            return 'concatenating the singles does not give back %s' % k
    ch = list(chunks_pow2(tb))
    sizes = [c.batch_size for c in ch]
    if sum(sizes) != B or any(x & (x - 1) for x in sizes) or sizes != sorted(set(sizes), reverse=True):
        return 'chunks_pow2: sizes %s for a batch of %d' % (sizes, B)
    back = jax.tree_util.tree_map(lambda *xs: onp.concatenate(xs, axis=0), *ch)
    for k in SLOTS:
        if not tree_eq(getattr(back, k), want[k]):
            return 'concatenating the chunks does not give back %s' % k
    if not (tb == TransitionBatch(**want)):
        return 'a batch is not equal to an equal batch'
    for k in ('Rn', 'logP', 'W', 'In'):
        ch2 = dict(want)
        ch2[k] = want[k] + onp.eye(B)[rnd.randint(B)] * .5
        if tb == TransitionBatch(**ch2):
            return 'batches that differ in %s compare equal' % k
    return None


def single_case(case):
    seed, bad = case
    rnd = onp.random.RandomState(seed)
    kw = dict(s={'x': rnd.randn(2), 'y': 3}, a=int(rnd.randint(3)), logp=float(-rnd.rand()), r=float(rnd.randn()), done=bool(rnd.rand() < .5), gamma=float(rnd.choice([0., .9, 1., 1])),
              s_next=None if rnd.rand() < .3 else {'x': rnd.randn(2), 'y': 4}, a_next=None if rnd.rand() < .3 else 1, logp_next=None if rnd.rand() < .3 else float(-rnd.rand()), w=float(rnd.rand() + .1),
              idx=None if rnd.rand() < .5 else 17, extra_info=None if rnd.rand() < .5 else {'q': (1., 2.)})
    if rnd.rand() < .3:      # boundary values
        kw.update(logp=0., r=0., a=0)
    if rnd.rand() < .3:
        kw.update({k: type(kw[k])(0) for k in ('a_next', 'logp_next', 'idx') if kw[k] is not None})
    if rnd.rand() < .3:
        kw['r'] = rnd.randn(3)
    if rnd.rand() < .3:
        kw['logp'] = -rnd.rand(3)
    if bad:
        k, v = bad
        kw[k] = v
        try:
            TransitionBatch.from_single(**kw)
        except TypeError:
            return None
        return 'from_single accepted %s=%r' % (k, v)
    tb = TransitionBatch.from_single(**kw)
    one = lambda t: None if t is None else jax.tree_util.tree_map(lambda x: onp.expand_dims(x, 0), t)    # noqa
    want = dict(S=one(kw['s']), A=one(kw['a']), logP=one(kw['logp']), Rn=one(kw['r']), In=onp.array([kw['gamma'] * (0. if kw['done'] else 1.)]), S_next=one(kw['s_next']), A_next=one(kw['a_next']),
                logP_next=one(kw['logp_next']), W=onp.array([kw['w']]), idx=onp.array([kw['idx'] or 0]), extra_info=one(kw['extra_info']))
    for k in SLOTS:
        if not tree_eq(getattr(tb, k), want[k]):
            return 'from_single: %s is %s, expected %s' % (k, getattr(tb, k), want[k])
    if tb.batch_size != 1:
        return 'batch_size of a single transition is %s' % tb.batch_size
    return None


BAD = [('logp', .1), ('logp', onp.array([-.1, .2])), ('logp', None), ('logp', 'x'), ('r', None), ('r', 'x'), ('done', 0), ('done', None), ('done', onp.bool_(True)) if False else ('done', 1.0), ('gamma', 1.1), ('gamma', -.1),
       ('gamma', 'x'), ('gamma', None), ('w', 0), ('w', -1.), ('w', 'x'), ('logp_next', .2), ('logp_next', 'x')]


def replay_single(v):
    def f(done):
        kw = dict(s=1., a=2, logp=v['logp'], r=v['r'], done=done, gamma=v['gamma'], w=v['w'], s_next=3., a_next=4, logp_next=v['logp2'], idx=v['idx'])
        good = v['logp'] <= 0 and 0 <= v['gamma'] <= 1 and v['w'] > 0 and v['logp2'] <= 0
        try:
            tb = TransitionBatch.from_single(**kw)
        except TypeError as e:
            return 'from_single rejected %s: %s' % (kw, e) if good else None
        if not good:
            return 'from_single accepted %s' % kw
        want = dict(S=[1.], A=[2], logP=[v['logp']], Rn=[v['r']], In=[0. if done else v['gamma']], S_next=[3.], A_next=[4], logP_next=[v['logp2']], W=[v['w']], idx=[v['idx']])
        for k, x in want.items():
            g = getattr(tb, k)
            if g is None or onp.shape(g) != onp.shape(x) or not onp.allclose(g, x):
                return 'from_single(%s): %s is %s, expected %s' % (kw, k, getattr(tb, k), x)
    return f(bool(v.get('done', True))) or f(True)


def cases(k):
    return [(1000 * V_seed() + s, 1 + s % 17) for s in range(k)]


def native_search():
    for c in cases(120):
        m = native_case(c)
        if m:
            return m
    for s in range(100):
        m = single_case((s, None))
        if m:
            return m
    return None


def jobs():
    out = []
    for wn in (True, False):
        for ds in (True, False):
            out.append(('single-%d%d' % (wn, ds), (lambda wn, ds: lambda ck: V.contract(ck, 'from_single/%s/%s' % ('next' if wn else 'bare', 'done symbolic' if ds else 'terminal'), from_single_body(wn, ds),
                                                                                 replay=replay_single, search=native_search))(wn, ds)))
    for B in (1, 2, 3):
        out.append(('ctor%d' % B, (lambda B: lambda ck: V.contract(ck, 'TransitionBatch/rows %d' % B, ctor_body(B), search=native_search))(B)))
    for B in (1, 2, 3, 5):
        for nested in (False, True):
            out.append(('split%d%d' % (B, nested), (lambda B, nested: lambda ck: V.contract(ck, 'to_singles/rows %d%s' % (B, '/nested' if nested else ''), split_body(B, nested), search=native_search))(B, nested)))
    for B in (1, 2, 3, 6, 7, 11, 16):
        out.append(('chunks%d' % B, (lambda B: lambda ck: V.contract(ck, 'chunks_pow2/rows %d' % B, chunks_body(B), search=native_search))(B)))

    def nat(ck):
        ck.assume('batch sizes are bounded (1..3 for the constructor, 1..5 for splitting, up to 16 for chunking in the symbolic contracts; up to 17 in the native ones), field values are not')
        k = 1500 if ck.thorough else 170
        ck.concrete('TransitionBatch/native', native_case, cases(k), bound='%d random batches of 1..17 rows with nested observations' % k)
        ck.concrete('from_single/native', single_case, [(s, None) for s in range(k)] + [(s, b) for s, b in enumerate(BAD)], bound='%d random transitions, %d invalid ones' % (k, len(BAD)))
    out.append(('native', nat))
    return out
