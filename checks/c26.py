"""C26: schedules, running averages and action noise."""
import collections
import numpy as onp
import z3
import coax
from coax.utils import StepwiseLinearFunction, OrnsteinUhlenbeckNoise
from coax.utils._rolling import RollingAverage, ExponentialAverage
from lib import pyvc as V
from lib.pyvc import inp, assume, sand, sor, snot, same, truth, implies, objarray, SList, SSeq, Forall, wrap
from checks.c01 import fields, V_seed


# ---------------------------------------------------------------- schedules

def step_body(k, kind):
    def body(I):
        ts, vs = [inp('int', 't%d' % i) for i in range(k)], [inp('real', 'v%d' % i) for i in range(k)]
        t = inp(kind, 't')
        good = sand(*[x < y for x, y in zip(ts, ts[1:])])
        try:
            f = I.construct(StepwiseLinearFunction, tuple(zip(ts, vs)), {})
        except ValueError as e:
            if not getattr(e, '_by_code', False):
                raise
            return [('rejected only if not ascending', snot(good))]
        y = I.call(f, (t,))
        out = [('accepted only if ascending', good), ('flat before the first step', implies(t <= ts[0], same(y, vs[0]))), ('flat after the last step', implies(t >= ts[-1], same(y, vs[-1])))]
        for (t0, v0), (t1, v1) in zip(zip(ts, vs), zip(ts[1:], vs[1:])):
            out.append(('linear between two steps', implies(sand(t >= t0, t <= t1), same((y - v0) * (t1 - t0), (v1 - v0) * (t - t0)))))
        for t0, v0 in zip(ts, vs):
            out.append(('exact at the steps', implies(same(t, t0), same(y, v0))))
        z = I.call(f, (t,))
        out.append(('a pure function of the timestep', same(y, z)))
        return out
    return body


def step_replay(v):
    k = len([x for x in v if x[0] == 't' and x[1:].isdigit()])
    st = [(int(v['t%d' % i]), float(v['v%d' % i])) for i in range(k)]
    return step_one(st, [float(v['t']), int(v['t'])])


def step_one(st, ts):
    asc = all(a[0] < b[0] for a, b in zip(st, st[1:]))
    try:
        f = StepwiseLinearFunction(*st)
    except ValueError:
        return 'ascending steps %s rejected' % st if asc else None
    if not asc:
        return 'steps %s accepted' % st
    for t in ts:
        w = onp.interp(t, [s[0] for s in st], [s[1] for s in st])
        y = f(t)
        if not onp.isclose(y, w, rtol=1e-9, atol=1e-9 * max(1, max(abs(s[1]) for s in st))):
            return 'StepwiseLinearFunction%s(%r) = %r, expected %r' % (tuple(st), t, y, w)
    return None


# ---------------------------------------------------------------- averages

def roll_body(full):
    def body(I):
        n, L, v = inp('int', 'n'), inp('int', 'L'), inp('real', 'v')
        assume(sand(n >= 1, L >= 0, same(L, n) if full else L < n))
        r = I.construct(RollingAverage, (n,), {})
        fields(r, '_value', '_deque')
        PS = z3.Function('PS', z3.IntSort(), z3.RealSort())     # partial sums of the window: element i is PS(i+1) - PS(i)
        ps = lambda i: wrap(PS(V.num(i)))      # noqa
        el = lambda i: ps(i + 1) - ps(i)       # noqa
        r._deque = SList(L, el, 'deque', n)
        val = inp('real', 'value')
        r._value = val
        assume(sand(same(val * L, ps(L) - ps(0)), implies(same(L, 0), same(val, 0))))
        got = I.call(r.update, (v,))
        d = V.view(r._deque)
        new = I.getattr(r, 'value')
        m = L if full else L + 1
        lo = 1 if full else 0
        return [('window length', same(d.n, m)), ('the window holds the last observations', Forall(m, lambda i: same(d.get(i), v if truth(same(i, m - 1)) else el(i + lo)))), ('value is the mean of the window', same(new * m, ps(L) - ps(lo) + v)), ('update returns the value', same(got, new))]
    return body


def roll_init(I):
    n, v = inp('int', 'n'), inp('real', 'v')
    assume(n >= 1)
    r = I.construct(RollingAverage, (n,), {})
    e = I.construct(ExponentialAverage, (n,), {})
    out = [('initially 0', sand(same(I.getattr(r, 'value'), 0), same(I.getattr(e, 'value'), 0)))]
    I.call(r.update, (v,))
    I.call(e.update, (v,))
    return out + [('the first observation is the mean', sand(same(I.getattr(r, 'value'), v), same(I.getattr(e, 'value'), v)))]


def exp_body(I):
    n, k, v, val = inp('int', 'n'), inp('int', 'k'), inp('real', 'v'), inp('real', 'value')
    assume(sand(n >= 1, k >= 0, k <= n))
    e = I.construct(ExponentialAverage, (n,), {})
    fields(e, '_value', '_len', '_maxlen')
    e._value, e._len = val, k
    got = I.call(e.update, (v,))
    new = I.getattr(e, 'value')
    m = V.ite(k < n, k + 1, n)
    return [('update returns the value', same(got, new)), ('value moves towards the observation by 1/min(count, n)', same((new - val) * m, v - val)), ('count', same(e._len, m)), ('n is kept', same(e._maxlen, n))]


# ---------------------------------------------------------------- noise

class Rnd:
    def __init__(self):
        self.z = []

    def randn(self, *n):
        k = int(onp.prod(n)) if n else 1
        z = [V.fresh('real', 'eps') for _ in range(k)]
        self.z.append(z)
        return objarray(z, n) if n else z[0]


def ou_body(shape, first, bounds):
    def body(I):
        k = int(onp.prod(shape))
        mu, sg, th = inp('real', 'mu'), inp('real', 'sigma'), inp('real', 'theta')
        assume(sand(sg > 0, th > 0))
        lo, hi = inp('real', 'min'), inp('real', 'max')
        assume(lo <= hi)
        kw = dict(min_value=lo, max_value=hi) if bounds else {}
        o = I.construct(OrnsteinUhlenbeckNoise, (mu, sg, th), kw)
        fields(o, '_noise', 'rnd')
        o.rnd = Rnd()
        x0 = [inp('real', 'x%d' % i) for i in range(k)]
        if first == 'reset':
            o._noise = objarray(x0, shape)
            I.call(o.reset, ())
        elif not first:
            o._noise = objarray(x0, shape)
        if first:
            x0 = [mu] * k
        acts = [inp('real', 'a%d' % i) for i in range(k)]
        a = objarray(acts, shape)
        r = I.call(o, (a,))
        z = o.rnd.z
        out = [('shape', onp.shape(r) == shape), ('one draw of white noise per component', len(z) == 1 and len(z[0]) == k)]
        if len(z) != 1 or len(z[0]) != k or onp.shape(r) != shape:
            return out
        x = [x_ - th * (x_ - mu) + sg * e for x_, e in zip(x0, z[0])]
        cl = (lambda t: V.ite(t < lo, lo, V.ite(t > hi, hi, t))) if bounds else (lambda t: t)
        if not bounds:
            for t, b in zip(x, acts):
                assume(sand(t > -1e14, t < 1e14, b > -1e14, b < 1e14))
        out += [('action plus noise (clipped)', sand(*[same(y, cl(b + t)) for y, b, t in zip(onp.ravel(r).tolist(), acts, x)])), ('the noise follows the Ornstein-Uhlenbeck recursion', sand(*[same(y, t) for y, t in zip(onp.ravel(o._noise).tolist(), x)])),
                ('the action is not modified', all(p is q for p, q in zip(a.ravel().tolist(), acts))), ('the result does not share memory with the state', not onp.shares_memory(r, o._noise)), ('parameters are kept', sand(same(o.mu, mu), same(o.sigma, sg), same(o.theta, th)))]
        return out
    return body


# ---------------------------------------------------------------- native

def steps(case):
    seed, = case
    rnd = onp.random.RandomState(seed)
    k = int(rnd.randint(2, 8))
    ts = onp.cumsum(rnd.randint(1, int(rnd.choice([2, 5, 100000])), size=k)) - int(rnd.choice([0, 3, 50]))
    if rnd.rand() < .2:
        ts = rnd.randint(-3, 8, size=k)
    st = [(int(t), float(v) if rnd.rand() < .7 else int(rnd.randint(-3, 4))) for t, v in zip(ts, rnd.randn(k))]
    lo, hi = int(min(ts)), int(max(ts))
    q = [lo - 7, hi + 7] + [int(t) + d for t in ts for d in (-1, 0, 1)] + [int(x) for x in rnd.randint(lo, hi + 1, size=10)] + [float(x) for x in rnd.rand(5) * (hi - lo) + lo]
    m = step_one(st, q)
    if m:
        return m
    for bad in ([(0, 1.)], [(0, 1.), (1.5, 2.)], [(0, 1.), [1, 2.]], [(0, 'a'), (1, 2.)], []):
        try:
            StepwiseLinearFunction(*bad)
            return 'steps %s accepted' % bad
        except TypeError:
            pass
    return None


def averages(case):
    seed, n = case
    rnd = onp.random.RandomState(seed)
    r, e = RollingAverage(n), ExponentialAverage(n)
    h, w = [], 0.
    if r.value != 0 or e.value != 0:
        return 'initial value'
    for k in range(60):
        v = float(rnd.randint(-16, 17)) / 4
        if rnd.rand() < .2:
            v = int(v)
        h.append(v)
        a, b = r.update(v), e.update(v)
        w += (v - w) / min(k + 1, n)
        if not onp.isclose(a, onp.mean(h[-n:]), atol=1e-9) or a != r.value:
            return 'RollingAverage(%d) after %s: %r, expected %r' % (n, h, a, onp.mean(h[-n:]))
        if not onp.isclose(b, w, atol=1e-9) or b != e.value:
            return 'ExponentialAverage(%d) after %s: %r, expected %r' % (n, h, b, w)
    return None


def noise(case):
    seed, shape, dtype = case
    rnd = onp.random.RandomState(seed)
    mu, sg, th = float(rnd.randn()), float(rnd.rand() + .1), float(rnd.rand())
    if rnd.rand() < .3:
        mu, sg, th = [onp.full(shape, x) + rnd.rand(*shape) * .1 for x in (mu, sg, th)]
    kw = {}
    if rnd.rand() < .7:
        kw['min_value'] = -float(rnd.rand()) - .2
    if rnd.rand() < .7:
        kw['max_value'] = float(rnd.rand()) + .2
    o, o2 = OrnsteinUhlenbeckNoise(mu, sg, th, random_seed=seed % 1000, **kw), OrnsteinUhlenbeckNoise(mu, sg, th, random_seed=seed % 1000, **kw)
    ref = onp.random.RandomState(seed % 1000)
    x = onp.ones(shape) * mu
    for k in range(25):
        if rnd.rand() < .1:
            o.reset()
            o2.reset()
            x = onp.ones(shape) * mu
        a = onp.asarray(rnd.randn(*shape) * .5).astype(dtype)
        keep = a.copy()
        y = o(a)
        onp.random.rand(2)
        if not onp.array_equal(keep, a):
            return 'the action was modified'
        if not onp.array_equal(y, o2(a)):
            return 'two noises with the same seed differ'
        x = x + th * (mu - x) + sg * ref.randn(*shape)
        w = onp.clip(a + x, kw.get('min_value', -1e15), kw.get('max_value', 1e15))
        if onp.shape(y) != shape or not onp.allclose(y, w, rtol=1e-4, atol=1e-4):
            return 'mu=%s sigma=%s theta=%s %s: call %d on %s gives %s, expected %s' % (mu, sg, th, kw, k, a, y, w)
        if isinstance(y, onp.ndarray) and y.ndim:
            y[...] = 77.        # must not reach the state
    return None


def noise_cases(k, salt=0):
    rnd = onp.random.RandomState(41 * V_seed() + salt)
    return [(int(rnd.randint(1 << 30)), [(), (1,), (3,), (2, 2)][i % 4], 'float32' if i % 3 else 'float64') for i in range(k)]


def search():
    def gen():
        for s in range(300):
            yield steps((s,))
        for s in range(4):
            for n in (1, 2, 3, 10):
                yield averages((s, n))
        for c in noise_cases(100, 3):
            yield noise(c)
    return next((m for m in gen() if m), None)


def job(name, body, rp=None, **kw):
    def f(ck):
        ck.trust('numpy.random.RandomState.randn: standard normal draws')
        ck.assume('real arithmetic, unbounded integers', 'schedules: instantiated at 2 to 4 steps, all times and values', 'noise: instantiated at the listed shapes, scalar parameters; without bounds: |action|, |noise| < 1e14 (the default bounds are 1e15)')
        V.contract(ck, name, body, replay=rp, search=search, **kw)
    return (name, f)


def job_native(ck):
    n = 3000 if ck.thorough else 200
    ck.concrete('schedules', steps, [(s,) for s in range(n)], bound='%d random schedules of at most 7 steps' % n)
    ck.concrete('averages', averages, [(s, k) for s in range(5) for k in (1, 2, 3, 10, 100)], bound='60 observations')
    ck.concrete('noise', noise, noise_cases(n), bound='25 calls')


JOBS = [job('StepwiseLinearFunction %d steps, %s' % (k, kd), step_body(k, kd), step_replay, deadline_s=90) for k in (2, 3, 4) for kd in ('int', 'real')] + [
    job('RollingAverage full', roll_body(True)), job('RollingAverage filling', roll_body(False)), job('averages init', roll_init), job('ExponentialAverage', exp_body)] + [
    job('OrnsteinUhlenbeckNoise %s %s%s' % (sh, {True: 'new', 'reset': 'reset', False: 'going on'}[f], ' bounded' * b), ou_body(sh, f, b)) for sh in ((2,), (1, 2)) for f in (True, 'reset', False) for b in (True, False)] + [('native', job_native)]
