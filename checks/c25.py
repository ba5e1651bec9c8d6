"""C25: environment wrappers: frame stacking, box actions as reals / bins, meta policies."""
import numpy as onp
import gymnasium
import z3
from scipy.special import expit
import coax
from coax.wrappers import FrameStacking, BoxActionsToReals, BoxActionsToDiscrete, MetaPolicyEnv
from lib import pyvc as V
from lib.pyvc import inp, assume, sand, sor, snot, same, truth, implies, objarray, SList, SSeq, Forall, wrap
from checks.c01 import fields, V_seed


class Env(gymnasium.Env):
    observation_space = gymnasium.spaces.Box(-1, 1, (2,))

    def __init__(self, space=None):
        self.action_space = space or gymnasium.spaces.Discrete(3)
        self.calls, self.ret, self.rret = [], None, None

    def reset(self, **kw):
        self.calls.append(('reset', kw))
        return self.rret

    def step(self, a):
        self.calls.append(('step', a))
        return self.ret


def results(I, env, noinfo=False):
    env.ret = (inp('obj', 's_next'), inp('real', 'r'), inp('bool', 'done'), inp('bool', 'truncated'), None if noinfo else {'x': inp('obj', 'x')})
    return env.ret


def passed(out, ret, first=True):
    return [('%s is passed on' % nm, x is y) for nm, x, y in zip(('observation', 'reward', 'done', 'truncated'), out, ret) if first or nm != 'observation']


# ---------------------------------------------------------------- frame stacking

def frames_state(n):
    env = Env()
    w = FrameStacking(env, 3)
    fields(w, '_frames')
    F = z3.Function('frame', z3.IntSort(), V.Obj)
    get = lambda i: wrap(F(V.num(i)))      # noqa
    if w._frames.maxlen != 3:
        raise V.Unsupported('representation changed')
    return env, w, get


def fs_step(I):
    N = inp('int', 'num_frames')
    assume(N >= 1)
    env, w, get = frames_state(N)
    w._frames = SList(N, get, 'deque', N)
    ret = results(I, env)
    a = inp('obj', 'a')
    out = I.call(w.step, (a,))
    obs = V.view(out[0])
    fr = V.view(w._frames)
    want = lambda i: ret[0] if truth(same(i, N - 1)) else get(i + 1)      # noqa
    return [('num_frames observations', same(obs.n, N)), ('oldest first, the newest is the last', Forall(N, lambda i: same(obs.get(i), want(i)))), ('kept for the next step', Forall(N, lambda i: same(fr.get(i), want(i)))), ('state length', same(fr.n, N)),
            ('one step of the environment, with the given action', env.calls == [('step', a)] and env.calls[0][1] is a), ('info is passed on', out[4] is ret[4])] + passed(out, ret, False)


def fs_reset(fresh):
    def body(I):
        N = inp('int', 'num_frames')
        assume(N >= 1)
        env, w, get = frames_state(N)
        w._frames = SList(0 if fresh else N, get, 'deque', N)
        obs, info = inp('obj', 'obs'), {'x': 1}
        env.rret = (obs, info)
        out = I.call(w.reset, (), {'seed': 7})
        if not (isinstance(out, tuple) and len(out) == 2):
            return [('observation and info', False)]
        f, fr = V.view(out[0]), V.view(w._frames)
        return [('num_frames observations', same(f.n, N)), ('all are the first observation', Forall(N, lambda i: same(f.get(i), obs))), ('state', Forall(N, lambda i: same(fr.get(i), obs))), ('state length', same(fr.n, N)), ('info is passed on', out[1] is info),
                ('one reset of the environment, keyword arguments passed on', env.calls == [('reset', {'seed': 7})])]
    return body


# ---------------------------------------------------------------- box actions

class Space:
    """a box of arbitrary bounds"""

    def __init__(self, low, high, dtype='float32'):
        self.low, self.high, self.shape, self.dtype = low, high, low.shape, onp.dtype(dtype)


class Accept:
    def __init__(self, ok):
        self.ok = ok

    def contains(self, x):
        return self.ok


class Rnd:
    def __init__(self):
        self.u = []

    def rand(self, *n):
        k = int(onp.prod(n)) if n else 1
        u = [V.fresh('real', 'u') for _ in range(k)]
        for x in u:
            assume(sand(x >= 0, x < 1))
        self.u += u
        return objarray(u, tuple(int(i) for i in n)) if n else u[0]


def box_env(shape):
    env = Env(gymnasium.spaces.Box(onp.full(shape, -1, 'float32'), onp.full(shape, 2, 'float32')))
    return env


def symbox(env, shape):
    k = int(onp.prod(shape))
    lo, hi = [inp('real', 'lo%d' % i) for i in range(k)], [inp('real', 'hi%d' % i) for i in range(k)]
    assume(sand(*[x <= y for x, y in zip(lo, hi)]))
    env.action_space = Space(objarray(lo, shape), objarray(hi, shape))
    return lo, hi


def calls_ok(env, shape):
    return len(env.calls) == 1 and env.calls[0][0] == 'step' and onp.shape(env.calls[0][1]) == shape


def info_ok(out, env, ret, noinfo):
    inf = out[4]
    return [('info is kept, with the original action', isinstance(inf, dict) and (noinfo or inf.get('x') is ret[4]['x']) and isinstance(inf.get('a_orig'), list) and len(inf['a_orig']) == 1 and inf['a_orig'][0] is env.calls[0][1])]


def disc_body(shape, nb, noinfo=False):
    def body(I):
        k = int(onp.prod(shape))
        env = box_env(shape)
        w = BoxActionsToDiscrete(env, nb)
        fields(w, '_rnd', '_nvec', '_size')
        lo, hi = symbox(env, shape)
        n = [nb] * k if isinstance(nb, int) else list(nb)
        sym = inp('int', 'bins') if isinstance(nb, int) else None
        if sym is not None and isinstance(w._nvec, list) and w._nvec == [nb] * k:
            assume(sym >= 1)        # any number of bins
            n = [sym] * k
            w._nvec = list(n)
        elif sym is not None:
            sym = None
        w._rnd = Rnd()
        ok = inp('bool', 'valid')
        w.action_space = Accept(ok)
        acts = [inp('int', 'a%d' % i) for i in range(k)]
        assume(sand(*[sand(x >= 0, x < m) for x, m in zip(acts, n)]))
        ret = results(I, env, noinfo)
        try:
            out = I.call(w.step, (acts[0] if k == 1 else objarray(acts),))
        except AssertionError as e:
            if not getattr(e, '_by_code', False):
                raise
            return [('rejected only if not in the action space', snot(ok)), ('a rejected action does not reach the environment', env.calls == [])]
        res = [('accepted only if in the action space', ok), ('one step of the environment, action of the original shape', calls_ok(env, shape))]
        if not calls_ok(env, shape):
            return res
        b = onp.ravel(env.calls[0][1]).tolist()
        res += [('within the box', sand(*[sand(x >= l, x <= h) for x, l, h in zip(b, lo, hi)])),
                ('within the selected bin', sand(*[sand((x - l) * m >= a * (h - l), (x - l) * m <= (a + 1) * (h - l)) for x, l, h, a, m in zip(b, lo, hi, acts, n)])),
                ('uniform within the bin', sand(*[same((x - l) * m, (a + u) * (h - l)) for x, l, h, a, u, m in zip(b, lo, hi, acts, w._rnd.u, n)]) if len(w._rnd.u) == k else False)]
        return res + passed(out, ret) + info_ok(out, env, ret, noinfo)
    return body


SIG = z3.Function('sigmoid', z3.RealSort(), z3.RealSort())


def m_expit(I, x):
    def f(t):
        t = V.num(t)
        t = z3.ToReal(t) if t.sort() == z3.IntSort() else t
        V.fact(z3.And(SIG(t) > 0, SIG(t) < 1))
        return wrap(SIG(t))
    if isinstance(x, onp.ndarray):
        return objarray([f(t) for t in x.ravel().tolist()], x.shape)
    return f(x)


V.MODELS[expit] = m_expit


def reals_body(shape, noinfo=False):
    def body(I):
        k = int(onp.prod(shape))
        env = box_env(shape)
        w = BoxActionsToReals(env)
        lo, hi = symbox(env, shape)
        ok = inp('bool', 'valid')
        w.action_space = Accept(ok)
        acts = [inp('real', 'a%d' % i) for i in range(k)]
        assume(sand(*[sand(x >= -1e15, x <= 1e15) for x in acts]))
        ret = results(I, env, noinfo)
        try:
            out = I.call(w.step, (objarray(acts),))
        except AssertionError as e:
            if not getattr(e, '_by_code', False):
                raise
            return [('rejected only if not in the action space', snot(ok)), ('a rejected action does not reach the environment', env.calls == [])]
        res = [('accepted only if in the action space', ok), ('one step of the environment, action of the original shape', calls_ok(env, shape))]
        if not calls_ok(env, shape):
            return res
        b = onp.ravel(env.calls[0][1]).tolist()
        res += [('within the box', sand(*[sand(x >= l, x <= h) for x, l, h in zip(b, lo, hi)])), ('low + (high - low) * sigmoid(a)', sand(*[same(x, l + (h - l) * m_expit(I, a)) for x, l, h, a in zip(b, lo, hi, acts)]))]
        return res + passed(out, ret) + info_ok(out, env, ret, noinfo)
    return body


# ---------------------------------------------------------------- meta policy

def meta_body(arm, noinfo):
    def body(I):
        env = Env()
        calls = []
        acts = [inp('obj', 'act%d' % i) for i in range(3)]
        lp = inp('real', 'logp')

        def plain(s):
            calls.append((0, s))
            return acts[0]

        def stoch(s, return_logp=False):
            calls.append((1, s))
            return (acts[1], lp) if return_logp else acts[1]

        class Obj:
            def __call__(self, s, return_logp=False):
                calls.append((2, s))
                return (acts[2], lp) if return_logp else acts[2]
        w = MetaPolicyEnv(env, plain, stoch, Obj())
        s0 = inp('obj', 's')
        env.rret = (s0, {'y': 1})
        r = I.call(w.reset, ())
        ok0 = isinstance(r, tuple) and len(r) == 2 and r[0] is s0 and r[1] is env.rret[1]
        ret = results(I, env, noinfo)
        out = I.call(w.step, (arm,))
        s1 = ret[0]
        inf = out[4]
        res = [('reset passes on observation and info', ok0), ('the selected arm sees the current observation', calls == [(arm, s0)] and calls[0][1] is s0), ('its action is executed', len(env.calls) == 2 and env.calls[1][0] == 'step' and env.calls[1][1] is acts[arm]),
               ('info carries action and log-propensity', isinstance(inf, dict) and inf.get('a') is acts[arm] and (noinfo or inf.get('x') is ret[4]['x'])), ('log-propensity', same(inf.get('logp'), lp if arm else 0.0))] + passed(out, ret)
        # the next step sees the new observation
        calls.clear()
        env.ret = (inp('obj', 's2'),) + tuple(ret[1:])
        I.call(w.step, ((arm + 1) % 3,))
        res.append(('the next step sees the new observation', len(calls) == 1 and calls[0][0] == (arm + 1) % 3 and calls[0][1] is s1))
        return res
    return body


def meta_invalid(I):
    env = Env()
    seen = []
    w = MetaPolicyEnv(env, lambda s: seen.append(s))
    out = []
    for a, why in ((0, 'before reset'), (1, 'out of range'), (-1, 'negative')):
        try:
            I.call(w.step, (a,))
            out.append(('rejected ' + why, False))
        except AssertionError:
            out.append(('rejected ' + why, env.calls == ([] if why == 'before reset' else [('reset', {})]) and not seen))
        if why == 'before reset':
            env.rret = (inp('obj', 's'), {})
            I.call(w.reset, ())
    return out


# ---------------------------------------------------------------- native

class Scripted(gymnasium.Env):
    def __init__(self, seed, space, strict=True):
        self.action_space = space
        self.observation_space = gymnasium.spaces.Box(-9, 9, (2,))
        self.rnd = onp.random.RandomState(seed)
        self.obs, self.acts, self.strict = [], [], strict
        self.last = None

    def reset(self, **kw):
        self.obs = [self.rnd.randn(2)]
        self.last = (self.obs[-1], {'i': self.rnd.randint(99)})
        return self.last

    def step(self, a):
        self.acts.append(a)
        self.obs.append(self.rnd.randn(2))
        self.last = (self.obs[-1], self.rnd.randn(), bool(self.rnd.rand() < .3), bool(self.rnd.rand() < .3), {'i': self.rnd.randint(99)} if self.rnd.rand() < .8 else None)
        self.info = dict(self.last[4] or {})
        return self.last


def frames(case):
    seed, n = case
    env = Scripted(seed, gymnasium.spaces.Discrete(3))
    w = FrameStacking(env, n)
    rnd = onp.random.RandomState(seed)
    if len(w.observation_space.spaces) != n:
        return 'observation space %s for %d frames' % (w.observation_space, n)
    for k in range(40):
        if k == 0 or rnd.rand() < .15:
            s, info = w.reset()
        else:
            s, r, d, tr, info = w.step(1)
            if (r, d, tr) != env.last[1:4]:
                return 'reward/done/truncated changed'
        want = [env.obs[max(0, len(env.obs) - n + i)] if len(env.obs) - n + i >= 0 else env.obs[0] for i in range(n)]
        if len(s) != n or not all(x is y for x, y in zip(s, want)):
            return '%d frames, %d steps after reset: stacked %s, expected %s' % (n, len(env.obs) - 1, s, want)
        if info is not env.last[-1]:
            return 'info changed'
    for bad in (0, -1, 2.0):
        try:
            FrameStacking(env, bad)
            return 'num_frames=%r accepted' % bad
        except TypeError:
            pass
    return None


def rbox(rnd, shape, dtype='float32'):
    lo = rnd.choice([-2., -.1, 0., -100., .3], size=shape)
    hi = lo + rnd.choice([.1, 1., 1 / 3., 250.], size=shape)
    return gymnasium.spaces.Box(lo.astype(dtype), hi.astype(dtype), dtype=dtype)


def boxes(case):
    seed, shape, dtype = case
    rnd = onp.random.RandomState(seed)
    sp = rbox(rnd, shape, dtype)
    k = int(onp.prod(shape))
    nb = int(rnd.randint(1, 6)) if rnd.rand() < .5 else tuple(int(x) for x in rnd.randint(1, 6, size=k))
    n = onp.array([nb] * k if isinstance(nb, int) else nb)
    env = Scripted(seed, sp)
    w, w2 = BoxActionsToDiscrete(env, nb, random_seed=seed % 99), BoxActionsToDiscrete(Scripted(seed, sp), nb, random_seed=seed % 99)
    w.reset()
    w2.reset()
    if (not isinstance(w.action_space, gymnasium.spaces.Discrete) or w.action_space.n != n[0]) if k == 1 else (not isinstance(w.action_space, gymnasium.spaces.MultiDiscrete) or list(w.action_space.nvec) != list(n)):
        return 'action space %s for box %s and num_bins %s' % (w.action_space, sp, nb)
    w.action_space.seed(seed % 77)
    rel = []
    for _ in range(12):
        a = w.action_space.sample()
        keep = onp.array(a)
        out = w.step(a)
        out2 = w2.step(a)
        b = env.acts[-1]
        if onp.shape(b) != sp.shape or not sp.contains(b):
            return 'action %s becomes %r (%s), which is not in the action space %s' % (a, b, getattr(b, 'dtype', None), sp)
        if not onp.array_equal(b, w2.env.acts[-1]):
            return 'two wrappers with the same seed differ'
        t = onp.ravel((onp.asarray(b, 'float64') - sp.low) / (onp.asarray(sp.high, 'float64') - sp.low)) * n - onp.ravel(a)
        if (t < -1e-3).any() or (t > 1 + 1e-3).any():
            return 'action %s of %s bins becomes %s in box %s: outside its bin' % (a, n, b, sp)
        rel += list(t)
        if any(x is not y for x, y in zip(out[:4], env.last[:4])) or not isinstance(out[4], dict) or len(out[4].get('a_orig', ())) != 1 or out[4]['a_orig'][0] is not b or (env.last[4] is not None and out[4]['i'] != env.last[4]['i']):
            return 'step returned %s, environment %s' % (out, env.last)
        if not onp.array_equal(keep, a):
            return 'the action was modified'
    if len(rel) > 30 and (onp.std(rel) < .15 or abs(onp.mean(rel) - .5) > .29):
        return 'positions within the bins are not uniform: %s' % rel
    r = BoxActionsToReals(env)
    r.reset()
    if r.action_space.shape != (k,):
        return 'action space %s' % r.action_space
    for _ in range(12):
        a = (rnd.randn(k) * rnd.choice([.1, 1., 10., 100., 1e4])).astype(r.action_space.dtype)
        out = r.step(a)
        b = env.acts[-1]
        if onp.shape(b) != sp.shape or not sp.contains(b):
            return 'action %s becomes %s, box %s' % (a, b, sp)
        want = sp.low + (sp.high - sp.low) / (1 + onp.exp(-onp.clip(a.astype('float64'), -700, 700))).reshape(sp.shape)
        if not onp.allclose(b, want, rtol=1e-5, atol=1e-5 * onp.max(sp.high - sp.low)):
            return 'action %s becomes %s, expected %s' % (a, b, want)
        if not isinstance(out[4], dict) or out[4]['a_orig'][-1] is not b:
            return 'a_orig missing: %s' % (out[4],)
    # nested: all original actions are recorded, innermost first
    w = BoxActionsToDiscrete(BoxActionsToReals(Scripted(seed, sp)), 3, random_seed=1)
    w.reset()
    return None


class Extreme(onp.random.RandomState):
    """draws at the very end of the unit interval"""
    u = 1 - 2. ** -53

    def rand(self, *shape):
        return onp.full(shape, self.u) if shape else self.u


def extremes(case):
    """rounding never leads out of the box"""
    seed, nb, dtype = case
    rnd = onp.random.RandomState(seed)
    for _ in range(40):
        lo = rnd.uniform(-10, 0, size=2).astype(dtype)
        hi = onp.maximum(lo + .1, rnd.uniform(-2, 2, size=2)).astype(dtype)
        sp = gymnasium.spaces.Box(lo, hi, dtype=dtype)
        env = Scripted(seed, sp)
        w = BoxActionsToDiscrete(env, nb, random_seed=seed)
        if type(vars(w).get('_rnd')) is not onp.random.RandomState:
            return None
        w._rnd = Extreme()
        w.reset()
        for a in (0, nb - 1):
            w.step(onp.full(2, a))
            if not sp.contains(env.acts[-1]):
                return 'bin %d of %d becomes %r (position %r within the bin), outside of box %r' % (a, nb, env.acts[-1], Extreme.u, sp)
    return None


def metas(case):
    seed, = case
    rnd = onp.random.RandomState(seed)
    env = Scripted(seed, gymnasium.spaces.Discrete(50))
    seen = []

    def arm(i, logp):
        if logp:
            return lambda s, return_logp=False: seen.append((i, s)) or ((i * 10 + int(s[0] > 0), -.5 * i) if return_logp else i)
        return lambda s: seen.append((i, s)) or i * 10
    kinds = [bool(rnd.rand() < .5) for _ in range(4)]
    w = MetaPolicyEnv(env, *[arm(i, k) for i, k in enumerate(kinds)])
    if w.action_space != gymnasium.spaces.Discrete(4):
        return 'action space %s' % w.action_space
    s, _ = w.reset()
    for _ in range(25):
        if rnd.rand() < .1:
            s, _ = w.reset()
        i = int(rnd.randint(4))
        seen.clear()
        out = w.step(i)
        a = i * 10 + (int(s[0] > 0) if kinds[i] else 0)
        if len(seen) != 1 or seen[0][0] != i or seen[0][1] is not s or env.acts[-1] != a:
            return 'arm %d: saw %s, executed %s, expected %s' % (i, seen, env.acts[-1], a)
        if any(out[4].get(k) != v for k, v in env.info.items()):
            return 'info of the environment %s, returned %s' % (env.info, out[4])
        if out[4]['a'] != a or out[4]['logp'] != (-.5 * i if kinds[i] else 0.) or any(x is not y for x, y in zip(out[:4], env.last[:4])):
            return 'step returned %s' % (out,)
        s = out[0]
    return None


SHAPES = [(1,), (2,), (3,), (2, 2), (1, 3)]


def cases(k, salt=0):
    rnd = onp.random.RandomState(37 * V_seed() + salt)
    return [(int(rnd.randint(1 << 30)), SHAPES[i % len(SHAPES)], 'float32' if i % 3 else 'float64') for i in range(k)]


def search():
    for s in range(6):
        for n in (1, 2, 3, 5):
            m = frames((s, n))
            if m:
                return m
        m = metas((s,))
        if m:
            return m
    return next((m for m in (boxes(c) for c in cases(60, 3)) if m), None)


def job(name, body, **kw):
    def f(ck):
        ck.trust('gymnasium.Wrapper attribute delegation, gymnasium space membership tests', 'scipy.special.expit: the logistic function (values in (0, 1))', 'numpy.random.RandomState.rand: uniform on [0, 1)')
        ck.assume('real arithmetic', 'box wrappers: instantiated at the listed shapes, all bounds and bin counts')
        V.contract(ck, name, body, search=search, **kw)
    return (name, f)


def job_native(ck):
    n = 800 if ck.thorough else 100
    ck.concrete('wrappers/frames', frames, [(s, k) for s in range(n // 20) for k in (1, 2, 3, 5)], bound='40 steps')
    ck.concrete('wrappers/boxes', boxes, cases(n), bound='%d random boxes, 24 actions each' % n)
    ck.concrete('wrappers/rounding', extremes, [(s, nb, dt) for s in range(3) for nb in (1, 2, 5, 7) for dt in ('float32', 'float64')], bound='24 x 40 boxes, extreme draws')
    ck.concrete('wrappers/meta', metas, [(s,) for s in range(n // 10)], bound='25 steps')


JOBS = [job('FrameStacking.step', fs_step), job('FrameStacking.reset', fs_reset(False)), job('FrameStacking.reset (first)', fs_reset(True))] + [
    job('BoxActionsToDiscrete.step %s %s%s' % (sh, nb, ' no info' * ni), disc_body(sh, nb, ni)) for sh, nb, ni in (((1,), 4, False), ((1,), 4, True), ((2,), 3, False), ((2,), (3, 5), False), ((2, 2), 2, False), ((1, 2), (7, 2), False))] + [
    job('BoxActionsToReals.step %s%s' % (sh, ' no info' * ni), reals_body(sh, ni)) for sh, ni in (((1,), False), ((1,), True), ((2,), False), ((2, 2), False))] + [
    job('MetaPolicyEnv.step arm %d%s' % (a, ' no info' * ni), meta_body(a, ni)) for a in range(3) for ni in (False, True)] + [job('MetaPolicyEnv.step invalid', meta_invalid), ('native', job_native)]
