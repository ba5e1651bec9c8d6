"""C32: coax.Worker: rollout, rollout_loop, learn_loop, and the routing of buffer / state / metrics / attributes to the parameter store."""
import sys
import copy
import types
import logging
import numpy as onp
import gymnasium

# ray is not started: a stand-in with ray's documented contract (a remote method runs on the actor's own instance; it is known to have
# run, and its result is available, when ray.get returns)
_ray, _act = types.ModuleType('ray'), types.ModuleType('ray.actor')


class ActorHandle:
    def __init__(self, target):
        self.__dict__['_t'] = target

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return RemoteMethod(getattr(self._t, name))


class RemoteMethod:
    def __init__(self, f):
        self.f = f

    def remote(self, *a, **k):
        return Ref(self.f, a, k)

    def __call__(self, *a, **k):
        raise TypeError('actor methods cannot be called directly')


class Ref:
    def __init__(self, f, a, k):
        self.c, self.done = (f, a, k), False


def ray_get(ref):
    if not isinstance(ref, Ref):
        raise TypeError('ray.get of %s' % type(ref))
    if not ref.done:
        f, a, k = ref.c
        r = f(*a, **k)
        ref.done, ref.v = True, (Frozen(r) if type(r) is dict else r)
    return ref.v


class Frozen(dict):
    """what ray.get returns is not to be written to"""

    def __setitem__(self, k, v):
        raise TypeError('read-only')
    update = pop = setdefault = __delitem__ = __setitem__

    def copy(self):
        return dict(self)


_ray.actor, _ray.get, _act.ActorHandle = _act, ray_get, ActorHandle
sys.modules['ray'], sys.modules['ray.actor'] = _ray, _act

import coax                                      # noqa: E402
from coax import Worker                          # noqa: E402
from coax._core import worker as mod             # noqa: E402
from coax.wrappers import TrainMonitor           # noqa: E402
from lib import pyvc as V                        # noqa: E402
from lib.pyvc import inp, assume, sand, sor, snot, same, implies   # noqa: E402
from checks.c01 import V_seed                    # noqa: E402

logging.disable(logging.CRITICAL)
KINDS = ('store itself', 'in-process store', 'actor store')


class Spec:
    max_episode_steps = 5
    reward_threshold = None
    id = 'tiny'


class Tiny(gymnasium.Env):
    observation_space = gymnasium.spaces.Discrete(7)
    action_space = gymnasium.spaces.Discrete(3)
    spec = Spec()

    def reset(self, **kw):
        return 0, {}

    def step(self, a):
        return 1, 0., False, False, {}


class MEnv:
    """environment under contract; records what is done to it"""

    def __init__(self, log):
        self.log, self.logger = log, logging.getLogger('x')
        self.spec = Spec()

    def record_metrics(self, m):
        self.log.append(('record_metrics', dict(m)))

    def get_metrics(self):
        m = self.metrics
        self.log.append(('get_metrics',))
        return dict(m)


class Buf:
    def __init__(self, log):
        self.log, self.n = log, inp('int', 'buffer_len')
        assume(self.n >= 0)
        self.batch = inp('obj', 'batch')

    def sym_len(self):
        self.log.append(('len',))
        return self.n

    def add(self, transition_batch):
        self.log.append(('add', transition_batch))

    def update(self, idx, Adv):
        self.log.append(('update', idx, Adv))

    def sample(self, batch_size=32):
        self.log.append(('sample', batch_size))
        return self.batch


class AdvBuf(Buf):
    def add(self, transition_batch, Adv):
        self.log.append(('add', transition_batch, Adv))


class Store:
    """a parameter store: the interface of Worker"""

    def __init__(self, log):
        self.log, self.ret = log, {}
        self.len_ = inp('int', 'store_len')

    def buffer_len(self):
        self.log.append(('buffer_len',))
        return self.len_

    def buffer_add(self, transition_batch, Adv=None):
        self.log.append(('buffer_add', transition_batch, Adv))

    def buffer_update(self, transition_batch_idx, Adv):
        self.log.append(('buffer_update', transition_batch_idx, Adv))

    def buffer_sample(self, batch_size=32):
        self.log.append(('buffer_sample', batch_size))
        return self.ret['batch']

    def get_state(self):
        self.log.append(('get_state',))
        return self.ret['state']

    def set_state(self, state):
        self.log.append(('set_state', state))

    def pull_metrics(self):
        self.log.append(('pull_metrics',))
        return dict(self.ret['metrics'])

    def push_metrics(self, metrics):
        self.log.append(('push_metrics', dict(metrics)))

    def pull_getattr(self, name, default_value=...):
        v = self.ret['attr']() if callable(self.ret['attr']) else self.ret['attr']
        self.log.append(('pull_getattr', name, default_value, v))
        return v

    def push_setattr(self, name, value):
        self.log.append(('push_setattr', name, value))


class W(Worker):
    log = None
    st = None

    def get_state(self):
        self.log.append(('get_state',))
        return self.st

    def set_state(self, state):
        self.log.append(('set_state', state))
        self.st = state

    def trace(self, s, a, r, done, logp=0.0, w=1.0):
        self.log.append(('trace', s, a, r, done, logp, w))

    def learn(self, transition_batch):
        self.log.append(('learn', transition_batch))
        return {'loss': self.loss}


def worker(kind, buf=Buf):
    """a worker, its own record, the record of its own buffer, and the record of its parameter store"""
    w = W(Tiny())
    w.log, blog, slog, elog = [], [], [], []
    w.st = inp('obj', 'own_state')
    w.loss = inp('real', 'loss')
    w.env = MEnv(elog)
    w.env.metrics = {'m': inp('real', 'own_metric')}
    w.buffer = buf(blog)
    s = None if kind == KINDS[0] else Store(slog)
    w.param_store = ActorHandle(s) if kind == KINDS[2] else s
    return w, s, blog, slog, elog


def one(log, *ev):
    """the record consists of exactly this event"""
    if len(log) != 1:
        return False
    return event(log[0], *ev)


def event(e, *ev):
    return len(e) == len(ev) and e[0] == ev[0] and sand(True, *[x is y if x is None or y is None or x is ... or isinstance(x, (str, dict)) else same(x, y) for x, y in zip(e[1:], ev[1:])])


def quiet(*logs):
    return all(not x for x in logs)


# ---------------------------------------------------------------- routing

def len_body(kind):
    def body(I):
        w, s, blog, slog, elog = worker(kind)
        r = I.call(w.buffer_len, ())
        if s is None:
            return [('length of the own buffer', same(r, w.buffer.n)), ('nothing else is touched', [e[0] for e in blog] == ['len'] and quiet(w.log, elog))]
        return [("length of the store's buffer", same(r, s.len_)), ('the own buffer is not touched', quiet(blog, w.log, elog)), ('one request', one(slog, 'buffer_len'))]
    return body


def add_body(kind, adv, given):
    def body(I):
        w, s, blog, slog, elog = worker(kind, AdvBuf if adv else Buf)
        tb, A = inp('obj', 'tb'), inp('obj', 'Adv') if given else None
        r = I.call(w.buffer_add, (tb, A) if given else (tb,))
        if s is None:
            return [('added to the own buffer, once', one(blog, 'add', tb, A) if adv else one(blog, 'add', tb)), ('nothing else is touched', quiet(w.log, elog)), ('no result', r is None)]
        return [('added to the store, once, before it returns', one(slog, 'buffer_add', tb, A)), ('the own buffer is not touched', quiet(blog, w.log, elog))]
    return body


def update_body(kind):
    def body(I):
        w, s, blog, slog, elog = worker(kind)
        ix, A = inp('obj', 'idx'), inp('obj', 'Adv')
        I.call(w.buffer_update, (ix, A))
        if s is None:
            return [('the own buffer is updated, once', one(blog, 'update', ix, A)), ('nothing else is touched', quiet(w.log, elog))]
        return [('the store is updated, once, before it returns', one(slog, 'buffer_update', ix, A)), ('the own buffer is not touched', quiet(blog, w.log, elog))]
    return body


class Wait(V.Template):
    """waiting for the buffer to fill up: the last reported length is kept"""
    ranges = ((0, 30),)

    def __init__(self, S):
        self.S = S

    def ghosts(self):
        return {'length': self.S.last}

    def inv(self, I, k):
        return [('nothing is sampled while waiting', not self.S.sampled)]

    def havoc(self, I, k):
        self.S.last = V.fresh('int', 'length')
        V.assume(self.S.last >= 0)


class Sampler:
    """the source of the samples: its length is arbitrary at each request"""

    def __init__(self):
        self.last, self.sampled = V.fresh('int', 'length0'), []
        self.batch = inp('obj', 'batch')

    def length(self):
        self.last = V.fresh('int', 'length')
        V.assume(self.last >= 0)
        return self.last

    def sample(self, batch_size=32):
        self.sampled.append((batch_size, self.last))
        return self.batch


def sample_body(kind, warmup, dflt):
    def body(I):
        w, s, blog, slog, elog = worker(kind)
        S = Sampler()
        W_ = w.buffer_warmup = inp('int', 'warmup') if warmup else None
        B = 32 if dflt else inp('int', 'batch_size')
        assume(B >= 1)
        if warmup:
            assume(W_ >= 0)
        own = w.buffer
        if s is None:
            own.sample = S.sample
            own.__class__ = type('B', (Buf,), {'sym_len': lambda self: S.length()})
        else:
            s.buffer_len, s.buffer_sample = S.length, S.sample
        waits = []
        I.contracts = dict(I.contracts)
        I.contracts[mod.time.sleep] = lambda I_, x: waits.append(x)
        I.loops['*'] = Wait(S)
        r = I.call(w.buffer_sample, () if dflt else (B,))
        need = V.ite(W_ > B, W_, B) if warmup else B
        out = [('one sample, of the given size', len(S.sampled) == 1 and same(S.sampled[0][0], B)), ('the sample is returned', same(r, S.batch)), ('the own buffer is touched only by the store itself', s is None or quiet(blog))]
        if len(S.sampled) == 1:
            out.append(('sampled only once the buffer holds max(warmup, batch_size) transitions', S.sampled[0][1] >= need))
        return out
    return body


class SleepBound(Wait):
    def inv(self, I, k):
        return Wait.inv(self, I, k)


def sleep_body(I):
    """waiting times are positive and at most 30 seconds (unless the loop is left)"""
    w, s, blog, slog, elog = worker(KINDS[1])
    S = Sampler()
    w.buffer_warmup = inp('int', 'warmup')
    assume(w.buffer_warmup >= 0)
    s.buffer_len, s.buffer_sample = S.length, S.sample
    I.contracts = dict(I.contracts)
    I.contracts[mod.time.sleep] = lambda I_, x: I_.oblige([('waits for 0 < x <= 30 seconds', sand(x > 0, x <= 30))])
    I.loops['*'] = Wait(S)
    I.call(w.buffer_sample, ())
    return [('sampled', len(S.sampled) == 1)]


def state_body(kind, push):
    def body(I):
        w, s, blog, slog, elog = worker(kind)
        old = w.st
        if s is not None:
            s.ret['state'] = inp('obj', 'store_state')
        try:
            I.call(w.push_state if push else w.pull_state, ())
        except AssertionError as e:
            if not getattr(e, '_by_code', False):
                raise
            return [('refused only by the store itself', s is None), ('nothing happened', quiet(w.log, blog, slog, elog))]
        if s is None:
            return [('refused by the store itself', False)]
        if push:
            return [("the store's state is the own state when it returns", one(slog, 'set_state', old)), ('the own state is read only', one(w.log, 'get_state') and same(w.st, old)), ('nothing else', quiet(blog, elog))]
        return [("the store's state is requested once", one(slog, 'get_state')), ("the own state is the store's", one(w.log, 'set_state', s.ret['state'])), ('nothing else', quiet(blog, elog))]
    return body


def metrics_body(kind):
    def body(I):
        w, s, blog, slog, elog = worker(kind)
        m = {'x': inp('real', 'x')}
        own = dict(w.env.metrics)
        if s is not None:
            s.ret['metrics'] = {'y': inp('real', 'y'), 'z': inp('real', 'z')}
        src = w.env.metrics if s is None else s.ret['metrics']
        was = dict(src)
        r = I.call(w.pull_metrics, ())
        ok = isinstance(r, dict) and set(r) == set(was)
        out = [("the store's metrics", ok and sand(*[same(r[k], was[k]) for k in was])), ('requested once', one(elog, 'get_metrics') if s is None else one(slog, 'pull_metrics') and quiet(elog))]
        try:
            r['mine'] = 0.0
            out.append(('the result may be modified without changing the store', set(src) == set(was)))
        except TypeError:
            out.append(('the result may be modified without changing the store', False))
        del elog[:], slog[:]
        I.call(w.push_metrics, (m,))
        log = elog if s is None else slog
        nm = 'record_metrics' if s is None else 'push_metrics'
        out += [('pushed to the store, once', len(log) == 1 and log[0][0] == nm and set(log[0][1]) == {'x'} and same(log[0][1]['x'], m['x'])), ('only to the store', s is None or quiet(elog)), ('own metrics are kept', w.env.metrics == own), ('nothing else', quiet(blog, w.log))]
        return out
    return body


class Node:
    pass


NAMES = ('alpha', 'env.T', 'env.inner.k', 'a.b.c.d')


def attr_body(kind, name, form):
    """form: plain / default (present) / default (absent)"""
    def body(I):
        w, s, blog, slog, elog = worker(kind)
        x, v, d = inp('obj', 'x'), inp('obj', 'v'), inp('obj', 'default')
        parts = name.split('.')
        o = w
        for p in parts[:-1]:
            if not hasattr(o, p):
                setattr(o, p, Node())
            o = getattr(o, p)
        if form != 'absent':
            setattr(o, parts[-1], x)
        if s is not None:
            s.ret['attr'] = x if form != 'absent' else d
        args = (name,) if form == 'plain' else (name, d)
        r = I.call(w.pull_getattr, args)
        out = [('the attribute of the store', same(r, x if form != 'absent' else d)), ('reading changes nothing', (getattr(o, parts[-1], None) is x) if form != 'absent' else not hasattr(o, parts[-1]))]
        if s is not None:
            out.append(('one request, with the name and default given', len(slog) == 1 and event(slog[0][:3], 'pull_getattr', name, ... if form == 'plain' else d)))
        del slog[:]
        I.call(w.push_setattr, (name, v))
        if s is None:
            out += [('the attribute is set', getattr(o, parts[-1], None) is v), ('read back', same(I.call(w.pull_getattr, (name,)), v))]
        else:
            out += [('the attribute is set on the store, once', one(slog, 'push_setattr', name, v)), ('the own attribute is not', (getattr(o, parts[-1], None) is x) if form != 'absent' else not hasattr(o, parts[-1]))]
        return out + [('nothing else', quiet(blog, elog, w.log))]
    return body


def missing_body(name):
    def body(I):
        w, s, blog, slog, elog = worker(KINDS[0])
        try:
            I.call(w.pull_getattr, (name,))
        except AttributeError:
            return [('AttributeError for a missing attribute without default', True)]
        return [('AttributeError for a missing attribute without default', False)]
    return body


# ---------------------------------------------------------------- rollout

class REnv(MEnv):
    """an episode: the current observation, the number of steps taken, whether it has ended"""

    def __init__(self, log):
        MEnv.__init__(self, log)
        self.cur, self.n, self.ended, self.fresh = None, 0, True, False

    def reset(self, **kw):
        self.log.append(('reset',))
        self.cur, self.n, self.ended = V.fresh('obj', 's0'), 0, False
        return self.cur, {}

    def step(self, a):
        s, r, d, t = V.fresh('obj', 's'), V.fresh('real', 'r'), V.fresh('bool', 'done'), V.fresh('bool', 'trunc')
        self.log.append(('step', a, self.cur, r, sor(d, t), self.ended))
        self.cur, self.n, self.ended = s, self.n + 1, sor(d, t)
        return s, r, d, t, {}


class Rollout(V.Template):
    def __init__(self, env, log, N):
        self.env, self.log, self.N = env, log, N

    def ghosts(self):
        return {'current observation': self.env.cur, 'number of steps': self.env.n}

    def inv(self, I, k):
        if isinstance(k, int):
            out = [('one reset, then the steps', [e[0] for e in self.log] == ['reset'])]
        else:
            out = iteration(self.log)
        del self.log[:]
        return out + [('as many steps as iterations', same(self.env.n, k)), ('no step after the end of the episode', snot(self.env.ended)), ('not more steps than allowed', self.env.n <= self.N)]

    def havoc(self, I, k):
        self.env.cur, self.env.n, self.env.ended = V.fresh('obj', 'cur'), k, False
        V.assume(k <= self.N)
        del self.log[:]


def iteration(log):
    """a step: the policy acts on the current observation, the environment is stepped, the transition is traced"""
    ok = [e[0] for e in log] == ['pi', 'step', 'trace']
    out = [('policy, environment, tracer: once each, in this order', ok)]
    if ok:
        (_, sp, a, lp), (_, a_, s, r, end, was), (_, ts, ta, tr, td, tl, tw) = log
        out += [('the policy acts on the current observation', same(sp, s)), ('the environment gets the action', same(a_, a)), ('traced: the observation acted upon', same(ts, s)), ('traced: the action', same(ta, a)), ('traced: the reward', same(tr, r)),
                ('traced: done iff terminated or truncated', same(td, end)), ('traced: the log-propensity of the action', same(tl, lp)), ('traced: unit weight', same(tw, 1)), ('the episode had not ended', snot(was))]
    return out


def rollout_body(kind):
    def body(I):
        w, s, blog, slog, elog = worker(kind)
        log = w.log
        env = w.env = REnv(log)
        N = inp('int', 'max_steps')
        assume(N >= 1)
        env.spec = Spec()
        env.spec.max_episode_steps = N

        def pi(s_, return_logp=False):
            a, lp = V.fresh('obj', 'a'), V.fresh('real', 'logp')
            log.append(('pi', s_, a, lp))
            return (a, lp) if return_logp else a
        w.pi = pi
        sp = I.loops['*'] = Rollout(env, log, N)
        I.call(w.rollout, ())
        out = []
        if log:
            out += iteration(log)
        return out + [('it ends with the episode, or after the allowed number of steps', sor(env.ended, same(env.n, N))), ('nothing else', quiet(blog, slog))]
    return body


def nopi_body(I):
    w, s, blog, slog, elog = worker(KINDS[1])
    w.pi = None
    try:
        I.call(w.rollout, ())
    except AssertionError:
        return [('refused without policy, before the environment is touched', quiet(elog, w.log, slog))]
    return [('refused without policy, before the environment is touched', False)]


# ---------------------------------------------------------------- the loops

class Counter:
    """env.T of the store: changed by others at any time"""

    def __init__(self):
        self.known = None

    def pull(self):
        self.known = V.fresh('int', 'T')
        return self.known


class RLoop(V.Template):
    def __init__(self, w, C, log, mx, th):
        self.w, self.C, self.log, self.mx, self.th = w, C, log, mx, th

    def ghosts(self):
        return {'T of the store, as last known': self.C.known}

    def inv(self, I, k):
        if isinstance(k, int):
            out = [('the loop starts by asking for T', [e[0] for e in self.log] == ['pull_getattr'] and self.log[0][1] == 'env.T')]
        else:
            out = rl_iteration(self)
        del self.log[:]
        return out

    def havoc(self, I, k):
        self.C.known = V.fresh('int', 'T')
        havoc_env(self.w.env)


def havoc_env(env):
    env.avg_G, env.t, env.dt_ms = V.fresh('real', 'avg_G'), V.fresh('int', 't'), V.fresh('real', 'dt')
    V.assume(sand(env.t >= 1, env.dt_ms > 0))


def rl_iteration(L):
    log = L.log
    kinds = [e[0] for e in log]
    n = {k: kinds.count(k) for k in kinds}
    ok = n.get('rollout') == 1 and n.get('own set_state') == 1 and n.get('push_setattr') == 1 and n.get('record_metrics') == 1
    out = [('one rollout, one state pulled, one T pushed, metrics recorded once', ok)]
    if not ok:
        return out
    ev = {k: log[kinds.index(k)] for k in kinds}
    pos = {k: kinds.index(k) for k in kinds}
    st = [e for e in log[:pos['own set_state']] if e[0] == 'get_state']
    out += [('the state is pulled from the store before the rollout', pos['own set_state'] < pos['rollout'] and bool(st) and same(ev['own set_state'][1], st[-1][1]))]
    pulls = [k for k, e in enumerate(log) if e[0] == 'pull_getattr' and pos['rollout'] < k < pos['push_setattr'] and e[1] == 'env.T']
    push = ev['push_setattr']
    out += [('T is asked for after the rollout and before it is pushed', bool(pulls)), ('env.T is what is pushed', push[1] == 'env.T'),
            ("the store's T advances by the steps of the rollout", same(push[2], log[pulls[-1]][3] + ev['rollout'][1]) if pulls else False)]
    m = ev['record_metrics'][1]
    out += [("the store's metrics are recorded, with T and the throughput", all(k in m for k in ('m', 'episode/T_global', 'throughput/rollout_loop')) and sand(same(m['m'], L.w.param_metric), same(m['episode/T_global'], push[2]), same(m['throughput/rollout_loop'] * ev['rollout'][2], 1000)))]
    out += [('no rollout once the steps are used up', ev['rollout'][3] < L.mx), ('no rollout once the reward threshold is reached', ev['rollout'][4] < L.th)]
    return out


def rloop_body(kind, threshold):
    def body(I):
        w, s, blog, slog, elog = worker(kind)
        log = w.log
        C = Counter()
        env = w.env = MEnv(log)
        havoc_env(env)
        mx = inp('int', 'max_total_steps')
        th = inp('real', 'threshold')
        env.spec = Spec()
        if threshold == 'spec':
            env.spec.reward_threshold = th
        elif threshold == 'none':
            th = float('inf')
        w.param_metric = inp('real', 'store_metric')
        s.log = log
        s.ret.update(attr=lambda: C.pull(), metrics={'m': w.param_metric})

        def get_state():
            x = V.fresh('obj', 'state')
            log.append(('get_state', x))
            return x

        def push_setattr(name, value):
            log.append(('push_setattr', name, value))
            if name == 'env.T':
                C.known = value
        s.get_state, s.push_setattr = get_state, push_setattr
        w.set_state = lambda x: log.append(('own set_state', x))

        def rollout(I_, self):
            g, known = env.avg_G, C.known
            havoc_env(env)
            log.append(('rollout', env.t, env.dt_ms, known, g))
        I.contracts = dict(I.contracts)
        I.contracts[Worker.rollout] = rollout
        I.loops['*'] = L = RLoop(w, C, log, mx, th)
        I.call(w.rollout_loop, (mx, th) if threshold == 'given' else (mx,))
        out = [('it ends only when the steps are used up or the threshold is reached', sor(C.known >= mx, env.avg_G >= th))]
        return out + [('no rollout is left half done', not any(e[0] == 'rollout' for e in log)), ('the own buffer is not touched', quiet(blog))]
    return body


class LLoop(RLoop):
    def inv(self, I, k):
        if isinstance(k, int):
            out = [('nothing is learned before the loop', not any(e[0] in ('learn', 'set_state', 'push_metrics') for e in self.log))]
        else:
            out = ll_iteration(self)
        del self.log[:]
        return out

    def havoc(self, I, k):
        self.C.known = V.fresh('int', 'T')


def ll_iteration(L):
    log = L.log
    kinds = [e[0] for e in log]
    names = ('own set_state', 'sample', 'learn', 'own get_state', 'set_state', 'push_metrics')
    ok = all(kinds.count(k) == 1 for k in names)
    out = [('state pulled, batch sampled, learned, state pushed, metrics pushed: once each', ok)]
    if not ok:
        return out
    ev = {k: log[kinds.index(k)] for k in kinds}
    pos = {k: kinds.index(k) for k in kinds}
    st = [e for e in log[:pos['own set_state']] if e[0] == 'get_state']
    out += [('the state is pulled from the store before learning', pos['own set_state'] < pos['learn'] and bool(st) and same(ev['own set_state'][1], st[-1][1])), ('learns from the batch that was sampled', pos['sample'] < pos['learn'] and same(ev['learn'][1], ev['sample'][2])),
            ('the batch has the given size', same(ev['sample'][1], L.B)), ('the learned state is pushed', pos['learn'] < pos['own get_state'] < pos['set_state'] and same(ev['set_state'][1], ev['own get_state'][1])),
            ('the metrics of this update are pushed', pos['learn'] < pos['push_metrics'] and set(ev['push_metrics'][1]) == {'loss', 'throughput/learn_loop'} and same(ev['push_metrics'][1]['loss'], ev['learn'][2])),
            ('no learning once the steps are used up', ev['learn'][3] < L.mx)]
    return out


def lloop_body(kind, dflt):
    def body(I):
        w, s, blog, slog, elog = worker(kind)
        log = w.log
        C = Counter()
        mx = inp('int', 'max_total_steps')
        B = 32 if dflt else inp('int', 'batch_size')
        assume(B >= 1)
        s.log = log
        s.ret.update(attr=lambda: C.pull())

        def get_state():
            x = V.fresh('obj', 'state')
            log.append(('get_state', x))
            return x
        s.get_state = get_state
        w.set_state = lambda x: log.append(('own set_state', x))

        def own_state():
            x = V.fresh('obj', 'own')
            log.append(('own get_state', x))
            return x
        w.get_state = own_state

        def learn(tb):
            l_ = V.fresh('real', 'loss')
            log.append(('learn', tb, l_, C.known))
            return {'loss': l_}
        w.learn = learn

        def sample(I_, self, batch_size=32):
            x = V.fresh('obj', 'batch')
            log.append(('sample', batch_size, x))
            return x
        clock = [V.fresh('real', 'time')]

        def now(I_):
            t = V.fresh('real', 'time')
            V.assume(t > clock[0])
            clock[0] = t
            return t
        I.contracts = dict(I.contracts)
        I.contracts[Worker.buffer_sample] = sample
        I.contracts[mod.time.time] = now
        L = I.loops['*'] = LLoop(w, C, log, mx, None)
        L.B = B
        I.call(w.learn_loop, (mx,) if dflt else (mx, B))
        return [('it ends only when the steps are used up', C.known >= mx), ('no update is left half done', not any(e[0] in ('learn', 'own set_state', 'sample') for e in log)), ('the own buffer is not touched', quiet(blog))]
    return body


# ---------------------------------------------------------------- construction, helpers

def init_body(kind):
    def body(I):
        w = object.__new__(W)
        env = TrainMonitor(Tiny())
        st = Store([]) if kind != KINDS[0] else None
        st = ActorHandle(st) if kind == KINDS[2] else st
        pi, tr, buf, wu = inp('obj', 'pi'), inp('obj', 'tracer'), inp('obj', 'buffer'), inp('int', 'warmup')
        I.call_fn(Worker.__init__, (w, env), dict(param_store=st, pi=pi, tracer=tr, buffer=buf, buffer_warmup=wu, name='n'))
        return [('environment', w.env is env), ('store', w.param_store is st), ('policy, tracer, buffer, warmup, name', sand(same(w.pi, pi), same(w.tracer, tr), same(w.buffer, buf), same(w.buffer_warmup, wu), w.name == 'n'))]
    return body


def threshold_body(case):
    def body(I):
        x, y = inp('real', 'given'), inp('real', 'of the environment')

        class E:
            pass
        e = E()
        if case != 'no spec':
            e.spec = Spec()
            if case == 'spec':
                e.spec.reward_threshold = y
        a = I.call(mod._check_reward_threshold, (x, e))
        b = I.call(mod._check_reward_threshold, (None, e))
        return [('a given threshold is used', same(a, x)), ("otherwise the environment's, otherwise none", same(b, y) if case == 'spec' else b == float('inf'))]
    return body


def check_env(case):
    """_check_env: environments, names, factories"""
    Tiny.spec.max_episode_steps = 5
    gid = 'CoaxTiny-v0'
    if gid not in gymnasium.envs.registration.registry:
        gymnasium.register(gid, entry_point=Tiny, max_episode_steps=6)

    class NoLimit(Tiny):
        spec = None
    made = []

    def factory():
        made.append(Tiny())
        return made[-1]
    t = Tiny()
    if case == 'env':
        e = mod._check_env(t, 'nm')
        return None if isinstance(e, TrainMonitor) and e.env is t else 'env not wrapped once: %s' % e
    if case == 'monitor':
        m = TrainMonitor(t)
        return None if mod._check_env(m, 'nm') is m else 'a TrainMonitor is wrapped again'
    if case == 'name':
        e = mod._check_env(gid, 'nm')
        return None if isinstance(e, TrainMonitor) and isinstance(e.unwrapped, Tiny) and e.spec.max_episode_steps == 6 else 'made from its name: %s' % e
    if case == 'factory':
        e = mod._check_env(factory, None)
        return None if isinstance(e, TrainMonitor) and len(made) == 1 and e.unwrapped is made[0] else 'made by a factory: %s, called %d times' % (e, len(made))
    for bad, ty in ((NoLimit(), ValueError), (lambda: NoLimit(), ValueError), (13, TypeError), (None, TypeError)):
        try:
            mod._check_env(bad, None)
            return '_check_env(%s) accepted' % bad
        except ty:
            pass
    return None


# ---------------------------------------------------------------- native runs

class Script(gymnasium.Env):
    observation_space = gymnasium.spaces.Discrete(1000)
    action_space = gymnasium.spaces.Discrete(3)

    def __init__(self, rnd, limit, threshold, log):
        self.rnd, self.log, self.k = rnd, log, 0
        self.spec = Spec()
        self.spec.max_episode_steps, self.spec.reward_threshold = limit, threshold

    def reset(self, **kw):
        self.k += 1
        self.log.append(('reset', self.k))
        return self.k, {}

    def step(self, a):
        self.k += 1
        r, d, t = float(self.rnd.randint(-3, 9)), bool(self.rnd.rand() < .15), bool(self.rnd.rand() < .1)
        self.log.append(('step', a, self.k, r, d, t))
        return self.k, r, d, t, {}


class NBuf:
    def __init__(self, log):
        self.items, self.log = [], log

    def __len__(self):
        return len(self.items)

    def add(self, transition_batch):
        self.items.append(transition_batch)

    def update(self, idx, Adv):
        self.log.append(('update', idx, Adv))

    def sample(self, batch_size=32):
        self.log.append(('sample', batch_size, len(self.items)))
        return ('batch', batch_size, len(self.log))


class NAdvBuf(NBuf):
    def add(self, transition_batch, Adv):
        self.items.append((transition_batch, Adv))


class NW(Worker):
    def __init__(self, *a, **k):
        self.log, self.version, self.fill = [], 0, True
        Worker.__init__(self, *a, **k)

    def get_state(self):
        return self.version

    def set_state(self, s):
        self.log.append(('set_state', s))
        self.version = s

    def trace(self, s, a, r, done, logp=0.0, w=1.0):
        self.log.append(('trace', s, a, r, done, logp, w))
        if self.fill:
            self.buffer_add((s, a))

    def learn(self, tb):
        self.log.append(('learn', tb))
        self.version += 1
        return {'loss': float(self.version)}


def native(case):
    """a store, a rollout worker and a learner: the whole history against its specification"""
    seed, actor = case
    rnd = onp.random.RandomState(seed)
    limit = int(rnd.randint(1, 8))
    th = [None, 4., 0., 30.][rnd.randint(4)]
    blog = []
    store = NW(TrainMonitor(Script(rnd, limit, None, [])), buffer=(NAdvBuf if rnd.rand() < .3 else NBuf)(blog))
    ps = ActorHandle(store) if actor else store
    elog = []

    def pi(s, return_logp=False):
        a, lp = int(rnd.randint(3)), -float(rnd.rand())
        w.log.append(('pi', s, a, lp))
        return (a, lp) if return_logp else a
    own = NBuf([])
    w = NW(TrainMonitor(Script(rnd, limit, th if rnd.rand() < .5 else None, elog)), param_store=ps, pi=pi, tracer='tr', buffer=own, buffer_warmup=3, name='nm')
    if (w.param_store, w.pi, w.tracer, w.buffer, w.buffer_warmup, w.name) != (ps, pi, 'tr', own, 3, 'nm'):
        return 'constructor'
    elog = w.env.unwrapped.log = w.log                                 # one record: policy, environment, tracer
    smoothing = w.env.smoothing
    mx = int(rnd.randint(0, 60))
    store.env.T = T0 = int(rnd.randint(0, 10))
    given = [None, 3., 0., 100.][rnd.randint(4)]
    if rnd.rand() < .3:                                               # somebody else finished the run in the meantime
        w.env.avg_G = 2.
    w.env.T = w.env.ep = 3
    store.version = 100
    n_add = len(store.buffer)
    eff = given if given is not None else (w.env.spec.reward_threshold if w.env.spec.reward_threshold is not None else float('inf'))
    before = store.env.T
    start = (store.env.T < mx) and (w.env.avg_G < eff)
    hook = {'n': 0}
    orig = w.rollout

    def counted():
        if not (store.env.T < mx and w.env.avg_G < eff):
            hook['late'] = (store.env.T, mx, w.env.avg_G, eff)
        hook['n'] += 1
        if hook['n'] > 200:
            raise RuntimeError('does not end')
        if w.version != store.version:
            hook['state'] = (w.version, store.version)
        k0 = len(w.log)
        orig()
        ev = w.log[k0:]
        msg = episode(ev, limit)
        if msg:
            hook['episode'] = msg
        store.version += 1                                            # a learner goes on learning, others roll out
        k = int(rnd.randint(3))
        store.env.T += k
        hook['steps'] = hook.get('steps', 0) + sum(e[0] == 'step' for e in ev) + k
    w.rollout = counted
    rec = []
    rm = w.env.record_metrics

    def record(m):
        rec.append(dict(m))
        rm(m)
    w.env.record_metrics = record
    args = (mx,) if given is None else (mx, given)
    w.rollout_loop(*args)
    for k in ('late', 'state', 'episode'):
        if k in hook:
            return 'rollout_loop: %s: %s' % (k, hook[k])
    if (hook['n'] > 0) != bool(start):
        return 'rollout_loop(%s) with T = %d, avg_G: %d rollouts' % (args, T0, hook['n'])
    if store.env.T != before + hook.get('steps', 0):
        return 'T of the store %d, expected %d + %d' % (store.env.T, before, hook.get('steps', 0))
    if store.env.T < mx and w.env.avg_G < eff:
        return 'rollout_loop%s ended at T = %d, avg_G = %s (threshold %s)' % (args, store.env.T, w.env.avg_G, eff)
    if len(rec) != hook['n'] or rec and (rec[-1].get('episode/T_global') != store.env.T or not rec[-1].get("throughput/rollout_loop", 0) > 0):
        return 'metrics recorded: %s' % rec[-1:]
    traced = [e for e in w.log if e[0] == 'trace']
    if len(own) or len(store.buffer) - n_add != len(traced) or w.buffer_len() != len(store.buffer) or store.buffer_len() != len(store.buffer):
        return 'transitions traced %d, in the store %d, in the own buffer %d' % (len(traced), len(store.buffer), len(own))
    if isinstance(store.buffer, NAdvBuf):
        w.buffer_add('tb', 7.)
        if store.buffer.items[-1] != ('tb', 7.):
            return 'buffer_add with advantages: %s' % (store.buffer.items[-1],)
    w.buffer_update([3], 5.)
    if blog[-1:] != [('update', [3], 5.)]:
        return 'buffer_update: %s' % blog[-1:]
    # learner
    lrn = NW(TrainMonitor(Script(rnd, limit, None, [])), param_store=ps, buffer=NBuf([]))
    dflt = rnd.rand() < .2
    B = 32 if dflt else int(rnd.randint(1, 12))
    lrn.buffer_warmup = warm = [None, 0, 3, 20][rnd.randint(4)]
    if rnd.rand() < .6:
        store.buffer_warmup = warm
    need = max(warm or 0, B)
    sleeps = []

    def sleep(x):
        sleeps.append(x)
        if len(sleeps) > 400:
            raise RuntimeError('waits for ever')
        store.buffer.items.extend([0] * int(rnd.randint(3)))
    if rnd.rand() < .5:
        del store.buffer.items[:]
    T1 = store.env.T
    mx2 = T1 + int(rnd.randint(-1, 6))
    real = lrn.learn

    def learn(tb):
        if store.env.T >= mx2:
            hook['late'] = 'learning at T = %d of %d' % (store.env.T, mx2)
        if lrn.version != store.version:
            hook['lstate'] = 'learning from state %s, the store has %s' % (lrn.version, store.version)
        if not blog or blog[-1][0] != 'sample' or tb != ('batch', B, len(blog)) or blog[-1][1] != B or blog[-1][2] < need:
            hook['batch'] = 'learning from %s, sampled %s, needed %d in the buffer' % (tb, blog[-1:], need)
        store.env.T += 1
        return real(tb)
    lrn.learn = learn
    slept, mod.time.sleep = mod.time.sleep, sleep
    try:
        v0 = store.version
        lrn.learn_loop(*((mx2,) if dflt else (mx2, B)))
    finally:
        mod.time.sleep = slept
    for k in ('late', 'lstate', 'batch'):
        if k in hook:
            return 'learn_loop: %s' % hook[k]
    k = max(0, mx2 - T1)
    if store.version != v0 + k or store.env.T != T1 + k:
        return 'learn_loop(%d, %d): state %s, expected %s; T %s' % (mx2, B, store.version, v0 + k, store.env.T)
    if any(not 0 < x <= 30 for x in sleeps) or len(lrn.buffer):
        return 'waiting times %s' % sleeps
    g = store.env.get_metrics()
    if k and ('loss' not in g or 'throughput/learn_loop' not in g or not onp.isclose(g['loss'], onp.mean([v0 + i + 1 for i in range(k)]))):
        return 'metrics pushed: %s' % g
    # attributes and metrics
    store.cfg = types.SimpleNamespace(sub=types.SimpleNamespace(x=1))
    for x in (w, lrn, store):
        x.push_setattr('cfg.sub.x', 5 + len(x.log))
        if store.cfg.sub.x != 5 + len(x.log) or x.pull_getattr('cfg.sub.x') != store.cfg.sub.x or x.pull_getattr('cfg.sub.y', 'd') != 'd' or x.pull_getattr('nothing', None) is not None:
            return 'attributes of the store'
        try:
            x.pull_getattr('cfg.sub.y')
            return 'a missing attribute is found'
        except AttributeError:
            pass
        m = x.pull_metrics()
        m['more'] = 1.
        if 'more' in store.env.get_metrics() or set(m) - {'more'} != set(g):
            return 'pull_metrics: %s, the store has %s' % (m, g)
    w.version = 77
    w.push_state()
    lrn.pull_state()
    if store.version != 77 or lrn.version != 77:
        return 'push_state / pull_state: %s %s' % (store.version, lrn.version)
    for f in (store.push_state, store.pull_state):
        try:
            f()
            return 'the store itself pulls or pushes its state'
        except AssertionError:
            pass
    return None


def episode(ev, limit):
    ev = [e for e in ev if e[0] in ('reset', 'pi', 'step', 'trace')]
    if not ev or ev[0][0] != 'reset':
        return 'no reset first: %s' % ev[:1]
    s = ev[0][1]
    n = (len(ev) - 1) // 3
    if len(ev) != 3 * n + 1 or not 1 <= n <= limit:
        return '%d events, at most %d steps' % (len(ev), limit)
    for k in range(n):
        p, st, tr = ev[3 * k + 1:3 * k + 4]
        if [p[0], st[0], tr[0]] != ['pi', 'step', 'trace']:
            return 'order %s' % [p[0], st[0], tr[0]]
        end = st[4] or st[5]
        if p[1] != s or st[1] != p[2] or tr != ('trace', s, p[2], st[3], end, p[3], 1.0):
            return 'step %d in state %s: policy %s, environment %s, traced %s' % (k, s, p, st, tr)
        if end != (k == n - 1) and not (k == n - 1 == limit - 1):
            return 'step %d of %d (at most %d): ended %s' % (k, n, limit, end)
        s = st[2]
    return None


def cases(k, salt=0):
    rnd = onp.random.RandomState(7 * V_seed() + salt)
    return [(int(rnd.randint(1 << 30)), bool(i % 2)) for i in range(k)]


FOUND = []


def guarded(c):
    try:
        return native(c)
    except Exception as e:
        return '%s: %s' % (type(e).__name__, str(e)[:300])


def search():
    if not FOUND:
        FOUND.append(next((x for x in (guarded(c) for c in cases(200, 5)) if x), None) or next((x for x in map(check_env, ENVS) if x), None))
    return FOUND[0]


ENVS = ('env', 'monitor', 'name', 'factory', 'bad')


def job(name, body, **kw):
    def f(ck):
        ck.trust('ray: a remote method runs on the actor and has run when ray.get returns; gymnasium; TrainMonitor (its own contracts: C24)')
        ck.assume('integers and reals are mathematical; the clock advances between two readings')
        V.contract(ck, 'Worker.' + name, body, search=search, **kw)
    return (name, f)


def job_native(ck):
    n = 400 if ck.thorough else 60
    ck.concrete('worker/store, rollout worker and learner', guarded, cases(n), bound='%d random runs (episodes of at most 7 steps, up to 60 steps, actor and in-process stores)' % n)
    ck.concrete('worker/environments', check_env, list(ENVS), bound='listed forms')


JOBS = []
for K in KINDS:
    JOBS += [job('__init__ ' + K, init_body(K)), job('buffer_len ' + K, len_body(K)), job('buffer_update ' + K, update_body(K)), job('pull_state ' + K, state_body(K, False)), job('push_state ' + K, state_body(K, True)), job('metrics ' + K, metrics_body(K))]
    for a in (True, False):
        for g in (True, False):
            JOBS.append(job('buffer_add %s%s%s' % (K, ', buffer with advantages' if a else '', ', given' if g else ''), add_body(K, a, g)))
            JOBS.append(job('buffer_sample %s%s%s' % (K, ', warmup' if a else '', ', default size' if g else ''), sample_body(K, a, g)))
    for nm in NAMES:
        for fm in ('plain', 'present', 'absent'):
            JOBS.append(job('attribute %s %s %s' % (nm, fm, K), attr_body(K, nm, fm)))
    if K != KINDS[0]:
        JOBS += [job('rollout ' + K, rollout_body(K))] + [job('rollout_loop %s, threshold %s' % (K, t), rloop_body(K, t)) for t in ('given', 'spec', 'none')] + [job('learn_loop %s%s' % (K, ', default size' if d else ''), lloop_body(K, d)) for d in (True, False)]
JOBS += [job('rollout without policy', nopi_body), job('waiting times', sleep_body)] + [job('missing attribute ' + nm, missing_body(nm)) for nm in ('beta', 'env.nothing', 'env.spec.nothing')]
JOBS += [job('reward threshold ' + c, threshold_body(c)) for c in ('spec', 'spec without', 'no spec')]
JOBS.append(('native', job_native))
