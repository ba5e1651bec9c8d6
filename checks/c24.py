"""C24: TrainMonitor: counters, averages, periods, metrics; transparent to the wrapped environment."""
import os
import re
import logging
import tempfile
import collections
import pickle
import numpy as onp
import gymnasium
import coax
from coax.wrappers import TrainMonitor
from coax.wrappers._train_monitor import StreamingSample
from lib import pyvc as V
from lib.pyvc import inp, assume, sand, sor, snot, same, truth, implies
from checks.c01 import fields, V_seed

logging.disable(logging.CRITICAL)


class Env(gymnasium.Env):
    """records the calls; returns what it is told to"""
    observation_space = gymnasium.spaces.Discrete(7)
    action_space = gymnasium.spaces.Discrete(3)

    def __init__(self, script=None):
        self.calls, self.ret, self.rret = [], None, None
        self.script = script

    def reset(self, **kw):
        self.calls.append('reset')
        return self.rret

    def step(self, a):
        self.calls.append(('step', a))
        return self.ret


def sym_monitor(I):
    env = Env()
    m = TrainMonitor(env)
    fields(m, 'T', 'ep', 't', 'G', 'avg_G', 'smoothing', '_n_avg_G', '_ep_metrics', '_period', '_ep_actions')
    st = dict(T=inp('int', 'T'), ep=inp('int', 'ep'), t=inp('int', 't'), G=inp('real', 'G'), avg_G=inp('real', 'avg_G'), _n_avg_G=inp('int', 'n_avg'), smoothing=inp('int', 'smoothing'))
    assume(sand(st['T'] >= 0, st['ep'] >= 0, st['t'] >= 0, st['_n_avg_G'] >= 0, st['smoothing'] >= 1, st['_n_avg_G'] <= st['smoothing']))
    for k, v in st.items():
        setattr(m, k, v)
    m._ep_actions = Recorder()
    return m, env, st


class Recorder:
    """the sample of recent actions (its own contract: StreamingSample)"""
    maxlen = 1000

    def __init__(self):
        self.items = []

    def append(self, x):
        self.items.append(x)

    def reset(self):
        self.items = []

    def __bool__(self):
        return bool(self.items)
    values = property(lambda self: list(self.items))


def keep(m, st, *names):
    return [('%s is unchanged' % k.lstrip('_'), same(getattr(m, k), st[k])) for k in st if k not in names]


def global_body(I):
    m, env, st = sym_monitor(I)
    m._ep_metrics, m._period = {'a': (inp('real', 'x'), inp('int', 'n'))}, {'T': {'p': inp('int', 'c')}, 'ep': {'p': 3}}
    I.call(m.reset_global, ())
    return [('%s = 0' % k.lstrip('_'), same(getattr(m, k), 0)) for k in ('T', 'ep', 't', 'G', 'avg_G', '_n_avg_G')] + [('smoothing is kept', same(m.smoothing, st['smoothing'])), ('no metrics', m._ep_metrics == {}), ('the environment is not touched', env.calls == []),
                                                                                                       ('periods start afresh', I.call(m.get_metrics, ()) == {} and not any(m._period.values()))]


def reset_body(I):
    m, env, st = sym_monitor(I)
    obs, info = inp('obj', 'obs'), {'x': inp('obj', 'i')}
    env.rret = (obs, info)
    per = m._period = {'T': {'p': inp('int', 'c')}, 'ep': {}}
    m._ep_metrics = {'a/loss': (3.0, 2.0), 'b': (1.0, 1.0)}
    m._ep_actions.append(1)
    r = I.call(m.reset, ())
    return [('returns what the environment returned', r is env.rret or (isinstance(r, tuple) and len(r) == 2 and r[0] is obs and r[1] is info)), ('one reset of the environment', env.calls == ['reset']), ('T is incremented', same(m.T, st['T'] + 1)),
            ('ep is incremented', same(m.ep, st['ep'] + 1)), ('t = 0', same(m.t, 0)), ('G = 0', same(m.G, 0)), ('metrics restart', I.call(m.get_metrics, ()) == {}), ('periods are kept', m._period == per), ('actions restart', not m._ep_actions.items)] + keep(m, st, 'T', 'ep', 't', 'G')


def step_body(noinfo):
    def body(I):
        m, env, st = sym_monitor(I)
        s, r, d, tr = inp('obj', 's_next'), inp('real', 'r'), inp('bool', 'done'), inp('bool', 'truncated')
        x = inp('obj', 'x')
        info = None if noinfo else {'x': x}
        env.ret = (s, r, d, tr, info)
        a = inp('obj', 'a')
        out = I.call(m.step, (a,))
        ok = isinstance(out, tuple) and len(out) == 5
        res = [('five results', ok)]
        if not ok:
            return res
        inf = out[4]
        G = st['G'] + r
        ended = sor(d, tr)
        n = V.ite(st['_n_avg_G'] < st['smoothing'], st['_n_avg_G'] + 1, st['smoothing'])
        res += [('one step of the environment, with the given action', len(env.calls) == 1 and env.calls[0][0] == 'step' and env.calls[0][1] is a), ('observation', same(out[0], s)), ('reward', same(out[1], r)), ('done', same(out[2], d)), ('truncated', same(out[3], tr)),
                ('info is kept and carries the counters', isinstance(inf, dict) and (noinfo or (inf.get('x') is x)) and set(inf) == ({'monitor'} if noinfo else {'x', 'monitor'})),
                ('t is incremented', same(m.t, st['t'] + 1)), ('T is incremented', same(m.T, st['T'] + 1)), ('G accumulates the reward', same(m.G, G)),
                ('info gives T and ep of the step', sand(same(inf['monitor']['T'], st['T']), same(inf['monitor']['ep'], st['ep'])) if isinstance(inf, dict) and 'monitor' in inf else False),
                ('ongoing episodes do not count', implies(snot(ended), sand(same(m.avg_G, st['avg_G']), same(m._n_avg_G, st['_n_avg_G'])))),
                ('number of averaged episodes is capped by smoothing', implies(ended, same(m._n_avg_G, n))),
                ('avg_G moves towards G by 1/n', implies(ended, same(m.avg_G * n, st['avg_G'] * n + G - st['avg_G']))),
                ('avg_G is the plain mean of the first episodes', implies(sand(ended, st['_n_avg_G'] < st['smoothing']), same(m.avg_G * (st['_n_avg_G'] + 1), st['avg_G'] * st['_n_avg_G'] + G)))]
        return res + keep(m, st, 't', 'T', 'G', 'avg_G', '_n_avg_G')
    return body


def metrics_body(I):
    m, env, st = sym_monitor(I)
    x, n, v, w = inp('real', 'x'), inp('int', 'n'), inp('real', 'v'), inp('real', 'w')
    assume(n >= 1)
    # a: recorded n times, with mean x
    I.call(m.record_metrics, ({'b': w},))
    if not isinstance(m._ep_metrics.get('b'), tuple) or len(m._ep_metrics['b']) != 2:
        raise V.Unsupported('representation of the metrics changed')
    m._ep_metrics['a'] = (x * n, n)
    g0 = I.call(m.get_metrics, ())
    md = {'a': v, 'c': w}
    I.call(m.record_metrics, (md,))
    g = I.call(m.get_metrics, ())
    return [('mean before', same(g0.get('a'), x)), ('the first value is its own mean', same(g0.get('b'), w)), ('names', set(g) == {'a', 'b', 'c'}), ('running mean', same(g.get('a') * (n + 1), x * n + v)), ('other metrics are not touched', same(g.get('b'), w)), ('new metric', same(g.get('c'), w)),
            ('the argument is not modified', set(md) == {'a', 'c'} and md['a'] is v)] + keep(m, st)


def period_body(which, seen, both=False):
    def body(I):
        m, env, st = sym_monitor(I)
        P = inp('int', 'P')
        assume(P >= 1)
        cnt = st['T' if which == 'T' else 'ep']
        fired = inp('int', 'fired') if seen else 0
        if seen:
            assume(sand(fired >= 0, fired * P <= cnt))      # invariant: only due periods have fired
        other = inp('int', 'other')
        m._period = {'T': {'q': other}, 'ep': {'q': other}}
        if seen:
            m._period[which]['p'] = fired + 1
        kw = {'T_period' if which == 'T' else 'ep_period': P}
        r = I.call(m.period, ('p',), kw)
        b = truth(r)
        due = sand((fired + 1) * P <= cnt)
        c2 = m._period[which].get('p')
        out = [('fires iff a period is due', same(b, due)), ('fired periods are counted', same(c2, fired + (2 if b else 1))), ('other names are not touched', sand(same(m._period['T']['q'], other), same(m._period['ep']['q'], other)))]
        if b:
            out.append(('invariant: only due periods have fired', (fired + 1) * P <= cnt))
        return out + keep(m, st)
    return body


def period_both(I):
    m, env, st = sym_monitor(I)
    P, Q = inp('int', 'P'), inp('int', 'Q')
    a, b = inp('int', 'a'), inp('int', 'b')
    assume(sand(P >= 1, Q >= 1, a >= 1, b >= 1))
    m._period = {'T': {'p': a}, 'ep': {'p': b}}
    r = truth(I.call(m.period, ('p', P, Q)))
    return [('fires iff either is due', same(r, sor(a * P <= st['T'], b * Q <= st['ep'])))] + keep(m, st)


def counters_body(I):
    m, env, st = sym_monitor(I)
    x, n, c = inp('real', 'x'), inp('int', 'n'), inp('int', 'c')
    m._ep_metrics, m._period = {'a': (x, n)}, {'T': {'p': c}, 'ep': {}}
    cs = I.call(m.get_counters, ())
    m2 = TrainMonitor(Env())
    I.call(m2.set_counters, (cs,))
    out = [('%s is transferred' % k.lstrip('_'), same(getattr(m2, k), st[k])) for k in st if k != 'smoothing'] + [('metrics are transferred', same(m2._ep_metrics.get('a'), (x, n)) if len(m2._ep_metrics) == 1 else False),
                                                                                       ('periods are transferred', same(m2._period['T'].get('p'), c))] + keep(m, st)
    # taking a snapshot, going on, restoring
    I.call(m.record_metrics, ({'a': 1.0, 'z': 2.0},))
    I.call(m.period, ('p', 1))
    I.call(m.period, ('z', 1))
    m.T = m.T + 5
    out += [('a snapshot does not change as the monitor goes on', sand(same(cs['_ep_metrics'].get('a'), (x, n)), same(cs['_period']['T'].get('p'), c), len(cs['_ep_metrics']) == 1, len(cs['_period']['T']) == 1, same(cs['T'], st['T'])))]
    out += [('monitors do not share state', sand(same(m2._ep_metrics.get('a'), (x, n)), same(m2._period['T'].get('p'), c), len(m2._ep_metrics) == 1))]
    I.call(m.set_counters, (cs,))
    out += [('restored: ' + l, v) for l, v in keep(m, st)] + [('restored: metrics', sand(same(m._ep_metrics.get('a'), (x, n)), len(m._ep_metrics) == 1)), ('restored: periods', sand(same(m._period['T'].get('p'), c), len(m._period['T']) == 1))]
    return out


class TB:
    """records what is written"""

    def __init__(self):
        self.scalars, self.hists = [], []

    def add_scalar(self, tag, value, global_step=None):
        self.scalars.append((tag, value, global_step))

    def add_histogram(self, tag, values, global_step=None, bins=None):
        self.hists.append((tag, list(values), global_step))

    def flush(self):
        pass


def written(tb, want, T):
    """exactly these scalars, once each, at step T (None: any value)"""
    tags = [x[0] for x in tb.scalars]
    out = [('exactly the expected scalars, once each', sorted(tags) == sorted(want))]
    if sorted(tags) == sorted(want):
        out += [('value of %s' % x[0], same(x[1], want[x[0]])) for x in tb.scalars if want[x[0]] is not None]
        out.append(('written at step T', sand(*[same(x[2], T) for x in tb.scalars])))
    return out


def report_body(write_all, acts):
    """the reset that starts the next episode reports the one that has ended"""
    def body(I):
        m, env, st = sym_monitor(I)
        m.tensorboard_write_all = write_all
        tb = m._tensorboard = TB()
        x, n = inp('real', 'x'), inp('int', 'n')
        assume(n >= 1)
        m._ep_metrics = {'a': (x, n)}
        for a in acts:
            m._ep_actions.append(a)
        env.rret = (inp('obj', 'obs'), {})
        assume(st['t'] >= 1)
        first = truth(same(st['ep'], 0))
        I.call(m.reset, ())
        if first:
            return [('nothing to report before the first episode', not tb.scalars and not tb.hists)]
        want = {'episode/episode': st['ep'], 'episode/avg_reward': st['G'] / st['t'], 'episode/return': st['G'], 'episode/steps': st['t'], 'episode/avg_step_duration_ms': None}
        if not write_all:
            want['a'] = x / n
        hist = [('actions', list(acts))] if acts else []
        return written(tb, want, st['T']) + [('the actions of the episode', [h[:2] for h in tb.hists] == hist), ('actions at step T', sand(*[same(h[2], st['T']) for h in tb.hists]))]
    return body


def stream_body(write_all):
    def body(I):
        m, env, st = sym_monitor(I)
        m.tensorboard_write_all = write_all
        tb = m._tensorboard = TB()
        x, y = inp('real', 'x'), inp('real', 'y')
        I.call(m.record_metrics, ({'a': x, 'b': y},))
        return written(tb, {'a': x, 'b': y} if write_all else {}, st['T']) + [('no histogram', not tb.hists)]
    return body


class Uniform:
    """stand-in for the generator: arbitrary draws"""

    def __init__(self, *a):
        self.u, self.i = [], []

    def rand(self):
        u = V.fresh('real', 'u')
        assume(sand(u >= 0, u < 1))
        self.u.append(u)
        return u

    def randint(self, n):
        i = V.fresh('int', 'slot')
        assume(sand(i >= 0, i < n))
        self.i.append(i)
        return i


def sample_body(full):
    """one append, for any number of previous appends"""
    def body(I):
        ml = 3
        s = StreamingSample(maxlen=ml)
        fields(s, '_deque', '_count', '_rnd')
        cnt = inp('int', 'count')
        k = ml if full else 1
        assume(cnt >= ml if full else same(cnt, k))
        s._rnd = Uniform()
        s._count = cnt
        old = [inp('obj', 'o%d' % i) for i in range(k)]
        s._deque.extend(old)
        new = inp('obj', 'new')
        # the slot index is split by cases
        ri = s._rnd.randint
        s._rnd.randint = lambda n: V.concretize(ri(n), range(n))
        I.call(s.append, (new,))
        vals = I.getattr(s, 'values')
        out = [('counted', same(s._count, cnt + 1)), ('never more than maxlen', len(vals) <= ml), ('size is min(count, maxlen)', len(vals) == (ml if full else k + 1))]
        if not full:
            out.append(('filled in order', len(vals) == k + 1 and all(x is y for x, y in zip(vals, old + [new]))))
            return out
        kept = len(vals) == ml and sum(1 for x, y in zip(vals, old) if x is y) >= ml - 1
        repl = any(x is new for x in vals)
        out.append(('at most one entry is replaced', kept))
        u = s._rnd.u
        out.append(('one draw', len(u) == 1))
        if len(u) == 1:
            out.append(('kept with probability maxlen/count', same(repl, u[0] * (cnt + 1) < ml)))
        out.append(('the slot is drawn uniformly', (not repl) or (len(s._rnd.i) == 1 and vals[s._rnd.i[0] if not V.has_sym(s._rnd.i[0]) else [j for j, x in enumerate(vals) if x is new][0]] is new)))
        return out
    return body


# ---------------------------------------------------------------- native: random histories against a reference

class Scripted(gymnasium.Env):
    observation_space = gymnasium.spaces.Discrete(1000)
    action_space = gymnasium.spaces.Discrete(3)

    def __init__(self, seed):
        self.rnd = onp.random.RandomState(seed)
        self.log = []

    def reset(self, **kw):
        o = (int(self.rnd.randint(1000)), {'i': int(self.rnd.randint(9))})
        self.log.append(('reset', o))
        return o

    def step(self, a):
        r = int(self.rnd.randint(-16, 17)) / 4.
        if self.rnd.rand() < .2:
            r = int(r)
        o = (int(self.rnd.randint(1000)), r, bool(self.rnd.rand() < .2), bool(self.rnd.rand() < .1), None if self.rnd.rand() < .2 else {'i': int(self.rnd.randint(9))})
        self.log.append(('step', a, o[:4], None if o[4] is None else dict(o[4])))
        return o


class Ref:
    def __init__(self, smoothing):
        self.smoothing = smoothing
        self.glob()

    def glob(self):
        self.T = self.ep = self.t = 0
        self.G = self.avg = 0.
        self.n = 0
        self.met, self.fired = collections.defaultdict(list), collections.Counter()

    def copy(self):
        r = Ref(self.smoothing)
        r.__dict__.update({k: v.copy() if hasattr(v, 'copy') else v for k, v in self.__dict__.items()})
        r.met = collections.defaultdict(list, {k: list(v) for k, v in self.met.items()})
        return r


def history(case):
    seed, smoothing, tb = case
    rnd = onp.random.RandomState(seed)
    env = Scripted(seed)
    with tempfile.TemporaryDirectory(prefix='verif_tm_') as d:
        m = TrainMonitor(env, smoothing=smoothing, log_all_metrics=bool(seed % 2), tensorboard_dir=os.path.join(d, 'tb') if tb else None, tensorboard_write_all=bool(seed % 3 == 0))
        ref = Ref(smoothing)
        snaps = []
        if tb:
            m._tensorboard = rec = TB()
        for k in range(60 if not tb else 25):
            op = rnd.randint(12) if k else 0
            if tb:
                del rec.scalars[:], rec.hists[:]
            if op == 0:
                n = len(env.log)
                out = m.reset()
                if tb:
                    want = {}
                    if ref.ep:
                        want = {'episode/episode': ref.ep, 'episode/return': ref.G, 'episode/steps': ref.t, 'episode/avg_reward': ref.G / ref.t if ref.t else onp.nan}
                        if seed % 3:
                            want.update({k_: onp.mean(v) for k_, v in ref.met.items()})
                    got = {x[0]: x[1] for x in rec.scalars if x[0] != 'episode/avg_step_duration_ms'}
                    if set(got) != set(want) or len(got) < len(rec.scalars) - 1 or not all(onp.isclose(got[k_], want[k_], equal_nan=True) for k_ in want) or any(x[2] != ref.T for x in rec.scalars):
                        return 'reported at the end of episode %d: %s, expected %s at T = %d' % (ref.ep, rec.scalars, want, ref.T)
                if len(env.log) != n + 1 or out != env.log[-1][1]:
                    return 'reset returned %s, environment log %s' % (out, env.log[n:])
                ref.T, ref.ep, ref.t, ref.G = ref.T + 1, ref.ep + 1, 0, 0.
                ref.met.clear()
            elif op <= 6:
                a = int(rnd.randint(3))
                n = len(env.log)
                T0 = ref.T
                out = m.step(a)
                want = env.log[-1]
                if len(env.log) != n + 1 or want[1] != a or out[:4] != want[2]:
                    return 'step(%d) returned %s; environment log %s' % (a, out, env.log[n:])
                inf = dict(want[3] or {}, monitor={'T': T0, 'ep': ref.ep})
                if out[4] != inf:
                    return 'info %s, expected %s' % (out[4], inf)
                ref.t, ref.T, ref.G = ref.t + 1, ref.T + 1, ref.G + out[1]
                if out[2] or out[3]:
                    ref.n = min(ref.n + 1, smoothing)
                    ref.avg += (ref.G - ref.avg) / ref.n
            elif op == 7:
                md = {k: float(rnd.randint(-8, 9)) / 4 for k in rnd.permutation(['a', 'x/loss', 'b', 'throughput/x'])[:rnd.randint(1, 4)]}
                m.record_metrics(md)
                if tb and sorted(rec.scalars) != sorted((k_, v, ref.T) for k_, v in md.items() if seed % 3 == 0):
                    return 'record_metrics(%s) wrote %s (write_all %s)' % (md, rec.scalars, seed % 3 == 0)
                for k_, v in md.items():
                    ref.met[k_].append(v)
            elif op == 8:
                nm, P = rnd.choice(['p', 'q']), None
                P = {'p': 3, 'q': 7}[nm]
                which = rnd.choice(['T', 'ep'])
                c = ref.T if which == 'T' else ref.ep
                due = c >= (ref.fired[nm, which] + 1) * P
                got = m.period(nm, **{which + '_period': P})
                if bool(got) != due:
                    return 'period(%s, %s_period=%d) at T=%d, ep=%d after %d firings: %s' % (nm, which, P, ref.T, ref.ep, ref.fired[nm, which], got)
                ref.fired[nm, which] += due
            elif op == 9:
                snaps.append((m.get_counters(), ref.copy()))
            elif op == 10 and snaps:
                c, r = snaps[rnd.randint(len(snaps))]
                m.set_counters(c)
                ref = r.copy()
            elif op == 11:
                f = os.path.join(d, 'sub', 'c%d.lz4' % rnd.randint(3))
                if os.path.exists(f) and rnd.rand() < .5:
                    m.load_counters(f)
                    ref = pickle.load(open(f + '.ref', 'rb'))
                elif rnd.rand() < .15:
                    m.reset_global()
                    ref.glob()
                else:
                    m.save_counters(f)
                    with open(f + '.ref', 'wb') as fh:
                        pickle.dump(ref, fh)
            got = (m.T, m.ep, m.t, m.G)
            if got != (ref.T, ref.ep, ref.t, ref.G):
                return 'after %d operations (T, ep, t, G) = %s, expected %s' % (k + 1, got, (ref.T, ref.ep, ref.t, ref.G))
            if not onp.isclose(m.avg_G, ref.avg, rtol=1e-9, atol=1e-9):
                return 'avg_G = %r, expected %r (smoothing %s)' % (m.avg_G, ref.avg, smoothing)
            g = m.get_metrics()
            w = {k_: onp.mean(v) for k_, v in ref.met.items()}
            if set(g) != set(w) or not all(onp.isclose(g[k_], w[k_]) for k_ in w):
                return 'get_metrics() = %s, expected %s' % (g, w)
            if ref.t:
                if not onp.isclose(m.avg_r, ref.G / ref.t) or not m.dt_ms >= 0:
                    return 'avg_r = %s, dt_ms = %s' % (m.avg_r, m.dt_ms)
            elif not (onp.isnan(m.avg_r) and onp.isnan(m.dt_ms)):
                return 'avg_r before the first step: %s' % m.avg_r
        for bad in ({}, {'T': 1}, None, dict(m.get_counters(), more=1)):
            before = (m.T, m.ep, m.t, m.G)
            try:
                m.set_counters(bad)
                return 'set_counters(%s) accepted' % bad
            except TypeError:
                if before != (m.T, m.ep, m.t, m.G):
                    return 'a rejected set_counters changed the counters'
        try:
            m.record_metrics([('a', 1.)])
            return 'record_metrics accepted a list'
        except TypeError:
            pass
        m2 = pickle.loads(pickle.dumps(m)) if not tb else m
        if (m2.T, m2.ep, m2.t, m2.G, m2.avg_G) != (m.T, m.ep, m.t, m.G, m.avg_G):
            return 'counters are not kept by pickling'
    return None


def writer(case):
    """the real tensorboard writer: one timestamped directory per monitor, kept by pickling"""
    with tempfile.TemporaryDirectory(prefix='verif_tm_') as d:
        base = os.path.join(d, 'tb')
        m = TrainMonitor(Scripted(case), tensorboard_dir=base)
        for _ in range(2):
            m.reset()
            m.step(1)
            m.record_metrics({'a': 1.})
        m.reset()
        sub = os.listdir(base)
        if len(sub) != 1 or not re.match(r'\d{8}_\d{6}$', sub[0]) or not os.listdir(os.path.join(base, sub[0])):
            return 'files written: %s' % [x for x in os.walk(base)]
        env = m.env
        m.env = None
        m2 = pickle.loads(pickle.dumps(m))
        m2.env = env
        m2.reset()
        m2.step(0)
        m2.reset()
        if os.listdir(base) != sub:
            return 'a pickled monitor writes elsewhere: %s' % os.listdir(base)
        m.tensorboard.close()
        m2.tensorboard.close()
    return None


def reservoir(case):
    seed, ml, n = case
    s = StreamingSample(maxlen=ml, random_seed=seed)
    for i in range(n):
        s.append(i)
        v = s.values
        if len(v) != min(i + 1, ml) or len(s) != len(v) or len(set(v)) != len(v) or not set(v) <= set(range(i + 1)) or (i < ml and v != list(range(i + 1))):
            return 'after %d appends to a sample of size %d: %s' % (i + 1, ml, v)
    s.reset()
    return None if len(s) == 0 and not s and s.maxlen == ml else 'reset'


def freq(case):
    ml, n = case
    c = onp.zeros(n)
    R = 3000
    for k in range(R):
        s = StreamingSample(maxlen=ml, random_seed=1000 * V_seed() + k)
        for i in range(n):
            s.append(i)
        c[s.values] += 1
    p = ml / n
    z = onp.abs(c / R - p) / onp.sqrt(p * (1 - p) / R)
    return None if z.max() < 5.5 else 'inclusion frequencies %s, expected %s' % (c / R, p)


def cases(k, salt=0):
    rnd = onp.random.RandomState(31 * V_seed() + salt)
    return [(int(rnd.randint(1 << 30)), int(rnd.choice([1, 2, 3, 10])), i % 4 == 3) for i in range(k)]


def search():
    return next((x for x in (history(c) for c in cases(60, 5)) if x), None)


def job(name, body, **kw):
    def f(ck):
        ck.trust('gymnasium.Wrapper attribute delegation, logging, tensorboardX, time.time')
        ck.assume('real arithmetic, unbounded integers; rewards are real numbers', 'integer smoothing; the counters satisfy their invariant (number of averaged episodes <= smoothing)')
        V.contract(ck, 'TrainMonitor.' + name, body, search=search, **kw)
    return (name, f)


def job_sample(full):
    def f(ck):
        ck.trust('numpy.random.RandomState.rand/randint: uniform')
        ck.assume('StreamingSample: instantiated at maxlen 3, any number of previous appends')
        V.contract(ck, 'StreamingSample.append ' + ('full' if full else 'filling'), sample_body(full), search=lambda: next((x for x in (reservoir((s, ml, 40)) for s in range(20) for ml in (1, 2, 3, 7)) if x), None) or freq((3, 12)))
    return ('sample%d' % full, f)


def job_native(ck):
    n = 600 if ck.thorough else 64
    ck.concrete('monitor/histories', history, cases(n), bound='%d random histories of 60 operations (with files, snapshots and every fourth with a recording tensorboard writer)' % n)
    ck.concrete('monitor/writer', writer, [3], bound='one history with the real writer')
    ck.concrete('sample/reservoir', reservoir, [(s, ml, 40) for s in range(5) for ml in (1, 2, 3, 7)], bound='40 appends')
    ck.concrete('sample/frequencies', freq, [(3, 12)], bound='3000 repetitions, 5.5 sigma')


JOBS = [job('reset_global', global_body), job('reset', reset_body), job('step', step_body(False)), job('step info None', step_body(True)), job('metrics', metrics_body), job('counters', counters_body), job('period both', period_both)] + [job('report%s%s' % (' write all' * w, ' actions' * bool(a)), report_body(w, a)) for w in (False, True) for a in ((), (1, 2, 1))] + [job('record%s' % (' write all' * w), stream_body(w)) for w in (False, True)] + [
    job('period %s %s' % (w, 'seen' if s else 'new'), period_body(w, s)) for w in ('T', 'ep') for s in (True, False)] + [job_sample(True), job_sample(False), ('native', job_native)]
