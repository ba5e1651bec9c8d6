"""C31: whatever is saved is restored: dump/load, dumps/loads, pickling of compiled functions, resuming a training run."""
import copy
import os
import tempfile
import cloudpickle
import lz4.frame
import numpy as onp
import optax
import coax
from coax import utils
from coax.utils._jit import JittedFunc
from lib import pyvc as V
from lib.pyvc import inp
from lib.nets import *   # noqa


# ---------------------------------------------------------------- the four entry points, against contracts of pickle, lz4 and the file system
class Blob:
    """the bytes that pickling (compressing) an arbitrary value results in"""

    def __init__(self, kind, of):
        self.kind, self.of = kind, of


class File:
    def __init__(self, fs, path, mode):
        self.fs, self.path, self.mode, self.open = fs, path, mode, True
        if 'w' in mode:
            fs.files[path] = []
        elif path not in fs.files:
            raise FileNotFoundError(path)
        fs.handles.append(self)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False

    def close(self):
        self.open = False

    def write(self, b):
        if not self.open or 'w' not in self.mode:
            raise ValueError('not open for writing')
        self.fs.files[self.path].append(b)

    def read(self):
        if not self.open or 'r' not in self.mode:
            raise ValueError('not open for reading')
        c = self.fs.files[self.path]
        return c[0] if len(c) == 1 else Blob('concatenation', tuple(c))

    def flush(self):
        pass


class FS:
    def __init__(self):
        self.files, self.dirs, self.handles = {}, set(), []


def undo(kind):
    def f(I, b, *a, **k):
        if not (isinstance(b, Blob) and b.kind == kind):
            raise ValueError('not %s data' % kind)
        return b.of
    return f


def models(fs):
    def pdump(I, obj, f, *a, **k):
        f.write(Blob('pickled', obj))

    def pload(I, f, *a, **k):
        return undo('pickled')(I, f.read())

    def mkdirs(I, path, *a, exist_ok=False, **k):
        if path in fs.dirs and not exist_ok:
            raise FileExistsError(path)
        fs.dirs.add(path)

    def op(I, path, mode='rb', **k):
        d = os.path.dirname(path)
        if 'w' in mode and d and d not in fs.dirs:
            raise FileNotFoundError(path)
        return File(fs, path, mode)
    import pickle
    m = {cloudpickle.dumps: lambda I, o, *a, **k: Blob('pickled', o), lz4.frame.compress: lambda I, b, *a, **k: Blob('compressed', b), lz4.frame.decompress: undo('compressed'),
         cloudpickle.loads: undo('pickled'), pickle.dumps: lambda I, o, *a, **k: Blob('pickled', o), pickle.loads: undo('pickled'), cloudpickle.dump: pdump, cloudpickle.load: pload, os.makedirs: mkdirs, lz4.frame.open: op}
    return m


def with_models(body):
    def g(I):
        fs = FS()
        new = models(fs)
        old = {k: V.MODELS.get(k) for k in new}
        V.MODELS.update(new)
        try:
            return body(I, fs)
        finally:
            for k, v in old.items():
                if v is None:
                    del V.MODELS[k]
                else:
                    V.MODELS[k] = v
    return g


def s_body(I, fs):
    x, y = inp('obj', 'x'), inp('obj', 'y')
    b, c = I.call(utils.dumps, (x,)), I.call(utils.dumps, ((x, y, x),))
    t = I.call(utils.loads, (c,))
    return [('loads(dumps(x)) is x', I.call(utils.loads, (b,)) is x), ('structure and shared references are kept', isinstance(t, tuple) and len(t) == 3 and t[0] is x and t[1] is y and t[2] is x), ('no file is touched', not fs.files)]


def f_body(path, exists):
    def body(I, fs):
        if exists:
            fs.dirs.add(os.path.dirname(path))
        x, y = inp('obj', 'x'), inp('obj', 'y')
        I.call(utils.dump, (x, path))
        a = I.call(utils.load, (path,))
        I.call(utils.dump, (y, path))
        b = I.call(utils.load, (path,))
        I.call(utils.dump, (x, path + '2'))
        return [('load(dump(x)) is x', a is x), ('a second dump replaces the first', b is y), ('other files are left alone', I.call(utils.load, (path,)) is y and I.call(utils.load, (path + '2',)) is x),
                ('only the given files are written', set(fs.files) == {path, path + '2'}), ('files are closed', not any(h.open for h in fs.handles))]
    return body


def entry_job(ck):
    V.contract(ck, 'dumps-loads', with_models(s_body), funcs=['coax.utils.dumps', 'coax.utils.loads'], search=lambda: native_entry(0))
    for p, e in (('x.pkl.lz4', False), ('a/b/x.pkl.lz4', False), ('a/b/x.pkl.lz4', True)):
        V.contract(ck, 'dump-load/%s%s' % (p, '/existing directory' if e else ''), with_models(f_body(p, e)), funcs=['coax.utils.dump', 'coax.utils.load'], search=lambda: native_entry(0))
    ck.concrete('dump-load on disk', native_entry, range(4), bound='4 value trees')


def native_entry(k):
    x = onp.arange(5) + k
    vals = [dict(a=x, b=(x, [x, 'é']), c=None), [1, 2., 'x' * 10 ** 6], dict(f=lambda t: t + x, g=jnp.arange(3)), {'big': onp.random.RandomState(k).randn(300, 300)}]
    v = vals[k]
    with tempfile.TemporaryDirectory(prefix='verif_') as d:
        cwd = os.getcwd()
        os.chdir(d)
        try:
            for path in ('x.lz4', 'p/q/x.lz4', os.path.join(d, 'abs', 'x.lz4')):
                utils.dump('previous' * 50, path)
                utils.dump(v, path)
                for w in (utils.load(path), utils.loads(utils.dumps(v))):
                    if type(w) is not type(v) or len(w) != len(v):
                        return 'restored %r' % (type(w),)
                    a, b = jax.tree_util.tree_leaves(v), jax.tree_util.tree_leaves(w)
                    if len(a) != len(b) or not all(onp.array_equal(p(2), q(2)) if callable(p) else onp.array_equal(p, q) for p, q in zip(a, b)):
                        return 'restored value differs'
                if k == 0 and (w['a'] is not w['b'][0] or w['a'] is v['a']):
                    return 'sharing within the saved value is not kept'
        finally:
            os.chdir(cwd)


# ---------------------------------------------------------------- compiled functions
def jit_body(I):
    f, g = (lambda x, n: x * n), (lambda x, n: x + n)
    s, d = inp('obj', 'static'), inp('obj', 'donate')
    seen = []

    def fake(I, func, static_argnums=(), donate_argnums=(), **k):
        seen.append((func, static_argnums, donate_argnums))
        return func
    old = V.MODELS.get(jax.jit)
    V.MODELS[jax.jit] = fake
    try:
        j = I.call(utils.jit, (f, s, d))
        st = I.call(j.__getstate__, ())
        k = object.__new__(JittedFunc)
        I.call(k.__setstate__, (st,))
        x, n = inp('real', 'x'), inp('real', 'n')
        r = [('function is compiled with the given options', len(seen) == 2 and all(a is f and b is s and c is d for a, b, c in seen)),
             ('calling it calls the function', V.same(I.call(j, (x, n)), x * n)), ('restored function', V.same(I.call(k, (x, n)), x * n)), ('keyword arguments', V.same(I.call(k, (x,), {'n': n}), x * n))]
    finally:
        if old is None:
            del V.MODELS[jax.jit]
        else:
            V.MODELS[jax.jit] = old
    return r


def native_jit(c):
    k, static = c

    def f(x, n, flag=False):
        if static and not isinstance(n, int):
            raise TypeError('not static')
        return dict(y=(x ** 2 if flag else x) * n, z=x - k)
    j = utils.jit(f, static_argnums=(1,) if static else ())
    for h in (j, utils.loads(utils.dumps(j)), j.copy() if hasattr(j, 'copy') else j):
        for n in (1, 3):
            o = h(jnp.arange(3.), n)
            if not onp.allclose(o['y'], onp.arange(3.) * n) or not onp.allclose(o['z'], onp.arange(3.) - k):
                return 'jit(f)(x, %d) = %r' % (n, o)
        if list(h.__signature__.parameters) != ['x', 'n', 'flag']:
            return 'signature %r' % h.__signature__
        if h.static_argnums != ((1,) if static else ()):
            return 'static_argnums lost'


def jit_job(ck):
    V.contract(ck, 'JittedFunc', jit_body, funcs=['coax.utils.jit', 'coax.utils._jit.JittedFunc'], search=lambda: native_jit((2, True)))
    ck.concrete('JittedFunc', native_jit, [(k, s) for k in (0, 2) for s in (False, True)], bound='4 functions')


# ---------------------------------------------------------------- function approximators
def lin(n, name):
    def f(S, is_training):
        w = hk.get_parameter('w_' + name, (S.shape[-1], n), init=hk.initializers.RandomNormal())
        m = hk.get_state('m', (), init=jnp.zeros)
        if is_training:
            hk.set_state('m', m + jnp.mean(S))
        return S @ w + .1 * m
    return f


def mk(kind, seed=3):
    e, ec = env_d(), env_c()
    n = e.action_space.n
    kw = dict(random_seed=seed)
    if kind == 'V':
        return coax.V(lambda S, is_training: lin(1, 'v')(S, is_training)[:, 0], e, value_transform=coax.value_transforms.LogTransform(2.), **kw)
    if kind == 'Q1':
        return coax.Q(lambda S, A, is_training: lin(1, 'q')(jnp.concatenate([S, A], axis=-1), is_training)[:, 0], e, **kw)
    if kind == 'Q2':
        return coax.Q(lambda S, is_training: lin(n, 'q')(S, is_training), e, **kw)
    if kind == 'Policy':
        return coax.Policy(lambda S, is_training: dict(logits=lin(n, 'p')(S, is_training)), e, **kw)
    if kind == 'PolicyC':
        return coax.Policy(lambda S, is_training: dict(mu=lin(1, 'mu')(S, is_training), logvar=jnp.zeros((S.shape[0], 1))), ec, **kw)
    if kind == 'StochasticV':
        return coax.StochasticV(lambda S, is_training: dict(logits=lin(5, 'sv')(S, is_training)), e, value_range=(-2, 3), num_bins=5, **kw)
    if kind == 'StochasticQ':
        return coax.StochasticQ(lambda S, is_training: dict(logits=lin(n * 5, 'sq')(S, is_training).reshape(-1, n, 5)), e, value_range=(-2, 3), num_bins=5, **kw)
    if kind == 'RewardFunction':
        return coax.RewardFunction(lambda S, is_training: lin(n, 'r')(S, is_training), e, **kw)
    if kind == 'TransitionModel':
        return coax.TransitionModel(lambda S, is_training: lin(n, 't')(S, is_training).reshape(-1, n, 1), e, **kw)
    if kind == 'EpsilonGreedy':
        return coax.EpsilonGreedy(mk('Q2', seed), epsilon=.5)
    if kind == 'BoltzmannPolicy':
        return coax.BoltzmannPolicy(mk('Q2', seed), temperature=.5)
    return coax.RandomPolicy(e, **kw)


KINDS = ('V', 'Q1', 'Q2', 'Policy', 'PolicyC', 'StochasticV', 'StochasticQ', 'RewardFunction', 'TransitionModel', 'EpsilonGreedy', 'BoltzmannPolicy', 'RandomPolicy')


def outputs(f, kind):
    out = []
    for x in (-.8, -.1, .3, .9):
        s = onp.array([x], 'float32')
        if kind in ('Q1', 'Q2', 'RewardFunction', 'TransitionModel'):
            out += [f(s), f(s, 1)]
        elif kind == 'StochasticQ':
            out += [f(s, 1), f.mean(s, 2)]
        elif kind in ('V',):
            out.append(f(s))
        elif kind == 'StochasticV':
            out += [f(s), f.mean(s)]
        elif kind == 'RandomPolicy':
            continue        # draws from the action space's own generator
        else:
            out += [f(s), f(s, return_logp=True), f.mode(s)]
    return [onp.asarray(x) for x in jax.tree_util.tree_leaves(out)]


def equal(a, b):
    return len(a) == len(b) and all(x.shape == y.shape and onp.array_equal(x, y) for x, y in zip(a, b))


def tree(f):
    return [onp.asarray(x) for x in jax.tree_util.tree_leaves((f.params, f.function_state))] if hasattr(f, 'params') and hasattr(f, 'function_state') else []


def func_case(c):
    kind, via = c
    f = mk(kind)
    outputs(f, kind)                       # the random stream has advanced
    if via == 'file':
        with tempfile.TemporaryDirectory(prefix='verif_') as d:
            utils.dump(f, os.path.join(d, 'd', 'f.pkl.lz4'))
            g = utils.load(os.path.join(d, 'd', 'f.pkl.lz4'))
    elif via == 'deepcopy':
        g = copy.deepcopy(f)
    else:
        g = utils.loads(utils.dumps(f))
    if type(g) is not type(f) or not equal(tree(f), tree(g)):
        return 'parameters or state differ after restoring'
    for nm in ('value_range', 'num_bins', 'epsilon', 'temperature', 'random_seed'):
        if getattr(f, nm, None) != getattr(g, nm, None):
            return '%s is %r after restoring, was %r' % (nm, getattr(g, nm, None), getattr(f, nm, None))
    a, b = outputs(f, kind), outputs(g, kind)
    if not equal(a, b):
        return 'the restored function returns %r, the original %r' % (b, a)
    before = tree(f)
    if before:
        g.params = jax.tree_util.tree_map(lambda x: x + 1., g.params)
        if not equal(before, tree(f)):
            return 'the restored function shares its parameters with the original'


def resume_case(c):
    """interrupting a training run (save everything, restore, go on) makes no difference"""
    algo, bufk, cut = c
    rnd = onp.random.RandomState(7)
    q, pi = mk('Q2'), None
    qt = q.copy()
    reg = None
    if algo == 'qlearning':
        up = coax.td_learning.QLearning(q, q_targ=qt, optimizer=optax.adam(.05))
    elif algo == 'sarsa':
        up = coax.td_learning.Sarsa(q, q_targ=qt, optimizer=optax.sgd(.05, momentum=.9))
    else:
        pi = mk('Policy')
        reg = coax.regularizers.EntropyRegularizer(pi, beta=.1)
        up = coax.policy_objectives.PPOClip(pi, optimizer=optax.adam(.05), regularizer=reg)
    tr = coax.reward_tracing.NStep(n=2, gamma=.9)
    buf = coax.experience_replay.SimpleReplayBuffer(capacity=16, random_seed=1) if bufk == 'simple' else coax.experience_replay.PrioritizedReplayBuffer(capacity=16, alpha=.6, beta=.4, random_seed=1)
    steps = [(onp.array([rnd.uniform(-1, 1)], 'float32'), int(rnd.randint(NA)), float(rnd.randn()), bool(t % 6 == 5), float(-rnd.rand())) for t in range(24)]

    def go(world, steps, t0):
        q, qt, pi, up, tr, buf = world
        log = []
        for t, (s, a, r, done, logp) in enumerate(steps, t0):
            tr.add(s, a, r, done, logp)
            while tr:
                for x in tr.pop().to_singles():
                    buf.add(x) if bufk == 'simple' else buf.add(x, onp.array([1. + abs(r)]))
            if len(buf) >= 4:
                b = buf.sample(batch_size=4)
                log.append(onp.asarray(b.Rn))
                if pi is not None:
                    m = up.update(b, Adv=onp.asarray(b.Rn))
                else:
                    m = up.update(b)
                    if bufk != 'simple':
                        buf.update(b.idx, onp.abs(onp.asarray(b.Rn)) + .1)
                log += [onp.asarray(v) for v in jax.tree_util.tree_leaves(m)]
                qt.soft_update(q, .1)
        return log + tree(q) + tree(qt) + (tree(pi) if pi is not None else [])

    world = (q, qt, pi, up, tr, buf)
    go(world, steps[:cut], 0)
    saved = utils.dumps(world)
    a = go(world, steps[cut:], cut)
    back = utils.loads(saved)
    if pi is None and back[3].q is not back[0]:
        return 'the restored updater is not connected to the restored q-function'
    if pi is not None and back[3]._pi is not back[2]:
        return 'the restored updater is not connected to the restored policy'
    b = go(back, steps[cut:], cut)
    if not (len(a) == len(b) and all(onp.allclose(x, y, rtol=1e-5, atol=1e-6) for x, y in zip(a, b))):
        k = [i for i, (x, y) in enumerate(zip(a, b)) if not onp.allclose(x, y, rtol=1e-5, atol=1e-6)]
        return 'continuing after a restore differs from not having been interrupted (entries %r of %d, %d)' % (k[:5], len(a), len(b))


def state_case(c):
    """tracers, buffers, monitors: mid-way state"""
    kind = c
    rnd = onp.random.RandomState(3)
    rt, er = coax.reward_tracing, coax.experience_replay
    if kind in ('NStep', 'MonteCarlo'):
        t = rt.NStep(n=3, gamma=.9, record_extra_info=True) if kind == 'NStep' else rt.MonteCarlo(gamma=.9)

        def go(t, k0, k1):
            out = []
            for k in range(k0, k1):
                t.add(onp.array([k / 10.], 'float32'), k % 3, float(k), k == 7, -.1 * k)
                while t:
                    out += [onp.asarray(x) for x in jax.tree_util.tree_leaves(t.pop())]
            return out
        go(t, 0, 5)
        u = utils.loads(utils.dumps(t))
        a, b = go(t, 5, 8), go(u, 5, 8)
        return None if a and equal(a, b) else 'tracer: %r vs %r' % (a, b)
    m = er.SimpleReplayBuffer(8, random_seed=2) if kind == 'simple' else er.PrioritizedReplayBuffer(8, random_seed=2)

    def add(m, i):
        b = coax.reward_tracing.TransitionBatch.from_single(s=onp.array([i / 9.], 'float32'), a=i % 3, logp=-.5, r=float(i), done=False, gamma=.9, s_next=onp.array([i / 8.], 'float32'), a_next=1, logp_next=-.2)
        m.add(b) if kind == 'simple' else m.add(b, onp.array([1. + i % 4]))
    for i in range(11):
        add(m, i)
    m.sample(batch_size=3)
    u = utils.loads(utils.dumps(m))
    res = []
    for x in (m, u):
        add(x, 20)
        o = []
        for _ in range(4):
            b = x.sample(batch_size=5)
            o += [onp.asarray(v) for v in jax.tree_util.tree_leaves(b)]
            if kind != 'simple':
                x.update(b.idx, onp.asarray(b.Rn) / 7.)
        res.append(o + [onp.asarray(len(x))])
    return None if equal(*res) else 'the restored buffer behaves differently'


def resume_job(ck):
    ck.concrete('resume', resume_case, [(a, b, cut) for a in ('qlearning', 'sarsa', 'ppo') for b in ('simple', 'prioritized') for cut in (3, 13)], bound='12 training runs of 24 steps')
    ck.fn('coax.td_learning (updaters)', 'coax.policy_objectives (updaters)', how='bounded')


def func_job(part):
    def job(ck):
        ck.concrete('functions', func_case, [(k, v) for k in KINDS[part::2] for v in ('bytes', 'file', 'deepcopy')], bound='12 function types x 3 ways')
        ck.fn('coax._core function approximators (pickling)', how='bounded')
    return ('func%d' % part, job)


def state_job(ck):
    ck.concrete('tracers and buffers', state_case, ['NStep', 'MonteCarlo', 'simple', 'prioritized'], bound='one mid-way state each')
    ck.fn('coax.reward_tracing tracers (pickling)', 'coax.experience_replay buffers (pickling)', how='bounded')


def common(ck):
    ck.trust('z3; lib/pyvc.py; CPython')
    ck.assume('cloudpickle.loads inverts cloudpickle.dumps, lz4 decompress inverts compress, a file reads back what was written (assumed contracts of the dependencies)', 'the state that custom objects hand to pickle is complete: bounded checks only')


def jobs():
    return [('entry', entry_job), ('jit', jit_job), ('resume', resume_job), func_job(0), func_job(1), ('state', state_job), ('common', common)]
