"""C27: Connect-Four: rules of the game, observations, and state ids."""
import itertools
import numpy as onp
import z3
import coax
from coax.envs import ConnectFourEnv
from coax._base.errors import UnavailableActionError, EpisodeDoneError
from lib import pyvc as V
from lib.pyvc import inp, assume, sand, sor, snot, same, truth, implies, objarray, wrap
from checks.c01 import fields, V_seed

NR, NC = 6, 7
LINES = [[(i + k * di, j + k * dj) for k in range(4)] for i in range(NR) for j in range(NC) for di, dj in ((0, 1), (1, 0), (1, 1), (1, -1)) if 0 <= i + 3 * di < NR and 0 <= j + 3 * dj < NC]
assert len(LINES) == 69


def m_tensordot(I, a, b, axes=2):
    if not V.has_sym(b):
        return onp.tensordot(a, b, axes)
    if axes != 2 or V.has_sym(a) or onp.ndim(b) != 2 or a.shape[-2:] != b.shape:
        raise V.Unsupported('tensordot')
    one = lambda x: wrap(z3.If(x.t, z3.IntVal(1), z3.IntVal(0))) if isinstance(x, V.SBool) else x       # noqa
    out = []
    for f in a.reshape((-1,) + b.shape):
        s = 0
        for c, x in zip(f.ravel().tolist(), b.ravel().tolist()):
            if c:
                s = s + c * one(x)
        out.append(s)
    return objarray(out, a.shape[:-2])


V.MODELS[onp.tensordot] = m_tensordot


class Pos:
    """an arbitrary position: any tokens, stacked from the bottom"""

    def __init__(self, heights=None, players=(1, 2), sym_levels=True):
        self.env = e = ConnectFourEnv()
        fields(e, '_state', '_levels', '_players', '_prev_action', 'done')
        self.cell = onp.empty((NR, NC), dtype=object)
        self.h = []
        for j in range(NC):
            h = inp('int', 'h%d' % j)       # number of tokens in the column
            if heights is not None and heights.get(j) is not None:
                assume(same(h, heights[j]))
                hc = heights[j]
            else:
                assume(sand(h >= 0, h <= NR))
                hc = None
            self.h.append(hc if hc is not None else h)
            for i in range(NR):
                if hc is not None and NR - i > hc:
                    self.cell[i, j] = 0
                    continue
                c = inp('int', 'c%d%d' % (i, j))
                assume(sand(c >= 0, c <= 2))
                if hc is not None:
                    assume(c >= 1)
                else:
                    assume(same(c >= 1, h >= NR - i))
                self.cell[i, j] = c
        e._state = self.cell.copy()
        lv = onp.empty(NC, dtype=object)
        for j in range(NC):
            h = self.h[j]
            lv[j] = V.ite(h < NR, NR - 1 - h, 255) if not isinstance(h, int) else (NR - 1 - h if h < NR else 255)     # uint8
        e._levels = lv
        e._players = onp.array(players, dtype='uint8')

    def avail(self):
        return [self.h[j] < NR for j in range(NC)]


def won(cell, p):
    return sor(*[sand(*[same(cell[i, j], p) for i, j in l]) for l in LINES])


class Avail:
    """contract of available_actions: the columns that are not full"""

    def __init__(self, env):
        lv = env._levels
        self.ok = [sand(lv[j] >= 0, lv[j] < NR) for j in range(NC)]

    def __contains__(self, a):
        return truth(self.ok[int(a)])

    def __len__(self):
        for k in range(NC):
            if truth(self.ok[k]):
                return 7            # only compared with 0 (see size)
        return 0

    @property
    def size(self):
        return len(self)


class Snap:
    """the observation (or id) of the position at the time of the call"""

    def __init__(self, env):
        self.s = (env._state.copy(), list(env._players.tolist()), env.done, env._prev_action, env._levels.copy())

    def same(self, env):
        s, p, d, a, lv = self.s
        return sand(p == list(env._players.tolist()), same(d, env.done), a == env._prev_action,
                    *[same(x, y) for x, y in zip(lv.tolist(), env._levels.tolist())], *[same(x, y) for x, y in zip(s.ravel().tolist(), env._state.ravel().tolist())])


def contracts():
    C = ConnectFourEnv
    return {C.available_actions.fget: lambda I, e: Avail(e), C.state.fget: lambda I, e: ('obs', Snap(e)), C.state_id.fget: lambda I, e: ('id', Snap(e))}


def step_body(a, h, players):
    """a token dropped into column a, which holds h tokens"""
    def body(I):
        P = Pos({a: h}, players)
        e = P.env
        p, q = players
        # an ongoing game: nobody has four in a row
        assume(sand(snot(won(P.cell, 1)), snot(won(P.cell, 2))))
        try:
            out = I.call(e.step, (a,))
        except UnavailableActionError:
            return [('refused only if the column is full', h == NR), ('a refused move changes nothing', sand(*[same(x, y) for x, y in zip(e._state.ravel().tolist(), P.cell.ravel().tolist())], list(e._players) == [p, q], e.done is False))]
        res = [('accepted only if the column is not full', h < NR), ('four results', isinstance(out, tuple) and len(out) == 4)]
        if h == NR or not (isinstance(out, tuple) and len(out) == 4):
            return res
        row = NR - 1 - h
        new = P.cell.copy()
        new[row, a] = p
        win = won(new, p)
        full = sand(*[snot(x) for j, x in enumerate(P.avail()) if j != a], h + 1 == NR)
        res += [('the token of the player to move lands on top of the column, all other tokens stay', sand(*[same(x, y) for x, y in zip(e._state.ravel().tolist(), new.ravel().tolist())])),
                ('done iff four in a row or the board is full', same(out[2], sor(win, full))), ('the environment remembers that', same(e.done, out[2])), ('reward 1 for a win, else 0', same(out[1], V.ite(win, 1.0, 0.0))),
                ('the other player is next', list(e._players) == [q, p]), ('observation of the resulting position', out[0][0] == 'obs' and out[0][1].same(e)), ('id of the resulting position', isinstance(out[3], dict) and out[3].get('state_id', ('', 0))[0] == 'id' and out[3]['state_id'][1].same(e)),
                ('free slots', sand(*[same(sand(e._levels[j] >= 0, e._levels[j] < NR), (P.h[j] + (1 if j == a else 0)) < NR) for j in range(NC)])), ('next free row', sand(*[implies(P.h[j] + (1 if j == a else 0) < NR, same(e._levels[j], NR - 1 - P.h[j] - (1 if j == a else 0))) for j in range(NC)]))]
        return res
    return body


def done_body(I):
    P = Pos({j: 2 for j in range(NC)})
    P.env.done = True
    out = []
    for a in (0, 3, 6):
        try:
            I.call(P.env.step, (a,))
            out.append(('no move after the end of the game', False))
        except EpisodeDoneError:
            out.append(('no move after the end of the game', sand(*[same(x, y) for x, y in zip(P.env._state.ravel().tolist(), P.cell.ravel().tolist())])))
    P.env.done = False
    for a in (7, -1):
        try:
            I.call(P.env.step, (a,))
            out.append(('no move outside the board', False))
        except ValueError:
            out.append(('no move outside the board', sand(*[same(x, y) for x, y in zip(P.env._state.ravel().tolist(), P.cell.ravel().tolist())])))
    return out


def m_argwhere(I, m):
    m = onp.asarray(m)
    if V.has_sym(m):
        if m.ndim != 1:
            raise V.Unsupported('argwhere')
        return onp.array([[k] for k, x in enumerate(m.tolist()) if truth(x)], dtype='int64').reshape(-1, 1)
    return onp.argwhere(m)


V.MODELS[onp.argwhere] = m_argwhere


def avail_body(I):
    P = Pos()
    acts = I.getattr(P.env, 'available_actions')
    mask = I.getattr(P.env, 'available_actions_mask')
    acts = onp.asarray(acts).tolist()
    return [('exactly the columns that are not full, in order', sand(acts == sorted(set(acts)), *[same(j in acts, x) for j, x in enumerate(P.avail())])), ('mask', sand(onp.shape(mask) == (NC,), *[same(bool(mask[j]), x) for j, x in enumerate(P.avail())]))]


def obs_body(players, heights=None):
    def body(I):
        P = Pos(heights, players)
        s = onp.asarray(I.getattr(P.env, 'state'))
        ok = s.shape == (NR + 1, NC, 2)
        if not ok:
            return [('shape', False)]
        one = lambda x, c: same(x, c) if isinstance(x, V.SBool) else same(same(x, 1), c)      # noqa
        return [('shape', ok), ('availability mask', sand(*[one(s[0, j, k], x) for j, x in enumerate(P.avail()) for k in range(2)])), ('binary', all(isinstance(x, V.SBool) or x in (0, 1) or V.has_sym(x) for x in s.ravel().tolist())),
                ('tokens of the player to move', sand(*[one(s[1 + i, j, 0], same(P.cell[i, j], players[0])) for i in range(NR) for j in range(NC)])), ('tokens of the other player', sand(*[one(s[1 + i, j, 1], same(P.cell[i, j], players[1])) for i in range(NR) for j in range(NC)]))]
    return body


def reset_body(I):
    P = Pos({j: 1 for j in range(NC)}, (2, 1))
    e = P.env
    e.done, e._prev_action = True, 3
    s = I.call(e.reset, ())
    return [('empty board', onp.shape(s) == (NR + 1, NC, 2) and not onp.any(onp.asarray(s)[1:])), ('all columns available', bool(onp.all(onp.asarray(s)[0] == 1))), ('not done', e.done is False or e.done == False), ('starting position', ConnectFourEnv().state_id == e.state_id)]      # noqa


# ---------------------------------------------------------------- native: games against a reference

class Ref:
    def __init__(self):
        self.b = onp.zeros((NR, NC), int)
        self.p, self.done, self.prev = 1, False, None

    def avail(self):
        return [j for j in range(NC) if self.b[0, j] == 0]

    def play(self, a):
        i = max(i for i in range(NR) if self.b[i, a] == 0)
        self.b[i, a] = self.p
        win = any(all(self.b[x] == self.p for x in l) for l in LINES)
        self.p, self.prev = 3 - self.p, a
        self.done = win or not self.avail()
        return 1. if win else 0., self.done

    def obs(self):
        m = onp.zeros((1, NC, 2), int)
        m[0, self.avail(), :] = 1
        return onp.concatenate([m, onp.stack([self.b == self.p, self.b == 3 - self.p], -1).astype(int)], 0)

    def sid(self):
        n = 0
        for x in self.b.ravel():
            n = 3 * n + int(x)
        return '%d%d%d%017x' % (self.p, self.done, NC if self.prev is None else self.prev, n)


def agree(e, r):
    if not (onp.array_equal(e.state, r.obs()) and list(e.available_actions) == r.avail() and [j for j in range(NC) if e.available_actions_mask[j]] == r.avail() and bool(e.done) == r.done):
        return 'position %s: observation, available actions %s or done=%s wrong' % (r.b.tolist(), list(e.available_actions), e.done)
    if not e.observation_space.contains(e.state):
        return 'the observation is not in the observation space'
    return None


def game(case):
    seed, style = case
    rnd = onp.random.RandomState(seed)
    e, r = ConnectFourEnv(), Ref()
    s = e.reset()
    if not onp.array_equal(s, r.obs()):
        return 'first observation'
    hist = []
    other = ConnectFourEnv()
    while True:
        for bad in (7, -1, 2.5, None):
            try:
                e.step(bad)
                return 'action %r accepted after %s' % (bad, hist)
            except ValueError:
                pass
        full = [j for j in range(NC) if j not in r.avail()]
        for j in full:
            try:
                e.step(j)
                return 'a full column was accepted after %s' % hist
            except UnavailableActionError:
                pass
        av = r.avail()
        if style == 1:          # avoid finishing
            safe = []
            for j in av:
                q = Ref()
                q.b, q.p = r.b.copy(), r.p
                if q.play(j)[0] == 0:
                    safe.append(j)
            av = safe or av
        elif style == 2 and rnd.rand() < .7:
            av = av[:2]
        elif style == 3 and rnd.rand() < .6:
            av = av[-2:]
        a = int(rnd.choice(av))
        out = e.step(a)
        rew, done = r.play(a)
        hist.append(a)
        if not onp.array_equal(out[0], r.obs()) or out[1] != rew or bool(out[2]) != done:
            return 'moves %s: reward %s, done %s, expected %s, %s; board %s' % (hist, out[1], out[2], rew, done, r.b.tolist())
        m = agree(e, r)
        if m:
            return m
        sid = out[3]['state_id']
        if sid != e.state_id or len(sid) != 20:
            return 'state id %r' % sid
        # the id determines the position, also in another environment with another history
        other.set_state(sid)
        m = agree(other, r) or (None if other.state_id == sid else 'id %r becomes %r' % (sid, other.state_id))
        if m:
            return 'after set_state: ' + m
        if not r.done:
            b = int(rnd.choice(r.avail()))
            q = Ref()
            q.b, q.p = r.b.copy(), r.p
            o2 = other.step(b)
            w = q.play(b)
            if not onp.array_equal(o2[0], q.obs()) or (o2[1], bool(o2[2])) != w:
                return 'after set_state(%r), move %d: %s, expected %s' % (sid, b, o2[1:3], w)
            if not onp.array_equal(e.state, r.obs()):
                return 'two environments share state'
        else:
            try:
                other.step(int(av[0]))
                return 'a finished game restored from its id goes on'
            except EpisodeDoneError:
                pass
        if r.done:
            break
    for j in range(NC):
        try:
            e.step(j)
            return 'a move after the end of the game was accepted'
        except EpisodeDoneError:
            pass
    if not onp.array_equal(e.reset(), Ref().obs()) or e.done:
        return 'reset after a game'
    return None


def draw(seed):
    """a full board without four in a row, from a fixed pattern"""
    order = [0, 1, 2, 3, 4, 5, 6]
    e, r = ConnectFourEnv(), Ref()
    rnd = onp.random.RandomState(seed)
    while not r.done:
        safe = []
        for j in r.avail():
            q = Ref()
            q.b, q.p = r.b.copy(), r.p
            if q.play(j)[0] == 0:
                safe.append(j)
        if not safe:
            return None
        a = int(rnd.choice(safe))
        out = e.step(a)
        w = r.play(a)
        if (out[1], bool(out[2])) != w:
            return 'move %d: %s, expected %s; board %s' % (a, out[1:3], w, r.b.tolist())
    return None


def lines(case):
    """each of the 69 lines, completed by a last token"""
    k, p = case
    l = LINES[k]
    e = ConnectFourEnv()
    for last in l:
        # build a position in which `last` is the next free slot of its column: fill below with tokens that make no line
        b = onp.zeros((NR, NC), int)
        for j in range(NC):
            rows = [i for i, jj in l if jj == j]
            if not rows:
                continue
            top = min(rows)
            for i in range(top, NR):
                b[i, j] = p if (i, j) in l else 3 - p
        for i in range(0, last[0] + 1):
            b[i, last[1]] = 0
        r = Ref()
        r.b, r.p = b.copy(), p
        if any(all(b[x] == q for x in ll) for ll in LINES for q in (1, 2)) or max(i for i in range(NR) if b[i, last[1]] == 0) != last[0]:
            continue
        r.prev = 0
        e.set_state(r.sid())
        m = agree(e, r)
        if m:
            return m
        out = e.step(last[1])
        w = r.play(last[1])
        if (out[1], bool(out[2])) != w:
            return 'line %s completed at %s by player %d: %s, expected %s' % (l, last, p, out[1:3], w)
    return None


def ids(case):
    """state ids of arbitrary boards: single tokens, full boards, random"""
    seed, = case
    rnd = onp.random.RandomState(seed)
    e = ConnectFourEnv()
    r = Ref()
    h = rnd.randint(0, NR + 1, size=NC) if seed % 3 else onp.full(NC, [0, NR, 1][seed // 3 % 3])
    if seed % 5 == 0:
        h = onp.eye(NC, dtype=int)[seed % NC] * (1 + seed % NR)
    for j in range(NC):
        for k in range(h[j]):
            r.b[NR - 1 - k, j] = rnd.randint(1, 3) if seed % 7 else 2
    r.p, r.prev, r.done = int(rnd.randint(1, 3)), (None if seed % 4 == 0 else int(rnd.randint(NC))), bool(rnd.rand() < .3)
    e.set_state(r.sid())
    m = agree(e, r)
    if m:
        return 'set_state(%r): %s' % (r.sid(), m)
    return None if e.state_id == r.sid() else 'id %r becomes %r' % (r.sid(), e.state_id)


def cases(k, salt=0):
    rnd = onp.random.RandomState(43 * V_seed() + salt)
    return [(int(rnd.randint(1 << 30)), i % 4) for i in range(k)]


def replay(v):
    """play column a in the counterexample's position"""
    try:
        b = onp.zeros((NR, NC), int)
        for i in range(NR):
            for j in range(NC):
                b[i, j] = int(v.get('c%d%d' % (i, j), 0) or 0)
    except Exception:
        return None
    for j in range(NC):         # gravity
        col = [x for x in b[:, j] if x]
        b[:, j] = [0] * (NR - len(col)) + col
    for p in (1, 2):
        for a in range(NC):
            r = Ref()
            r.b, r.p, r.prev = b.copy(), p, 0
            e = ConnectFourEnv()
            e.set_state(r.sid())
            m = agree(e, r)
            if m:
                return m
            if a not in r.avail() or any(all(b[x] == q for x in l) for l in LINES for q in (1, 2)):
                continue
            out = e.step(a)
            w = r.play(a)
            if (out[1], bool(out[2])) != w or not onp.array_equal(out[0], r.obs()):
                return 'board %s, player %d, move %d: %s, expected %s' % (b.tolist(), p, a, out[1:3], w)
    return None


def search():
    def gen():
        for k in range(69):
            for p in (1, 2):
                yield lines((k, p))
        for c in cases(80, 3):
            yield game(c)
        for s in range(40):
            yield draw(s)
        for s in range(100):
            yield ids((s,))
    return next((m for m in gen() if m), None)


def job(name, bodies, **kw):
    def f(ck):
        ck.trust('numpy.tensordot, numpy.argwhere, numpy.roll')
        ck.assume('positions: tokens stacked from the bottom, ongoing games have no four in a row (the invariant step itself maintains)', 'the unsigned 8-bit level counter of a full column is read as 255')
        for nm, body, con in bodies:
            V.contract(ck, 'ConnectFourEnv.%s' % nm, body, contracts=con() if con else None, replay=replay, search=search, **kw)
    return (name, f)


def job_native(ck):
    n = 2000 if ck.thorough else 150
    ck.fn('coax.envs._connect_four.ConnectFourEnv.state_id', how='bounded')
    ck.fn('coax.envs._connect_four.ConnectFourEnv.set_state', how='bounded')
    ck.concrete('connect four/games', game, cases(n), bound='%d random games, id round trip after every move' % n)
    ck.concrete('connect four/draws', draw, list(range(n // 5)), bound='games avoiding wins')
    ck.concrete('connect four/lines', lines, [(k, p) for k in range(69) for p in (1, 2)], bound='all 69 lines, both players, every last token')
    ck.concrete('connect four/ids', ids, [(s,) for s in range(3 * n)], bound='%d random boards' % (3 * n))


JOBS = [job('step column %d%s' % (a, 'ab'[w]), [('step(%d), %d tokens, player %d' % (a, h, p[0]), step_body(a, h, p), contracts) for h in (range(4) if w == 0 else range(4, NR + 1)) for p in ((1, 2), (2, 1))], deadline_s=150, max_paths=6000) for a in range(NC) for w in (0, 1)] + [
    job('available_actions', [('available_actions', avail_body, None)]), job('state', [('state (1, 2)', obs_body((1, 2)), None)], deadline_s=90), job('state2', [('state (2, 1)', obs_body((2, 1)), None)], deadline_s=90), job('reset', [('reset', reset_body, None), ('step invalid', done_body, None)]), ('native', job_native)]
