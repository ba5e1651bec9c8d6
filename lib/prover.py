"""Discharging obligations over alg.Ex expressions: normal form + case split over indicators + z3 / cvc5."""
from __future__ import annotations
import time
from fractions import Fraction
import z3
from . import alg
from .alg import ATOMS, CONST_ATOMS, Ex, subst_lt_top

STATS = {'z3_queries': 0, 'z3_s': 0.0, 'nf': 0, 'z3': 0, 'cases': 0, 'cvc5_queries': 0}


class Z:
    """translation of alg atoms to z3 terms (reals), with facts about transcendental atoms"""

    def __init__(self, hyps=()):
        self.consts = {}
        self.facts = []
        self.memo = {}
        self.hyps = list(hyps)
        self.logs = []

    def at(self, k):
        t = self.consts.get(k)
        if t is not None:
            return t
        a = ATOMS[k]
        if a.kind == 'lt':
            t = z3.If(self.poly(dict(a.data)) < 0, z3.RealVal(1), z3.RealVal(0))
        elif a.kind == 'fn' and a.data[0] == 'floor':
            t = z3.ToReal(z3.ToInt(self.ex(a.data[1])))
        else:
            t = z3.Real('a%d' % k)
            if a.integer:
                self.facts.append(z3.IsInt(t))
            if a.positive:
                self.facts.append(t > 0)
            if a.lo is not None:
                self.facts.append(t >= z3.Q(a.lo.numerator, a.lo.denominator))
            if a.hi is not None:
                self.facts.append(t <= z3.Q(a.hi.numerator, a.hi.denominator))
            if k in CONST_ATOMS and a.kind != 'pow':
                v = CONST_ATOMS[k]
                lo, hi = Fraction(v).limit_denominator(10 ** 12) - Fraction(1, 10 ** 9), Fraction(v).limit_denominator(10 ** 12) + Fraction(1, 10 ** 9)
                self.facts.append(t > z3.Q(lo.numerator, lo.denominator))
                self.facts.append(t < z3.Q(hi.numerator, hi.denominator))
            if a.kind == 'exp':
                self.consts[k] = t
                m = self.ex(alg.exp_arg(a))
                # exp(m) >= 1+m, sign facts
                self.facts += [t >= 1 + m, (t < 1) == (m < 0), (t == 1) == (m == 0)]
            if a.kind == 'log' and k not in CONST_ATOMS:
                self.consts[k] = t
                p = self.poly(dict(a.data))
                self.facts += [z3.Implies(p > 0, z3.And(t <= p - 1, (t < 0) == (p < 1), (t == 0) == (p == 1)))]
            if a.kind == 'log' and all(ATOMS[j].kind == 'var' for j in alg.p_atoms(dict(a.data))):
                self.consts[k] = t
                p = self.poly(dict(a.data))
                c0 = dict(a.data).get(alg.ONE_M)
                if c0 is not None and c0 > 0 and c0 != 1 and k not in CONST_ATOMS:
                    tc = self.ex(alg._logconst(c0))
                    self.facts.append(z3.Implies(p > 0, z3.And((p < z3.Q(c0.numerator, c0.denominator)) == (t < tc),
                                                               (p == z3.Q(c0.numerator, c0.denominator)) == (t == tc))))
                if len(self.logs) < 8:
                    for t2, p2 in self.logs:
                        self.facts.append(z3.Implies(z3.And(p > 0, p2 > 0), z3.And((p < p2) == (t < t2), (p == p2) == (t == t2))))
                    self.logs.append((t, p))
        self.consts[k] = t
        return t

    def powr(self, k, e):
        t = self.at(k)
        if isinstance(e, int):
            if e == 1:
                return t, None
            if e > 0:
                r = t
                for _ in range(e - 1):
                    r = r * t
                return r, None
            r = t
            for _ in range(-e - 1):
                r = r * t
            return None, r
        # rational exponent: root variable
        key = ('root', k, e.denominator)
        rt = self.consts.get(key)
        if rt is None:
            rt = z3.Real('r%d_%d' % (k, e.denominator))
            self.consts[key] = rt
            prod = rt
            for _ in range(e.denominator - 1):
                prod = prod * rt
            if ATOMS[k].kind == 'pow':
                p = self.poly(dict(ATOMS[k].data))
                self.facts += [rt >= 0, z3.Implies(p >= 0, prod == p)]
            else:
                self.facts += [rt >= 0, z3.Implies(t >= 0, prod == t)]
        n = e.numerator
        r = rt
        for _ in range(abs(n) - 1):
            r = r * rt
        return (r, None) if n > 0 else (None, r)

    def poly(self, p):
        pk = alg.p_key(p)
        t = self.memo.get(pk)
        if t is not None:
            return t
        terms = []
        for m, c in p.items():
            c = Fraction(c)
            num, den = [], []
            for k, e in m:
                a, b = self.powr(k, e)
                if a is not None:
                    num.append(a)
                if b is not None:
                    den.append(b)
            t = z3.Q(c.numerator, c.denominator)
            for a in num:
                t = t * a
            for b in den:
                t = t / b
            terms.append(t)
        t = z3.Sum(terms) if len(terms) > 1 else (terms[0] if terms else z3.RealVal(0))
        self.memo[pk] = t
        return t

    def ex(self, e):
        n = self.poly(e.num)
        for pk, k in e.den:
            d = self.poly(dict(pk))
            for _ in range(k):
                n = n / d
        return n


def z3_check(zt, fmls, timeout_ms, want_model=False):
    s = z3.Solver()
    s.set('timeout', int(timeout_ms))
    for f in fmls:
        s.add(f)
    for f in zt.facts:
        s.add(f)
    t0 = time.time()
    r = s.check()
    STATS['z3_queries'] += 1
    STATS['z3_s'] += time.time() - t0
    m = s.model() if (want_model and r == z3.sat) else None
    return r, m


def model_env(zt, m):
    """var name -> float from a z3 model"""
    env = {}
    for k, t in zt.consts.items():
        if isinstance(k, tuple):
            continue
        a = ATOMS[k]
        if a.kind != 'var' or k in CONST_ATOMS:
            continue
        v = m.eval(t, model_completion=True)
        env[a.data] = z3val(v)
    return env


def z3val(v):
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    raise alg.Unsupported('model value %s' % v)


class Outcome:
    __slots__ = ('status', 'by', 'env', 'detail', 'path')

    def __init__(self, status, by='', env=None, detail=''):
        self.status, self.by, self.env, self.detail = status, by, env, detail

    def __repr__(self):
        return 'Outcome(%s,%s,%s)' % (self.status, self.by, self.detail[:80])


def ex_path(zt, path):
    return [(zt.poly(dict(ATOMS[k].data)) < 0) if v else (zt.poly(dict(ATOMS[k].data)) >= 0) for k, v in path]


def prove_zero(d: Ex, hyps=(), timeout_ms=8000, deadline=None):
    """prove d == 0 for all atom values satisfying hyps (list of {0,1}-valued Ex that must be 1)"""
    return _prove(d, hyps, 'zero', timeout_ms, deadline)


def prove_true(c: Ex, hyps=(), timeout_ms=8000, deadline=None):
    """prove the {0,1}-valued c == 1"""
    return _prove(alg.ONE - c, hyps, 'zero', timeout_ms, deadline)


def _prove(d, hyps, kind, timeout_ms, deadline):
    if not d.num:
        STATS['nf'] += 1
        return Outcome('proved', 'normal-form')
    body = alg.unsum(d)
    if body is not None:
        # SUM_b body == 0 follows from body == 0 on a generic row
        o = _prove(body, hyps, kind, timeout_ms, deadline)
        if o.status == 'proved':
            o.by += '+sum-congruence'
        return o
    if deadline is None:
        deadline = time.time() + max(20.0, timeout_ms / 1000 * 5)
    hyps = [h for h in hyps if h.const() is None or h.const() != 1]
    if not hyps and not d.lts():
        # no case distinction possible: a non-zero normal form; ask z3 for a witness / refutation of d != 0
        return _leaf(d, [], hyps, timeout_ms)
    return _split(d, [], list(hyps), timeout_ms, deadline)


def _leaf(d, path, hyps, timeout_ms):
    zt = Z()
    fm = ex_path(zt, path)
    fm += [zt.ex(h) == 1 for h in hyps]
    # denominators are nonzero on the domain
    for pk, _ in d.den:
        fm.append(zt.poly(dict(pk)) != 0)
    fm.append(zt.poly(d.num) != 0)
    r, m = z3_check(zt, fm, timeout_ms, True)
    if r == z3.unsat:
        STATS['z3'] += 1
        return Outcome('proved', 'z3')
    if r == z3.sat:
        try:
            env = model_env(zt, m)
        except alg.Unsupported:
            env = {}
        return Outcome('refuted', 'z3', env, 'residual: %s' % alg.show(d)[:2000])
    return Outcome('unknown', 'z3', None, 'residual: %s' % alg.show(d)[:2000])


def _split(d, path, hyps, timeout_ms, deadline):
    if time.time() > deadline:
        return Outcome('unknown', 'timeout', None, 'case split exceeded its deadline')
    if not d.num:
        STATS['nf'] += 1
        return Outcome('proved', 'normal-form/case-split')
    lts = d.lts()
    if not lts:
        return _leaf(d, path, hyps, timeout_ms)
    # choose the most frequent indicator
    cnt = {}
    for m in d.num:
        for k, _ in m:
            if k in lts:
                cnt[k] = cnt.get(k, 0) + 1
    k = max(sorted(cnt), key=lambda q: cnt[q])
    res = []
    for v in (1, 0):
        p2 = path + [(k, v)]
        zt = Z()
        fm = ex_path(zt, p2) + [zt.ex(h) == 1 for h in hyps]
        r, _ = z3_check(zt, fm, 2000)
        if r == z3.unsat:
            continue
        STATS['cases'] += 1
        o = _split(subst_lt_top(d, k, v), p2, hyps, timeout_ms, deadline)
        if o.status == 'refuted':
            return o
        res.append(o)
    for o in res:
        if o.status != 'proved':
            return o
    return Outcome('proved', 'normal-form/case-split+z3')


# ---------------------------------------------------------------- path exploration

class Infeasible(Exception):
    pass


class Oracle:
    """decides the conditions met on one path; unexplored alternatives are queued (exploration by re-execution)"""

    def __init__(self, decisions, hyps=()):
        self.decisions = decisions
        self.pos = 0
        self.known = {}
        self.conds = []          # (pk, bool)
        self.z = Z()
        self.s = z3.Solver()
        self.s.set('timeout', 3000)
        self._nf = 0
        self.pending = []
        self.nfork = 0

    def sync(self):
        while self._nf < len(self.z.facts):
            self.s.add(self.z.facts[self._nf])
            self._nf += 1

    def assume(self, f):
        self.sync()
        self.s.add(f)

    def check(self, f):
        self.sync()
        t0 = time.time()
        r = self.s.check(f)
        STATS['z3_queries'] += 1
        STATS['z3_s'] += time.time() - t0
        return r

    def decide(self, pk):
        v = self.known.get(pk)
        if v is not None:
            return v
        t = self.z.poly(dict(pk))
        c = t < 0
        can1 = self.check(c) != z3.unsat
        can0 = self.check(z3.Not(c)) != z3.unsat
        if can1 and can0:
            if self.pos < len(self.decisions):
                v = self.decisions[self.pos]
            else:
                v = True
                self.pending.append(self.decisions[:self.pos] + [False])
                self.decisions = self.decisions + [True]
            self.pos += 1
            self.nfork += 1
            self.assume(c if v else z3.Not(c))
            self.conds.append((pk, v))
        elif can1 or can0:
            v = can1
            self.conds.append((pk, v))
        else:
            raise Infeasible()
        self.known[pk] = v
        return v

    def ties(self):
        """polynomials known to be zero on this path"""
        out = []
        neg = {pk for pk, v in self.conds if not v}
        for pk in neg:
            m = tuple(sorted((mm, -c) for mm, c in pk))
            if m in neg and pk < m:
                out.append(dict(pk))
        return out


class ConcreteOracle:
    def __init__(self, env):
        self.env = env

    def decide(self, pk):
        return alg._pval(dict(pk), self.env, {}) < 0


def explore(body, hyps=(), max_paths=4000, deadline=None):
    """run body(oracle) once per feasible path; hyps: list of (Ex, rel) with rel in '<=','<','==' meaning Ex rel 0"""
    work = [[]]
    n = 0
    while work:
        dec = work.pop()
        n += 1
        if n > max_paths:
            raise alg.TooBig('more than %d paths' % max_paths)
        if deadline and time.time() > deadline:
            raise alg.TooBig('deadline after %d paths' % n)
        o = Oracle(dec)
        for e, rel in hyps:
            t = o.z.poly(e.num)
            assert not e.den
            o.assume(t <= 0 if rel == '<=' else t < 0 if rel == '<' else t != 0 if rel == '!=' else t == 0)
        old = alg.ORACLE
        alg.ORACLE = o
        try:
            body(o)
        except Infeasible:
            pass
        finally:
            alg.ORACLE = old
        work.extend(o.pending)
    return n


def prove_path(d, o, timeout_ms=8000):
    """prove d == 0 on the current path of oracle o (d has no indicators)"""
    STATS['cases'] += 1
    if not d.num:
        STATS['nf'] += 1
        return Outcome('proved', 'normal-form')
    if _rounding(d):
        STATS['nf'] += 1
        return Outcome('proved', 'normal-form (constants up to float rounding)')
    body = alg.unsum(d)
    if body is not None:
        d = body
        if not d.num or _rounding(d):
            STATS['nf'] += 1
            return Outcome('proved', 'normal-form+sum-congruence')
    elif any(ATOMS[k].kind == 'sum' for k in alg.p_atoms(d.num)) and any(
            any(alg.atom_row(k) for k in alg.p_atoms(dict(pk))) for pk, _ in o.conds):
        return Outcome('unknown', 'nonlinear in batch sums under row-dependent conditions', None, alg.show(d)[:500])
    # eliminate ties
    for p in o.ties():
        for m, c in p.items():
            if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind in ('var', 'fn') and m[0][0] not in CONST_ATOMS:
                k = m[0][0]
                rest = Ex({mm: -cc / c for mm, cc in p.items() if mm != m})
                if _occurs(k, rest):
                    continue
                old = alg.ORACLE
                try:
                    d = alg.subst(d, {k: rest})
                except alg.Unsupported:
                    pass
                finally:
                    alg.ORACLE = old
                break
    if not d.num:
        STATS['nf'] += 1
        return Outcome('proved', 'normal-form+ties')
    # residual: ask z3
    fm = []
    for pk, _ in d.den:
        fm.append(o.z.poly(dict(pk)) != 0)
    fm.append(o.z.poly(d.num) != 0)
    o.sync()
    o.s.push()
    try:
        o.s.add(*fm)
        o.sync()
        o.s.set('timeout', int(timeout_ms))
        t0 = time.time()
        r = o.s.check()
        STATS['z3_queries'] += 1
        STATS['z3_s'] += time.time() - t0
        if r == z3.sat:
            facts = _ackermann(o.z)
            if facts:
                o.s.add(*facts)
                o.sync()
                t0 = time.time()
                r = o.s.check()
                STATS['z3_queries'] += 1
                STATS['z3_s'] += time.time() - t0
        if r == z3.unsat:
            STATS['z3'] += 1
            return Outcome('proved', 'z3')
        if r == z3.sat:
            env = _nice_model(o, d)
            trans = any(ATOMS[k].kind in ('exp', 'log', 'pow') or (ATOMS[k].kind == 'fn' and ATOMS[k].data[0] == 'undef')
                        for k in alg.p_atoms(d.num))
            out = Outcome('refuted', 'z3', env, 'residual: %s' % alg.show(d)[:1500])
            out.path = 'transcendental' if trans else 'exact'
            return out
        return Outcome('unknown', 'z3', None, 'residual: %s' % alg.show(d)[:1500])
    finally:
        o.s.pop()
        o.s.set('timeout', 3000)


def _rounding(d):
    """a residual that is a constant below single-precision rounding (float literals such as log(2 pi))"""
    c = d.const()
    if c is None and not d.den and all(abs(x) < 1e-12 for x in d.num.values()) and all(
            abs(k[1]) <= 4 and ATOMS[k[0]].kind == 'var' for m in d.num for k in m):
        return True
    if c is None and any(k in CONST_ATOMS for k in alg.p_atoms(d.num)):
        groups = {}
        for m, x in d.num.items():
            rest = tuple(k for k in m if k[0] not in CONST_ATOMS)
            v = float(x)
            for k in m:
                if k[0] in CONST_ATOMS:
                    v *= float(CONST_ATOMS[k[0]]) ** float(k[1])
            groups.setdefault(rest, []).append(v)
        if all(abs(sum(g)) <= 1e-6 * max(map(abs, g)) for g in groups.values()):
            return True         # every coefficient cancels up to the rounding of a float literal
    if c is None and not d.den and all(k in CONST_ATOMS for k in alg.p_atoms(d.num)):
        try:
            c = alg.evalf(d, {})
        except Exception:
            return False
    return c is not None and abs(c) < 2e-6


def _ackermann(zt, limit=400):
    """congruence of the uninterpreted functions, monotonicity of exp and log, for the atoms in play"""
    groups = {}
    done = 0
    facts = []
    while True:
        ks = [k for k in zt.consts if not isinstance(k, tuple)]
        if len(ks) == done:
            break
        done = len(ks)
        for k in ks:          # translate the arguments (this may introduce further atoms)
            a = ATOMS[k]
            if k in CONST_ATOMS:
                continue
            if a.kind == 'fn' and a.data[0] != 'floor':
                groups.setdefault(('fn', a.data[0], len(a.data)), {})[k] = [zt.ex(x) for x in a.data[1:]]
            elif a.kind == 'exp':
                groups.setdefault('exp', {})[k] = [zt.ex(alg.exp_arg(a))]
            elif a.kind == 'log':
                groups.setdefault('log', {})[k] = [zt.poly(dict(a.data))]
    for g, mem in groups.items():
        ks = sorted(mem)
        for i in range(len(ks)):
            for j in range(i):
                x, y = mem[ks[i]], mem[ks[j]]
                tx, ty = zt.consts[ks[i]], zt.consts[ks[j]]
                if isinstance(g, tuple):
                    facts.append(z3.Implies(z3.And([p == q for p, q in zip(x, y)]), tx == ty))
                elif g == 'exp':
                    facts += [(x[0] < y[0]) == (tx < ty), (x[0] == y[0]) == (tx == ty)]
                else:
                    pos = z3.And(x[0] > 0, y[0] > 0)
                    facts += [z3.Implies(pos, z3.And((x[0] < y[0]) == (tx < ty), (x[0] == y[0]) == (tx == ty)))]
                if len(facts) > limit:
                    return facts
    return facts


def _occurs(k, e):
    for a in alg.p_atoms(e.num):
        if a == k or _occ_atom(k, a):
            return True
    return False


def _occ_atom(k, a):
    at = ATOMS[a]
    if at.kind == 'exp':
        return _occurs(k, alg.exp_arg(at))
    if at.kind in ('log', 'pow', 'lt'):
        return any(x == k or _occ_atom(k, x) for x in alg.p_atoms(dict(at.data)))
    if at.kind == 'fn':
        return any(_occurs(k, x) for x in at.data[1:])
    if at.kind == 'sum':
        return True
    return False


def _nice_model(o, d):
    """try for a moderate model first (floats represent it faithfully)"""
    best = None
    for bound, gap in ((3, Fraction(1, 4)), (64, Fraction(1, 16)), (None, None)):
        o.s.push()
        try:
            if bound is not None:
                for k, t in list(o.z.consts.items()):
                    if not isinstance(k, tuple) and ATOMS[k].kind in ('var', 'fn', 'exp', 'log', 'pow'):
                        if ATOMS[k].kind == 'fn' and ATOMS[k].data[0] == 'floor':
                            continue
                        o.s.add(t <= bound, t >= -bound)
                n = o.z.poly(d.num)
                o.s.add(z3.Or(n > z3.Q(gap.numerator, gap.denominator), n < -z3.Q(gap.numerator, gap.denominator)))
            o.sync()
            if o.s.check() == z3.sat:
                return model_env(o.z, o.s.model())
        except alg.Unsupported:
            pass
        finally:
            o.s.pop()
    return best or {}
