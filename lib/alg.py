"""Exact algebra over the reals for the VC generator.

An expression is a rational function in *atoms*:  num / prod(den_i^k_i), where num and den_i are
Laurent polynomials with Fraction coefficients.  Atoms are
  var   : a free real (program input)                     key ('v', name)
  exp   : exp of one monomial                             key ('exp', monomial)
  log   : log of an exp-content-free polynomial           key ('log', polykey)
  pow   : polynomial (or variable) to a rational power    key ('pow', polykey)    (used as base)
  fn    : an otherwise uninterpreted function application key ('fn', name, exprkeys...)
  lt    : the indicator [p < 0] in {0,1}                  key ('lt', polykey)

Booleans are {0,1}-valued polynomials in lt-atoms, so if/else, min, max, masks and comparisons are all
polynomials; lt-atoms are idempotent.  Non-polynomial functions are Shannon-expanded over the lt-atoms of
their argument, so arguments of exp/log/conditions are always lt-free.
exp(a+b)=exp(a)exp(b), log(exp(a) p)=a+log(p) are built into the normal form.
"""
from __future__ import annotations
import math
import sys
from fractions import Fraction

sys.setrecursionlimit(100000)

ATOMS = []          # id -> Atom
_INTERN = {}


class Unsupported(Exception):
    """the construct is outside the verifier's subset (never a verdict about the code)"""


class TooBig(Unsupported):
    pass


class Atom:
    __slots__ = ('id', 'key', 'kind', 'data', 'positive', 'lo', 'hi', 'integer', 'row')

    def __init__(self, key, kind, data):
        self.key, self.kind, self.data = key, kind, data
        self.positive = kind == 'exp'
        self.lo = self.hi = None
        self.integer = False
        self.row = None     # does the value depend on the generic batch row?
        self.id = len(ATOMS)
        ATOMS.append(self)

    def __repr__(self):
        return show_atom(self)


def atom(key, kind, data):
    a = _INTERN.get(key)
    if a is None:
        a = _INTERN[key] = Atom(key, kind, data)
    return a


# ---------------------------------------------------------------- polynomials
# monomial: tuple of (atom_id, exponent Fraction/int) sorted by id ; polynomial: dict monomial -> Fraction

ONE_M = ()
MAX_TERMS = 60000


def m_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for k, e in b:
        if ATOMS[k].kind == 'lt':
            d[k] = 1
            continue
        e2 = d.get(k, 0) + e
        if e2 == 0:
            d.pop(k, None)
        else:
            d[k] = e2
    return tuple(sorted(d.items()))


def m_pow(a, q):
    out = []
    for k, e in a:
        if ATOMS[k].kind == 'lt':
            if q <= 0:
                raise Unsupported('indicator in denominator')
            out.append((k, 1))
        else:
            e2 = e * q
            if isinstance(e2, Fraction) and e2.denominator == 1:
                e2 = int(e2)
            out.append((k, e2))
    return tuple(out)


def p_add(a, b, s=1):
    d = dict(a)
    for m, c in b.items():
        c2 = d.get(m, 0) + s * c
        if c2 == 0:
            d.pop(m, None)
        else:
            d[m] = c2
    return d


def p_mul(a, b):
    if len(a) * len(b) > MAX_TERMS * 20:
        raise TooBig('polynomial product too large')
    d = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = m_mul(m1, m2)
            c = d.get(m, 0) + c1 * c2
            if c == 0:
                d.pop(m, None)
            else:
                d[m] = c
    if len(d) > MAX_TERMS:
        raise TooBig('polynomial too large')
    return d


def p_key(p):
    return tuple(sorted(p.items()))


def p_const(p):
    """Fraction if constant else None"""
    if not p:
        return Fraction(0)
    if len(p) == 1 and ONE_M in p:
        return p[ONE_M]
    return None


_UNIT = {ONE_M: Fraction(1)}


def p_atoms(p):
    s = set()
    for m in p:
        for k, _ in m:
            s.add(k)
    return s


# ---------------------------------------------------------------- expressions

class Ex:
    """num / prod(den); den: tuple of (polykey, exponent) sorted"""
    __slots__ = ('num', 'den', '_key', '_lts')
    __array_priority__ = 1000

    def __init__(self, num, den=()):
        self.num = num
        self.den = den if num else ()
        self._key = None
        self._lts = None

    # -- construction helpers
    @property
    def key(self):
        if self._key is None:
            self._key = (p_key(self.num), self.den)
        return self._key

    def const(self):
        if self.den:
            return None
        return p_const(self.num)

    def den_poly(self):
        d = _UNIT
        for pk, e in self.den:
            for _ in range(e):
                d = p_mul(d, dict(pk))
        return d

    def lts(self):
        """ids of top-level lt atoms"""
        if self._lts is None:
            s = set()
            for m in self.num:
                for k, _ in m:
                    if ATOMS[k].kind == 'lt':
                        s.add(k)
            self._lts = s
        return self._lts

    # -- arithmetic
    def __add__(self, o):
        o = ex(o)
        if not o.num:
            return self
        if not self.num:
            return o
        if self.den == o.den:
            return mk(p_add(self.num, o.num), self.den)
        l, ma, mb = den_lcm(self.den, o.den)
        return mk(p_add(p_mul(self.num, ma), p_mul(o.num, mb)), l)

    __radd__ = __add__

    def __neg__(self):
        return Ex({m: -c for m, c in self.num.items()}, self.den)

    def __pos__(self):
        return self

    def __sub__(self, o):
        return self + (-ex(o))

    def __rsub__(self, o):
        return ex(o) + (-self)

    def __mul__(self, o):
        o = ex(o)
        if not self.num or not o.num:
            return ZERO
        den = self.den
        if o.den:
            d = dict(self.den)
            for pk, e in o.den:
                d[pk] = d.get(pk, 0) + e
            den = tuple(sorted(d.items()))
        return mk(p_mul(self.num, o.num), den)

    __rmul__ = __mul__

    def inv(self):
        if not self.num:
            raise ZeroDivisionError('symbolic division by zero')
        lts = self.lts()
        if lts:
            return shannon(self, lambda e: e.inv())
        c = p_const(self.num)
        dp = self.den_poly()
        if c is not None:
            return Ex({m: v / c for m, v in dp.items()})
        if len(self.num) == 1:
            (m, c), = self.num.items()
            return mk(p_mul(dp, {m_pow(m, -1): 1 / c}), ())
        # content: leading coefficient and monomial content
        p, m, c = p_content(self.num)
        r = p_mul(dp, {m_pow(m, -1): 1 / c})
        return mk(r, ((p_key(p), 1),))

    def __truediv__(self, o):
        o = ex(o)
        c = o.const()
        if c is not None:
            if c == 0:
                raise ZeroDivisionError('symbolic division by zero')
            return Ex({m: v / c for m, v in self.num.items()}, self.den)
        return self * o.inv()

    def __rtruediv__(self, o):
        return ex(o) / self

    def __pow__(self, n):
        n = ex(n)
        c = n.const()
        if c is None:
            return fexp(n * flog(self))
        if c.denominator == 1:
            c = int(c)
            if c == 0:
                return ONE
            if c < 0:
                return (self ** (-c)).inv()
            r = None
            b = self
            while c:
                if c & 1:
                    r = b if r is None else r * b
                c >>= 1
                if c:
                    b = b * b
            return r
        return fpow(self, c)

    def __rpow__(self, o):
        return ex(o) ** self

    def __abs__(self):
        return self - 2 * self * lt(self, 0)

    # comparisons build {0,1}-valued expressions
    def __lt__(self, o):
        return lt(self, o)

    def __gt__(self, o):
        return lt(o, self)

    def __le__(self, o):
        return ONE - lt(o, self)

    def __ge__(self, o):
        return ONE - lt(self, o)

    def __eq__(self, o):
        return eq(self, o)

    def __ne__(self, o):
        return ONE - eq(self, o)

    def __hash__(self):
        return hash(self.key)

    def __bool__(self):
        c = self.const()
        if c is None:
            raise Unsupported('branch on a symbolic value at trace level')
        return c != 0

    def __float__(self):
        c = self.const()
        if c is None:
            raise Unsupported('float() of a symbolic value')
        return float(c)

    def __repr__(self):
        return show(self)


def mk(num, den):
    """drop denominators that cancel trivially"""
    if not num:
        return ZERO
    if den:
        nd = []
        for pk, e in den:
            while e and len(num) >= len(pk):
                q = p_divexact(num, pk)
                if q is None:
                    break
                num = q
                e -= 1
            if e:
                nd.append((pk, e))
        den = tuple(nd)
    return Ex(num, den)


def p_divexact(num, pk):
    """num / pk if num is (monomial * constant) * pk, else None (cheap cancellation only)"""
    if len(num) != len(pk):
        return None
    items = sorted(num.items())
    # candidates for the monomial factor: match the first key monomial against any num monomial
    m0, c0 = pk[0]
    pd = dict(pk)
    for m, c in items:
        f = m_mul(m, m_pow_safe(m0))
        if f is None:
            continue
        s = c / c0
        ok = True
        for mm, cc in pk:
            if num.get(m_mul(mm, f)) != cc * s:
                ok = False
                break
        if ok:
            return {f: s}
    return None


def m_pow_safe(m):
    for k, _ in m:
        if ATOMS[k].kind == 'lt':
            return ONE_M
    return m_pow(m, -1)


def den_lcm(a, b):
    da, db = dict(a), dict(b)
    l = dict(da)
    for pk, e in db.items():
        l[pk] = max(l.get(pk, 0), e)
    ma, mb = _UNIT, _UNIT
    for pk, e in l.items():
        for _ in range(e - da.get(pk, 0)):
            ma = p_mul(ma, dict(pk))
        for _ in range(e - db.get(pk, 0)):
            mb = p_mul(mb, dict(pk))
    return tuple(sorted(l.items())), ma, mb


def p_content(p):
    """p = c * m * q ; m: monomial content over exp/positive atoms and all non-lt atoms' common powers"""
    mins = None
    for m in p:
        d = {k: e for k, e in m if ATOMS[k].kind != 'lt'}
        if mins is None:
            mins = dict(d)
        else:
            for k in list(mins):
                mins[k] = min(mins[k], d.get(k, 0))
            for k, e in d.items():
                if k not in mins:
                    mins[k] = min(0, e)
    mins = {k: e for k, e in mins.items() if e != 0}
    m = tuple(sorted(mins.items()))
    q = p_mul(p, {m_pow(m, -1): Fraction(1)}) if m else p
    lead = max(q)
    c = q[lead]
    return {k: v / c for k, v in q.items()}, m, c


CONST_ATOMS = {}


def _named_const(name, value):
    a = atom(('v', name), 'var', name)
    a.positive = value > 0
    CONST_ATOMS[a.id] = value
    return Ex({((a.id, 1),): Fraction(1)})


ZERO = Ex({})
ONE = Ex({ONE_M: Fraction(1)})
LOG2PI = _named_const('#log(2pi)', math.log(2 * math.pi))
_NAMED = [(math.log(2 * math.pi), LOG2PI)]


def snap(x, f32=True):
    """real number denoted by a float literal of the program"""
    import numpy as np
    if isinstance(x, (bool, int)):
        return ex_c(Fraction(int(x)))
    x = float(x)
    if not math.isfinite(x):
        raise Unsupported('non-finite literal %r' % x)
    if x == int(x) and abs(x) < 2 ** 53:
        return ex_c(Fraction(int(x)))
    for d in (2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 20, 25, 27, 30, 32, 36, 49, 50, 51, 64, 100, 121, 128):
        n = round(x * d)
        if n and abs(n) < 10 ** 6 and (np.float32(n / d) == np.float32(x) if f32 else n / d == x):
            return ex_c(Fraction(n, d))
    for v, e in _NAMED:
        r = x / v
        for d in (1, 2, 4):
            n = round(r * d)
            if n and abs(n) <= 4 and abs(r - n / d) < 3e-7:
                return e * Fraction(n, d)
    s = str(np.float32(x)) if f32 and np.float32(x) == x else repr(x)
    return ex_c(Fraction(s))


def ex_c(c):
    return Ex({ONE_M: Fraction(c)}) if c else ZERO


def ex(x):
    if isinstance(x, Ex):
        return x
    if isinstance(x, bool):
        return ONE if x else ZERO
    if isinstance(x, (int, Fraction)):
        return ex_c(Fraction(x))
    if isinstance(x, float):
        return snap(x)
    import numpy as np
    if isinstance(x, np.generic):
        if x.dtype == bool or np.issubdtype(x.dtype, np.integer):
            return ex_c(Fraction(int(x)))
        return snap(float(x))
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return ex(x.item() if x.dtype == object else x[()])
    raise Unsupported('cannot lift %r' % type(x))


def var(name, positive=False, lo=None, hi=None, integer=False, row=False):
    a = atom(('v', name), 'var', name)
    a.row = bool(a.row) or row
    a.positive = a.positive or positive
    if lo is not None:
        a.lo = Fraction(lo)
    if hi is not None:
        a.hi = Fraction(hi)
    a.integer = a.integer or integer
    return Ex({((a.id, 1),): Fraction(1)})


def of_atom(a, e=1):
    return Ex({((a.id, e),): Fraction(1)})


# ---------------------------------------------------------------- Shannon expansion / substitution

MAX_SHANNON = 14


def subst_lt_top(e, k, val):
    """set the top-level indicator k to val (0/1) in e.num (denominators are lt-free)"""
    d = {}
    for m, c in e.num.items():
        dm = dict(m)
        if k in dm:
            if not val:
                continue
            del dm[k]
            m = tuple(sorted(dm.items()))
        c2 = d.get(m, 0) + c
        if c2 == 0:
            d.pop(m, None)
        else:
            d[m] = c2
    return mk(d, e.den)


def shannon(e, f):
    lts = e.lts()
    if not lts:
        return f(e)
    if len(lts) > MAX_SHANNON:
        raise TooBig('too many indicators under a function')
    k = min(lts)
    i = Ex({((k, 1),): Fraction(1)})
    e1, e0 = subst_lt_top(e, k, 1), subst_lt_top(e, k, 0)
    # a branch in which f is undefined (division by 0) contributes nothing reachable: keep a poison atom
    a = _try(f, e1)
    b = _try(f, e0)
    if a.key == b.key:
        return a
    return b + i * (a - b)


def _try(f, e):
    try:
        return shannon(e, f)
    except ZeroDivisionError:
        return UNDEF()


_UNDEF = [0]


def UNDEF():
    """value of an undefined operation (x/0, log 0): a fresh unknown, never equal to anything else"""
    _UNDEF[0] += 1
    return of_atom(atom(('fn', 'undef', _UNDEF[0]), 'fn', ('undef',)))


def ite(c, a, b):
    c, a, b = ex(c), ex(a), ex(b)
    cc = c.const()
    if cc is not None:
        return a if cc != 0 else b
    if a.key == b.key:
        return a
    return b + c * (a - b)


# ---------------------------------------------------------------- conditions

def sign_of(p):
    """+1 / -1 / 0 / None for a polynomial, by the cheap syntactic rule"""
    if not p:
        return 0
    s = None
    for m, c in p.items():
        for k, e in m:
            a = ATOMS[k]
            if not (a.positive or (isinstance(e, int) and e % 2 == 0 and False)):
                return None
        sc = 1 if c > 0 else -1
        if s is None:
            s = sc
        elif s != sc:
            return None
    return s


ORACLE = None      # decides conditions while one path is evaluated (prover.Oracle); None: keep indicators


def lt(a, b):
    d = ex(a) - ex(b)
    return shannon(d, _neg_indicator)


def _neg_indicator(d):
    c = d.const()
    if c is not None:
        return ONE if c < 0 else ZERO
    p = d.num
    for pk, e in d.den:
        s = sign_of(dict(pk))
        if e % 2 == 0 or s == 1:
            continue
        if s == -1:
            p = {m: -v for m, v in p.items()}
        else:
            p = p_mul(p, dict(pk))
    s = sign_of(p)
    if s is not None:
        return ONE if s < 0 else ZERO
    # single monomial: drop positive atoms ; general: drop positive content
    q, m, c = p_content(p)
    keep = []
    for k, e in m:
        if ATOMS[k].positive:
            continue
        keep.append((k, e))
    q = p_mul(q, {tuple(keep): Fraction(1) if c > 0 else Fraction(-1)}) if keep else (
        q if c > 0 else {mm: -v for mm, v in q.items()})
    lead = max(q)
    sc = abs(q[lead])
    q = {mm: v / sc for mm, v in q.items()}
    pk = p_key(q)
    if ORACLE is not None:
        return ONE if ORACLE.decide(pk) else ZERO
    a = atom(('lt', pk), 'lt', pk)
    return of_atom(a)


def eq(a, b):
    d = ex(a) - ex(b)
    c = d.const()
    if c is not None:
        return ONE if c == 0 else ZERO
    x = (ONE - lt(d, 0)) * (ONE - lt(-d, 0))
    return x


def land(a, b):
    return ex(a) * ex(b)


def lor(a, b):
    a, b = ex(a), ex(b)
    return a + b - a * b


def lnot(a):
    return ONE - ex(a)


def maximum(a, b):
    a, b = ex(a), ex(b)
    if a.key == b.key:
        return a
    return ite(lt(a, b), b, a)


def minimum(a, b):
    a, b = ex(a), ex(b)
    if a.key == b.key:
        return a
    return ite(lt(b, a), b, a)


# ---------------------------------------------------------------- functions

def fexp(e):
    e = ex(e)
    return shannon(e, _exp)


def _exp(e):
    if not e.num:
        return ONE
    if e.den:
        # split off the polynomial part is not attempted; one exp atom per (monomial/den) term
        out = ONE
        dk = e.den
        m = {}
        for mono, c in e.num.items():
            a = atom(('expq', mono, dk), 'exp', ('q', mono, dk))
            m[a.id] = _q(c)
        return Ex({tuple(sorted(m.items())): Fraction(1)})
    m = {}
    for mono, c in e.num.items():
        if len(mono) == 1 and mono[0][1] == 1 and ATOMS[mono[0][0]].kind == 'log':
            # exp(c*log p) = p^c
            p = dict(ATOMS[mono[0][0]].data)
            rest = {k: v for k, v in e.num.items() if k != mono}
            base = fpow(Ex(p), c) if Fraction(c).denominator != 1 else Ex(p) ** int(c)
            return base * _exp(Ex(rest) if rest else ZERO)
        a = atom(('exp', mono), 'exp', ('m', mono))
        m[a.id] = m.get(a.id, 0) + _q(c)
    return Ex({tuple(sorted(m.items())): Fraction(1)})


def _q(c):
    c = Fraction(c)
    return int(c) if c.denominator == 1 else c


def exp_arg(a):
    d = a.data
    if d[0] == 'm':
        return Ex({d[1]: Fraction(1)})
    return Ex({d[1]: Fraction(1)}, d[2])


def flog(e):
    e = ex(e)
    return shannon(e, _log)


def _log(e):
    if not e.num:
        raise ZeroDivisionError('log(0)')
    out = _logp(e.num)
    for pk, k in e.den:
        out = out - k * _logp(dict(pk))
    return out


def _logp(p):
    q, m, c = p_content(p)
    out = ZERO
    rest = []
    for k, e in m:
        a = ATOMS[k]
        if a.kind == 'exp':
            out = out + e * exp_arg(a)
        elif a.kind == 'pow':
            rest.append((k, e))
        else:
            rest.append((k, e))
    flip = None
    if c < 0 and q.keys() == {ONE_M}:
        odd = [k for k, e in rest if isinstance(e, int) and e % 2 and not ATOMS[k].positive]
        if len(odd) != 1:
            raise Unsupported('log of a negative constant')
        flip, c = odd[0], -c          # -a > 0
    for k, e in rest:
        a = ATOMS[k]
        if k == flip:
            pk = ((((k, 1),), Fraction(-1)),)
            out = out + Fraction(e) * of_atom(atom(('log', pk), 'log', pk))
            continue
        la = atom(('log', (((((k, 1),)), Fraction(1)),)), 'log', (((((k, 1),)), Fraction(1)),))
        out = out + Fraction(e) * of_atom(la)
    if c < 0:
        q = {k: -v for k, v in q.items()}
        c = -c
    if c != 1:
        out = out + _logconst(c)
    qc = p_const(q)
    if qc is not None:
        if qc != 1:
            out = out + _logconst(qc)
        return out
    pk = p_key(q)
    return out + of_atom(atom(('log', pk), 'log', pk))


def _logconst(c):
    """log of a positive rational: sum of integer logs"""
    c = Fraction(c)
    if c <= 0:
        raise Unsupported('log of a non-positive constant')
    if c == 1:
        return ZERO

    def li(n):
        out = ZERO
        for pr in (2, 3, 5, 7):
            k = 0
            while n % pr == 0:
                n //= pr
                k += 1
            if k:
                pk = ((ONE_M, Fraction(pr)),)
                out = out + k * of_atom(_la(pk, pr))
        if n != 1:
            pk = ((ONE_M, Fraction(n)),)
            out = out + of_atom(_la(pk, n))
        return out
    return li(c.numerator) - li(c.denominator)


def _la(pk, n):
    a = atom(('log', pk), 'log', pk)
    CONST_ATOMS[a.id] = math.log(n)
    a.positive = n > 1
    return a


def fpow(e, q):
    """e ** q for a rational non-integer q (argument assumed >= 0)"""
    e = ex(e)
    return shannon(e, lambda x: _pow(x, Fraction(q)))


def _pow(e, q):
    if not e.num:
        return ZERO
    out = _powp(e.num, q)
    for pk, k in e.den:
        out = out * _powp(dict(pk), -q * k)
    return out


def _powp(p, q):
    pp, m, c = p_content(p)
    if c < 0:
        pp = {k: -v for k, v in pp.items()}
        c = -c
    mono = {}
    for k, e in m:
        # sqrt(x^2)=|x| is handled for even exponents of non-positive atoms
        a = ATOMS[k]
        e2 = Fraction(e) * q
        if not a.positive and Fraction(e).denominator == 1 and int(e) % 2 == 0:
            b = abs(of_atom(a))
            rest = ((tuple((kk, ee) for kk, ee in m if kk != k)),)
            r = b ** _q(e2) if e2.denominator == 1 else fpow_atomabs(a, e2)
            p2 = p_mul(pp, {rest[0]: c})
            return r * _powp(p2, q)
        mono[k] = _q(e2)
    out = Ex({tuple(sorted(mono.items())): Fraction(1)})
    if c != 1:
        n = Fraction(c) ** 1
        rt = _rat_pow(n, q)
        if rt is not None:
            out = out * rt
        else:
            a = atom(('pow', ((ONE_M, c),)), 'pow', ((ONE_M, c),))
            a.positive = True
            CONST_ATOMS[a.id] = float(c)
            out = out * of_atom(a, _q(q))
    if p_const(pp) is not None:
        return out
    if q.denominator == 1:
        return out * Ex(pp) ** int(q)
    pk = p_key(pp)
    a = atom(('pow', pk), 'pow', pk)
    a.positive = True
    whole = q.numerator // q.denominator
    frac = q - whole
    r = of_atom(a, _q(frac))
    if whole:
        r = r * Ex(pp) ** whole
    return out * r


def fpow_atomabs(a, q):
    raise Unsupported('odd power of |x|')


def _rat_pow(c, q):
    n = round(float(c) ** float(q) * 720720)
    f = Fraction(n, 720720)
    try:
        if q.numerator > 0 and f ** q.denominator == c ** q.numerator:
            return ex_c(f)
        if q.numerator < 0 and f and (1 / f) ** q.denominator == c ** (-q.numerator):
            return ex_c(f)
    except (OverflowError, ZeroDivisionError):
        pass
    return None


def fsqrt(e):
    return fpow(ex(e), Fraction(1, 2))


def flogistic(e):
    return ONE / (ONE + fexp(-ex(e)))


def ftanh(e):
    t = fexp(-2 * ex(e))
    return (ONE - t) / (ONE + t)


def fsign(e):
    e = ex(e)
    return lt(0, e) - lt(e, 0)


def fn(name, *args, positive=False, integer=False):
    """uninterpreted function application (Shannon-expanded over its arguments' indicators)"""
    args = [ex(a) for a in args]
    for i, a in enumerate(args):
        if a.lts():
            def f(e, i=i):
                b = list(args)
                b[i] = e
                return fn(name, *b, positive=positive, integer=integer)
            return shannon(a, f)
    key = ('fn', name) + tuple(a.key for a in args)
    at = atom(key, 'fn', (name,) + tuple(args))
    at.positive = at.positive or positive
    at.integer = at.integer or integer
    return of_atom(at)


def ffloor(e):
    e = ex(e)

    def f(x):
        c = x.const()
        if c is not None:
            return ex_c(Fraction(math.floor(c)))
        if all_integer(x):
            return x
        if ORACLE is not None:
            if lt(x, 0).const() == 1:
                for k in range(1, 17):
                    if lt(x, -k).const() == 0:
                        return ex_c(-k)
            else:
                for k in range(1, 17):
                    if lt(x, k).const() == 1:
                        return ex_c(k - 1)
            raise Unsupported('floor of an unbounded value')
        return fn('floor', x, integer=True)
    return shannon(e, f)


def all_integer(e):
    if e.den:
        return False
    for m, c in e.num.items():
        if Fraction(c).denominator != 1:
            return False
        for k, x in m:
            if not (ATOMS[k].integer or ATOMS[k].kind == 'lt') or x < 0 or Fraction(x).denominator != 1:
                return False
    return True


# ---------------------------------------------------------------- batch sums
# The batch dimension is symbolic: BATCH is its size, one generic row stands for every row, and a sum over the
# batch is the linear operator SUM; SUM(c * r * x) = c * r * S[x] for row-independent r.

BATCH = var('#batch', positive=True, lo=1, integer=True)


def atom_row(k):
    a = ATOMS[k]
    if a.row is None:
        if a.kind == 'var':
            a.row = False
        elif a.kind == 'exp':
            a.row = ex_row(exp_arg(a))
        elif a.kind in ('log', 'pow', 'lt'):
            a.row = any(atom_row(j) for j in p_atoms(dict(a.data)))
        elif a.kind == 'fn':
            a.row = any(ex_row(x) for x in a.data[1:])
        else:
            a.row = False
    return a.row


def ex_row(e):
    return any(atom_row(k) for k in p_atoms(e.num)) or any(
        atom_row(k) for pk, _ in e.den for k in p_atoms(dict(pk)))


BSUM_HOOK = None


def bsum(e):
    e = ex(e)
    if BSUM_HOOK is not None:
        return BSUM_HOOK(e)
    rden = tuple((pk, n) for pk, n in e.den if any(atom_row(k) for k in p_atoms(dict(pk))))
    cden = tuple((pk, n) for pk, n in e.den if (pk, n) not in rden)
    out = {}
    for m, c in e.num.items():
        dep = tuple((k, x) for k, x in m if atom_row(k))
        ind = tuple((k, x) for k, x in m if not atom_row(k))
        if dep or rden:
            a = atom(('sum', dep, rden), 'sum', (dep, rden))
            a.row = False
            f = ((a.id, 1),)
        else:
            f = tuple(BATCH.num)[0]
        mm = m_mul(ind, f)
        v = out.get(mm, 0) + c
        if v == 0:
            out.pop(mm, None)
        else:
            out[mm] = v
    return mk(out, cden)


def unsum(d):
    """if d is linear in batch sums, an expression whose vanishing on every row implies d == 0; else None"""
    if not any(ATOMS[k].kind == 'sum' for k in p_atoms(d.num)):
        return None
    if any(ATOMS[k].kind == 'sum' for pk, _ in d.den for k in p_atoms(dict(pk))):
        d = Ex(d.num)       # the numerator must vanish
    body = ZERO
    for m, c in d.num.items():
        s = [(k, x) for k, x in m if ATOMS[k].kind == 'sum']
        rest = tuple((k, x) for k, x in m if ATOMS[k].kind != 'sum')
        if len(s) > 1 or (s and s[0][1] != 1):
            return None
        if s:
            dep, rden = ATOMS[s[0][0]].data
            body = body + Ex({m_mul(rest, dep): c}, rden)
        else:
            body = body + Ex({m: c}) / BATCH
    return body


# ---------------------------------------------------------------- deep substitution / evaluation

def deep_lts(e, acc=None, seen=None):
    """all lt atoms, top-level only is enough because functions are Shannon-expanded"""
    return set(e.lts())


def subst(e, mapping, memo=None):
    """substitute atoms (id -> Ex) everywhere, rebuilding canonical forms"""
    if memo is None:
        memo = {}
    k = e.key
    if k in memo:
        return memo[k]
    num = _psubst(e.num, mapping, memo)
    for pk, n in e.den:
        num = num / (_psubst(dict(pk), mapping, memo) ** n)
    memo[k] = num
    return num


def _psubst(p, mapping, memo):
    out = ZERO
    for m, c in p.items():
        t = ex_c(c)
        for k, x in m:
            t = t * _asubst(k, x, mapping, memo)
        out = out + t
    return out


def _asubst(k, x, mapping, memo):
    if k in mapping:
        b = mapping[k]
    else:
        mk_ = ('a', k)
        if mk_ in memo:
            b = memo[mk_]
        else:
            a = ATOMS[k]
            if a.kind == 'var':
                b = of_atom(a)
            elif a.kind == 'exp':
                b = fexp(subst(exp_arg(a), mapping, memo))
            elif a.kind == 'log':
                b = of_atom(a) if k in CONST_ATOMS else flog(_psubst(dict(a.data), mapping, memo))
            elif a.kind == 'pow':
                if k in CONST_ATOMS:
                    b = of_atom(a)
                else:
                    base = _psubst(dict(a.data), mapping, memo)
                    if isinstance(x, int):
                        return base ** x
                    return fpow(base, x)
            elif a.kind == 'lt':
                b = lt(_psubst(dict(a.data), mapping, memo), 0)
            elif a.kind == 'fn':
                name, args = a.data[0], a.data[1:]
                na = [subst(y, mapping, memo) for y in args]
                b = ffloor(na[0]) if name == 'floor' else fn(name, *na, positive=a.positive, integer=a.integer)
            else:
                raise Unsupported(a.kind)
            memo[mk_] = b
    if x == 1:
        return b
    if isinstance(x, int):
        return b ** x
    if b.key == of_atom(ATOMS[k]).key:
        return of_atom(ATOMS[k], x)
    return fpow(b, x)


def evalf(e, env, memo=None):
    """float value under env: var name -> float ; fn name -> callable"""
    if memo is None:
        memo = {}
    v = _pval(e.num, env, memo)
    for pk, n in e.den:
        v = v / _pval(dict(pk), env, memo) ** n
    return v


def _pval(p, env, memo):
    s = 0.0
    for m, c in p.items():
        t = float(c)
        for k, x in m:
            if t == 0.0:
                break
            t *= _aval(k, env, memo) ** float(x)
        s += t
    return s


def _aval(k, env, memo):
    if k in memo:
        return memo[k]
    a = ATOMS[k]
    if k in CONST_ATOMS and a.kind != 'pow':
        v = CONST_ATOMS[k]
    elif a.kind == 'var':
        v = env[a.data]
    elif a.kind == 'exp':
        v = math.exp(min(700.0, evalf(exp_arg(a), env, memo)))
    elif a.kind == 'log':
        v = math.log(_pval(dict(a.data), env, memo))
    elif a.kind == 'pow':
        v = _pval(dict(a.data), env, memo)
    elif a.kind == 'lt':
        v = 1.0 if _pval(dict(a.data), env, memo) < 0 else 0.0
    elif a.kind == 'sum':
        v = 0.0
        body = Ex({a.data[0]: Fraction(1)}, a.data[1])
        for row in env['#rows']:
            v += evalf(body, row)
    elif a.kind == 'fn':
        if a.data[0] == 'floor':
            v = math.floor(evalf(a.data[1], env, memo))
        else:
            v = env[a.data[0]](*[evalf(y, env, memo) for y in a.data[1:]])
    else:
        raise Unsupported(a.kind)
    memo[k] = v
    return v


# ---------------------------------------------------------------- printing

def show_atom(a):
    if a.kind == 'var':
        return str(a.data)
    if a.kind == 'exp':
        return 'exp(%s)' % show(exp_arg(a))
    if a.kind == 'log':
        return 'log(%s)' % show_p(dict(a.data))
    if a.kind == 'pow':
        return '(%s)' % show_p(dict(a.data))
    if a.kind == 'lt':
        return '[%s<0]' % show_p(dict(a.data))
    if a.kind == 'sum':
        return 'SUM_b{%s}' % show(Ex({a.data[0]: Fraction(1)}, a.data[1]))
    return '%s(%s)' % (a.data[0], ','.join(show(x) for x in a.data[1:]))


def show_p(p):
    if not p:
        return '0'
    out = []
    for m, c in sorted(p.items()):
        f = [] if c == 1 and m else [str(c)]
        for k, e in m:
            f.append(show_atom(ATOMS[k]) + ('' if e == 1 else '^%s' % e))
        out.append('*'.join(f))
    return ' + '.join(out)


def show(e):
    s = show_p(e.num)
    if e.den:
        s = '(%s)/(%s)' % (s, '*'.join('(%s)%s' % (show_p(dict(pk)), '' if n == 1 else '^%d' % n) for pk, n in e.den))
    return s
