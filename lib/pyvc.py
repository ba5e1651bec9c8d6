"""pyvc - deductive verification of the plain Python / NumPy part of coax.

The functions of /repo are taken from the imported modules on every run, parsed (inspect.getsource + ast) and executed symbolically,
statement by statement; every feasible path yields verification conditions that z3 discharges.  Scalars are z3 Int / Real / Bool terms,
opaque values (states, actions) are terms of an uninterpreted sort, sequences may have symbolic length (their elements are functions of
the index).  A call to another function of /repo is either replaced by that function's contract or interpreted as well.
What the extraction drops: docstrings, the text of error messages, floating-point rounding and integer widths (reals and unbounded integers).
"""
from __future__ import annotations
import ast
import builtins
import collections
import functools
import inspect
import itertools
import operator
import textwrap
import time
import types
from fractions import Fraction
import numpy as onp
import z3
from . import prover

STATS = prover.STATS


class Unsupported(BaseException):
    pass


class Cut(BaseException):
    """the current path is infeasible"""


Obj = z3.DeclareSort('Obj')
_P = None           # current path


# ---------------------------------------------------------------- symbolic scalars

def term(x):
    """python scalar / symbolic value -> z3 term"""
    if isinstance(x, SV):
        return x.t
    if isinstance(x, (bool, onp.bool_)):
        return z3.BoolVal(bool(x))
    if isinstance(x, (int, onp.integer)):
        return z3.IntVal(int(x))
    if isinstance(x, (float, onp.floating)):
        f = float(x)
        if f != f or f in (float('inf'), -float('inf')):
            raise Unsupported('non-finite constant')
        return z3.RealVal(Fraction(f))
    if isinstance(x, Fraction):
        return z3.RealVal(x)
    if isinstance(x, onp.ndarray) and x.ndim == 0:
        return term(x.item())
    raise Unsupported('no z3 term for %s' % type(x).__name__)


def wrap(t):
    s = t.sort()
    if s == z3.BoolSort():
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        return SBool(t)
    if s == z3.IntSort():
        return SInt(t)
    if s == z3.RealSort():
        return SReal(t)
    return Opq(t)


def num(x):
    t = term(x)
    if t.sort() == z3.BoolSort():
        t = z3.If(t, z3.IntVal(1), z3.IntVal(0))
    return t


def co(a, b):
    a, b = num(a), num(b)
    if a.sort() != b.sort():
        a = z3.ToReal(a) if a.sort() == z3.IntSort() else a
        b = z3.ToReal(b) if b.sort() == z3.IntSort() else b
    return a, b


def isnum(x):
    return isinstance(x, (SNum, SBool, int, float, onp.integer, onp.floating, Fraction, onp.bool_)) or (isinstance(x, onp.ndarray) and x.ndim == 0 and x.dtype != object)


class SV:
    __slots__ = ('t',)
    __array_priority__ = -1

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return '<sym>'

    def __format__(self, spec):
        return '<sym>'

    __str__ = __repr__

    def __hash__(self):
        return self.t.hash()

    def __float__(self):
        raise Unsupported('float() of a symbolic value in native code')

    def __int__(self):
        raise Unsupported('int() of a symbolic value in native code')

    def __index__(self):
        raise Unsupported('index of a symbolic value in native code')


LINEAR_MOD = [False]
_UDIV = z3.Function('udiv', z3.IntSort(), z3.IntSort(), z3.IntSort())
_UMOD = z3.Function('umod', z3.IntSort(), z3.IntSort(), z3.IntSort())


def _inf(x):
    return isinstance(x, (float, onp.floating)) and (x == float('inf') or x == -float('inf'))


class SNum(SV):
    __slots__ = ()

    def _b(self, o, f, swap=False):
        if isinstance(o, onp.ndarray) and o.ndim:
            return NotImplemented
        if not isnum(o):
            return NotImplemented
        a, b = co(self, o)
        return wrap(f(b, a) if swap else f(a, b))

    def __add__(self, o): return self._b(o, lambda a, b: a + b)
    def __radd__(self, o): return self._b(o, lambda a, b: a + b, True)
    def __sub__(self, o): return self._b(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._b(o, lambda a, b: a - b, True)
    def __mul__(self, o): return self._b(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._b(o, lambda a, b: a * b, True)

    def _div(self, a, b):
        a, b = co(a, b)
        if a.sort() == z3.IntSort():
            a, b = z3.ToReal(a), z3.ToReal(b)
        if truth(wrap(z3.simplify(b == 0))):
            raise ZeroDivisionError('division by zero')
        return wrap(a / b)

    def __truediv__(self, o):
        return self._div(self, o) if isnum(o) else NotImplemented

    def __rtruediv__(self, o):
        return self._div(o, self) if isnum(o) else NotImplemented

    def _fdiv(self, a, b, mod):
        a, b = co(a, b)
        if a.sort() != z3.IntSort():
            raise Unsupported('floor division of reals')
        if not truth(wrap(z3.simplify(b > 0))):
            raise Unsupported('divisor not positive')
        if not z3.is_int_value(b) and LINEAR_MOD[0]:
            # symbolic divisor: keep the reasoning linear (quotient and remainder uninterpreted, with the facts used)
            q, r = _UDIV(a, b), _UMOD(a, b)
            fact(z3.And(r >= 0, r < b, z3.Implies(z3.And(a >= 0, a < b), z3.And(r == a, q == 0)), z3.Implies(a >= 0, z3.And(q >= 0, r <= a)), z3.Implies(a < 0, q < 0), z3.Implies(z3.And(a < 0, a >= -b), z3.And(r == a + b, q == -1))))
            return wrap(r if mod else q)
        return wrap(a % b if mod else a / b)

    def __floordiv__(self, o): return self._fdiv(self, o, False) if isnum(o) else NotImplemented
    def __rfloordiv__(self, o): return self._fdiv(o, self, False) if isnum(o) else NotImplemented
    def __mod__(self, o): return self._fdiv(self, o, True) if isnum(o) else NotImplemented
    def __rmod__(self, o): return self._fdiv(o, self, True) if isnum(o) else NotImplemented

    def __pow__(self, o): return power(self, o) if isnum(o) else NotImplemented
    def __rpow__(self, o): return power(o, self) if isnum(o) else NotImplemented

    def __lshift__(self, o): return self * pow2(o) if isnum(o) else NotImplemented
    def __rlshift__(self, o): return o * pow2(self) if isnum(o) else NotImplemented
    def __rshift__(self, o): return self // pow2(o) if isnum(o) else NotImplemented

    def __neg__(self): return wrap(-num(self))
    def __pos__(self): return self

    def __abs__(self):
        t = num(self)
        return wrap(z3.If(t >= 0, t, -t))

    def _c(self, o, f, inf):
        if isinstance(o, onp.ndarray) and o.ndim:
            return NotImplemented
        if _inf(o):
            return inf(o > 0)
        if not isnum(o):
            return NotImplemented
        a, b = co(self, o)
        return wrap(z3.simplify(f(a, b)))

    def __lt__(self, o): return self._c(o, lambda a, b: a < b, lambda pos: pos)
    def __le__(self, o): return self._c(o, lambda a, b: a <= b, lambda pos: pos)
    def __gt__(self, o): return self._c(o, lambda a, b: a > b, lambda pos: not pos)
    def __ge__(self, o): return self._c(o, lambda a, b: a >= b, lambda pos: not pos)

    def __eq__(self, o):
        if o is None or isinstance(o, (str, Opq)):
            return False
        return self._c(o, lambda a, b: a == b, lambda pos: False)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else snot(r)

    __hash__ = SV.__hash__

    def __bool__(self):
        return truth(wrap(z3.simplify(num(self) != 0)))

    # numpy calls these on object arrays
    def exp(self): return ufun('exp', self)
    def log(self): return ufun('log', self)
    def sqrt(self): return ufun('sqrt', self)
    def conjugate(self): return self


class SInt(SNum):
    __slots__ = ()


class SReal(SNum):
    __slots__ = ()


class SBool(SNum):
    __slots__ = ()

    def __bool__(self):
        return truth(self)

    def __and__(self, o):
        return wrap(z3.And(self.t, term(o))) if isinstance(o, (SBool, bool, onp.bool_)) else NotImplemented
    __rand__ = __and__

    def __or__(self, o):
        return wrap(z3.Or(self.t, term(o))) if isinstance(o, (SBool, bool, onp.bool_)) else NotImplemented
    __ror__ = __or__

    def __xor__(self, o):
        return wrap(z3.Xor(self.t, term(o))) if isinstance(o, (SBool, bool, onp.bool_)) else NotImplemented
    __rxor__ = __xor__

    def __invert__(self):
        return snot(self)

    def logical_not(self):
        return snot(self)

    def __eq__(self, o):
        if isinstance(o, (SBool, bool, onp.bool_)):
            return wrap(z3.simplify(self.t == term(o)))
        return SNum.__eq__(self, o)

    __hash__ = SV.__hash__


class Opq(SV):
    """an opaque value (a state, an action): only equality is known"""
    __slots__ = ()

    def __eq__(self, o):
        if isinstance(o, Opq):
            return wrap(z3.simplify(self.t == o.t))
        return False

    def __ne__(self, o):
        return snot(self.__eq__(o))

    __hash__ = SV.__hash__


def snot(x):
    if isinstance(x, SBool):
        return wrap(z3.simplify(z3.Not(x.t)))
    return not x


def sand(*xs):
    ts = []
    for x in xs:
        if isinstance(x, SBool):
            ts.append(x.t)
        elif isinstance(x, SNum):
            ts.append(num(x) != 0)
        elif not x:
            return False
    return wrap(z3.simplify(z3.And(*ts))) if ts else True


def sor(*xs):
    return snot(sand(*[snot(x) for x in xs]))


def implies(a, b):
    return sor(snot(a), b)


_UF = {}


def ufun(name, *args):
    """uninterpreted real function, with the sign facts z3 needs"""
    ts = []
    for a in args:
        t = num(a)
        ts.append(z3.ToReal(t) if t.sort() == z3.IntSort() else t)
    key = (name, len(ts))
    f = _UF.get(key)
    if f is None:
        f = _UF[key] = z3.Function('u_' + name, *([z3.RealSort()] * (len(ts) + 1)))
    t = f(*ts)
    if name == 'exp':
        fact(t > 0)
    elif name == 'sqrt':
        fact(z3.Implies(ts[0] >= 0, z3.And(t >= 0, t * t == ts[0])))
    elif name == 'pow':
        fact(z3.Implies(ts[0] > 0, t > 0))
        fact(z3.Implies(ts[1] == 1, t == ts[0]))
        fact(z3.Implies(ts[1] == 0, t == 1))
        fact(z3.Implies(z3.And(ts[0] >= 0, ts[0] <= 1, ts[1] >= 0), z3.And(t >= 0, t <= 1)))
        if POW_EXP[0]:
            fact(z3.Implies(ts[0] > 0, t == term(ufun('exp', wrap(term(ufun('log', wrap(ts[0]))) * ts[1])))))
    elif name == 'log' and z3.is_app(ts[0]) and ts[0].decl().name() == 'u_exp':
        fact(t == ts[0].arg(0))
    return SReal(t)


POW_EXP = [False]       # also state  a ** b == exp(b * log a)  for a > 0


def power(a, b):
    if isinstance(b, (int, onp.integer)) and 0 <= int(b) <= 8:
        r = 1
        for _ in range(int(b)):
            r = r * a
        return r * 1.0 if isinstance(a, SReal) and not isinstance(r, SV) else r
    if isinstance(b, (float, onp.floating)) and float(b) in (1.0, 2.0):
        return power(a, int(b)) * 1.0
    if isinstance(a, int) and a == 2 and isinstance(b, SInt):
        return pow2(b)
    return ufun('pow', a, b)


_POW2 = z3.Function('pow2', z3.IntSort(), z3.IntSort())


def pow2(b):
    """2 ** b for a symbolic b >= 0: uninterpreted with the recurrence instantiated around b"""
    b = z3.simplify(num(b))
    t = _POW2(b)
    fact(z3.Implies(b >= 0, z3.And(t >= 1, t == 2 * _POW2(b - 1) if False else t >= 1)))
    fact(_POW2(z3.IntVal(0)) == 1)
    fact(z3.Implies(b >= 1, z3.And(t == 2 * _POW2(b - 1), _POW2(b - 1) >= 1)))
    fact(z3.Implies(b >= 0, _POW2(b + 1) == 2 * t))
    if _P is not None:
        seen = _P.pow2s
        if not any(b.eq(x) for x in seen):
            for x in seen:
                fact(z3.And(z3.Implies(z3.And(0 <= x, x <= b), _POW2(x) <= t), z3.Implies(z3.And(0 <= b, b <= x), t <= _POW2(x))))
            seen.append(b)
    return SInt(t)


# ---------------------------------------------------------------- paths

class Path:
    def __init__(self, base, script, depth):
        self.script = list(script)
        self.pos = 0
        self.pc = list(base)
        self.open = []            # positions whose alternative is unexplored
        self.counter = 0
        self.depth = depth
        self.s = z3.Solver()
        self.s.set('timeout', 3000)
        for c in self.pc:
            self.s.add(c)
        self.inputs = {}
        self.sums = []
        self.pow2s = []
        self.univ = []            # (n, pred): facts that hold at every position 0 <= k < n
        self.rows = []            # (n, k): positions at which such facts are instantiated
        self.rowdepth = 0
        self.approx = False       # past a loop whose invariant was guessed: refutations are not exact

    def add(self, t):
        self.pc.append(t)
        self.s.add(t)

    def check(self, *extra, timeout=3000):
        t0 = time.time()
        self.s.set('timeout', timeout)
        r = self.s.check(*extra)
        STATS['z3_queries'] += 1
        STATS['z3_s'] += time.time() - t0
        return r

    def oracle(self, fn):
        """the result of a solver call on which the execution depends: recorded, so that re-executions take the same path"""
        if self.pos < len(self.script):
            v = self.script[self.pos]
        else:
            v = bool(fn())
            self.script.append(v)
        self.pos += 1
        return v

    def decide(self, t):
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        if self.pos < len(self.script):
            v = self.script[self.pos]
            self.pos += 1
            self.add(t if v else z3.Not(t))
            return v
        if time.time() > Explorer.deadline:
            raise Unsupported('time limit')
        a = self.check(t)
        if a == z3.unsat:
            v = False
            if self.check(z3.Not(t)) == z3.unsat:
                raise Cut()
        else:
            b = self.check(z3.Not(t))
            v = True
            if b != z3.unsat:
                self.open.append(len(self.script))
        self.script.append(v)
        self.pos += 1
        if len(self.script) > 600:
            raise Unsupported('too many branches on one path')
        self.add(t if v else z3.Not(t))
        return v


class Explorer:
    deadline = float('inf')


def explore(fn, base=(), max_paths=4000):
    """run fn once per feasible path"""
    global _P
    outer = _P
    stack = [[]]
    n = 0
    while stack:
        script = stack.pop()
        p = Path(list(base) + (outer.pc if outer is not None else []), script, (outer.depth + 1) if outer is not None else 0)
        if outer is not None:
            p.counter = outer.counter + 1000
            p.inputs = outer.inputs
            p.sums = list(outer.sums)
            p.pow2s = list(outer.pow2s)
            p.univ, p.rows, p.rowdepth = list(outer.univ), list(outer.rows), outer.rowdepth
        _P = p
        n += 1
        if n > max_paths:
            _P = outer
            raise Unsupported('more than %d paths' % max_paths)
        try:
            fn(p)
        except Cut:
            n -= 1
        finally:
            _P = outer
        for k in p.open:
            stack.append(p.script[:k] + [not p.script[k]])
    return n


def truth(x):
    if isinstance(x, SBool):
        if _P is None:
            raise Unsupported('branch outside an exploration')
        return _P.decide(x.t)
    if isinstance(x, SNum):
        return truth(wrap(z3.simplify(num(x) != 0)))
    if isinstance(x, Opq):
        raise Unsupported('truth of an opaque value')
    return bool(x)


def fact(t):
    if _P is not None:
        _P.add(t)


def assume(c):
    """restrict the current path"""
    if isinstance(c, SBool):
        _P.add(c.t)
        return
    if not c:
        raise Cut()


def assume_checked(c):
    assume(c)
    if _P.check() == z3.unsat:
        raise Cut()


def fresh(kind, name='v'):
    _P.counter += 1
    nm = '%s!%d' % (name, _P.counter)
    return wrap({'int': z3.Int, 'real': z3.Real, 'bool': z3.Bool, 'obj': lambda s: z3.Const(s, Obj)}[kind](nm))


def inp(kind, name):
    """a named symbolic input of the contract"""
    if name in FIXED:
        v = FIXED[name]
    else:
        v = wrap({'int': z3.Int, 'real': z3.Real, 'bool': z3.Bool, 'obj': lambda s: z3.Const(s, Obj)}[kind](name))
    _P.inputs[name] = v
    return v


FIXED = {}          # inputs fixed to concrete values while looking for a counterexample of small size


def concretize(x, candidates):
    for c in candidates:
        if truth(wrap(z3.simplify(num(x) == int(c)))):
            return c
    raise IndexError('index out of range')


def prove(c, timeout=6000):
    """is c valid on the current path?  -> (status, model)"""
    if not isinstance(c, SV):
        if c:
            return 'proved', None
        r = _P.check(timeout=timeout)
        if r == z3.unsat:
            return 'proved', None
        EXACT[0] = True
        return ('refuted', _P.s.model()) if r == z3.sat else ('unknown', None)
    t = z3.simplify(c.t if isinstance(c, SBool) else num(c) != 0)
    if z3.is_true(t):
        return 'proved', None
    if z3.is_eq(t) and t.arg(0).sort() == z3.RealSort():
        d = z3.simplify(t.arg(0) - t.arg(1), som=True)
        if z3.is_rational_value(d) and d.as_fraction() == 0:
            return 'proved', None
    EXACT[0] = not has_math(t)
    r = _P.check(z3.Not(t), timeout=timeout)
    if r == z3.unsat:
        return 'proved', None
    if r == z3.sat:
        return 'refuted', _P.s.model()
    s = z3.SolverFor('QF_UFNRA')
    s.set('timeout', timeout)
    for q in _P.pc:
        s.add(q)
    s.add(z3.Not(t))
    t0 = time.time()
    r = s.check()
    STATS['z3_queries'] += 1
    STATS['z3_s'] += time.time() - t0
    if r == z3.unsat:
        return 'proved', None
    if r == z3.sat:
        return 'refuted', s.model()
    return 'unknown', None


EXACT = [True]          # does the last refutation involve only interpreted operations (no power, exp, ..., unknown sums)?


def has_math(t):
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and (x.decl().name().startswith('u_') or x.decl().name().startswith('Sum!') or x.decl().name() in ('umod', 'udiv')):
            return True
        todo.extend(x.children())
    return False


def valid(c):
    return prove(c)[0] == 'proved'


def same(a, b):
    """structural equality of two values as a condition"""
    if isinstance(a, (SSeq,)) or isinstance(b, (SSeq,)):
        return seq_eq(a, b)
    if isinstance(a, onp.ndarray) or isinstance(b, onp.ndarray):
        a_, b_ = onp.asarray(a, dtype=object) if not isinstance(a, onp.ndarray) else a, onp.asarray(b, dtype=object) if not isinstance(b, onp.ndarray) else b
        if a_.shape != b_.shape:
            return False
        return sand(*[same(x, y) for x, y in zip(a_.ravel().tolist(), b_.ravel().tolist())])
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return len(a) == len(b) and sand(*[same(x, y) for x, y in zip(a, b)])
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and sand(*[same(a[k], b[k]) for k in a])
    if isinstance(a, SV) or isinstance(b, SV):
        if isinstance(a, Opq) or isinstance(b, Opq):
            return a == b if isinstance(a, Opq) else b == a
        if a is None or b is None:
            return False
        if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
            return wrap(z3.simplify(term(a) == term(b)))
        x, y = co(a, b)
        return wrap(z3.simplify(x == y))
    if a is b:
        return True
    try:
        return bool(a == b)
    except Exception:
        return False


# ---------------------------------------------------------------- sequences of symbolic length

class SSeq:
    """immutable view: length n (int or SInt), element i given by get(i)"""
    __array_priority__ = 1000
    __array_ufunc__ = None

    def __init__(self, n, get):
        self.n = n
        self.get = get

    def __len__(self):
        if isinstance(self.n, SV):
            raise Unsupported('native len() of a symbolic sequence')
        return self.n

    def __iter__(self):
        if isinstance(self.n, SV):
            raise Unsupported('native iteration over a symbolic sequence')
        return iter([self.get(i) for i in range(self.n)])

    def __bool__(self):
        return truth(self.n > 0)

    @property
    def shape(self):
        return (self.n,)

    @property
    def size(self):
        return self.n

    ndim = 1

    def norm(self, i):
        if isinstance(i, (int, onp.integer)) and i < 0:
            i = self.n + int(i)
        elif isinstance(i, SInt) and not valid(i >= 0):
            if truth(i < 0):
                i = self.n + i
        if not truth(sand(i >= 0, i < self.n)):
            raise IndexError('index out of range')
        return i

    def slice(self, s):
        if s.step not in (None, 1):
            raise Unsupported('slice step')
        n = self.n

        def clamp(x, default):
            if x is None:
                return default
            if truth(x < 0):
                x = x + n
                if truth(x < 0):
                    return 0
                return x
            return n if truth(x > n) else x
        lo, hi = clamp(s.start, 0), clamp(s.stop, n)
        if truth(hi <= lo):
            return SSeq(0, self.get)
        g = self.get
        return SSeq(hi - lo, lambda i: g(lo + i))

    def __getitem__(self, i):
        if isinstance(i, slice):
            return self.slice(i)
        if isinstance(i, (onp.ndarray, list)) and (isinstance(i, list) or i.ndim):
            items = list(i.ravel()) if isinstance(i, onp.ndarray) else i
            return objarray([self.get(self.norm(k)) for k in items])
        if isseq(i):
            h = positions(view(i), self.n)
            g = self.get
            return SSeq(view(i).n, lambda k: g(h(k)))
        return self.get(self.norm(i))

    def reshape(self, *shape):
        if shape in ((-1,), ((-1,),)):
            return self
        raise Unsupported('reshape of a symbolic array')

    def ravel(self):
        return self

    def flatten(self):
        return SSeq(self.n, self.get)

    def all(self):
        return seq_all(self)

    def any(self):
        return not seq_all(self.map(snot))

    def _inplace(self, o, f):
        r = ewise(f, self, o)
        self.get = r.get
        return self

    def __iadd__(self, o): return self._inplace(o, lambda a, b: a + b)
    def __isub__(self, o): return self._inplace(o, lambda a, b: a - b)
    def __imul__(self, o): return self._inplace(o, lambda a, b: a * b)
    def __itruediv__(self, o): return self._inplace(o, lambda a, b: a / b)
    def __ifloordiv__(self, o): return self._inplace(o, lambda a, b: a // b)
    def __imod__(self, o): return self._inplace(o, lambda a, b: a % b)
    def __ior__(self, o): return self._inplace(o, lambda a, b: sor(a, b) if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)) else a | b)
    def __iand__(self, o): return self._inplace(o, lambda a, b: sand(a, b) if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)) else a & b)

    def map(self, f):
        g = self.get
        return SSeq(self.n, lambda i: f(g(i)))

    def _ew(self, o, f):
        return ewise(f, self, o)

    def __add__(self, o): return self._ew(o, lambda a, b: a + b)
    def __radd__(self, o): return ewise(lambda a, b: a + b, o, self)
    def __sub__(self, o): return self._ew(o, lambda a, b: a - b)
    def __rsub__(self, o): return ewise(lambda a, b: a - b, o, self)
    def __mul__(self, o): return self._ew(o, lambda a, b: a * b)
    def __rmul__(self, o): return ewise(lambda a, b: a * b, o, self)
    def __truediv__(self, o): return self._ew(o, lambda a, b: a / b)
    def __rtruediv__(self, o): return ewise(lambda a, b: a / b, o, self)
    def __mod__(self, o): return self._ew(o, lambda a, b: a % b)
    def __floordiv__(self, o): return self._ew(o, lambda a, b: a // b)
    def __pow__(self, o): return self._ew(o, lambda a, b: a ** b)
    def __rpow__(self, o): return ewise(lambda a, b: a ** b, o, self)
    def __lt__(self, o): return self._ew(o, lambda a, b: a < b)
    def __le__(self, o): return self._ew(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._ew(o, lambda a, b: a > b)
    def __ge__(self, o): return self._ew(o, lambda a, b: a >= b)
    def __eq__(self, o): return self._ew(o, lambda a, b: a == b)
    def __ne__(self, o): return self._ew(o, lambda a, b: a != b)
    def __and__(self, o): return self._ew(o, lambda a, b: a & b)
    def __or__(self, o): return self._ew(o, lambda a, b: a | b)
    def __rand__(self, o): return self._ew(o, lambda a, b: a & b)
    def __ror__(self, o): return self._ew(o, lambda a, b: a | b)
    def __rmod__(self, o): return ewise(lambda a, b: a % b, o, self)
    def __rfloordiv__(self, o): return ewise(lambda a, b: a // b, o, self)
    def __invert__(self): return self.map(snot)
    def __neg__(self): return self.map(lambda a: -a)
    def __abs__(self): return self.map(abs)
    __hash__ = object.__hash__

    def astype(self, dtype):
        return self

    def copy(self):
        return SSeq(self.n, self.get)

    def sum(self):
        return seq_sum(self)

    def max(self):
        return seq_max(self)


def isseq(x):
    return isinstance(x, (SSeq, SList))


def view(x):
    return x.seq if isinstance(x, SList) else x


def ewise(f, *args):
    n = None
    args = [view(a) if isinstance(a, SList) else a for a in args]
    args = [SSeq(a.n, a.get) if isinstance(a, SSeq) else a for a in args]       # later in-place changes do not count
    for a in args:
        if isinstance(a, SSeq):
            n = a.n if n is None or (isinstance(n, int) and n == 1) else n

    def get(i):
        out = []
        for a in args:
            if isinstance(a, SSeq):
                out.append(a.get(0) if isinstance(a.n, int) and a.n == 1 else a.get(i))
            elif isinstance(a, onp.ndarray) and a.size == 1:
                out.append(a.ravel().tolist()[0])
            elif isinstance(a, onp.ndarray) and a.ndim:
                raise Unsupported('mixing symbolic and concrete arrays')
            else:
                out.append(a)
        return f(*out)
    return SSeq(n, get)


def same_n(a, b):
    a, b = z3.simplify(num(a)), z3.simplify(num(b))
    return a.eq(b)


def in_range(k, n):
    return sand(k >= 0, k < n)


def _inst(n, pred, k):
    if _P.rowdepth >= 3:
        return
    _P.rowdepth += 1
    try:
        c = pred(k)
        if c is not None and c is not True:
            assume(implies(in_range(k, n), c))
    finally:
        _P.rowdepth -= 1


def univ(n, pred):
    """from now on, pred(k) holds for every 0 <= k < n (k is instantiated at the positions that come up)"""
    _P.approx = True        # the instantiation is not complete: refutations are not exact
    _P.univ.append((n, pred))
    for m, k in list(_P.rows):
        if same_n(m, n):
            _inst(n, pred, k)


def row(n, k):
    """position k of the arrays of length n has come up"""
    if not isinstance(n, SV):
        return
    k = wrap(z3.simplify(num(k)))
    for m, j in _P.rows:
        if num(j).eq(num(k)) and same_n(m, n):
            return
    _P.rows.append((n, k))
    for m, pred in list(_P.univ):
        if same_n(m, n):
            _inst(m, pred, k)


def seq_all(x):
    """all(x), for an array of any length"""
    x = view(x)
    n, g = x.n, x.get
    if not isinstance(n, SV):
        return sand(*[g(i) for i in range(n)])
    if _P.oracle(lambda: forall(n, g)):
        return True
    if truth(fresh('bool', 'all')):
        univ(n, g)
        return True
    _P.approx = True
    w = fresh('int', 'w')
    assume(in_range(w, n))
    row(n, w)
    assume(snot(g(w)))
    return False


def positions(idx, n):
    """an index array: IndexError unless all positions exist; negative ones count from the end"""
    h = idx.get
    probe = h(fresh('int', 'fz'))
    if isinstance(probe, (SBool, bool)):
        raise Unsupported('mask of symbolic length')
    if not isinstance(probe, (SInt, int, onp.integer)):
        raise IndexError('arrays used as indices must be of integer type')
    if not seq_all(SSeq(idx.n, lambda k: sand(h(k) >= 0 - n, h(k) < n))):
        raise IndexError('index out of bounds')
    if isinstance(idx.n, SV) and _P.oracle(lambda: forall(idx.n, lambda k: h(k) >= 0)):
        return h
    return lambda k: ite(h(k) < 0, h(k) + n, h(k))


def fun(name, *sorts):
    """a fresh uninterpreted function"""
    _P.counter += 1
    S = {'int': z3.IntSort(), 'real': z3.RealSort(), 'bool': z3.BoolSort()}
    f = z3.Function('%s!%d' % (name, _P.counter), *[S[x] for x in sorts])
    return lambda *a: wrap(f(*[num(x) for x in a]))


def scatter(old, idx, v):
    """old[idx] = v with an index array of any length: where a position occurs more than once, its last occurrence counts"""
    m, n, g = idx.n, old.n, old.get
    pos = positions(idx, n)
    if isseq(v):
        v = view(v)
        if not (same_n(v.n, m) or _P.oracle(lambda: valid(same(v.n, m)))):
            if not truth(same(v.n, m)):
                if not truth(same(v.n, 1)):
                    raise ValueError('shape mismatch')
                vg0 = v.get
                val = lambda k: vg0(0)      # noqa
            else:
                val = v.get
        else:
            val = v.get
    elif isinstance(v, (onp.ndarray, list)) and onp.ndim(v):
        raise Unsupported('array of another length stored under a symbolic index array')
    else:
        val = lambda k: v       # noqa
    hit, last = fun('hit', 'int', 'bool'), fun('last', 'int', 'int')
    univ(m, lambda k: sand(hit(pos(k)), last(pos(k)) >= k))

    def get(p):
        h, k = hit(p), last(p)
        assume(implies(h, in_range(k, m)))
        row(m, k)
        assume(implies(h, same(pos(k), p)))
        a, b = val(k), g(p)
        return ite(h, a, b)
    return SSeq(n, get)


def seq_unique(x):
    """numpy.unique: as a set (order and distinctness of the result are not used)"""
    x = view(x)
    m, h = x.n, x.get
    if not isinstance(h(fresh('int', 'fz')), (SInt, int)):
        raise Unsupported('unique of real numbers')
    u, inv, src = fun('uniq', 'int', 'int'), fun('uinv', 'int', 'int'), fun('usrc', 'int', 'int')
    m2 = fresh('int', 'nuniq')
    assume(sand(m2 >= 0, m2 <= m, implies(m >= 1, m2 >= 1)))

    def get(k):
        j = src(k)
        assume(implies(in_range(k, m2), in_range(j, m)))
        row(m, j)
        assume(implies(in_range(k, m2), same(u(k), h(j))))
        return u(k)

    def back(k):
        j = inv(k)
        assume(implies(in_range(k, m), in_range(j, m2)))
        row(m2, j)
        return same(u(j), h(k))
    univ(m, back)
    return SSeq(m2, get)


def objarray(items, shape=None):
    a = onp.empty(len(items), dtype=object)
    for k, x in enumerate(items):
        a[k] = x
    return a if shape is None else a.reshape(shape)


class SList:
    """mutable list / deque / 1-d array of symbolic length"""
    __array_ufunc__ = None

    def __init__(self, n, get, kind='list', maxlen=None):
        self.seq = SSeq(n, get)
        self.kind = kind
        self.maxlen = maxlen

    def __setattr__(self, k, v):
        HEAP[0] += 1
        object.__setattr__(self, k, v)

    n = property(lambda s: s.seq.n)
    get = property(lambda s: s.seq.get)
    shape = property(lambda s: (s.seq.n,))
    size = property(lambda s: s.seq.n)
    ndim = 1
    __len__ = lambda s: len(s.seq)      # noqa
    __iter__ = lambda s: iter(s.seq)    # noqa
    __bool__ = lambda s: bool(s.seq)    # noqa

    def __getitem__(self, i):
        return self.seq[i]

    def __setitem__(self, i, v):
        old = self.seq
        if isinstance(i, slice) or i is Ellipsis:
            if i is Ellipsis or (i.start is None and i.stop is None):
                if isinstance(v, (SSeq, SList)):
                    g = view(v).get
                    self.seq = SSeq(old.n, g)
                else:
                    self.seq = SSeq(old.n, lambda k: v)
                return
            raise Unsupported('slice assignment')
        if isinstance(i, (onp.ndarray, list)) and (isinstance(i, list) or i.ndim):
            idx = list(i.ravel()) if isinstance(i, onp.ndarray) else list(i)
            if isinstance(v, (onp.ndarray, list)):
                vs = list(v.ravel()) if isinstance(v, onp.ndarray) else list(v)
                if len(vs) != len(idx):
                    if len(vs) == 1:
                        vs = vs * len(idx)
                    else:
                        raise ValueError('shape mismatch')
            else:
                vs = [v] * len(idx)
            for k, x in zip(idx, vs):
                self[k] = x
            return
        if isseq(i):
            self.seq = scatter(old, view(i), v)
            return
        i = old.norm(i)
        g = old.get

        def get(k):
            return v if truth(same(k, i)) else g(k)
        self.seq = SSeq(old.n, get)

    def append(self, x):
        old = self.seq
        if self.maxlen is not None and truth(same(old.n, self.maxlen)):
            if truth(self.maxlen > 0):
                self.popleft()
            else:
                return
            old = self.seq
        n, g = old.n, old.get

        def get(k):
            return x if truth(same(k, n)) else g(k)
        self.seq = SSeq(n + 1, get)

    def appendleft(self, x):
        if self.maxlen is not None:
            raise Unsupported('appendleft with maxlen')
        n, g = self.seq.n, self.seq.get
        self.seq = SSeq(n + 1, lambda k: x if truth(same(k, 0)) else g(k - 1))

    def extend(self, xs):
        seq = xs.seq if isinstance(xs, (LazyIter, SList)) else xs
        if isinstance(seq, SSeq) and isinstance(seq.n, SV):
            n, g, m, h = self.seq.n, self.seq.get, seq.n, freeze(seq.get)
            drop = 0
            if self.maxlen is not None and truth(n + m > self.maxlen):
                drop = n + m - self.maxlen
            self.seq = SSeq(n + m - drop, lambda k: g(k + drop) if truth(k + drop < n) else h(k + drop - n))
            return
        for x in (xs if not isinstance(xs, SSeq) else list(xs)):
            self.append(x)

    def popleft(self):
        n, g = self.seq.n, self.seq.get
        if not truth(n > 0):
            raise IndexError('pop from an empty deque')
        x = g(0)
        self.seq = SSeq(n - 1, lambda k: g(k + 1))
        return x

    def pop(self, i=-1):
        n, g = self.seq.n, self.seq.get
        if not truth(n > 0):
            raise IndexError('pop from empty list')
        if isinstance(i, int) and i == 0:
            return self.popleft()
        if isinstance(i, int) and i == -1:
            x = g(n - 1)
            self.seq = SSeq(n - 1, g)
            return x
        i = self.seq.norm(i)
        x = g(i)
        self.seq = SSeq(n - 1, lambda k: g(k) if truth(k < i) else g(k + 1))
        return x

    def clear(self):
        self.seq = SSeq(0, self.seq.get)

    def copy(self):
        return SList(self.n, self.get, self.kind, self.maxlen)

    def astype(self, dtype):
        return self.copy()

    def __delitem__(self, i):
        if isinstance(i, slice) and i.step is None and i.start is None:
            k = i.stop
            if k is None:
                self.clear()
                return
            if truth(k < 0):
                k = k + self.n
            if truth(k <= 0):
                return
            if truth(k >= self.n):
                self.clear()
                return
            n, g = self.n, self.get
            self.seq = SSeq(n - k, lambda j: g(j + k))
            return
        self.pop(i)

    __hash__ = object.__hash__


for _op in ('add', 'radd', 'sub', 'rsub', 'mul', 'rmul', 'truediv', 'rtruediv', 'mod', 'floordiv', 'pow', 'lt', 'le', 'gt', 'ge', 'eq', 'ne', 'neg', 'abs', 'and', 'or', 'rand', 'ror', 'rmod', 'rfloordiv', 'invert'):
    setattr(SList, '__%s__' % _op, (lambda nm: lambda self, *a: getattr(self.seq, nm)(*[view(x) if isinstance(x, SList) else x for x in a]))('__%s__' % _op))
for _op, _f in (('iadd', lambda a, b: a + b), ('isub', lambda a, b: a - b), ('imul', lambda a, b: a * b), ('itruediv', lambda a, b: a / b), ('ifloordiv', lambda a, b: a // b), ('imod', lambda a, b: a % b)):
    def _ip(f, nm):
        def g(self, o):
            if self.kind != 'array':
                if nm == 'iadd':
                    self.extend(o)
                    return self
                raise Unsupported('in-place operation on a list')
            self.seq = SSeq(self.n, ewise(f, self, o).get)
            return self
        return g
    setattr(SList, '__%s__' % _op, _ip(_f, _op))
for _op in ('sum', 'max', 'map', 'all', 'any', 'reshape', 'ravel', 'flatten'):
    setattr(SList, _op, (lambda nm: lambda self, *a: getattr(self.seq, nm)(*a))(_op))


def srange(lo, hi):
    n = hi - lo
    if truth(n <= 0):
        return SSeq(0, lambda i: lo + i)
    return SSeq(n, lambda i: lo + i)


def forall(n, pred, lo=0):
    """prove  forall lo <= i < n: pred(i)   on the current path; returns True / False(not proved)"""
    ok = [True]

    def body(p):
        i = fresh('int', 'i')
        assume_checked(sand(i >= lo, i < n))
        if p.univ:
            row(n, i)
        c = pred(i)
        if prove(c)[0] != 'proved':
            ok[0] = False
    explore(body)
    return ok[0]


def seq_eq(a, b):
    """condition-free: proves equality (True) or reports False"""
    def norm(x):
        if isinstance(x, (SList, SSeq)):
            x = view(x)
            return x.n, x.get
        xs = list(x)
        return len(xs), (lambda i: pick(xs, i))
    na, ga = norm(a)
    nb, gb = norm(b)
    if not valid(same(na, nb)):
        return same(na, nb)
    return Forall(na, lambda i: same(ga(i), gb(i)))


class Forall:
    """obligation: forall 0 <= i < n: pred(i)"""

    def __init__(self, n, pred, lo=0):
        self.n, self.pred, self.lo = n, pred, lo


def pick(xs, i):
    if not isinstance(i, SV):
        return xs[int(i)]
    for k, x in enumerate(xs):
        if truth(same(i, k)):
            return x
    raise Cut()


def seq_sum(seq):
    """sum over a sequence of symbolic length: an uninterpreted constant, equal to any other sum with the same length and summands"""
    seq = view(seq)
    if not isinstance(seq.n, SV):
        r = 0
        for i in range(seq.n):
            r = r + seq.get(i)
        return r
    get = bound_term(seq.n, seq.get)
    for n, g, c in _P.sums:
        if valid(same(n, seq.n)):
            if forall(n, lambda i: same(g(i), get(i))):
                return c
    c = fresh('real', 'Sum')
    _P.sums.append((seq.n, get, c))
    return c


def bound_term(n, get):
    """evaluate the summand now (at a bound index): later mutations must not change it"""
    pieces = []
    outer = len(_P.pc)
    bound = [None]

    def body(p):
        i = fresh('int', 'bi')
        bound[0] = i.t
        assume_checked(sand(i >= 0, i < n))
        v = num(get(i))
        v = z3.ToReal(v) if v.sort() == z3.IntSort() else v
        pieces.append((z3.And(*p.pc[outer:]) if len(p.pc) > outer else z3.BoolVal(True), v))
    explore(body)
    if not pieces:
        return lambda i: 0
    t = pieces[-1][1]
    for c, v in reversed(pieces[:-1]):
        t = z3.If(c, v, t)
    return lambda i: wrap(z3.substitute(t, (bound[0], num(i))))


def freeze(get):
    """element function evaluated now, at a generic index (only if that needs no case split): later mutations do not change it"""
    i = fresh('int', 'fz')
    pos = _P.pos
    v = get(i)
    if _P.pos != pos:
        return get

    def sub(x, k):
        if isinstance(x, SV):
            return wrap(z3.substitute(x.t, (i.t, num(k))))
        if isinstance(x, (tuple, list)) and type(x) in (tuple, list):
            return type(x)(sub(y, k) for y in x)
        if isinstance(x, (SSeq, SList, onp.ndarray, dict)) and has_sym(x):
            raise Unsupported('frozen element of type %s' % type(x).__name__)
        return x
    return lambda k: sub(v, k)


def seq_max(seq):
    raise Unsupported('max of a symbolic sequence')


# ---------------------------------------------------------------- interpreter

HEAP = [0]          # counts heap mutations


class EndPath(BaseException):
    """this path ends here (the remaining execution is covered by another path)"""


class Star:
    """*xs in a call, with xs of symbolic length"""

    def __init__(self, seq):
        self.seq = seq


class Restart(BaseException):
    """a guessed loop invariant was dropped"""


DROPPED = set()     # guessed loop invariants (loop, variable, ghost) that turned out not to hold


class LoopSpec:
    vars = ()           # local variables that carry information from one iteration to the next
    allowed = ()        # heap locations the loop may modify
    kind = 'for'        # 'for' or 'while'
    jumps = False       # whether break / continue may occur
    calls = False       # whether calls may have effects (the spec's havoc covers them)

    def start(self, I, fr):
        """called on entry, before the invariant is checked the first time"""

    def inv(self, I, fr, k):
        """obligations: the invariant before iteration k"""
        raise NotImplementedError

    def havoc(self, I, fr, k):
        """make the state arbitrary, subject to the invariant before iteration k"""
        raise NotImplementedError


POISON = object()       # a variable whose value is not known (any use is outside the verified subset)


def mutated_names(body):
    """names of local variables whose value the statements may modify in place"""
    out = set()
    for n in ast.walk(ast.Module(body=body, type_ignores=[])):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name):
            out.add(n.func.value.id)
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name):
            out.add(n.value.id)
        if isinstance(n, ast.Call) and not (isinstance(n.func, ast.Name) and n.func.id in ('len', 'range', 'zip', 'min', 'max', 'sum', 'tuple', 'list', 'bool', 'int', 'float', 'enumerate', 'isinstance')):
            out |= {a.id for a in n.args if isinstance(a, ast.Name)}
    return out


class Template:
    """invariant of any loop that the function (or a helper of it) runs over the collaborators: the collaborators' ghost state corresponds
    to k completed iterations, and each local variable that equals a ghost quantity on entry still equals it"""
    ranges = ()         # (lo, hi): a number within ]lo, hi] on entry stays within
    allowed = ()        # attributes that the loop may modify (the ghost state covers them)

    def ghosts(self):
        return {}

    def seqs(self):
        """ghost sequences: what a list that the loop fills may contain in the current ghost state"""
        return {}

    def facts(self):
        """conditions on the ghost state that may be part of the invariant"""
        return {}

    def inv(self, I, k):
        """obligations: the ghost state corresponds to k completed iterations (clears the record of the last one)"""
        return []

    def havoc(self, I, k):
        """arbitrary ghost state after k completed iterations"""


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cnt(Exception):
    pass


class Frame:
    __slots__ = ('vars', 'parent', 'fn_globals', 'cells', 'cls', 'selfobj', 'yields', 'nonlocals', 'globs', 'qual')

    def __init__(self, parent=None, fn_globals=None, cells=None):
        self.vars = {}
        self.parent = parent
        self.fn_globals = fn_globals if fn_globals is not None else (parent.fn_globals if parent else {})
        self.cells = cells or {}
        self.cls = parent.cls if parent else None
        self.selfobj = parent.selfobj if parent else None
        self.qual = parent.qual if parent else None
        self.yields = None
        self.nonlocals = set()
        self.globs = set()


class IFunc:
    """an interpreted nested function or lambda; callable from native code"""

    def __init__(self, interp, node, frame, defaults, kwdefaults, name):
        self.interp, self.node, self.frame = interp, node, frame
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.__name__ = name

    def __call__(self, *a, **k):
        return self.interp.run(self.node, self.frame, self.defaults, self.kwdefaults, a, k)


_SRC = {}


def source_of(fn):
    code = fn.__code__
    if code not in _SRC:
        try:
            src = textwrap.dedent(inspect.getsource(fn))
            tree = ast.parse(src)
        except (OSError, TypeError, SyntaxError, IndentationError) as e:
            raise Unsupported('no source for %s: %s' % (fn, e))
        node = None
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.Lambda)) and (isinstance(n, ast.Lambda) or n.name == fn.__name__):
                if isinstance(n, ast.Lambda) != (fn.__name__ == '<lambda>'):
                    continue
                node = n
                break
        if node is None:
            raise Unsupported('cannot find the source of %s' % fn)
        _SRC[code] = node
    return _SRC[code]


BIN = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv, ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod,
       ast.Pow: operator.pow, ast.BitAnd: operator.and_, ast.BitOr: operator.or_, ast.BitXor: operator.xor, ast.MatMult: operator.matmul,
       ast.LShift: operator.lshift, ast.RShift: operator.rshift}
IBIN = {ast.Add: operator.iadd, ast.Sub: operator.isub, ast.Mult: operator.imul, ast.Div: operator.itruediv, ast.FloorDiv: operator.ifloordiv, ast.Mod: operator.imod,
        ast.Pow: operator.ipow, ast.BitAnd: operator.iand, ast.BitOr: operator.ior, ast.BitXor: operator.ixor, ast.MatMult: operator.imatmul,
        ast.LShift: operator.ilshift, ast.RShift: operator.irshift}
CMP = {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge, ast.Eq: operator.eq, ast.NotEq: operator.ne}


def has_sym(x, depth=3):
    if isinstance(x, (SV, SSeq, SList)):
        return True
    if depth == 0:
        return False
    if isinstance(x, onp.ndarray) and x.dtype == object:
        return any(has_sym(y, depth - 1) for y in x.ravel().tolist())
    if isinstance(x, (list, tuple, set, collections.deque)):
        return any(has_sym(y, depth - 1) for y in x)
    if isinstance(x, dict):
        return any(has_sym(y, depth - 1) for y in x.values())
    return False


class Interp:
    def __init__(self, contracts=None, prefix='coax'):
        self.contracts = contracts or {}       # function object -> callable(interp, *args, **kwargs)
        self.prefix = prefix
        self.used = set()
        self.steps = 0
        self.loops = {}             # qualified name of a function -> LoopSpec of its (only) loop of symbolic length
        self.sink = None            # receives the obligations of loop invariants

    def oblige(self, obs):
        if self.sink is None:
            raise Unsupported('loop contract outside a contract')
        for label, c in obs:
            self.sink(label, c)

    # ---- calls
    def interpretable(self, fn):
        m = getattr(fn, '__module__', '') or ''
        return isinstance(fn, types.FunctionType) and (m == self.prefix or m.startswith(self.prefix + '.'))

    def call(self, f, args=(), kwargs=None):
        kwargs = kwargs or {}
        if any(isinstance(a, Star) for a in args):
            fn = f.__func__ if isinstance(f, types.MethodType) else f
            if not (isinstance(f, IFunc) or self.interpretable(fn) or isinstance(fn, types.FunctionType) and fn in self.contracts):
                raise Unsupported('star of a symbolic sequence')
        if isinstance(f, IFunc):
            return f(*args, **kwargs)
        if isinstance(f, types.MethodType):
            fn = f.__func__
            if fn in self.contracts:
                return self.contracts[fn](self, f.__self__, *args, **kwargs)
            if self.interpretable(fn):
                return self.call_fn(fn, (f.__self__,) + tuple(args), kwargs)
        try:
            if f in self.contracts:
                return self.contracts[f](self, *args, **kwargs)
            m = MODELS.get(f)
        except TypeError:
            m = None
        if m is not None:
            return m(self, *args, **kwargs)
        if self.interpretable(f):
            return self.call_fn(f, args, kwargs)
        if isinstance(f, functools.partial):
            return self.call(f.func, tuple(f.args) + tuple(args), dict(f.keywords, **kwargs))
        if isinstance(f, onp.vectorize):
            return model_vectorize(self, f, *args)
        if isinstance(f, type):
            return self.construct(f, args, kwargs)
        cf = getattr(type(f), '__call__', None)
        if self.interpretable(cf):
            return self.call_fn(cf, (f,) + tuple(args), kwargs)
        meth = getattr(f, '__self__', None)
        if isinstance(meth, onp.ndarray):
            r = model_ndarray_method(self, meth, f.__name__, args, kwargs)
            if r is not NotImplemented:
                return r
        return f(*args, **kwargs)

    def construct(self, cls, args, kwargs):
        mod = getattr(cls, '__module__', '') or ''
        if (mod.startswith(self.prefix)) and not issubclass(cls, (BaseException, tuple)):
            init = cls.__init__
            if cls.__new__ is not object.__new__ and not getattr(cls.__new__, '__module__', '').startswith('typing'):
                try:
                    obj = cls.__new__(cls)
                except TypeError:
                    return cls(*args, **kwargs)
            else:
                obj = object.__new__(cls)
            if self.interpretable(init):
                self.call_fn(init, (obj,) + tuple(args), kwargs)
            else:
                init(obj, *args, **kwargs)
            return obj
        return cls(*args, **kwargs)

    def call_fn(self, fn, args, kwargs):
        node = source_of(fn)
        self.used.add('%s.%s' % (fn.__module__, fn.__qualname__))
        cells = {}
        if fn.__closure__:
            for nm, c in zip(fn.__code__.co_freevars, fn.__closure__):
                try:
                    cells[nm] = c.cell_contents
                except ValueError:
                    pass
        base = Frame(None, fn.__globals__, cells)
        base.cls = cells.get('__class__')
        base.qual = fn.__qualname__
        return self.run(node, base, list(fn.__defaults__ or ()), dict(fn.__kwdefaults__ or {}), args, kwargs)

    def run(self, node, parent, defaults, kwdefaults, args, kwargs):
        fr = Frame(parent)
        self.bind(fr, node.args, defaults, kwdefaults, list(args), dict(kwargs), getattr(node, 'name', '<lambda>'))
        if parent.cls is not None and parent.selfobj is None and args:
            fr.selfobj = args[0]
        if isinstance(node, ast.Lambda):
            return self.ev(node.body, fr)
        gen = is_generator(node)
        if gen:
            fr.yields = []
        try:
            self.block(node.body, fr)
            v = None
        except Ret as r:
            v = r.v
        return iter(fr.yields) if gen else v

    def bind(self, fr, a, defaults, kwdefaults, args, kwargs, name):
        pos = [x.arg for x in a.posonlyargs + a.args]
        nreq = len(pos) - len(defaults)
        for i, p in enumerate(pos):
            if args:
                if isinstance(args[0], Star):
                    raise Unsupported('star of a symbolic sequence')
                if p in kwargs and i >= len(a.posonlyargs):
                    raise TypeError('%s() got multiple values for argument %r' % (name, p))
                fr.vars[p] = args.pop(0)
            elif p in kwargs:
                fr.vars[p] = kwargs.pop(p)
            elif i >= nreq:
                fr.vars[p] = defaults[i - nreq]
            else:
                raise TypeError('%s() missing argument %r' % (name, p))
        if a.vararg:
            if any(isinstance(x, Star) for x in args):
                if len(args) > 1:
                    raise Unsupported('star of a symbolic sequence')
                args = args[0].seq
            fr.vars[a.vararg.arg] = args if isinstance(args, SSeq) else tuple(args)
        elif args:
            raise TypeError('%s() takes %d positional arguments' % (name, len(pos)))
        for x in a.kwonlyargs:
            if x.arg in kwargs:
                fr.vars[x.arg] = kwargs.pop(x.arg)
            elif x.arg in kwdefaults:
                fr.vars[x.arg] = kwdefaults[x.arg]
            else:
                raise TypeError('%s() missing keyword argument %r' % (name, x.arg))
        if a.kwarg:
            fr.vars[a.kwarg.arg] = kwargs
        elif kwargs:
            raise TypeError('%s() got unexpected keyword arguments %s' % (name, sorted(kwargs)))

    # ---- names
    def load(self, name, fr):
        f = fr
        while f is not None:
            if name in f.vars and name not in f.globs and name not in f.nonlocals:
                if f.vars[name] is POISON:
                    raise Unsupported('value of %s after a loop' % name)
                return f.vars[name]
            if name in f.cells:
                return f.cells[name]
            if f.parent is None:
                g = f.fn_globals
                if name in g:
                    return g[name]
                if hasattr(builtins, name):
                    return getattr(builtins, name)
                break
            f = f.parent
        raise NameError('name %r is not defined' % name)

    def store(self, name, v, fr):
        if name in fr.globs:
            raise Unsupported('assignment to a global')
        if name in fr.nonlocals:
            f = fr.parent
            while f is not None:
                if name in f.vars:
                    f.vars[name] = v
                    return
                f = f.parent
            raise Unsupported('nonlocal %s' % name)
        fr.vars[name] = v

    # ---- attributes
    def getattr(self, obj, name):
        if not isinstance(obj, (type, types.ModuleType, SV, onp.ndarray)):
            for k in type(obj).__mro__:
                if name in k.__dict__:
                    d = k.__dict__[name]
                    if isinstance(d, property) and self.interpretable(d.fget):
                        if d.fget in self.contracts:
                            return self.contracts[d.fget](self, obj)
                        return self.call_fn(d.fget, (obj,), {})
                    break
        if name == 'dtype' and (isinstance(obj, (SNum, SSeq, SList)) or (isinstance(obj, onp.ndarray) and obj.dtype == object and has_sym(obj))):
            return sym_dtype(obj)
        if isinstance(obj, SV):
            if isinstance(obj, Opq):
                raise Unsupported('attribute %s of an opaque value' % name)
            if name in ('shape',):
                return ()
            if name == 'ndim':
                return 0
            if name in ('astype', 'item', 'ravel', 'reshape'):
                return lambda *a, **k: obj
            raise AttributeError(name)
        return getattr(obj, name)

    def setattr(self, obj, name, v):
        HEAP[0] += 1
        for k in type(obj).__mro__:
            d = k.__dict__.get(name)
            if isinstance(d, property):
                if d.fset is not None and self.interpretable(d.fset):
                    self.call_fn(d.fset, (obj, v), {})
                    return
                break
        setattr(obj, name, v)

    def truth(self, x):
        if isinstance(x, (SV,)):
            return truth(x)
        if isinstance(x, (SSeq, SList)):
            if getattr(x, 'kind', '') == 'array':
                raise Unsupported('truth of an array')
            return truth(x.n > 0)
        t = type(x)
        if getattr(t, '__bool__', None) in self.contracts:
            return self.truth(self.contracts[t.__bool__](self, x))
        if (getattr(t, '__module__', '') or '').startswith(self.prefix):
            b = getattr(t, '__bool__', None)
            if self.interpretable(b):
                return self.truth(self.call_fn(b, (x,), {}))
            ln = getattr(t, '__len__', None)
            if self.interpretable(ln):
                return self.truth(self.call_fn(ln, (x,), {}) != 0)
        if isinstance(x, onp.ndarray) and x.dtype == object:
            if x.size != 1:
                raise ValueError('truth value of an array is ambiguous')
            return self.truth(x.ravel()[0])
        return bool(x)

    def subscript(self, obj, i):
        t = type(obj)
        if (getattr(t, '__module__', '') or '').startswith(self.prefix):
            g = getattr(t, '__getitem__', None)
            if self.interpretable(g):
                return self.call_fn(g, (obj, i), {})
        if isinstance(obj, (list, tuple, collections.deque, str)) and isinstance(i, SInt):
            return obj[concretize(i, list(range(len(obj))) + list(range(-len(obj), 0)))]
        if isinstance(obj, onp.ndarray):
            i = self.conc_index(obj, i)
        if isinstance(obj, dict) and isinstance(i, SV):
            for k in obj:
                if truth(same(k, i)):
                    return obj[k]
            raise KeyError(i)
        return obj[i]

    def conc_index(self, obj, i):
        def one(x, n):
            return concretize(x, list(range(n)) + list(range(-n, 0)))
        if isinstance(i, SInt):
            return one(i, obj.shape[0])
        if isinstance(i, onp.ndarray) and i.dtype == object:
            flat = i.ravel().tolist()
            if all(isinstance(x, (SBool, bool, onp.bool_)) for x in flat) and flat:
                return onp.array([truth(x) for x in flat], dtype=bool).reshape(i.shape)
            return onp.array([one(x, obj.shape[0]) if isinstance(x, SV) else int(x) for x in flat], dtype=int).reshape(i.shape)
        if isinstance(i, tuple):
            return tuple(one(x, obj.shape[k]) if isinstance(x, SInt) else x for k, x in enumerate(i))
        if isinstance(i, slice) and any(isinstance(x, SV) for x in (i.start, i.stop, i.step)):
            raise Unsupported('symbolic slice of a concrete array')
        return i

    def store_sub(self, obj, i, v):
        t = type(obj)
        if (getattr(t, '__module__', '') or '').startswith(self.prefix):
            g = getattr(t, '__setitem__', None)
            if self.interpretable(g):
                self.call_fn(g, (obj, i, v), {})
                return
        if isinstance(obj, (list, collections.deque)) and isinstance(i, SInt):
            i = concretize(i, list(range(len(obj))) + list(range(-len(obj), 0)))
        if isinstance(obj, onp.ndarray):
            i = self.conc_index(obj, i)
            if obj.dtype != object and has_sym(v):
                raise Unsupported('storing a symbolic value in a numeric array')
        obj[i] = v

    # ---- iteration
    def iterate(self, x):
        """-> concrete list, or SSeq"""
        if isinstance(x, SList):
            return x.seq
        if isinstance(x, SSeq):
            return x if isinstance(x.n, SV) else [x.get(i) for i in range(x.n)]
        t = type(x)
        if (getattr(t, '__module__', '') or '').startswith(self.prefix):
            g = getattr(t, '__iter__', None)
            if self.interpretable(g):
                return self.iterate(self.call_fn(g, (x,), {}))
        if isinstance(x, LazyIter):
            return x.seq
        return x

    # ---- statements
    def block(self, stmts, fr):
        for s in stmts:
            self.stmt(s, fr)

    def stmt(self, s, fr):
        self.steps += 1
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement %s' % type(s).__name__)
        m(s, fr)

    def s_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, fr)

    def s_Pass(self, s, fr):
        pass

    def s_Return(self, s, fr):
        raise Ret(self.ev(s.value, fr) if s.value is not None else None)

    def s_Break(self, s, fr):
        raise Brk()

    def s_Continue(self, s, fr):
        raise Cnt()

    def s_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr)

    def s_AugAssign(self, s, fr):
        op = IBIN[type(s.op)]
        if isinstance(s.target, ast.Name):
            old = self.load(s.target.id, fr)
            self.store(s.target.id, self.binop(op, old, self.ev(s.value, fr)), fr)
        elif isinstance(s.target, ast.Attribute):
            o = self.ev(s.target.value, fr)
            nm = self.mangle(s.target.attr, fr)
            self.setattr(o, nm, self.binop(op, self.getattr(o, nm), self.ev(s.value, fr)))
        elif isinstance(s.target, ast.Subscript):
            o = self.ev(s.target.value, fr)
            i = self.index(s.target.slice, fr)
            self.store_sub(o, i, self.binop(op, self.subscript(o, i), self.ev(s.value, fr)))
        else:
            raise Unsupported('augmented assignment')

    def s_If(self, s, fr):
        self.block(s.body if self.truth(self.ev(s.test, fr)) else s.orelse, fr)

    def s_While(self, s, fr):
        if isinstance(self.loops.get('*'), Template):
            return self.inv_template(self.loops['*'], s, fr)
        if fr.qual in self.loops and self.loops[fr.qual].kind == 'while':
            return self.inv_while(self.loops[fr.qual], s, fr)
        k = 0
        while self.truth(self.ev(s.test, fr)):
            k += 1
            if k > 3000:
                raise Unsupported('while loop does not terminate symbolically')
            try:
                self.block(s.body, fr)
            except Brk:
                return
            except Cnt:
                continue
        self.block(s.orelse, fr)

    def s_For(self, s, fr):
        it = self.iterate(self.ev(s.iter, fr))
        if isinstance(it, SSeq):
            if not isinstance(it.n, SV):
                it = [it.get(i) for i in range(it.n)]
            elif isinstance(self.loops.get('*'), Template):
                return self.inv_template(self.loops['*'], s, fr, it)
            elif fr.qual in self.loops and self.loops[fr.qual].kind == 'for':
                return self.inv_loop(self.loops[fr.qual], s, it, fr)
            else:
                return self.sym_loop(s, it, fr)
        for k, x in enumerate(it):
            if k > 20000:
                raise Unsupported('long loop')
            self.assign(s.target, x, fr)
            try:
                self.block(s.body, fr)
            except Brk:
                return
            except Cnt:
                continue
        self.block(s.orelse, fr)

    def inv_loop(self, spec, s, seq, fr):
        """loop of symbolic length with an invariant: it holds on entry, an arbitrary iteration preserves it, and it is all that is known after the loop"""
        names = {n.id for b in s.body + [s.target] for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        for n in ast.walk(ast.Module(body=s.body, type_ignores=[])):
            if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                t = ast.unparse(n.value if isinstance(n, ast.Subscript) else n)
                if t not in spec.allowed:
                    raise Unsupported('the loop modifies %s' % t)
            if isinstance(n, (ast.Break, ast.Continue)) and not spec.jumps or isinstance(n, (ast.Yield, ast.YieldFrom)):
                raise Unsupported('jump in a loop with an invariant')
            if not spec.calls and isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('append', 'extend', 'pop', 'popleft', 'update', 'add', 'clear', 'insert', 'fill', 'sort', 'put'):
                raise Unsupported('the loop calls %s' % n.func.attr)
        missing = [v for v in spec.vars if v not in fr.vars]
        if missing:
            raise Unsupported('loop variables %s not found' % missing)
        self.oblige([('loop invariant holds on entry: ' + l, c) for l, c in spec.inv(self, fr, 0)])
        step = truth(fresh('bool', 'loop_step'))
        for v in names:
            if v not in spec.vars:
                fr.vars.pop(v, None)
        extra = [v for v in names if v not in spec.vars and v in fr.vars]
        if extra:
            raise Unsupported('loop-carried variables %s' % extra)
        if step:
            k = fresh('int', 'iter')
            assume_checked(sand(k >= 0, k < seq.n))
            spec.havoc(self, fr, k)
            if _P.check() == z3.unsat:
                raise Cut()
            self.assign(s.target, seq.get(k), fr)
            try:
                self.block(s.body, fr)
            except Brk:
                return
            except Cnt:
                pass
            self.oblige([('loop invariant is preserved: ' + l, c) for l, c in spec.inv(self, fr, k + 1)])
            raise EndPath()
        spec.havoc(self, fr, seq.n)
        if _P.check() == z3.unsat:
            raise Cut()
        self.block(s.orelse, fr)

    def inv_while(self, spec, s, fr):
        """while loop with an invariant (partial correctness)"""
        names = {n.id for b in s.body for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        for n in ast.walk(ast.Module(body=s.body, type_ignores=[])):
            if isinstance(n, (ast.Yield, ast.YieldFrom)) or isinstance(n, (ast.Break, ast.Continue)) and not spec.jumps:
                raise Unsupported('jump in a loop with an invariant')
        carried = set()
        first = fr.vars
        for v in names:
            if v in first and v not in spec.vars:
                carried.add(v)
        self.oblige([('loop invariant holds on entry: ' + l, c) for l, c in spec.inv(self, fr, True)])
        for v in names:
            if v not in spec.vars and v not in carried:
                fr.vars.pop(v, None)
        spec.havoc(self, fr, carried)
        if _P.check() == z3.unsat:
            raise Cut()
        if self.truth(self.ev(s.test, fr)):
            spec.start(self, fr)
            try:
                self.block(s.body, fr)
            except Brk:
                return
            except Cnt:
                pass
            self.oblige([('loop invariant is preserved: ' + l, c) for l, c in spec.inv(self, fr, False)])
            raise EndPath()
        self.block(s.orelse, fr)

    def inv_template(self, spec, s, fr, seq=None):
        def stored(xs):
            return {n.id for b in xs for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        tgt = stored([s.target]) if seq is not None else set()
        names = stored(s.body) | tgt | (stored([s.test]) if seq is None else set())
        for n in ast.walk(ast.Module(body=s.body, type_ignores=[])):
            if isinstance(n, (ast.Yield, ast.YieldFrom, ast.For, ast.While)):
                raise Unsupported('jump in a loop with an invariant')
        filled = mutated_names(s.body) - tgt
        names |= {v for v in filled if isinstance(fr.vars.get(v), (list, SList))}
        for n in ast.walk(ast.Module(body=s.body, type_ignores=[])):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and ast.unparse(n) not in spec.allowed:
                raise Unsupported('the loop modifies %s' % ast.unparse(n))
        hyp = {}
        carried = [v for v in sorted(names) if v in fr.vars]
        key = (fr.qual, s.lineno)

        def holds(v, g):
            x = fr.vars.get(v, POISON)
            if isinstance(g, tuple):
                return sand(x > g[0], x <= g[1]) if isnum(x) else False
            if g in spec.seqs():
                return same(view(x) if isinstance(x, SList) else x, spec.seqs()[g]) if isinstance(x, (list, SList)) else False
            gv = spec.ghosts()[g]
            if x is gv:
                return True
            return same(x, gv) if isnum(x) and isnum(gv) or isinstance(x, Opq) and isinstance(gv, Opq) else False

        def ok(v, g):
            c = holds(v, g)
            return forall(c.n, c.pred, c.lo) if isinstance(c, Forall) else valid(c)
        for v in carried:
            lst = isinstance(fr.vars[v], (list, SList))
            cand = list(spec.seqs()) if lst else list(spec.ghosts()) + list(spec.ranges)
            hyp[v] = [g for g in cand if key + (v, g) not in DROPPED and ok(v, g)]
        facts = [g for g, c in spec.facts().items() if key + (None, g) not in DROPPED and valid(c)]
        _P.approx = True
        self.oblige([('loop invariant holds on entry: ' + l, c) for l, c in spec.inv(self, 0)])
        k = fresh('int', 'iter')
        step = None
        if seq is not None:
            step = truth(fresh('bool', 'loop_step'))
            assume_checked(sand(k >= 0, k < seq.n) if step else same(k, seq.n))
        else:
            assume_checked(k >= 0)
        spec.havoc(self, k)
        for g in facts:
            assume_checked(spec.facts()[g])
        for v in names:
            if v not in carried:
                fr.vars.pop(v, None)
                continue
            x, gs = fr.vars[v], [g for g in hyp[v] if not isinstance(g, tuple)]
            if isinstance(x, (list, SList)):
                fr.vars[v] = SList(spec.seqs()[gs[0]].n, spec.seqs()[gs[0]].get, 'list') if gs else POISON
                continue
            if gs:
                fr.vars[v] = spec.ghosts()[gs[0]]
                for g in gs[1:]:
                    assume_checked(holds(v, g))
            elif isnum(x) and not isinstance(x, (SBool, bool)):
                fr.vars[v] = fresh('int' if isinstance(x, (SInt, int)) else 'real', 'carried')
            elif isinstance(x, (SBool, bool)):
                fr.vars[v] = fresh('bool', 'carried')
            elif isinstance(x, Opq):
                fr.vars[v] = fresh('obj', 'carried')
            else:
                fr.vars[v] = POISON
            for g in hyp[v]:
                if isinstance(g, tuple) and fr.vars[v] is not POISON:
                    assume_checked(holds(v, g))
        if _P.check() == z3.unsat:
            raise Cut()
        if step if seq is not None else self.truth(self.ev(s.test, fr)):
            if seq is not None:
                self.assign(s.target, seq.get(k), fr)
            try:
                self.block(s.body, fr)
            except Brk:
                return
            except Cnt:
                pass
            inv = spec.inv(self, k + 1)
            self.oblige([('loop invariant is preserved: ' + l, c) for l, c in inv])
            bad = [(v, g) for v in carried for g in (hyp[v][:1] if hyp[v][:1] and hyp[v][0] in spec.seqs() else hyp[v]) if not ok(v, g)]
            bad += [(None, g) for g in facts if not valid(spec.facts()[g])]
            if bad:
                DROPPED.update(key + vg for vg in bad)
                raise Restart()
            self.oblige([('loop invariant is preserved: local variables', True)])
            raise EndPath()
        self.block(s.orelse, fr)

    def sym_loop(self, s, seq, fr):
        """for x in <sequence of symbolic length>: accumulator summary - every variable the body assigns is either a
        temporary (assigned before use) or an accumulator  v = v + e(x)  with e free of accumulators; v becomes v0 + Sum e"""
        if s.orelse:
            raise Unsupported('symbolic loop with else')
        names = set()
        for n in ast.walk(ast.Module(body=s.body, type_ignores=[])):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                names.add(n.id)
            if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                raise Unsupported('symbolic loop mutates the heap')
            if isinstance(n, (ast.Break, ast.Continue, ast.Return, ast.Yield, ast.Raise)):
                raise Unsupported('symbolic loop with jumps')
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('append', 'extend', 'pop', 'popleft', 'update', 'add', 'clear', 'insert'):
                raise Unsupported('symbolic loop mutates the heap')
        tgt = {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}
        acc = [n for n in names - tgt if n in fr.vars]
        start = {n: fr.vars[n] for n in acc}
        hav = {}

        def summand(i):
            sub = Frame(fr.parent, fr.fn_globals, fr.cells)
            sub.vars = dict(fr.vars)
            sub.cls, sub.selfobj, sub.globs, sub.nonlocals = fr.cls, fr.selfobj, fr.globs, fr.nonlocals
            for n in acc:
                v = start[n]
                if not isnum(v):
                    raise Unsupported('loop-carried variable %s' % n)
                hav[n] = SReal(z3.Real('acc_%s' % n))
                sub.vars[n] = hav[n]
            self.assign(s.target, seq.get(i), sub)
            self.block(s.body, sub)
            out = {}
            for n in acc:
                d = z3.simplify(num(co_sub(sub.vars[n], hav[n])), som=True)
                if any(str(x).startswith('acc_') for x in z3vars(d)):
                    raise Unsupported('loop-carried variable %s is not a sum' % n)
                out[n] = wrap(d)
            return out
        for n in acc:
            fr.vars[n] = start[n] + seq_sum(SSeq(seq.n, (lambda nm: lambda i: summand(i)[nm])(n)))
        if not acc:
            raise Unsupported('symbolic loop without effect')

    def s_Raise(self, s, fr):
        if s.exc is None:
            raise Unsupported('re-raise')
        e = self.ev(s.exc, fr)
        if isinstance(e, type):
            e = e()
        try:
            e._by_code = True
        except Exception:
            pass
        raise e

    def s_Assert(self, s, fr):
        if not self.truth(self.ev(s.test, fr)):
            e = AssertionError('assertion failed')
            e._by_code = True
            raise e

    def s_Try(self, s, fr):
        try:
            try:
                self.block(s.body, fr)
            except (Ret, Brk, Cnt):
                raise
            except Exception as e:
                for h in s.handlers:
                    ty = self.ev(h.type, fr) if h.type is not None else Exception
                    if isinstance(e, ty):
                        if h.name:
                            self.store(h.name, e, fr)
                        self.block(h.body, fr)
                        break
                else:
                    raise
            else:
                self.block(s.orelse, fr)
        finally:
            self.block(s.finalbody, fr)

    def s_With(self, s, fr):
        cms = []
        for item in s.items:
            cm = self.ev(item.context_expr, fr)
            v = cm.__enter__()
            cms.append(cm)
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v, fr)
        try:
            self.block(s.body, fr)
        finally:
            for cm in reversed(cms):
                cm.__exit__(None, None, None)

    def s_FunctionDef(self, s, fr):
        f = IFunc(self, s, fr, [self.ev(d, fr) for d in s.args.defaults],
                  {a.arg: self.ev(d, fr) for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None}, s.name)
        for d in reversed(s.decorator_list):
            f = self.call(self.ev(d, fr), (f,))
        self.store(s.name, f, fr)

    def s_Import(self, s, fr):
        for a in s.names:
            m = __import__(a.name)
            if a.asname:
                import importlib
                m = importlib.import_module(a.name)
            self.store(a.asname or a.name.split('.')[0], m, fr)

    def s_ImportFrom(self, s, fr):
        import importlib
        pkg = fr.fn_globals.get('__package__')
        m = importlib.import_module('.' * s.level + (s.module or ''), pkg)
        for a in s.names:
            self.store(a.asname or a.name, getattr(m, a.name), fr)

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                del fr.vars[t.id]
            elif isinstance(t, ast.Attribute):
                delattr(self.ev(t.value, fr), self.mangle(t.attr, fr))
            else:
                o = self.ev(t.value, fr)
                del o[self.index(t.slice, fr)]

    def s_Global(self, s, fr):
        fr.globs.update(s.names)

    def s_Nonlocal(self, s, fr):
        fr.nonlocals.update(s.names)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.store(t.id, v, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), self.mangle(t.attr, fr), v)
        elif isinstance(t, ast.Subscript):
            self.store_sub(self.ev(t.value, fr), self.index(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.iterate(v)
            if isinstance(vs, SSeq):
                raise Unsupported('unpacking a symbolic sequence')
            vs = list(vs)
            st = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if st:
                k = st[0]
                after = len(t.elts) - k - 1
                if len(vs) < len(t.elts) - 1:
                    raise ValueError('not enough values to unpack')
                for e, x in zip(t.elts[:k], vs[:k]):
                    self.assign(e, x, fr)
                self.assign(t.elts[k].value, vs[k:len(vs) - after], fr)
                for e, x in zip(t.elts[k + 1:], vs[len(vs) - after:]):
                    self.assign(e, x, fr)
                return
            if len(vs) != len(t.elts):
                raise ValueError('wrong number of values to unpack')
            for e, x in zip(t.elts, vs):
                self.assign(e, x, fr)
        else:
            raise Unsupported('assignment target %s' % type(t).__name__)

    # ---- expressions
    def ev(self, e, fr):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(e).__name__)
        return m(e, fr)

    def e_Constant(self, e, fr):
        return e.value

    def e_Name(self, e, fr):
        return self.load(e.id, fr)

    def e_Attribute(self, e, fr):
        return self.getattr(self.ev(e.value, fr), self.mangle(e.attr, fr))

    @staticmethod
    def mangle(name, fr):
        """private names of a class"""
        if name.startswith('__') and not name.endswith('__') and fr.qual:
            q = [x for x in fr.qual.split('.<locals>')[0].split('.')]
            if len(q) > 1:
                return '_%s%s' % (q[-2].lstrip('_'), name)
        return name

    def index(self, e, fr):
        if isinstance(e, ast.Slice):
            return slice(*[self.ev(x, fr) if x is not None else None for x in (e.lower, e.upper, e.step)])
        if isinstance(e, ast.Tuple):
            return tuple(self.index(x, fr) for x in e.elts)
        return self.ev(e, fr)

    def e_Slice(self, e, fr):
        return self.index(e, fr)

    def e_Subscript(self, e, fr):
        return self.subscript(self.ev(e.value, fr), self.index(e.slice, fr))

    def e_Tuple(self, e, fr):
        return tuple(self.elts(e.elts, fr))

    def e_List(self, e, fr):
        return list(self.elts(e.elts, fr))

    def e_Set(self, e, fr):
        return set(self.elts(e.elts, fr))

    def elts(self, es, fr, star=False):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                v = self.iterate(self.ev(x.value, fr))
                if isinstance(v, SSeq):
                    if not isinstance(v.n, SV):
                        out.extend(v.get(i) for i in range(v.n))
                        continue
                    if not star:
                        raise Unsupported('star of a symbolic sequence')
                    out.append(Star(v))
                    continue
                out.extend(v)
            else:
                out.append(self.ev(x, fr))
        return out

    def e_Dict(self, e, fr):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.ev(v, fr))
            else:
                d[self.ev(k, fr)] = self.ev(v, fr)
        return d

    def binop(self, op, a, b):
        if op in LOGIC and (self.symarr(a) or self.symarr(b)) and not (isseq(a) or isseq(b)):
            return ew_objects(LOGIC[op], a, b)
        if op in LOGIC and isinstance(a, (bool, onp.bool_)) and isinstance(b, SBool):
            return LOGIC[op](a, b)
        return op(a, b)

    def e_BinOp(self, e, fr):
        return self.binop(BIN[type(e.op)], self.ev(e.left, fr), self.ev(e.right, fr))

    def e_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        if isinstance(e.op, ast.Not):
            return snot(v) if isinstance(v, SBool) else not self.truth(v)
        if isinstance(e.op, ast.USub):
            return -v
        if isinstance(e.op, ast.UAdd):
            return +v
        if isinstance(v, onp.ndarray) and v.dtype == object:
            return objarray([snot(x) for x in v.ravel().tolist()], v.shape)
        return ~v

    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        v = None
        for k, x in enumerate(e.values):
            v = self.ev(x, fr)
            if k == len(e.values) - 1:
                return v
            if self.truth(v) != isand:
                return v
        return v

    def e_Compare(self, e, fr):
        left = self.ev(e.left, fr)
        res = True
        for k, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.ev(r, fr)
            c = self.compare(op, left, right)
            if len(e.ops) == 1:
                return c
            if isinstance(c, SBool) or isinstance(res, SBool):
                res = sand(res, c)
            else:
                res = c
                if not isinstance(c, SBool) and not self.truth(c):
                    return c
            left = right
        return res

    def compare(self, op, a, b):
        if isinstance(op, ast.Is):
            return a is b
        if isinstance(op, ast.IsNot):
            return a is not b
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a)
            return r if isinstance(op, ast.In) else snot(r)
        if self.symarr(a) or self.symarr(b):
            if not (isseq(a) or isseq(b)):
                return ew_objects(CMP[type(op)], a, b)
        return CMP[type(op)](a, b)

    @staticmethod
    def symarr(x):
        return isinstance(x, onp.ndarray) and x.ndim > 0 and x.dtype == object and has_sym(x)

    def contains(self, c, x):
        if isinstance(c, (SSeq, SList)):
            raise Unsupported('membership in a symbolic sequence')
        if isinstance(x, SV) or has_sym(c, 1):
            if isinstance(c, dict):
                c = list(c)
            if isinstance(c, onp.ndarray):
                c = c.ravel().tolist()
            return sor(*[same(y, x) for y in c]) if len(c) else False
        return x in c

    def e_IfExp(self, e, fr):
        return self.ev(e.body if self.truth(self.ev(e.test, fr)) else e.orelse, fr)

    def e_Lambda(self, e, fr):
        return IFunc(self, e, fr, [self.ev(d, fr) for d in e.args.defaults],
                     {a.arg: self.ev(d, fr) for a, d in zip(e.args.kwonlyargs, e.args.kw_defaults) if d is not None}, '<lambda>')

    def e_JoinedStr(self, e, fr):
        out = []
        for v in e.values:
            try:
                out.append(v.value if isinstance(v, ast.Constant) else format(self.ev(v.value, fr), '' if v.format_spec is None else self.ev(v.format_spec, fr)) if v.conversion == -1 else repr(self.ev(v.value, fr)))
            except Exception:
                out.append('?')
        return ''.join(map(str, out))

    def e_FormattedValue(self, e, fr):
        return str(self.ev(e.value, fr))

    def e_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        self.assign(e.target, v, fr)
        return v

    def e_Yield(self, e, fr):
        f = fr
        while f is not None and f.yields is None:
            f = f.parent
        f.yields.append(self.ev(e.value, fr) if e.value is not None else None)
        return None

    def e_YieldFrom(self, e, fr):
        f = fr
        while f is not None and f.yields is None:
            f = f.parent
        it = self.iterate(self.ev(e.value, fr))
        if isinstance(it, SSeq):
            raise Unsupported('yield from a symbolic sequence')
        f.yields.extend(it)
        return None

    def e_Starred(self, e, fr):
        raise Unsupported('starred')

    def comp(self, gens, fr, emit, simple=False):
        """concrete comprehension; returns SSeq when the (only) generator is symbolic"""
        g = gens[0]
        it = self.iterate(self.ev(g.iter, fr))
        if isinstance(it, SSeq) and isinstance(it.n, SV):
            if len(gens) > 1 or g.ifs:
                raise Unsupported('comprehension over a symbolic sequence')

            heap, snap = HEAP[0], dict(fr.vars)

            def get(i):
                if HEAP[0] != heap and fr.vars != snap:
                    raise Unsupported('lazy comprehension evaluated after a mutation')
                if HEAP[0] != heap and not simple:
                    raise Unsupported('lazy comprehension evaluated after a mutation')
                sub = Frame(fr)
                self.assign(g.target, it.get(i), sub)
                out = []
                emit(sub, out.append)
                return out[0]
            return SSeq(it.n, get)
        out = []

        def rec(k, fr2):
            if k == len(gens):
                emit(fr2, out.append)
                return
            gg = gens[k]
            xs = it if k == 0 else self.iterate(self.ev(gg.iter, fr2))
            if isinstance(xs, SSeq):
                xs = list(xs)
            for x in xs:
                sub = Frame(fr2)
                self.assign(gg.target, x, sub)
                if all(self.truth(self.ev(c, sub)) for c in gg.ifs):
                    rec(k + 1, sub)
        rec(0, fr)
        return out

    def e_ListComp(self, e, fr):
        r = self.comp(e.generators, fr, lambda f, out: out(self.ev(e.elt, f)), not any(isinstance(x, (ast.Attribute, ast.Call, ast.Subscript)) for x in ast.walk(e.elt)))
        return SList(r.n, r.get) if isinstance(r, SSeq) else r

    def e_GeneratorExp(self, e, fr):
        r = self.comp(e.generators, fr, lambda f, out: out(self.ev(e.elt, f)))
        return LazyIter(r) if isinstance(r, SSeq) else iter(r)

    def e_SetComp(self, e, fr):
        r = self.comp(e.generators, fr, lambda f, out: out(self.ev(e.elt, f)))
        if isinstance(r, SSeq):
            raise Unsupported('set comprehension')
        return set(r)

    def e_DictComp(self, e, fr):
        r = self.comp(e.generators, fr, lambda f, out: out((self.ev(e.key, f), self.ev(e.value, f))))
        if isinstance(r, SSeq):
            raise Unsupported('dict comprehension')
        return dict(r)

    def e_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            f = fr
            while f is not None and f.selfobj is None:
                f = f.parent
            return super(f.cls, f.selfobj)
        f = self.ev(e.func, fr)
        args = self.elts(e.args, fr, True)
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                kwargs.update(self.ev(k.value, fr))
            else:
                kwargs[k.arg] = self.ev(k.value, fr)
        return self.call(f, tuple(args), kwargs)


def sym_dtype(x):
    if isinstance(x, (SSeq, SList)):
        pos = _P.pos
        v = x.get(fresh('int', 'fz'))
        if _P.pos != pos or not isnum(v):
            raise Unsupported('dtype of a symbolic sequence')
        return onp.dtype(bool) if isinstance(v, (SBool, bool, onp.bool_)) else onp.dtype('float64') if isinstance(v, (SReal, float, onp.floating)) else onp.dtype('int64')
    xs = [x] if isinstance(x, SV) else x.ravel().tolist()
    if any(isinstance(y, Opq) or not isnum(y) for y in xs):
        return onp.dtype(object)
    if any(isinstance(y, (SReal, float, onp.floating)) for y in xs):
        return onp.dtype('float64')
    if all(isinstance(y, (SBool, bool, onp.bool_)) for y in xs):
        return onp.dtype(bool)
    return onp.dtype('int64')


def ew_objects(f, a, b):
    A, B = onp.broadcast_arrays(onp.asarray(a, dtype=object), onp.asarray(b, dtype=object))
    out = [f(x, y) for x, y in zip(A.ravel().tolist(), B.ravel().tolist())]
    if out and all(isinstance(x, (bool, onp.bool_)) for x in out):
        return onp.array(out, dtype=bool).reshape(A.shape)
    return objarray(out, A.shape)


def _lg(f, g):
    def h(x, y):
        if isinstance(x, (SBool, bool, onp.bool_)) and isinstance(y, (SBool, bool, onp.bool_)):
            return f(x, y)
        return g(x, y)
    return h


LOGIC = {}
for _a, _b, _c in ((operator.and_, operator.iand, sand), (operator.or_, operator.ior, sor)):
    LOGIC[_a] = LOGIC[_b] = _lg(_c, _a)


def co_sub(a, b):
    x, y = co(a, b)
    return wrap(x - y)


def z3vars(t):
    seen, out, todo = set(), [], [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(x)
        todo.extend(x.children())
    return out


class LazyIter:
    """a generator over a symbolic sequence"""

    def __init__(self, seq):
        self.seq = seq

    def __iter__(self):
        return iter(self.seq)


_GEN = {}


def is_generator(node):
    if node not in _GEN:
        r = False
        todo = list(node.body)
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                r = True
                break
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            todo.extend(ast.iter_child_nodes(n))
        _GEN[node] = r
    return _GEN[node]


# ---------------------------------------------------------------- models of builtins and NumPy functions on symbolic arguments

MODELS = {}


def model(*fs):
    def deco(g):
        for f in fs:
            MODELS[f] = g
        return g
    return deco


@model(len)
def m_len(I, x):
    if isinstance(x, (SSeq, SList)):
        return x.n
    ln = getattr(type(x), '__len__', None)
    if I.interpretable(ln):
        return I.call_fn(ln, (x,), {})
    if hasattr(type(x), 'sym_len'):
        return x.sym_len()
    return len(x)


@model(bool)
def m_bool(I, x=False):
    if isinstance(x, SBool):
        return x
    if isinstance(x, SNum):
        return wrap(z3.simplify(num(x) != 0))
    return I.truth(x)


@model(float)
def m_float(I, x=0.0):
    if isinstance(x, onp.ndarray) and x.dtype == object and x.size == 1:
        x = x.ravel()[0]
    if isinstance(x, SNum):
        t = num(x)
        return SReal(z3.ToReal(t) if t.sort() == z3.IntSort() else t)
    return float(x)


@model(int)
def m_int(I, x=0, *a):
    if isinstance(x, (SInt, SBool)):
        return wrap(num(x))
    if isinstance(x, SReal):
        raise Unsupported('int() of a real')
    return int(x, *a)


@model(abs)
def m_abs(I, x):
    return abs(x)


@model(isinstance)
def m_isinstance(I, x, cls):
    if isinstance(x, (SV, SSeq, SList)):
        cs = []

        def flat(c):
            if isinstance(c, tuple):
                for y in c:
                    flat(y)
            else:
                cs.append(c)
        flat(cls)
        if isinstance(x, SBool):
            return any(c in (bool, int) for c in cs)
        if isinstance(x, SInt):
            return int in cs
        if isinstance(x, SReal):
            return float in cs
        if isinstance(x, Opq):
            if any(c in (int, float, bool, str, list, tuple, dict) for c in cs):
                raise Unsupported('type of an opaque value')
            return False
        kind = getattr(x, 'kind', 'array')
        return any(c is {'list': list, 'deque': collections.deque, 'array': onp.ndarray}[kind] for c in cs)
    return isinstance(x, cls)


@model(type)
def m_type(I, x, *a):
    if isinstance(x, SBool):
        return bool
    if isinstance(x, SInt):
        return int
    if isinstance(x, SReal):
        return float
    return type(x, *a)


@model(sum)
def m_sum(I, it, start=0):
    it = I.iterate(it)
    if isinstance(it, SSeq):
        return start + seq_sum(it)
    r = start
    for x in it:
        r = r + x
    return r


@model(min, max)
def m_minmax(I, *a, **k):
    raise AssertionError


def _mm(f, op):
    def g(I, *a, **k):
        if k:
            return f(*a, **k)
        xs = a
        if len(a) == 1:
            xs = I.iterate(a[0])
            if isinstance(xs, SSeq):
                raise Unsupported('min/max of a symbolic sequence')
            xs = list(xs)
        if not any(isinstance(x, SV) for x in xs):
            return f(xs)
        r = xs[0]
        for y in xs[1:]:
            c = op(y, r)
            if isinstance(c, SBool):
                u, v = co(y, r)
                r = wrap(z3.If(c.t, u, v))
            elif c:
                r = y
        return r
    return g


MODELS[min] = _mm(min, operator.lt)
MODELS[max] = _mm(max, operator.gt)


@model(any)
def m_any(I, it):
    it = I.iterate(it)
    if isinstance(it, SSeq):
        raise Unsupported('any over a symbolic sequence')
    for x in it:
        if I.truth(x):
            return True
    return False


@model(all)
def m_all(I, it):
    it = I.iterate(it)
    if isinstance(it, SSeq):
        raise Unsupported('all over a symbolic sequence')
    for x in it:
        if not I.truth(x):
            return False
    return True


@model(range)
def m_range(I, *a):
    if any(isinstance(x, SV) for x in a):
        if len(a) == 1:
            return srange(0, a[0])
        if len(a) == 2:
            return srange(*a)
        if isinstance(a[2], int) and a[2] == -1:
            lo, hi = a[1] + 1, a[0] + 1
            s = srange(lo, hi)
            n = s.n
            return SSeq(n, lambda i: hi - 1 - i)
        raise Unsupported('range with a symbolic step')
    return range(*a)


@model(zip)
def m_zip(I, *its):
    its = [I.iterate(x) for x in its]
    if any(isinstance(x, SSeq) and isinstance(x.n, SV) for x in its):
        seqs = []
        for x in its:
            if not isinstance(x, SSeq):
                xs = list(x)
                x = SSeq(len(xs), (lambda xs: lambda i: pick(xs, i))(xs))
            seqs.append(x)
        n = MODELS[min](I, *[s.n for s in seqs])
        return LazyIter(SSeq(n, lambda i: tuple(s.get(i) for s in seqs)))
    return zip(*its)


@model(enumerate)
def m_enum(I, it, start=0):
    it = I.iterate(it)
    if isinstance(it, SSeq):
        return LazyIter(SSeq(it.n, lambda i: (i + start, it.get(i))))
    return enumerate(it, start)


@model(itertools.islice)
def m_islice(I, it, *a):
    it = I.iterate(it)
    if not isinstance(it, SSeq) and not any(isinstance(x, SV) for x in a):
        return itertools.islice(it, *a)
    if not isinstance(it, SSeq):
        xs = list(it)
        it = SSeq(len(xs), lambda i: pick(xs, i))
    lo, hi = (0, a[0]) if len(a) == 1 else (a[0] or 0, a[1])
    if len(a) > 2:
        raise Unsupported('islice step')
    if hi is None:
        hi = it.n
    n = MODELS[max](I, MODELS[min](I, hi, it.n) - lo, 0)
    return LazyIter(SSeq(n, lambda i: it.get(i + lo)))


@model(list)
def m_list(I, x=()):
    x = I.iterate(x)
    if isinstance(x, SSeq):
        return SList(x.n, x.get)
    return list(x)


@model(tuple)
def m_tuple(I, x=()):
    x = I.iterate(x)
    if isinstance(x, SSeq):
        return SSeq(x.n, x.get)
    return tuple(x)


@model(iter)
def m_iter(I, x, *a):
    y = I.iterate(x)
    return LazyIter(y) if isinstance(y, SSeq) else iter(y, *a)


@model(map)
def m_map(I, f, *its):
    its = [I.iterate(x) for x in its]
    if any(isinstance(x, SSeq) for x in its):
        z = m_zip(I, *its).seq
        return LazyIter(SSeq(z.n, lambda i: I.call(f, z.get(i))))
    return iter([I.call(f, xs) for xs in zip(*its)])


@model(filter)
def m_filter(I, f, it):
    it = I.iterate(it)
    if isinstance(it, SSeq):
        raise Unsupported('filter over a symbolic sequence')
    return iter([x for x in it if I.truth(x if f is None else I.call(f, (x,)))])


@model(getattr)
def m_getattr(I, o, name, *d):
    try:
        return I.getattr(o, name)
    except AttributeError:
        if d:
            return d[0]
        raise


@model(setattr)
def m_setattr(I, o, name, v):
    I.setattr(o, name, v)


@model(reversed)
def m_reversed(I, x):
    y = I.iterate(x)
    if isinstance(y, SSeq):
        n, g = y.n, y.get
        return LazyIter(SSeq(n, lambda i: g(n - 1 - i)))
    return reversed(y)


@model(sorted)
def m_sorted(I, x, **k):
    xs = list(I.iterate(x))
    if has_sym(xs):
        raise Unsupported('sorting symbolic values')
    return sorted(xs, **k)


@model(collections.deque)
def m_deque(I, it=(), maxlen=None):
    it = I.iterate(it)
    if isinstance(it, SSeq) or isinstance(maxlen, SV):
        d = SList(0, lambda i: None, 'deque', maxlen)
        if isinstance(it, SSeq) and isinstance(it.n, SV):
            if maxlen is not None:
                raise Unsupported('deque from a symbolic sequence')
            return SList(it.n, it.get, 'deque')
        for x in it:
            d.append(x)
        return d
    return collections.deque(it, maxlen)


@model(isinstance)
def _dummy(*a):
    raise AssertionError


MODELS[isinstance] = m_isinstance


def _np1(f):
    """elementwise numpy function: symbolic sequences map, everything else native"""
    def g(I, *args, **kwargs):
        if any(isseq(a) for a in args):
            kwargs.pop('dtype', None)
            if kwargs:
                raise Unsupported('numpy keyword on a symbolic array')
            return ewise(lambda *xs: I.call(f, xs), *args)
        return f(*args, **kwargs)
    return g


for _f in (onp.exp, onp.log, onp.abs, onp.sqrt, onp.square):
    MODELS[_f] = _np1(_f)


@model(onp.sign)
def m_sign(I, x):
    if isseq(x):
        return x.map(lambda v: m_sign(I, v))
    if isinstance(x, SV):
        return ite(x > 0, 1, ite(x < 0, -1, 0))
    if has_sym(x):
        return objarray([m_sign(I, v) for v in x.ravel().tolist()], x.shape)
    return onp.sign(x)


@model(onp.power)
def m_power(I, a, b):
    if isseq(a) or isseq(b):
        return ewise(lambda x, y: m_power(I, x, y), a, b)
    if isinstance(a, onp.ndarray) or isinstance(b, onp.ndarray):
        if has_sym(a) or has_sym(b):
            A, B = onp.broadcast_arrays(onp.asarray(a, dtype=object), onp.asarray(b, dtype=object))
            return objarray([power_(x, y) for x, y in zip(A.ravel().tolist(), B.ravel().tolist())], A.shape)
        return onp.power(a, b)
    return power_(a, b)


def power_(a, b):
    if isinstance(a, SV) or isinstance(b, SV):
        return power(a, b)
    return onp.power(a, b)


def ite(c, a, b):
    if not isinstance(c, SBool):
        return a if truth(c) else b
    if isnum(a) and isnum(b) and not _inf(a) and not _inf(b):
        x, y = co(a, b)
        return wrap(z3.If(c.t, x, y))
    return a if truth(c) else b


@model(onp.where)
def m_where(I, c, *ab):
    if not ab:
        return onp.where(c)
    a, b = ab
    if isseq(c) or isseq(a) or isseq(b):
        return ewise(ite, c, a, b)
    if has_sym(c) or has_sym(a) or has_sym(b):
        C, A, B = onp.broadcast_arrays(*[onp.asarray(x, dtype=object) for x in (c, a, b)])
        return objarray([ite(x, y, z) for x, y, z in zip(C.ravel().tolist(), A.ravel().tolist(), B.ravel().tolist())], C.shape)
    return onp.where(c, a, b)


def _npmm(f, op):
    def g(I, a, b, **k):
        def one(x, y):
            c = op(x, y)
            return ite(c, x, y) if isinstance(c, SBool) else (x if c else y)
        if isseq(a) or isseq(b):
            return ewise(one, a, b)
        if has_sym(a) or has_sym(b):
            A, B = onp.broadcast_arrays(onp.asarray(a, dtype=object), onp.asarray(b, dtype=object))
            r = objarray([one(x, y) for x, y in zip(A.ravel().tolist(), B.ravel().tolist())], A.shape)
            return r if r.ndim else r.item()
        return f(a, b, **k)
    return g


MODELS[onp.maximum] = _npmm(onp.maximum, operator.ge)
MODELS[onp.minimum] = _npmm(onp.minimum, operator.le)


@model(onp.clip)
def m_clip(I, x, lo, hi, **k):
    if isseq(x) or has_sym(x) or has_sym(lo) or has_sym(hi):
        r = MODELS[onp.maximum](I, x, lo) if lo is not None else x
        return MODELS[onp.minimum](I, r, hi) if hi is not None else r
    return onp.clip(x, lo, hi, **k)


@model(onp.arange)
def m_arange(I, *a, dtype=None):
    if any(isinstance(x, SV) for x in a):
        if len(a) == 1:
            s = srange(0, a[0])
        elif len(a) == 2:
            d = z3.simplify(num(a[1] - a[0]))
            if z3.is_int_value(d):
                return objarray([a[0] + k for k in range(d.as_long())])
            s = srange(*a)
        else:
            raise Unsupported('arange step')
        return SList(s.n, s.get, 'array')
    return onp.arange(*a, dtype=dtype)


@model(onp.full)
def m_full(I, shape, fill_value, dtype=None):
    n = shape[0] if isinstance(shape, tuple) and len(shape) == 1 else shape
    if isinstance(n, SV):
        return SList(n, lambda i: fill_value, 'array')
    if has_sym(fill_value):
        return onp.full(shape, fill_value, dtype=object)
    return onp.full(shape, fill_value, dtype=dtype)


@model(onp.zeros, onp.ones)
def _z(*a):
    raise AssertionError


def _zo(f, v):
    def g(I, shape, dtype=None):
        n = shape[0] if isinstance(shape, tuple) and len(shape) == 1 else shape
        if isinstance(n, SV):
            return SList(n, lambda i: v, 'array')
        return f(shape, dtype=dtype) if dtype is not None else f(shape)
    return g


MODELS[onp.zeros] = _zo(onp.zeros, 0.0)
MODELS[onp.ones] = _zo(onp.ones, 1.0)


def _asarr(f):
    def g(I, x, dtype=None, **k):
        if isseq(x):
            return x
        if has_sym(x):
            if dtype is not None and onp.dtype(dtype).kind in 'iu' and any(isinstance(y, SReal) for y in onp.asarray(x, dtype=object).ravel().tolist()):
                raise Unsupported('cast of a real to an integer')
            if isinstance(x, (list, tuple)) and not any(isinstance(y, (list, tuple, onp.ndarray)) for y in x):
                return objarray(list(x))
            return f(x, dtype=object)
        if isinstance(x, (types.GeneratorType,)):
            raise Unsupported('array of a generator')
        return f(x, dtype=dtype, **k) if dtype is not None else f(x, **k)
    return g


for _f in (onp.asarray, onp.array, onp.asanyarray):
    MODELS[_f] = _asarr(_f)


@model(onp.isscalar)
def m_isscalar(I, x):
    return True if isinstance(x, SNum) else onp.isscalar(x)


@model(onp.ndim)
def m_ndim(I, x):
    return 0 if isinstance(x, SV) else 1 if isseq(x) else onp.ndim(x)


@model(onp.shape)
def m_shape(I, x):
    return () if isinstance(x, SV) else (x.n,) if isseq(x) else onp.shape(x)


@model(onp.all)
def m_npall(I, x, **k):
    if isinstance(x, SBool) or not has_sym(x):
        return x if isinstance(x, SBool) else onp.all(x, **k)
    if isseq(x):
        return seq_all(x)
    return sand(*onp.asarray(x, dtype=object).ravel().tolist())


@model(onp.any)
def m_npany(I, x, **k):
    if isinstance(x, SBool) or not has_sym(x):
        return x if isinstance(x, SBool) else onp.any(x, **k)
    if isseq(x):
        return view(x).any()
    return sor(*onp.asarray(x, dtype=object).ravel().tolist())


@model(onp.sum)
def m_npsum(I, x, **k):
    if isseq(x):
        return seq_sum(x)
    return onp.sum(x, **k)


@model(onp.isclose)
def m_isclose(I, a, b, rtol=1e-5, atol=1e-8, **k):
    if has_sym(a) or has_sym(b):
        return abs(a - b) <= atol + rtol * abs(b)
    return onp.isclose(a, b, rtol=rtol, atol=atol, **k)


@model(onp.ones_like, onp.zeros_like)
def _ol(*a):
    raise AssertionError


def _like(f, v):
    def g(I, x, dtype=None, **k):
        if isinstance(x, SV):
            return onp.array(v)
        if isseq(x):
            w = int(v) if dtype is not None and onp.dtype(dtype).kind in 'iu' else v
            return SList(x.n, lambda i: w, 'array')
        if has_sym(x):
            return onp.full(onp.shape(x), v, dtype=onp.dtype(dtype) if dtype is not None else sym_dtype(onp.asarray(x, dtype=object)))
        return f(x, dtype=dtype, **k) if dtype is not None else f(x, **k)
    return g


MODELS[onp.ones_like] = _like(onp.ones_like, 1.0)
MODELS[onp.zeros_like] = _like(onp.zeros_like, 0.0)


@model(onp.full_like)
def m_full_like(I, x, fill_value, dtype=None, **k):
    if isseq(x):
        return SList(x.n, lambda i: fill_value, 'array')
    if has_sym(x) or has_sym(fill_value):
        if isinstance(fill_value, onp.ndarray) and fill_value.size == 1:
            fill_value = fill_value.ravel()[0]
        return objarray([fill_value] * onp.size(x), onp.shape(x))
    return onp.full_like(x, fill_value, dtype=dtype, **k)


@model(onp.log2)
def m_log2(I, x):
    if isinstance(x, SV):
        return ufun('log2', x)
    return onp.log2(x)


@model(onp.ceil)
def m_ceil(I, x):
    if isinstance(x, SReal):
        t = num(x)
        h = fresh('int', 'ceil')
        fact(z3.And(z3.ToReal(num(h)) - 1 < t, t <= z3.ToReal(num(h))))
        if z3.is_app(t) and t.decl().name() == 'u_log2':
            # ceil(log2 c) is the least h with c <= 2**h   (c >= 1)
            c = t.arg(0)
            fact(z3.Implies(c >= 1, z3.And(num(h) >= 0, c <= z3.ToReal(num(pow2(h))), z3.Implies(num(h) >= 1, c > z3.ToReal(num(pow2(h - 1)))))))
        return h
    return onp.ceil(x)


@model(onp.unique)
def m_unique(I, x, **k):
    if isseq(x):
        if k:
            raise Unsupported('unique with options')
        return seq_unique(x)
    if has_sym(x):
        out = []
        for y in onp.asarray(x, dtype=object).ravel().tolist():
            if not any(truth(same(y, z)) for z in out):
                out.append(y)
        return objarray(out)        # order irrelevant for the uses (index sets); stated in DESIGN.md
    return onp.unique(x, **k)


def model_vectorize(I, f, *args):
    A = onp.broadcast_arrays(*[onp.asarray(a, dtype=object) if not isinstance(a, onp.ndarray) else a for a in args])
    out = []
    for xs in zip(*[a.ravel().tolist() for a in A]):
        v = I.call(f.pyfunc, xs)
        if isinstance(v, onp.ndarray):
            if v.size != 1:
                raise ValueError('setting an array element with a sequence.')
            v = v.ravel()[0]
        out.append(v)
    if not has_sym(out):
        return onp.array(out).reshape(A[0].shape)
    return objarray(out, A[0].shape)


def model_ndarray_method(I, arr, name, args, kwargs):
    if arr.dtype != object:
        return NotImplemented
    if name == 'astype':
        if has_sym(arr):
            return arr.copy()
        return NotImplemented
    if name == 'all':
        return m_npall(I, arr)
    if name == 'any':
        return m_npany(I, arr)
    if name == 'max' and arr.ndim == 1 and not args and not kwargs:
        return MODELS[max](I, arr.tolist())
    if name == 'min' and arr.ndim == 1 and not args and not kwargs:
        return MODELS[min](I, arr.tolist())
    return NotImplemented


# ---------------------------------------------------------------- contracts

class Model:
    """concrete values of a counterexample"""

    def __init__(self, m, inputs):
        self.m, self.inputs = m, inputs

    def val(self, x, cap=40):
        if isinstance(x, SV):
            if isinstance(x, Opq):
                return str(self.m.eval(x.t, model_completion=True))
            v = self.m.eval(x.t, model_completion=True)
            if z3.is_true(v) or z3.is_false(v):
                return z3.is_true(v)
            if z3.is_int_value(v):
                return v.as_long()
            if z3.is_rational_value(v):
                f = v.as_fraction()
                return f.numerator / f.denominator
            if z3.is_algebraic_value(v):
                f = v.approx(20).as_fraction()
                return f.numerator / f.denominator
            return 0
        if isinstance(x, (SSeq, SList)):
            n = self.val(x.n)
            if n > cap:
                return None
            return [self.val(self.elem(x, i)) for i in range(n)]
        if isinstance(x, (list, tuple)):
            return type(x)(self.val(y) for y in x)
        if isinstance(x, dict):
            return {k: self.val(y) for k, y in x.items()}
        if isinstance(x, onp.ndarray):
            return [self.val(y) for y in x.ravel().tolist()]
        return x

    def elem(self, seq, i):
        return seq.get(i)

    def __getitem__(self, k):
        return self.val(self.inputs[k])

    def get(self, k, d=None):
        return self[k] if k in self.inputs else d

    def all(self):
        out = {}
        for k in self.inputs:
            try:
                out[k] = self[k]
            except (BaseException,):
                out[k] = None
        return out


def contract(ck, name, body, funcs=(), replay=None, search=None, small=(), max_paths=3000, deadline_s=40, contracts=None, allow=()):
    """body(I) -> list of (label, condition): executed once per feasible path of the real code.

    conditions: bool / SBool / Forall.  Raising an exception that the body does not catch is itself an obligation failure.
    replay(values) -> message or None : native run of the real code on the counterexample's values
    search()       -> message or None : further native search, used when an obligation is not discharged
    """
    t0 = time.time()
    res, order = {}, []
    cex = []
    exact = {}
    err = None
    npaths = 0
    used = set()
    Explorer.deadline = time.time() + min(deadline_s, max(5.0, ck.time_left()))

    def put(label, st, detail, s):
        if label not in res:
            res[label] = ['proved', '', 0, 0.0]
            order.append(label)
        r = res[label]
        r[2] += 1
        r[3] += s
        if st != 'proved' and r[0] != 'refuted':
            r[0], r[1] = st, detail

    def one(p):
        I = Interp(contracts)

        def sink(label, c):
            t1 = time.time()
            st, m = prove_forall(c, p) if isinstance(c, Forall) else prove(c)
            put(label, st, 'refuted on a path' if st == 'refuted' else '', time.time() - t1)
            if st == 'refuted' and m is not None and len(cex) < 60:
                vals = Model(m, dict(p.inputs)).all()
                cex.append(vals)
                if EXACT[0] and not p.approx:
                    exact.setdefault(label, vals)
        I.sink = sink
        try:
            obs = body(I)
        except EndPath:
            put('no unexpected exception', 'proved', '', 0)
            return
        except Exception as e:
            import traceback
            st, m = prove(False)
            put('no unexpected exception', st, '%s: %s %s' % (type(e).__name__, str(e)[:200], traceback.format_exc(limit=-3)[-600:]), 0)
            if m is not None:
                cex.append(Model(m, dict(p.inputs)).all())
                if getattr(e, '_by_code', False) and not p.approx:
                    exact.setdefault('no unexpected exception', cex[-1])
            return
        finally:
            used.update(I.used)
        put('no unexpected exception', 'proved', '', 0)
        for label, c in obs:
            sink(label, c)
    DROPPED.clear()
    try:
        for _ in range(12):
            try:
                npaths = explore(one, max_paths=max_paths)
                break
            except Restart:
                res.clear()
                del order[:], cex[:]
                exact.clear()
        else:
            raise Unsupported('loop invariants do not converge')
        if npaths == 0 or len(order) <= 1:
            err = 'no obligations (contradictory precondition?)'
    except Unsupported as e:
        err = 'outside the verified subset: %s' % e
    except RecursionError:
        err = 'recursion limit'
    if err:
        for l in order:
            if res[l][0] == 'proved':
                res[l][0], res[l][1] = 'unsupported', err
        if not order:
            order.append('*')
            res['*'] = ['unsupported', err, 0, 0.0]
    bad = [l for l in order if res[l][0] != 'proved']
    found = None
    if bad and small and replay is not None:
        # the same contract at small concrete sizes: sums and loops unfold, so that z3 returns exact counterexamples
        keep = {k: list(v) for k, v in res.items()}, list(order), dict(exact)
        tend = time.time() + 30
        for sz in small:
            if time.time() > tend:
                break
            FIXED.clear()
            FIXED.update(sz)
            Explorer.deadline = time.time() + 10
            try:
                explore(one, max_paths=300)
            except (Unsupported, RecursionError, Restart):
                pass
            finally:
                FIXED.clear()
        res.clear()
        res.update(keep[0])
        order[:] = keep[1]
        exact.clear()
        exact.update(keep[2])
    if bad:
        for c in cex:
            if replay is None:
                break
            try:
                msg = replay(c)
            except Exception as e:
                msg = None
                ck.notes.append('%s: replay of a counterexample failed: %s: %s' % (name, type(e).__name__, str(e)[:200]))
            if msg:
                found = (msg, c)
                break
        if found is None and search is not None:
            msg = search()
            if msg:
                found = (msg, None)
    ck.fn(*(list(funcs) or sorted(used)))
    for l in order:
        r = res[l]
        st = r[0]
        if st != 'proved':
            nfif = found is None and st == 'refuted' and l in exact
            st = 'violated' if (found is not None or nfif) and st == 'refuted' else ('unknown' if st == 'refuted' else st)
            if nfif:
                ck.violate('%s/%s' % (name, l), 'obligation refuted by z3 (%s); model: %s' % (r[1][:600], exact[l]), data=dict(model=exact[l]), input_found=False)
        ck.record('%s/%s' % (name, l), st, 'z3 (symbolic execution of the source)', r[3], r[1], r[2])
    if found is not None:
        ck.violate('%s/%s' % (name, bad[0]), found[0], data=dict(inputs=found[1]))
    ck.evals += 0
    return not bad


def prove_forall(c, p):
    out = ['proved', None]

    def body(q):
        i = fresh('int', 'i')
        assume_checked(sand(i >= c.lo, i < c.n))
        if q.univ:
            row(c.n, i)
        cond = c.pred(i)
        if isinstance(cond, Forall):
            st, m = prove_forall(cond, q)
        else:
            st, m = prove(cond)
        if st != 'proved' and out[0] != 'refuted':
            out[0], out[1] = st, m
    explore(body)
    return out[0], out[1]
