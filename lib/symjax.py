"""Symbolic evaluation of jaxprs that were traced from the real code.

`trace(fun, *args)` runs the real Python code of /repo under jax.make_jaxpr; `evaluate` interprets the
resulting primitive program over numpy object arrays of alg.Ex.  Sub-terms whose inputs are all concrete are
executed by JAX itself (constant folding).  Random draws become free variables.
"""
from __future__ import annotations
from fractions import Fraction
import itertools
import numpy as onp
import jax
import jax.numpy as jnp
from . import alg
from .alg import Ex, Unsupported, ex

from jax import core as _core
from jax.experimental.export import shape_poly

Literal = _core.Literal
B, = shape_poly.symbolic_shape('b')      # the symbolic batch size
ROW = alg.var('#row', row=True, lo=0, integer=True)


def is_dim(d):
    return not isinstance(d, (int, onp.integer))


def dim_coef(d):
    """c for a dimension c*b"""
    v1, v2, v3 = (int(d.evaluate({'b': k})) for k in (1, 2, 3))
    if v2 != 2 * v1 or v3 != 3 * v1:
        raise Unsupported('dimension %s is not a multiple of the batch size' % d)
    return v1


def d1(d):
    return dim_coef(d) if is_dim(d) else int(d)


def shape1(shape):
    return tuple(d1(d) for d in shape)


def baxes(shape):
    ax = [i for i, d in enumerate(shape) if is_dim(d)]
    if len(ax) > 1:
        raise Unsupported('array with two batch axes')
    return ax


def is_sym(x):
    return isinstance(x, onp.ndarray) and x.dtype == object


def lift(x):
    """to an object array of Ex"""
    if is_sym(x):
        return x
    x = onp.asarray(x)
    out = onp.empty(x.shape, dtype=object)
    for i in onp.ndindex(*x.shape):
        out[i] = ex(x[i])
    return out


def simplify_arr(a):
    """object array that is fully constant stays symbolic-typed; harmless"""
    return a


def emap(f, *arrs):
    arrs = [lift(a) for a in arrs]
    shp = onp.broadcast_shapes(*[a.shape for a in arrs])
    arrs = [onp.broadcast_to(a, shp) for a in arrs]
    out = onp.empty(shp, dtype=object)
    for i in onp.ndindex(*shp):
        out[i] = f(*[a[i] for a in arrs])
    return out


class Poison:
    """result of an operation outside the subset: harmless unless a contract looks at it"""

    def __init__(self, why):
        self.why = why

    def __getitem__(self, i):
        raise Unsupported(self.why)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported(self.why)


class Ctx:
    """registry of random draws made during one evaluation"""

    def __init__(self):
        self.draws = {}
        self.info = []

    def fresh(self, kind, key, shape, lo=None, hi=None, positive=False):
        kk = (kind, tuple(onp.asarray(key).ravel().tolist()), tuple(map(str, shape)))
        row = bool(baxes(shape))
        full = tuple(shape)
        shape = shape1(shape)
        out = onp.empty(shape, dtype=object)
        n = len(self.draws)
        if kk not in self.draws:
            self.draws[kk] = n
            self.info.append((kind, onp.asarray(key), full, n))
        n = self.draws[kk]
        for i in onp.ndindex(*shape):
            out[i] = alg.var('%s%d%s' % (kind, n, list(i)), lo=lo, hi=hi, positive=positive, row=row)
        return out

    def draw_values(self, nrows):
        """concrete values of all draws for a batch of nrows: (global env, [row env])"""
        env, rows = {}, [dict() for _ in range(nrows)]
        for kind, key, shape, n in self.info:
            ax = baxes(shape)
            shp = tuple(int(d.evaluate({'b': nrows})) if is_dim(d) else int(d) for d in shape)
            key = jnp.asarray(key)
            v = {'u': jax.random.uniform, 'gumbel': jax.random.gumbel, 'normal': jax.random.normal}[kind](key, shp)
            v = onp.asarray(v)
            if not ax:
                for i in onp.ndindex(*shp):
                    env['%s%d%s' % (kind, n, list(i))] = float(v[i])
            else:
                c = d1(shape[ax[0]])
                for b in range(nrows):
                    sub = onp.take(v, range(b * c, b * c + c), axis=ax[0])
                    for i in onp.ndindex(*sub.shape):
                        rows[b]['%s%d%s' % (kind, n, list(i))] = float(sub[i])
        return env, rows


RULES = {}


def rule(*names):
    def deco(f):
        for n in names:
            RULES[n] = f
        return f
    return deco


def ew(name, f):
    RULES[name] = lambda ctx, ins, p: emap(f, *ins)


ew('add', lambda a, b: a + b)
ew('add_any', lambda a, b: a + b)
ew('sub', lambda a, b: a - b)
ew('mul', lambda a, b: a * b)
ew('neg', lambda a: -a)
ew('max', alg.maximum)
ew('min', alg.minimum)
ew('exp', alg.fexp)
ew('log', alg.flog)
ew('log1p', lambda a: alg.flog(1 + a))
ew('expm1', lambda a: alg.fexp(a) - 1)
ew('tanh', alg.ftanh)
ew('atanh', lambda x: (alg.flog(1 + x) - alg.flog(1 - x)) / 2)
ew('logistic', alg.flogistic)
ew('sqrt', alg.fsqrt)
ew('rsqrt', lambda a: alg.fpow(a, Fraction(-1, 2)))
ew('abs', abs)
ew('sign', alg.fsign)
ew('square', lambda a: a * a)
ew('lt', lambda a, b: alg.lt(a, b))
ew('gt', lambda a, b: alg.lt(b, a))
ew('le', lambda a, b: 1 - alg.lt(b, a))
ew('ge', lambda a, b: 1 - alg.lt(a, b))
ew('eq', alg.eq)
ew('ne', lambda a, b: 1 - alg.eq(a, b))
ew('floor', alg.ffloor)
ew('ceil', lambda a: -alg.ffloor(-a))
ew('is_finite', lambda a: alg.ONE)
ew('erf', lambda a: alg.fn('erf', a))
ew('erf_inv', lambda a: alg.fn('erf_inv', a))
ew('lgamma', lambda a: alg.fn('lgamma', a))
ew('sin', lambda a: alg.fn('sin', a))
ew('cos', lambda a: alg.fn('cos', a))
ew('stop_gradient', lambda a: a)
ew('copy', lambda a: a)
ew('real', lambda a: a)


def _trunc(a):
    c = a.const()
    if c is not None:
        return alg.ex_c(Fraction(int(c)))
    if alg.all_integer(a):
        return a
    return alg.ite(alg.lt(a, 0), -alg.ffloor(-a), alg.ffloor(a))


@rule('round')
def _(ctx, ins, p):
    raise Unsupported('round')


@rule('div')
def _(ctx, ins, p):
    if 'int' in str(p.get('_dtype', '')):
        raise Unsupported('integer div')

    def f(a, b):
        try:
            return a / b
        except ZeroDivisionError:
            return alg.UNDEF()
    return emap(f, *ins)


@rule('rem')
def _(ctx, ins, p):
    def f(a, b):
        c, d = a.const(), b.const()
        if c is not None and d is not None:
            q = abs(c) // abs(d)
            r = abs(c) - q * abs(d)
            return alg.ex_c(r if c >= 0 else -r)
        q = _trunc(a / b)
        return a - b * q
    return emap(f, *ins)


@rule('pow')
def _(ctx, ins, p):
    return emap(lambda a, b: a ** b, *ins)


@rule('integer_pow')
def _(ctx, ins, p):
    return emap(lambda a: a ** p['y'], *ins)


@rule('and')
def _(ctx, ins, p):
    return emap(alg.land, *ins)


@rule('or')
def _(ctx, ins, p):
    return emap(alg.lor, *ins)


@rule('xor')
def _(ctx, ins, p):
    return emap(lambda a, b: a + b - 2 * a * b, *ins)


@rule('not')
def _(ctx, ins, p):
    if p.get('_dtype') is not None and p['_dtype'] != bool:
        raise Unsupported('bitwise not on ints')
    return emap(alg.lnot, *ins)


@rule('clamp')
def _(ctx, ins, p):
    lo, x, hi = ins
    return emap(lambda l, a, h: alg.minimum(alg.maximum(a, l), h), lo, x, hi)


@rule('select_n')
def _(ctx, ins, p):
    c, *cases = ins
    if len(cases) == 2:
        # pick lazily so that non-finite constants in the unselected case do not matter
        c = onp.asarray(c) if not is_sym(c) else c
        shp = onp.shape(cases[0])
        cb = onp.broadcast_to(c, shp)
        out = onp.empty(shp, dtype=object)
        for i in onp.ndindex(*shp):
            ci = ex(cb[i])
            cc = ci.const()
            if cc is not None:
                out[i] = ex(cases[1][i] if cc != 0 else cases[0][i])
            else:
                out[i] = alg.ite(ci, ex(cases[1][i]), ex(cases[0][i]))
        return out
    out = lift(cases[0])
    for k in range(1, len(cases)):
        out = emap(lambda cc, a, b, k=k: alg.ite(alg.eq(cc, k), a, b), c, cases[k], out)
    return out


@rule('convert_element_type')
def _(ctx, ins, p):
    x, = ins
    new = onp.dtype(p['new_dtype'])
    if onp.issubdtype(new, onp.floating):
        return x
    if onp.issubdtype(new, onp.integer):
        return emap(_trunc, x)
    if new == bool:
        def f(a):
            return 1 - alg.eq(a, 0) if not _is_bool(a) else a
        return emap(f, x)
    raise Unsupported('convert to %s' % new)


def _is_bool(a):
    c = a.const()
    if c is not None:
        return c in (0, 1)
    return False


@rule('broadcast_in_dim')
def _(ctx, ins, p):
    x = lift(ins[0])
    shape, bd = p['shape'], p['broadcast_dimensions']
    new = [1] * len(shape)
    for i, d in enumerate(bd):
        new[d] = x.shape[i]
    return onp.broadcast_to(x.reshape(new), shape1(shape)).copy()


@rule('reshape')
def _(ctx, ins, p):
    sin, sout = p['_in'][0], p['new_sizes']
    bi, bo = baxes(sin), baxes(sout)
    if bi or bo:
        pre = lambda sh, ax: int(onp.prod([d1(d) for d in sh[:ax[0]]])) if ax else None
        if pre(sin, bi) != pre(sout, bo):
            raise Unsupported('reshape moves the batch axis: %s -> %s' % (sin, sout))
    return lift(ins[0]).reshape(shape1(sout))


@rule('squeeze')
def _(ctx, ins, p):
    return onp.squeeze(lift(ins[0]), tuple(p['dimensions']))


@rule('expand_dims')
def _(ctx, ins, p):
    return onp.expand_dims(lift(ins[0]), tuple(p['dimensions']))


@rule('transpose')
def _(ctx, ins, p):
    return onp.transpose(lift(ins[0]), p['permutation'])


@rule('rev')
def _(ctx, ins, p):
    if any(is_dim(p['_in'][0][d]) for d in p['dimensions']):
        raise Unsupported('rev over the batch')
    return onp.flip(lift(ins[0]), p['dimensions'])


@rule('concatenate')
def _(ctx, ins, p):
    if any(is_dim(sh[p['dimension']]) for sh in p['_in']):
        raise Unsupported('concatenate along the batch')
    return onp.concatenate([lift(a) for a in ins], axis=p['dimension'])


@rule('pad')
def _(ctx, ins, p):
    x, v = lift(ins[0]), lift(ins[1])
    cfg = p['padding_config']
    for a in baxes(p['_in'][0]):
        if tuple(cfg[a]) != (0, 0, 0):
            raise Unsupported('pad along the batch')
    shape = []
    for n, (lo, hi, it) in zip(x.shape, cfg):
        shape.append(lo + hi + n + max(0, n - 1) * it)
    out = onp.empty(shape, dtype=object)
    for i in onp.ndindex(*shape):
        out[i] = v[()]
    for i in onp.ndindex(*x.shape):
        j = tuple(lo + k * (it + 1) for k, (lo, hi, it) in zip(i, cfg))
        if all(0 <= a < b for a, b in zip(j, shape)):
            out[j] = x[i]
    return out


@rule('slice')
def _(ctx, ins, p):
    st = p['strides'] or (1,) * len(p['start_indices'])
    for a in baxes(p['_in'][0]):
        if p['start_indices'][a] != 0 or p['limit_indices'][a] != p['_in'][0][a] or st[a] != 1:
            raise Unsupported('slice along the batch')
    p = dict(p, start_indices=shape1(p['start_indices']), limit_indices=shape1(p['limit_indices']))
    return lift(ins[0])[tuple(slice(a, b, c) for a, b, c in zip(p['start_indices'], p['limit_indices'], st))]


@rule('dynamic_slice')
def _(ctx, ins, p):
    x, *idx = ins
    x = lift(x)
    if baxes(p['_in'][0]):
        raise Unsupported('dynamic_slice of a batched array')
    sizes = p['slice_sizes']
    if any(is_sym(i) and ex(i[()]).const() is None for i in idx):
        raise Unsupported('dynamic_slice at a symbolic index')
    st = []
    for i, n, s in zip(idx, x.shape, sizes):
        v = int(ex(lift(i)[()]).const())
        st.append(min(max(v, 0), n - s))
    return x[tuple(slice(a, a + s) for a, s in zip(st, sizes))]


def _reduce(f, x, axes):
    x = lift(x)
    axes = tuple(axes)
    keep = [d for d in range(x.ndim) if d not in axes]
    out = onp.empty([x.shape[d] for d in keep], dtype=object)
    for i in onp.ndindex(*out.shape):
        idx = [slice(None)] * x.ndim
        for d, k in zip(keep, i):
            idx[d] = k
        out[i] = f(list(x[tuple(idx)].ravel())) if axes else f([x[tuple(idx)]])
    return out


def _reduce_b(f, nm, x, p):
    r = _reduce(f, x, p['axes'])
    if any(is_dim(p['_in'][0][a]) for a in p['axes']):
        if nm != 'reduce_sum':
            raise Unsupported(nm + ' over the batch')
        r = emap(alg.bsum, r)
    return r


def _fold(op, unit=None):
    def f(xs):
        if not xs:
            if unit is None:
                raise Unsupported('empty reduction')
            return ex(unit)
        r = ex(xs[0])
        for y in xs[1:]:
            r = op(r, ex(y))
        return r
    return f


for _n, _f in (('reduce_sum', _fold(lambda a, b: a + b, 0)), ('reduce_max', _fold(alg.maximum)),
               ('reduce_min', _fold(alg.minimum)), ('reduce_prod', _fold(lambda a, b: a * b, 1)),
               ('reduce_and', _fold(alg.land, 1)), ('reduce_or', _fold(alg.lor, 0))):
    RULES[_n] = (lambda f, nm: (lambda ctx, ins, p: _reduce_b(f, nm, ins[0], p)))(_f, _n)


def _argbest(xs, better):
    best, idx = ex(xs[0]), alg.ZERO
    for k, y in enumerate(xs[1:], 1):
        y = ex(y)
        c = better(y, best)
        best, idx = alg.ite(c, y, best), alg.ite(c, alg.ex_c(k), idx)
    return idx


def _noaxis(p):
    if any(is_dim(p['_in'][0][a]) for a in p['axes']):
        raise Unsupported('arg-reduction over the batch')


@rule('argmax')
def _(ctx, ins, p):
    _noaxis(p)
    return _reduce(lambda xs: _argbest(xs, lambda y, b: alg.lt(b, y)), ins[0], p['axes'])


@rule('argmin')
def _(ctx, ins, p):
    _noaxis(p)
    return _reduce(lambda xs: _argbest(xs, lambda y, b: alg.lt(y, b)), ins[0], p['axes'])


def _cum(op):
    def f(ctx, ins, p):
        x = lift(ins[0]).copy()
        ax = p['axis']
        if is_dim(p['_in'][0][ax]):
            raise Unsupported('cumulative op along the batch')
        if p.get('reverse'):
            x = onp.flip(x, ax)
        y = onp.moveaxis(x, ax, 0).copy()
        for i in range(1, y.shape[0]):
            y[i] = emap(op, y[i - 1], y[i]) if onp.ndim(y[i]) else op(ex(y[i - 1]), ex(y[i]))
        x = onp.moveaxis(y, 0, ax)
        return onp.flip(x, ax) if p.get('reverse') else x
    return f


RULES['cumsum'] = _cum(lambda a, b: a + b)
RULES['cumprod'] = _cum(lambda a, b: a * b)
RULES['cummax'] = _cum(alg.maximum)
RULES['cummin'] = _cum(alg.minimum)


@rule('dot_general')
def _(ctx, ins, p):
    a, b = lift(ins[0]), lift(ins[1])
    (ca, cb), (ba, bb) = p['dimension_numbers']
    fa = [d for d in range(a.ndim) if d not in ca and d not in ba]
    fb = [d for d in range(b.ndim) if d not in cb and d not in bb]
    at = onp.transpose(a, list(ba) + fa + list(ca))
    bt = onp.transpose(b, list(bb) + fb + list(cb))
    B = [a.shape[d] for d in ba]
    FA, FB = [a.shape[d] for d in fa], [b.shape[d] for d in fb]
    K = int(onp.prod([a.shape[d] for d in ca])) if ca else 1
    at = at.reshape(B + FA + [K])
    bt = bt.reshape(B + FB + [K])
    out = onp.empty(B + FA + FB, dtype=object)
    for i in onp.ndindex(*out.shape):
        ib, ia, jb = i[:len(B)], i[len(B):len(B) + len(FA)], i[len(B) + len(FA):]
        r = alg.ZERO
        for k in range(K):
            x, y = at[ib + ia + (k,)], bt[ib + jb + (k,)]
            if not x.num or not y.num:
                continue
            r = r + x * y
        out[i] = r
    if any(is_dim(p['_in'][0][d]) for d in ca):
        if p['_in'][0][ca[0]] is None:
            raise Unsupported('dot')
        out = emap(alg.bsum, out)
    elif sum(is_dim(d) for d in p['_out']) > 1:
        raise Unsupported('outer product over the batch')
    return out


@rule('iota')
def _(ctx, ins, p):
    sh = p['shape']
    if not baxes(sh):
        q = {k: v for k, v in p.items() if not k.startswith('_')}
        return onp.asarray(jax.lax.iota_p.bind(**q))
    s1 = shape1(sh)
    out = onp.empty(s1, dtype=object)
    dim = p['dimension']
    for i in onp.ndindex(*s1):
        out[i] = (ROW * s1[dim] + i[dim]) if is_dim(sh[dim]) else ex(i[dim])
    return out


def _unrow(idx, p, index_map):
    """indices into the batch axis must address the own row"""
    ax = baxes(p['_in'][0])
    if not ax:
        return idx
    if ax[0] not in index_map:
        return idx
    idx = lift(idx).copy()
    j = list(index_map).index(ax[0])
    c = d1(p['_in'][0][ax[0]])
    for i in onp.ndindex(*idx.shape[:-1]):
        v = ex(idx[i + (j,)]) - ROW * c
        # out-of-range normalisation (i<0 -> i+n) leaves indicators on #row >= 0: they are decided
        v = _decide_row(v)
        if v.const() is None:
            raise Unsupported('index mixes batch rows')
        idx[i + (j,)] = v
    return idx


def _decide_row(v):
    for k in sorted(v.lts()):
        p = dict(alg.ATOMS[k].data)
        s = alg.sign_of({m: c for m, c in p.items()})
        ks = alg.p_atoms(p)
        if ks <= {list(ROW.num)[0][0][0]} and all(c >= 0 for c in p.values()):
            v = alg.subst_lt_top(v, k, 0)
    return v


def _index_op(prim):
    """gather-like primitives with concrete indices: run them on an array of positions"""
    def f(ctx, ins, p):
        x, idx = ins[0], ins[1]
        idx = _unrow(idx, p, p['dimension_numbers'].start_index_map)
        p = dict(p, slice_sizes=shape1(p['slice_sizes']))
        if is_sym(idx):
            if all(ex(i).const() is not None for i in idx.ravel()):
                idx = onp.array([int(ex(i).const()) for i in idx.ravel()], dtype='int32').reshape(idx.shape)
            else:
                return _sym_gather(x, idx, p)
        x = lift(x)
        pos = jnp.arange(x.size, dtype='int32').reshape(x.shape)
        q = {k: v for k, v in p.items() if not k.startswith('_')}
        q['fill_value'] = -1
        sel = onp.asarray(jax.lax.gather_p.bind(pos, jnp.asarray(idx), **q))
        flat = x.ravel()
        out = onp.empty(sel.shape, dtype=object)
        for i in onp.ndindex(*sel.shape):
            if sel[i] < 0:
                raise Unsupported('out-of-bounds gather')
            out[i] = flat[sel[i]]
        return out
    return f


RULES['gather'] = _index_op('gather')


def _sym_gather(x, idx, p):
    """gather with symbolic indices: enumerate the (small) index domain per index vector"""
    x = lift(x)
    idx = lift(idx)
    d = p['dimension_numbers']
    q = {k: v for k, v in p.items() if not k.startswith('_')}
    q['fill_value'] = -1
    pos = jnp.arange(x.size, dtype='int32').reshape(x.shape)
    doms = [range(x.shape[d.start_index_map[k]]) for k in range(idx.shape[-1])]
    vecs = idx.reshape(-1, idx.shape[-1])
    flat = x.ravel()
    out = None
    # all index vectors independent; out dims of each vector are found by varying one at a time
    combos = list(itertools.product(*doms))
    if len(combos) > 64:
        raise Unsupported('symbolic gather domain too large')
    for c in combos:
        ci = onp.broadcast_to(onp.array(c, dtype='int32'), idx.shape)
        sel = onp.asarray(jax.lax.gather_p.bind(pos, jnp.asarray(ci), **q))
        # which index vector does each output element belong to?
        tag = onp.arange(vecs.shape[0]).reshape(idx.shape[:-1])
        bshape = idx.shape[:-1]
        bdims = [k for k in range(sel.ndim) if k not in d.offset_dims]
        cond = onp.empty(bshape, dtype=object)
        for b in onp.ndindex(*bshape):
            t = alg.ONE
            for k in range(len(c)):
                t = t * alg.eq(idx[b + (k,)], c[k])
            cond[b] = t
        if out is None:
            out = onp.empty(sel.shape, dtype=object)
            for i in onp.ndindex(*sel.shape):
                out[i] = alg.ZERO
        for i in onp.ndindex(*sel.shape):
            b = tuple(i[k] for k in bdims)
            out[i] = out[i] + cond[b] * flat[sel[i]]
    return out


def _scatter(op):
    def f(ctx, ins, p):
        x, idx, upd = ins
        if baxes(p['_in'][0]) or baxes(p['_in'][2]):
            idx = _unrow(idx, p, p['dimension_numbers'].scatter_dims_to_operand_dims)
            if not baxes(p['_in'][0]):
                raise Unsupported('scatter of batch rows')
        if is_sym(idx):
            if all(ex(i).const() is not None for i in idx.ravel()):
                idx = onp.array([int(ex(i).const()) for i in idx.ravel()], dtype='int32').reshape(idx.shape)
            else:
                raise Unsupported('scatter at symbolic indices')
        x, upd = lift(x).copy(), lift(upd)
        # for every update element find its target position: scatter-add of a one-hot probe
        d = {k: v for k, v in p.items() if not k.startswith('_') and k not in ('update_jaxpr', 'update_consts')}
        flatx = x.reshape(-1)
        uf = upd.ravel()
        for n in range(uf.size):
            probe = onp.zeros(uf.size, dtype='float32')
            probe[n] = 1
            hit = onp.asarray(jax.lax.scatter_add(
                jnp.zeros(x.shape), jnp.asarray(idx), jnp.asarray(probe.reshape(upd.shape)),
                d['dimension_numbers'], indices_are_sorted=False, unique_indices=False, mode=d.get('mode')))
            w = onp.flatnonzero(hit.ravel())
            for k in w:
                flatx[k] = op(ex(flatx[k]), ex(uf[n]))
        return flatx.reshape(x.shape)
    return f


RULES['scatter-add'] = _scatter(lambda a, b: a + b)
RULES['scatter_add'] = RULES['scatter-add']
RULES['scatter'] = _scatter(lambda a, b: b)


@rule('sort')
def _(ctx, ins, p):
    raise Unsupported('sort of symbolic values')


RANDOM = {'_uniform': 'uniform', '_gumbel': 'gumbel', '_normal': 'normal', '_normal_real': 'normal'}
GUMBEL_RANGE = (-5, 17)   # float32: -log(-log(u)), u in [tiny, 1)


def _draw(ctx, kind, eqn, ins):
    key = ins[0]
    if is_sym(key):
        raise Unsupported('symbolic rng key')
    shape = eqn.outvars[0].aval.shape
    try:
        key = jax.random.key_data(key)
    except Exception:
        pass
    if kind == 'uniform':
        lo, hi = ins[1], ins[2]
        u = ctx.fresh('u', key, shape, lo=0, hi=1)
        if is_sym(lo) or is_sym(hi):
            raise Unsupported('symbolic uniform bounds')
        lo, hi = onp.asarray(lo), onp.asarray(hi)
        return emap(lambda a, l, h: l + a * (h - l), u, lo, hi)
    if kind == 'gumbel':
        return ctx.fresh('gumbel', key, shape, *GUMBEL_RANGE)
    return ctx.fresh('normal', key, shape)


CALLS = ('pjit', 'custom_jvp_call', 'closed_call', 'core_call', 'remat', 'remat2', 'checkpoint',
         'custom_vjp_call_jaxpr', 'custom_vjp_call')


def evaluate(jaxpr, consts, args, ctx=None):
    ctx = ctx or Ctx()
    env = {}

    def read(v):
        if isinstance(v, Literal):
            return v.val
        return env[v]

    for v, c in zip(jaxpr.constvars, consts):
        env[v] = c
    assert len(jaxpr.invars) == len(args), (len(jaxpr.invars), len(args))
    for v, a in zip(jaxpr.invars, args):
        env[v] = a
    for eqn in jaxpr.eqns:
        ins = [read(v) for v in eqn.invars]
        bad = next((i for i in ins if isinstance(i, Poison)), None)
        if bad is not None and eqn.primitive.name not in CALLS:
            outs = [bad] * len(eqn.outvars)
        else:
            try:
                outs = eval_eqn(ctx, eqn, ins)
            except Unsupported as e:
                outs = [Poison(str(e))] * len(eqn.outvars)
        for v, o in zip(eqn.outvars, outs):
            env[v] = o
    return [read(v) for v in jaxpr.outvars]


def eval_eqn(ctx, eqn, ins):
    name = eqn.primitive.name
    p = eqn.params
    if name == 'pjit':
        nm = p['name']
        if nm in RANDOM and not any(isinstance(i, Poison) for i in ins):
            return [_draw(ctx, RANDOM[nm], eqn, ins)]
        cj = p['jaxpr']
        return evaluate(cj.jaxpr, cj.consts, ins, ctx)
    if name in ('custom_jvp_call', 'closed_call', 'core_call', 'remat', 'remat2', 'checkpoint', 'custom_lin'):
        cj = p.get('call_jaxpr') or p.get('jaxpr')
        if hasattr(cj, 'consts'):
            return evaluate(cj.jaxpr, cj.consts, ins, ctx)
        return evaluate(cj, (), ins, ctx)
    if name in ('custom_vjp_call_jaxpr', 'custom_vjp_call'):
        cj = p.get('fun_jaxpr') or p.get('call_jaxpr')
        return evaluate(cj.jaxpr, cj.consts, ins, ctx)
    if name == 'cond':
        return _cond(ctx, eqn, ins)
    poly = any(is_dim(d) for v in list(eqn.outvars) + list(eqn.invars) for d in getattr(v.aval, 'shape', ()))
    if name == 'dim_as_value':
        d = p['dim']
        if not is_dim(d):
            return [onp.asarray(int(d))]
        v1, v2, v3 = (int(d.evaluate({'b': k})) for k in (1, 2, 3))
        if v3 - v2 != v2 - v1:
            raise Unsupported('nonlinear dimension value')
        r = onp.empty((), dtype=object)
        r[()] = alg.BATCH * (v2 - v1) + (2 * v1 - v2)
        return [r]
    if not any(is_sym(i) for i in ins) and not poly:
        subfuns, bp = eqn.primitive.get_bind_params(p)
        out = eqn.primitive.bind(*subfuns, *[_arr(i) for i in ins], **bp)
        return list(out) if eqn.primitive.multiple_results else [out]
    if name == 'scan':
        if poly:
            raise Unsupported('scan over batched arrays')
        return _scan(ctx, eqn, ins)
    r = RULES.get(name)
    if r is None:
        raise Unsupported('jax primitive %r on symbolic data' % name)
    q = dict(p)
    q['_dtype'] = eqn.outvars[0].aval.dtype if eqn.outvars else None
    q['_in'] = [getattr(v.aval, 'shape', ()) for v in eqn.invars]
    q['_out'] = getattr(eqn.outvars[0].aval, 'shape', ())
    for sh in q['_in'] + [q['_out']]:
        baxes(sh)
    out = r(ctx, ins, q)
    if onp.shape(out) != shape1(q['_out']):
        raise Unsupported('internal: shape %s vs %s in %s' % (onp.shape(out), q['_out'], name))
    return [out]


def _arr(i):
    return i


def _cond(ctx, eqn, ins):
    idx, *ops = ins
    br = eqn.params['branches']
    if is_sym(idx):
        i = ex(idx[()])
        c = i.const()
        if c is None:
            outs = [evaluate(b.jaxpr, b.consts, ops, ctx) for b in br]
            res = outs[-1]
            for k in range(len(br) - 2, -1, -1):
                cnd = alg.eq(i, k)
                res = [emap(lambda a, b: alg.ite(cnd, a, b), x, y) for x, y in zip(outs[k], res)]
            return res
        idx = int(c)
    b = br[int(min(max(int(onp.asarray(idx)), 0), len(br) - 1))]
    return evaluate(b.jaxpr, b.consts, ops, ctx)


def _scan(ctx, eqn, ins):
    p = eqn.params
    nc, nk, L = p['num_consts'], p['num_carry'], p['length']
    consts, carry, xs = ins[:nc], ins[nc:nc + nk], ins[nc + nk:]
    ys = []
    order = range(L - 1, -1, -1) if p['reverse'] else range(L)
    for i in order:
        out = evaluate(p['jaxpr'].jaxpr, p['jaxpr'].consts, list(consts) + list(carry) + [x[i] for x in xs], ctx)
        carry = out[:nk]
        ys.append(out[nk:])
    if p['reverse']:
        ys.reverse()
    res = []
    for k in range(len(ys[0]) if ys else 0):
        res.append(onp.stack([lift(y[k]) for y in ys]))
    return list(carry) + res


# ---------------------------------------------------------------- function approximators
# rowfn: an arbitrary smooth function of one batch row (and of the parameters), uninterpreted in proofs.

from jax.interpreters import mlir, ad, batching   # noqa: E402

rowfn_p = _core.Primitive('rowfn')


def _seed(name):
    return sum((i + 1) * ord(c) for i, c in enumerate(name)) % 97


def _coef(sd, i, k):
    return 0.6 + 0.37 * ((sd + 3 * i + 2 * k) % 5), 0.11 * (((sd + i + k) % 7) - 3)


def rowfn_value(name, k, xs, deriv=()):
    """a fixed concrete function used when the code is executed for real (replay / search), and its derivatives"""
    import math
    sd = _seed(name)
    ph = 0.31 * sd + 0.9 * k
    lin = 0.0
    for i, x in enumerate(xs):
        c, l = _coef(sd, i, k)
        ph = ph + c * x
        lin = lin + l * x
    m = len(deriv)
    v = 1.5 * (math.sin(ph), math.cos(ph), -math.sin(ph), -math.cos(ph))[m % 4]
    for i in deriv:
        v *= _coef(sd, i, k)[0]
    return v + (lin if m == 0 else _coef(sd, deriv[0], k)[1] if m == 1 else 0.0)


def _rowfn_abs(x, *, name, n, deriv):
    return _core.ShapedArray((x.shape[0], n) + (x.shape[1],) * deriv, x.dtype)


def _rowfn_np(x, *, name, n, deriv):
    """the concrete function, computed outside XLA (so that fusion cannot recompute it with other rounding)"""
    x = onp.asarray(x, dtype='float64')
    sd = _seed(name)
    D = x.shape[-1]
    outs = []
    i = onp.arange(D)
    for k in range(n):
        c, l = _coef(sd, i, k)
        ph = 0.31 * sd + 0.9 * k + x @ c
        if deriv == 0:
            outs.append(1.5 * onp.sin(ph) + x @ l)
        elif deriv == 1:
            outs.append(1.5 * onp.cos(ph)[:, None] * c + l)
        else:
            outs.append(-1.5 * onp.sin(ph)[:, None, None] * c[:, None] * c)
    return onp.stack(outs, axis=1).astype('float32')


def _rowfn_cb(x, **kw):
    ab = _rowfn_abs(x, **kw)
    return jax.pure_callback(lambda y: _rowfn_np(y, **kw), jax.ShapeDtypeStruct(ab.shape, jnp.float32), x)


rowfn_p.def_abstract_eval(_rowfn_abs)
rowfn_p.def_impl(lambda x, **kw: jnp.asarray(_rowfn_np(x, **kw)))
mlir.register_lowering(rowfn_p, mlir.lower_fun(_rowfn_cb, multiple_results=False))


def _rowfn_batch(args, dims, **kw):
    x, = args
    d, = dims
    x = jnp.moveaxis(x, d, 0)
    if baxes(x.shape) == [1] or baxes(x.shape) == (1,):        # keep the symbolic batch axis outermost
        x = jnp.swapaxes(x, 0, 1)
        y = rowfn_p.bind(x.reshape(x.shape[0] * x.shape[1], x.shape[2]), **kw)
        return jnp.swapaxes(y.reshape((x.shape[0], x.shape[1]) + y.shape[1:]), 0, 1), 0
    y = rowfn_p.bind(x.reshape(x.shape[0] * x.shape[1], x.shape[2]), **kw)
    return y.reshape((x.shape[0], x.shape[1]) + y.shape[1:]), 0


batching.primitive_batchers[rowfn_p] = _rowfn_batch


def _rowfn_jvp(primals, tangents, *, name, n, deriv):
    x, = primals
    t, = tangents
    y = rowfn_p.bind(x, name=name, n=n, deriv=deriv)
    if type(t) is ad.Zero:
        return y, ad.Zero.from_value(y)
    if deriv >= 2:
        raise NotImplementedError('third derivative of rowfn')
    J = rowfn_p.bind(x, name=name, n=n, deriv=deriv + 1)
    return y, jnp.einsum('bki,bi->bk' if deriv == 0 else 'bkji,bi->bkj', J, t)


ad.primitive_jvps[rowfn_p] = _rowfn_jvp


def rowfn(name, n, *inputs):
    """inputs: arrays with a leading batch axis (or 0-d parameters, broadcast to every row)"""
    batch = [x for x in inputs if jnp.ndim(x) > 0]
    nb = batch[0].shape[0]
    cols = []
    for x in inputs:
        x = jnp.asarray(x)
        if x.ndim == 0:
            cols.append(jnp.broadcast_to(x, (nb, 1)))
        elif x.ndim == 1:
            cols.append(x[:, None])
        else:
            cols.append(x.reshape(nb, int(onp.prod(x.shape[1:]))))
    return rowfn_p.bind(jnp.concatenate([c.astype('float32') for c in cols], axis=1), name=name, n=n, deriv=0)


@rule('rowfn')
def _(ctx, ins, p):
    x = lift(ins[0])
    out = onp.empty(shape1(p['_out']), dtype=object)
    for b in range(x.shape[0]):
        row = [x[b, i] for i in range(x.shape[1])]
        for k in range(p['n']):
            for ds in onp.ndindex(*(x.shape[1],) * p['deriv']):
                out[(b, k) + ds] = alg.fn('%s.%d%s' % (p['name'], k, ''.join("'%d" % i for i in sorted(ds))), *row)
    return out


def fn_env(fname):
    """concrete meaning of the uninterpreted function symbols"""
    nm, k = fname.rsplit('.', 1)
    k, *ds = k.split("'")
    ds = tuple(int(i) for i in ds)
    return lambda *xs: rowfn_value(nm, int(k), xs, ds)


# ---------------------------------------------------------------- front door

class SymArg:
    """a symbolic input: object array of Ex; dimension B is the symbolic batch size"""

    def __init__(self, name, shape, dtype='float32', gen=None, **kw):
        self.name, self.shape, self.dtype = name, tuple(shape), onp.dtype(dtype)
        self.row = bool(baxes(self.shape))
        self.gen = gen
        s1 = shape1(self.shape)
        arr = onp.empty(s1, dtype=object)
        self.names = onp.empty(s1, dtype=object)
        if onp.issubdtype(self.dtype, onp.integer):
            kw.setdefault('integer', True)
        for i in onp.ndindex(*s1):
            self.names[i] = name + (str(list(i)) if i else '')
            arr[i] = alg.var(self.names[i], row=self.row, **kw)
        self.arr = arr
        self.kw = kw

    def __getitem__(self, i):
        return self.arr[i]


def leaf(x):
    return isinstance(x, SymArg)


def run(fun, args):
    """Trace fun (real code) on `args` (pytrees with SymArg leaves) and return the symbolic outputs as a pytree.

    Non-SymArg leaves are passed as closed-over constants."""
    leaves, treedef = jax.tree_util.tree_flatten(args, is_leaf=leaf)
    sym_pos = [i for i, l in enumerate(leaves) if isinstance(l, SymArg)]

    def g(*syms):
        ls = list(leaves)
        for i, s in zip(sym_pos, syms):
            ls[i] = s
        return fun(*jax.tree_util.tree_unflatten(treedef, ls))

    specs = [jax.ShapeDtypeStruct(leaves[i].shape, leaves[i].dtype) for i in sym_pos]
    try:
        closed, out_shape = jax.make_jaxpr(g, return_shape=True)(*specs)
    except shape_poly.InconclusiveDimensionOperation as e:
        raise Unsupported('shape-polymorphic tracing: %s' % str(e)[:200])
    ctx = Ctx()
    outs = evaluate(closed.jaxpr, closed.consts, [leaves[i].arr for i in sym_pos], ctx)
    outs = [o if isinstance(o, Poison) else lift(o) for o in outs]
    out_tree = jax.tree_util.tree_structure(out_shape)
    res = jax.tree_util.tree_unflatten(out_tree, outs)
    return res, ctx, closed


def make_env(args, rnd, nrows=3, fixed=None):
    """random concrete environment for the SymArg leaves: (env with '#rows')"""
    fixed = fixed or {}
    env = {}
    rows = [dict() for _ in range(nrows)]
    for l in jax.tree_util.tree_leaves(args, is_leaf=leaf):
        if not isinstance(l, SymArg):
            continue
        for i in onp.ndindex(*l.names.shape):
            nm = l.names[i]
            if l.row:
                for b in range(nrows):
                    rows[b][nm] = _gen(l, rnd)
                    if b == 0 and nm in fixed:
                        rows[b][nm] = fixed[nm]
            else:
                env[nm] = fixed.get(nm, None)
                if env[nm] is None:
                    env[nm] = _gen(l, rnd)
    env['#rows'] = rows
    env['#batch'] = nrows
    return env


def _gen(l, rnd):
    if l.gen is not None:
        v = l.gen(rnd)
    elif onp.issubdtype(l.dtype, onp.integer):
        v = int(rnd.randint(int(l.kw.get('lo', 0)), int(l.kw.get('hi', 3)) + 1))
    else:
        v = rnd.choice([0.0, 1.0, -1.0, 0.5]) if rnd.rand() < 0.15 else rnd.randn() * rnd.choice([0.3, 1.0, 4.0])
        if l.kw.get('positive'):
            v = abs(v) + 1e-2
        lo, hi = l.kw.get('lo'), l.kw.get('hi')
        if lo is not None and hi is not None:
            v = float(lo) + (float(hi) - float(lo)) * (rnd.rand() if rnd.rand() < 0.8 else rnd.choice([0., 1.]))
        elif lo is not None:
            v = max(v, float(lo))
        elif hi is not None:
            v = min(v, float(hi))
    return float(onp.asarray(v, dtype=l.dtype)) if not onp.issubdtype(l.dtype, onp.integer) else int(v)


def concretize(args, env):
    rows = env['#rows']
    n = len(rows)

    def conc(l):
        if not isinstance(l, SymArg):
            return l
        ax = baxes(l.shape)
        if not ax:
            a = onp.empty(l.names.shape, dtype=l.dtype)
            for i in onp.ndindex(*a.shape):
                a[i] = env[l.names[i]]
            return jnp.asarray(a)
        parts = []
        for b in range(n):
            a = onp.empty(l.names.shape, dtype=l.dtype)
            for i in onp.ndindex(*a.shape):
                a[i] = rows[b][l.names[i]]
            parts.append(a)
        return jnp.asarray(onp.concatenate(parts, axis=ax[0]))
    return jax.tree_util.tree_map(conc, args, is_leaf=leaf)
