"""The checking harness: contracts on real functions, obligations, replay, evidence, exit status."""
from __future__ import annotations
import json
import os
import sys
import time
import traceback
import zlib
import numpy as onp
from . import alg, prover
from .alg import Unsupported, ex

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')


def seed():
    try:
        return int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        return 1


def tier():
    t = os.environ.get('VERIF_TIER', 'quick')
    return t if t in ('quick', 'thorough') else 'quick'


class Violation(Exception):
    """a concrete failing input of the real code"""

    def __init__(self, what, data=None):
        super().__init__(what)
        self.what, self.data = what, data


class Check:
    def __init__(self, pid, title=''):
        self.pid = pid
        self.title = title
        self.t0 = time.time()
        self.obligations = []        # dict(name, status, by, s, detail)
        self.functions = {}          # function -> how it is covered
        self.assumptions = []
        self.trusted = []
        self.bounded = []            # (name, bound, evaluations)
        self.violations = []         # dict(what, replay data, input_found)
        self.notes = []
        self.evals = 0
        self.rnd = onp.random.RandomState(seed())
        self.thorough = tier() == 'thorough'
        self.budget = float(os.environ.get('VERIF_BUDGET', '2400' if self.thorough else '420'))
        self.known = load_known(pid)
        self.known_hit = []
        self.errors = []
        self.job_times = {}
        self.hung, self.current = False, None

    # ---------------------------------------------------------------- workers
    FIELDS = ('obligations', 'assumptions', 'trusted', 'bounded', 'violations', 'notes', 'known_hit', 'errors')

    def state(self):
        d = {k: getattr(self, k) for k in self.FIELDS}
        d.update(functions=self.functions, evals=self.evals, job_times=self.job_times, stats=dict(prover.STATS))
        for v in d['violations']:
            v['data'] = _js(v['data'])
        return d

    def merge(self, d):
        for k in self.FIELDS:
            tgt = getattr(self, k)
            for x in d[k]:
                if k in ('assumptions', 'trusted', 'notes', 'known_hit') and x in tgt:
                    continue
                tgt.append(x)
        for n, h in d['functions'].items():
            self.functions.setdefault(n, h)
        self.evals += d['evals']
        self.job_times.update(d['job_times'])
        for k, v in d['stats'].items():
            prover.STATS[k] = prover.STATS.get(k, 0) + v

    # ---------------------------------------------------------------- bookkeeping
    def time_left(self):
        return self.budget - (time.time() - self.t0)

    def fn(self, *names, how='contract'):
        for n in names:
            self.functions.setdefault(n, how)

    def assume(self, *txt):
        for t in txt:
            if t not in self.assumptions:
                self.assumptions.append(t)

    def trust(self, *txt):
        for t in txt:
            if t not in self.trusted:
                self.trusted.append(t)

    def record(self, name, status, by='', s=0.0, detail='', paths=1):
        self.obligations.append(dict(name=name, status=status, by=by, s=round(s, 4), detail=detail[:3000], paths=paths))

    def violate(self, name, what, data=None, input_found=True, known_key=None):
        if known_key is not None and known_key in self.known:
            if known_key not in self.known_hit:
                self.known_hit.append(known_key)
            return
        self.violations.append(dict(obligation=name, what=what, data=data, input_found=input_found))

    # ---------------------------------------------------------------- concrete contracts (bounded stand-ins, searches)
    def concrete(self, name, fn, cases, bound='', key=None):
        """evaluate a contract on concrete inputs of the real code; fn(case) returns None or a message"""
        n = 0
        t0 = time.time()
        for c in cases:
            if self.time_left() < 5:
                break
            n += 1
            self.current = (name, c)
            try:
                msg = fn(c)
            except Violation as v:
                msg = v.what
            except Exception as e:
                msg = 'unexpected %s: %s' % (type(e).__name__, str(e)[:300])
                tb = traceback.format_exc(limit=-4)
                msg += '\n' + tb[-1200:]
            if msg:
                k = key(c, msg) if key else None
                before = len(self.violations)
                self.violate(name, msg, data=dict(case=_js(c)), known_key=k)
                if len(self.violations) > before:
                    break
        self.current = None
        self.evals += n
        self.bounded.append(dict(name=name, bound=bound, evaluations=n, s=round(time.time() - t0, 3)))
        return n

    # ---------------------------------------------------------------- finish
    def finish(self):
        wall = time.time() - self.t0
        n = len(self.obligations)
        disch = sum(o['status'] == 'proved' for o in self.obligations)
        undec = [o for o in self.obligations if o['status'] not in ('proved', 'violated')]
        by = {}
        for o in self.obligations:
            if o['status'] == 'proved':
                by[o['by'] or '?'] = by.get(o['by'] or '?', 0) + 1
        ev = dict(
            property=self.pid, tier=tier(), seed=seed(), level='proof', wall_s=round(wall, 3),
            violations=len(self.violations),
            coverage=dict(
                obligations=n, discharged=disch,
                checker_cmd='./py run.py %s' % self.pid,
                trusted_base=self.trusted or ['see assumptions'],
                functions_under_contract=self.functions,
                discharged_by=by,
                undecided=[dict(name=o['name'], status=o['status'], detail=o['detail'][:400]) for o in undec],
                paths=sum(o.get('paths', 1) for o in self.obligations),
                solver=dict(z3_queries=prover.STATS['z3_queries'], z3_seconds=round(prover.STATS['z3_s'], 3)),
                obligation_list=[dict(name=o['name'], status=o['status'], by=o['by'], s=o['s']) for o in self.obligations],
                bounded_standins=self.bounded, concrete_evaluations=self.evals,
                known_findings=self.known_hit, notes=self.notes, job_seconds=self.job_times,
            ),
            assumptions=self.assumptions,
        )
        d = os.path.join(VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        for k in self.known_hit:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, self.known[k]))
        print('%s: %d obligations, %d discharged, %d undecided; %d concrete contract evaluations; %.1f s (z3 %.1f s)' % (
            self.pid, n, disch, len(undec), self.evals, wall, prover.STATS['z3_s']))
        for o in undec:
            print('  undecided (bounded stand-in only): %s [%s] %s' % (o['name'], o['status'], o['detail'][:200]))
        for e in self.errors:
            print('ERROR in the checking machinery: %s' % e)
        if self.errors and not self.violations and n + self.evals == 0:
            return 3
        if not self.violations and n + self.evals == 0:
            print('ERROR: nothing was checked')
            return 3
        if self.violations:
            path = os.path.join(d, self.pid + '.replay.json')
            with open(path, 'w') as f:
                json.dump(dict(property=self.pid, violations=self.violations,
                               rerun='cd %s && ./py run.py %s' % (VERIF, self.pid)), f, indent=1, default=str)
            for v in self.violations[:5]:
                print('  FAILED %s: %s' % (v['obligation'], v['what'][:600]))
            found = any(v['input_found'] for v in self.violations)
            print('VIOLATION property=%s replay=%s%s' % (self.pid, path, '' if found else ' no-failing-input-found'))
            return 1
        return 0


def load_known(pid):
    out = {}
    try:
        with open(os.path.join(VERIF, 'known_findings.json')) as f:
            for k in json.load(f).get('findings', []):
                if k['property'] == pid:
                    out[k['key']] = k['what']
    except FileNotFoundError:
        pass
    return out


def _js(x):
    if isinstance(x, onp.ndarray):
        return x.tolist()
    if isinstance(x, (onp.generic,)):
        return x.item()
    if isinstance(x, dict):
        return {str(k): _js(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_js(v) for v in x]
    if isinstance(x, (int, float, str, bool, type(None))):
        return x
    return repr(x)[:500]


# ---------------------------------------------------------------- contracts on traced (JAX) functions

def close(a, b, scale):
    if onp.isnan(a) and onp.isnan(b):
        return True
    if not (onp.isfinite(a) and onp.isfinite(b)):
        return a == b
    return abs(a - b) <= 2e-3 * (1 + abs(b)) * 1.0 + 3e-6 * scale


def jax_contract(ck, name, fun, args, post, hyps=(), pre=None, ntests=None, nrows=3, max_paths=3000,
                 timeout_ms=6000, deadline_s=60, funcs=(), tol=None, gen_env=None, real=None, syntactic=False):
    """Contract on real code:  for all args satisfying hyps:  post(fun(*args)).

    fun     : runs the real code (public API of /repo) on the arguments; returns a pytree of arrays
    post    : (out, args) -> list of (label, lhs, rhs)   equality obligations over alg expressions
    hyps    : list of (Ex, rel): preconditions  Ex rel 0
    real    : (fun, post) without stubs, when fun/post replace callees by their (uninterpreted) contracts: used for the
              replay and the search; a failed modular obligation that no real input confirms is reported as undecided
    """
    from . import symjax as sj
    import jax
    ck.fn(*funcs)
    t0 = time.time()
    leaves_ = sj.leaf
    sargs = jax.tree_util.tree_map(lambda l: l.arr if isinstance(l, sj.SymArg) else l, args, is_leaf=leaves_)
    res = {}       # label -> [status, by, detail, env, npaths]
    order = []
    ctx = closed = None
    err = None
    try:
        out_sym, ctx, closed, evalr = trace_once(fun, args)
        deadline = time.time() + min(deadline_s, max(5.0, ck.time_left()))

        def body(o):
            out = evalr()
            obs = post(out, sargs)
            for label, lhs, rhs in obs:
                if label not in res:
                    res[label] = ['proved', {}, '', None, 0, 0.0]
                    order.append(label)
                r = res[label]
                r[4] += 1
                if r[0] == 'refuted':
                    continue
                t1 = time.time()
                try:
                    oc = prover.prove_path(ex(lhs) - ex(rhs), o, timeout_ms)
                except Unsupported as e:
                    oc = prover.Outcome('unsupported', '', None, str(e))
                r[5] += time.time() - t1
                if oc.status == 'proved':
                    r[1][oc.by] = r[1].get(oc.by, 0) + 1
                else:
                    exact = getattr(oc, 'path', '') if oc.status == 'refuted' else ''
                    r[0], r[2], r[3] = oc.status, oc.detail, oc.env
                    r.append(exact)
        done = False
        if syntactic:
            # conditions kept as indicators: both sides have the same exact normal form
            try:
                obs = list(post(evalr(), sargs))
                done = all(ex(l_).key == ex(r_).key for _, l_, r_ in obs)
            except (Unsupported, ZeroDivisionError):
                pass
            if done:
                for label, _, _ in obs:
                    if label not in res:
                        order.append(label)
                    res[label] = ['proved', {'normal-form': 1}, '', None, 1, 0.0]
        if not done:
            npaths = prover.explore(body, hyps, max_paths=max_paths, deadline=deadline)
        if not order:
            err = 'no obligations (no feasible path: contradictory precondition?)'
    except (Unsupported, RecursionError) as e:
        err = '%s: %s' % (type(e).__name__, e)
    except ZeroDivisionError as e:
        err = 'symbolic division by zero: %s' % e
    if err is not None:
        for l in order:
            if res[l][0] == 'proved':
                res[l][0], res[l][2] = 'unsupported', err
        if not order:
            order.append('*')
            res['*'] = ['unsupported', {}, err, None, 0, 0.0]
    wj = getattr(ctx, 'watch', None)
    leak = None
    if wj is not None and wj.n:
        order.append(PURE)
        res[PURE] = ['proved', {'free variables of the traced functions': wj.n}, '', None, wj.n, 0.0]
        if wj.leaks:
            rf, rp = real or (fun, post)
            try:
                c2 = ctx
                if real is not None:
                    c2 = sj.Ctx()
                    c2.out_axes = infer_axes(rf, args, onp.random.RandomState(1))
                leak = search_history(ck, name, rf, args, rp, () if real is not None else hyps, c2, nrows, tol, gen_env)
            except Exception as e:
                ck.notes.append('%s: search for a failing history: %s: %s' % (name, type(e).__name__, str(e)[:200]))
            res[PURE][0], res[PURE][2] = 'unknown', 'reads changing state: %s' % ', '.join(wj.leaks[:3])
    bad = [l for l in order if res[l][0] != 'proved']
    # --- replay counter-models on the real code, then search
    found = None
    fixed_envs = [res[l][3] for l in bad if res[l][0] == 'refuted' and res[l][3]]
    nt = ntests if ntests is not None else (60 if ck.thorough else 12)
    if bad:
        nt = max(nt, 60)
    rfun, rpost = real or (fun, post)
    if real is not None:
        ctx = None
    found, nev = search(ck, name, rfun, args, rpost, () if real is not None else hyps, ctx, fixed_envs, nt, nrows, tol, gen_env)
    ck.evals += nev
    if found is None and leak is not None:
        res[PURE][0] = 'refuted'
        found = (PURE, '%s (%s): used once, then again after its state has changed: %s' % (leak[0], res[PURE][2], leak[1]), leak[2])
    for l in order:
        r = res[l]
        st = r[0]
        by = '+'.join(sorted(r[1])) if r[1] else ''
        if found is not None and (found[0] == l or st == 'refuted'):
            st = 'violated'
        ck.record('%s/%s' % (name, l), st, by, r[5], r[2], r[4])
    if found is not None:
        l, msg, env = found
        ck.violate('%s/%s' % (name, l), msg, data=dict(inputs=_js(env)))
    else:
        for l in bad:
            if real is None and res[l][0] == 'refuted' and (len(res[l]) > 6 and res[l][6] == 'exact'):
                ck.violate('%s/%s' % (name, l), 'obligation refuted by z3: %s; model %s' % (res[l][2][:800], res[l][3]),
                           data=dict(model=_js(res[l][3])), input_found=False)
        if bad and not any(v['obligation'].startswith(name + '/') for v in ck.violations):
            ck.bounded.append(dict(name=name, bound='%d random inputs, batch sizes 1..%d' % (nev, nrows + 1),
                                   evaluations=nev, s=round(time.time() - t0, 2)))
    return not bad and found is None


PURE = 'compiled functions read nothing but their arguments'


def depends(t):
    """does this traced value depend on the symbolic inputs (or is it a constant that was merely computed during tracing)?"""
    try:
        fr = t._trace.main.jaxpr_stack[-1]
        ins = set(map(id, fr.invars))
        prod = {id(o): e for e in fr.eqns for o in e.outvars}
        todo, seen = [fr.tracer_to_var[id(t)]], set()
        while todo:
            v = todo.pop()
            if id(v) in seen:
                continue
            seen.add(id(v))
            if id(v) in ins:
                return True
            if id(v) in prod:
                todo += [x for x in prod[id(v)].invars if not hasattr(x, 'val')]
        return False
    except (AttributeError, KeyError, IndexError):
        return True


class watch_jit:
    """free variables of compiled functions: a symbolic value that reaches a compiled function other than through its arguments would be
    frozen at its first call"""

    def __enter__(self):
        import jax
        from coax.utils._jit import JittedFunc
        self.leaks, self.n, self.busy, self.cls, self.orig = [], 0, False, JittedFunc, JittedFunc.__call__
        w = self

        def call(f, *a, **k):
            if w.busy:
                return w.orig(f, *a, **k)
            w.busy = True
            try:
                cj = jax.make_jaxpr(f.func, static_argnums=f.static_argnums)(*a, **k)
                w.n += 1
                if any(isinstance(c, jax.core.Tracer) and depends(c) for c in cj.consts):
                    w.leaks.append(getattr(f.func, '__qualname__', repr(f)))
            except Exception:
                pass
            finally:
                w.busy = False
            w.busy = True
            try:
                return w.orig(f, *a, **k)
            finally:
                w.busy = False
        JittedFunc.__call__ = call
        return self

    def __exit__(self, *a):
        self.cls.__call__ = self.orig


class reuse_jit:
    """the k-th compiled function made within the block is the k-th one of `pool` (compiled by earlier calls); new ones are added to `made`"""

    def __init__(self, pool=None):
        self.pool, self.made = pool, []

    def __enter__(self):
        from coax.utils._jit import JittedFunc
        self.cls, self.orig = JittedFunc, JittedFunc._init_jitted_func
        w = self

        def init(f):
            w.orig(f)
            if w.pool is not None and len(w.made) < len(w.pool):
                f._jitted_func = w.pool[len(w.made)]
            w.made.append(f._jitted_func)
        JittedFunc._init_jitted_func = init
        return self

    def __exit__(self, *a):
        self.cls._init_jitted_func = self.orig


def search_history(ck, name, fun, args, post, hyps, ctx, nrows, tol, gen_env):
    """use, change the state, use again: the second use must obey the contract"""
    from . import symjax as sj
    rnd = onp.random.RandomState((seed() * 7919 + zlib.crc32(name.encode())) % (2 ** 31))
    pool = None
    for k in range(12):
        env = sj.make_env(args, rnd, nrows, None)
        if gen_env is not None:
            gen_env(env, rnd)
        if ctx is not None:
            genv, rowsenv = ctx.draw_values(nrows)
            env.update(genv)
            for a, b in zip(env['#rows'], rowsenv):
                a.update(b)
        if not _pre_ok(hyps, env):
            continue
        try:
            with reuse_jit(pool) as r:
                out = fun(*sj.concretize(args, env))
        except Exception:
            return None
        if pool is None:
            pool = r.made
            continue
        m = compare(out, args, post, env, ctx, tol)
        if m is not None and compare(fun(*sj.concretize(args, env)), args, post, env, ctx, tol) is None:
            return m[0], m[1], env
    return None


def trace_once(fun, args):
    """trace the real code; returns (None, ctx, closed, evaluator) — the evaluator re-runs under the current oracle"""
    from . import symjax as sj
    import jax
    leaves, treedef = jax.tree_util.tree_flatten(args, is_leaf=sj.leaf)
    sym_pos = [i for i, l in enumerate(leaves) if isinstance(l, sj.SymArg)]

    def g(*syms):
        ls = list(leaves)
        for i, s in zip(sym_pos, syms):
            ls[i] = s
        return fun(*jax.tree_util.tree_unflatten(treedef, ls))

    specs = [jax.ShapeDtypeStruct(leaves[i].shape, leaves[i].dtype) for i in sym_pos]
    try:
        with watch_jit() as wj:
            closed, out_shape = jax.make_jaxpr(g, return_shape=True)(*specs)
    except Exception as e:
        raise Unsupported('tracing: %s: %s' % (type(e).__name__, str(e)[:300]))
    jaxpr = closed.jaxpr
    try:
        from jax._src.interpreters import partial_eval as pe
        jaxpr, used = pe.dce_jaxpr(jaxpr, [True] * len(jaxpr.outvars), instantiate=True)
    except Exception:
        pass
    out_tree = jax.tree_util.tree_structure(out_shape)
    ctx = sj.Ctx()
    ctx.watch = wj
    ctx.out_axes = [(sj.baxes(a.shape)[0] if sj.baxes(a.shape) else None) for a in closed.out_avals]

    def evalr():
        outs = sj.evaluate(jaxpr, closed.consts, [leaves[i].arr for i in sym_pos], ctx)
        outs = [o if isinstance(o, sj.Poison) else sj.lift(o) for o in outs]
        return jax.tree_util.tree_unflatten(out_tree, outs)
    return None, ctx, closed, evalr


def search(ck, name, fun, args, post, hyps, ctx, fixed_envs, ntests, nrows, tol, gen_env):
    """directed + random search for an input on which the real code breaks the contract"""
    from . import symjax as sj
    import jax
    rnd = onp.random.RandomState((seed() * 7919 + zlib.crc32(name.encode())) % (2 ** 31))
    n = 0
    if ctx is None:
        ctx = sj.Ctx()
        try:
            ctx.out_axes = infer_axes(fun, args, rnd)
        except Exception as e:
            return ('*', 'real code raised %s: %s' % (type(e).__name__, str(e)[:300]), {}), 1
    todo = [(f, nrows) for f in fixed_envs for _ in range(3)] + [(None, (nrows, 1)[k % 2] if k != 2 else nrows + 1) for k in range(ntests)]
    t0 = time.time()
    jfun = None
    for fixed, rows in todo:
        if time.time() - t0 > (60 if fixed_envs or ck.thorough else 25) or ck.time_left() < 3:
            break
        env = sj.make_env(args, rnd, rows, fixed)
        if gen_env is not None and fixed is None:
            gen_env(env, rnd)
        if ctx is not None:
            genv, rowsenv = ctx.draw_values(rows)
            env.update(genv)
            for a, b in zip(env['#rows'], rowsenv):
                a.update(b)
        if not _pre_ok(hyps, env):
            continue
        n += 1
        try:
            call = fun
            if n > 3 and not fixed:
                if jfun is None:
                    jfun = jitted(fun, args)
                call = jfun or fun
            if call is jfun:
                try:
                    out = call(*sj.concretize(args, env))
                except Exception:
                    jfun = False
                    out = fun(*sj.concretize(args, env))
            else:
                out = call(*sj.concretize(args, env))
        except Exception as e:
            return ('*', 'real code raised %s: %s' % (type(e).__name__, str(e)[:300]), env), n
        m = compare(out, args, post, env, ctx, tol)
        if m is not None:
            return (m[0], m[1], env), n
    return None, n


def jitted(fun, args):
    """the same real code, compiled once per batch size (symbolic arguments traced, the rest closed over)"""
    from . import symjax as sj
    import jax
    leaves0, treedef = jax.tree_util.tree_flatten(args, is_leaf=sj.leaf)
    pos = [i for i, l in enumerate(leaves0) if isinstance(l, sj.SymArg)]

    @jax.jit
    def g(*dyn):
        ls = list(leaves0)
        for i, d in zip(pos, dyn):
            ls[i] = d
        return fun(*jax.tree_util.tree_unflatten(treedef, ls))

    def call(*cargs):
        ls = jax.tree_util.tree_leaves(cargs, is_leaf=lambda x: x is None or hasattr(x, 'dtype'))
        return g(*[ls[i] for i in pos])
    return call


class _FnEnv(dict):
    def __missing__(self, k):
        from . import symjax as sj
        v = sj.fn_env(k)
        self[k] = v
        return v


def _full_env(env, row=None):
    e = _FnEnv(env)
    if row is not None:
        e.update(row)
    e['#batch'] = len(env['#rows'])
    e['#rows'] = [_FnEnv({**{k: v for k, v in env.items() if k != '#rows'}, **r}) for r in env['#rows']]
    return e


def _pre_ok(hyps, env):
    for e, rel in hyps:
        rows = env['#rows'] if alg.ex_row(e) else [None]
        for r in rows:
            v = alg.evalf(e, _full_env(env, r))
            if not (v <= 1e-9 if rel == '<=' else v < -1e-6 if rel == '<' else abs(v) > 1e-4 if rel == '!=' else abs(v) < 1e-6):
                return False
    return True


def compare(out, args, post, env, ctx, tol=None):
    """evaluate the postcondition on concrete outputs; None or (label, message)"""
    from . import symjax as sj
    import jax
    nrows = len(env['#rows'])
    sargs = jax.tree_util.tree_map(lambda l: l.arr if isinstance(l, sj.SymArg) else l, args, is_leaf=sj.leaf)
    tree = jax.tree_util.tree_structure(out)
    kinds = ctx.out_axes
    scale = max([1.0] + [abs(float(v)) for v in env.values() if isinstance(v, (int, float))]
                + [abs(float(v)) for r in env['#rows'] for v in r.values()])
    scale = min(scale, 1e6) ** 2
    outs = [onp.asarray(o) for o in jax.tree_util.tree_leaves(out)]
    prev = None
    for _ in range(3):          # batch sums in the specification: values of the previous pass (nesting depth <= 2)
        sums = []
        res = None
        for b in range(nrows):
            r = _compare_row(b, nrows, env, outs, kinds, tree, post, sargs, prev, sums, tol, scale)
            res = res or r
        if not any(sums):
            return res
        n = min(len(x) for x in sums)
        cur = [sum(x[i] for x in sums) for i in range(n)]
        if cur == prev:
            return res
        prev = cur
    return res


def _compare_row(b, nrows, env, outs, kinds, tree, post, sargs, prev, sums, tol, scale):
    import jax
    e = _full_env(env, env['#rows'][b])
    e.dict_rows = True
    vals = []
    for o, k in zip(outs, kinds):
        if k is not None:
            c = o.shape[k] // nrows
            o = onp.take(o, range(b * c, b * c + c), axis=k)
        a = onp.empty(o.shape, dtype=object)
        for i in onp.ndindex(*o.shape):
            a[i] = OutVal(float(o[i]))
        vals.append(a)
    mine = []
    sums.append(mine)

    def hook(x):
        i = len(mine)
        mine.append(alg.evalf(x, e))
        v = 0.0 if prev is None or i >= len(prev) else prev[i]
        return ex(v)
    old, oldh = alg.ORACLE, alg.BSUM_HOOK
    alg.ORACLE = prover.ConcreteOracle(e)
    alg.BSUM_HOOK = hook
    try:
        env_out = {}
        tree_out = jax.tree_util.tree_unflatten(tree, [_outvars(v, j, env_out) for j, v in enumerate(vals)])
        e.update(env_out)
        obs = post(tree_out, sargs)
        for label, lhs, rhs in obs:
            lhs, rhs = ex(lhs), ex(rhs)
            x, y = alg.evalf(lhs, e), alg.evalf(rhs, e)
            ok = close(x, y, scale) if tol is None else tol(x, y, scale)
            if not ok:
                return label, 'row %d: left side %r, right side %r' % (b, x, y)
    except (OverflowError, ZeroDivisionError, ValueError, Unsupported):
        return None
    finally:
        alg.ORACLE, alg.BSUM_HOOK = old, oldh
    return None


class OutVal(float):
    pass


def _outvars(v, j, env):
    a = onp.empty(v.shape, dtype=object)
    for i in onp.ndindex(*v.shape):
        nm = '#out%d%s' % (j, list(i))
        x = alg.var(nm, row=True)
        env[nm] = float(v[i])
        a[i] = x
    return a


def infer_axes(fun, args, rnd):
    """batch axis of every output leaf, from two concrete runs with different batch sizes"""
    from . import symjax as sj
    import jax
    shp = []
    for rows in (2, 5):
        out = fun(*sj.concretize(args, sj.make_env(args, rnd, rows)))
        shp.append([onp.shape(o) for o in jax.tree_util.tree_leaves(out)])
    res = []
    for a, b in zip(*shp):
        d = [k for k, (x, y) in enumerate(zip(a, b)) if x != y]
        res.append(d[0] if d else None)
    return res
