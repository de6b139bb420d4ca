"""Numeric evaluation of terms and conditions: only used to look for a counterexample of an obligation that was not
discharged (a failed proof without a counterexample is reported as undecided, never as a violation)."""
import math
import os
import time
import numpy as np
import expr as X
from expr import IntE, R, ie, REG, Unsupported


class CannotEval(Exception):
    pass


DEBUG = bool(os.environ.get('DED_NUM'))


class Env:
    def __init__(self, rng, dims):
        self.rng, self.dims = rng, dims
        self.atoms = {}
        self.cache = {}

    # -------- integers
    def i(self, e, bind):
        tot = 0
        for m, c in e.t:
            p = c
            for s in m:
                p = p * self.sym(s, bind)
            tot = tot + p
        return tot

    def sym(self, s, bind):
        if s in bind:
            return bind[s]
        if s in self.dims:
            return self.dims[s]
        if s in REG.ranks:
            if REG.ranks[s] is None:
                raise CannotEval('count')
            q, own, m, n = REG.ranks[s]
            shape = (int(self.i(m, {})), int(self.i(n, {})))
            if self.grid:
                raise CannotEval('rank')
            return int(self.memo(('rank', s), lambda: np.linalg.matrix_rank(self.matrix(q, own, shape, ()))))
        if s in REG.dims:
            raise CannotEval('dimension ' + s)
        if s in REG.ix:
            v = self.free.get(s)
            if v is None:
                d = int(self.i(REG.ix[s], {}))
                if d <= 0:
                    raise CannotEval('empty range')
                v = self.free[s] = int(self.rng.integers(0, d))
            return v
        raise CannotEval('symbol ' + s)

    free = {}

    # -------- reals
    def r(self, r, bind, nd=0):
        """value with nd broadcast axes"""
        tot = 0.0
        for (fs, sm), c in r.t.items():
            b, k = bind, nd
            if sm:
                b = dict(bind)
                for n_, d in sm:
                    dd = self.i(d, b)
                    if isinstance(dd, np.ndarray):
                        if dd.size and (dd == dd.flat[0]).all():
                            dd = int(dd.flat[0])
                        else:
                            raise CannotEval('varying range')
                    b = {x: (v[..., None] if isinstance(v, np.ndarray) else v) for x, v in b.items()}
                    b[n_] = np.arange(int(dd)).reshape((1,) * k + (int(dd),))
                    k += 1
            p = float(c)
            for f, e in fs:
                v = self.factor(f, b, k)
                p = p * (v ** e if e > 0 else 1.0 / v ** (-e))
            if sm:
                sizes = [b[n_].shape[-1] if False else None for n_, _ in sm]
                full = np.zeros((1,) * nd + tuple(self.width(b[n_]) for n_, _ in sm))
                p = np.asarray(p + full)
                p = p.sum(axis=tuple(range(p.ndim - len(sm), p.ndim)))
            tot = tot + p
        return tot

    @staticmethod
    def width(a):
        return max(a.shape) if a.size else 0

    def factor(self, f, b, nd):
        k = f[0]
        if k == 'el':
            return self.el(f[1], [self.i(x, b) for x in f[2]])
        if k == 'int':
            return self.sym(f[1], b) * 1.0
        if k == 'dl':
            return np.where(np.asarray(self.i(f[1], b)) == 0, 1.0, 0.0)
        if k == 'sqrt':
            return np.sqrt(np.maximum(self.r(f[1], b, nd), 0.0))
        if k == 'inv':
            v = np.asarray(self.r(f[1], b, nd), dtype=float)
            if self.strict and np.any((v != 0) & (np.abs(v) < 1e-5 * self.mag0(f[1], b, nd))):
                raise CannotEval('ill conditioned quotient')
            with np.errstate(all='ignore'):
                return np.where(v == 0, 0.0, 1.0 / np.where(v == 0, 1.0, v))
        if k == 'pos':
            return np.maximum(self.r(f[1], b, nd), 0.0)
        if k == 'ite':
            return np.where(self.c(f[1], b, nd), self.r(f[2], b, nd), self.r(f[3], b, nd))
        if k == 'fn':
            a = [self.r(x, b, nd) if isinstance(x, R) else self.i(x, b) for x in f[2]]
            if f[1] == 'pi':
                return math.pi
            if f[1] == 'sign':
                return np.sign(a[0])
            if f[1] in ('floor', 'cos', 'sin', 'exp'):
                return getattr(np, f[1])(a[0])
            if f[1] == 'pow':
                return np.power(a[0], a[1])
            if f[1] in ('fact', 'gamma'):
                v = np.asarray(a[0], dtype=float) + (1 if f[1] == 'fact' else 0)
                return np.vectorize(math.gamma)(v)
        raise CannotEval('factor ' + str(f[0]))

    def el(self, name, idx):
        at = REG.atoms.get(name)
        if at is None:
            raise CannotEval('atom ' + name)
        if 'num' in at and name not in self.atoms:
            npar = at.get('npar', len(idx) - len(at['dims'])) if at['num'][0] != 'gen' else 0
            if npar:
                own, par = idx[:len(idx) - npar], idx[len(idx) - npar:]
                arrs = np.broadcast_arrays(*[np.asarray(x) for x in own + par]) if own else np.broadcast_arrays(
                    *[np.asarray(x) for x in par])
                out = np.empty(arrs[0].shape)
                for pos in np.ndindex(*arrs[0].shape):
                    ps = tuple(int(a[pos]) for a in arrs[len(own):])
                    out[pos] = np.asarray(self.derived(name, ps))[tuple(int(a[pos]) for a in arrs[:len(own)])]
                return out if out.ndim else float(out)
            v = self.derived(name, ())
        else:
            v = self.atoms.get(name)
            if v is None:
                v = self.gen(name, at)
        v = np.asarray(v, dtype=float)
        if not idx:
            return float(v)
        ix = []
        for x, d in zip(idx, v.shape):
            x = np.asarray(x)
            if x.size and (x.min() < 0 or x.max() >= d):
                # guarded elsewhere by a zero factor or a condition
                x = np.clip(x, 0, d - 1)
            ix.append(x)
        return v[tuple(ix)]

    def gen(self, name, at):
        g = at.get('gen')
        dims = [int(self.i(ie(d), {})) for d in at.get('dims', ())]
        if g is None:
            v = self.normal(dims)
            if at.get('nonneg') or at.get('positive'):
                v = np.abs(v) + (1.0 if at.get('positive') and self.grid else 0.05 if at.get('positive') else 0.0)
        else:
            v = g(self, dims)
        self.atoms[name] = v
        return v

    scale = 1.0
    grid = False
    strict = False      # refuse ill conditioned inputs, for which rounding could look like a failure

    def normal(self, d):
        if self.grid:
            return self.rng.integers(-2, 3, size=d) * 1.0
        return np.round(self.rng.normal(size=d) * self.scale, 3)

    def positive(self, d=None):
        v = self.rng.integers(1, 4, size=d) * 1.0 if self.grid else np.abs(self.rng.normal(size=d)) + 0.05
        return float(v) if not d else v

    def nonneg(self, d=None):
        v = self.rng.integers(0, 3, size=d) * 1.0 if self.grid else np.abs(self.rng.normal(size=d))
        return float(v) if not d else v

    def dump(self):
        def short(v):
            v = np.asarray(v)
            return v.tolist() if v.size <= 64 else 'shape %s' % (v.shape,)
        return {'dims': dict(self.dims), 'inputs': {k: short(v) for k, v in self.atoms.items()
                                                    if not k.startswith('xgen')}}

    def matrix(self, q, own, shape, ps):
        b = {'%%p%d' % k: v for k, v in enumerate(ps)}
        out = np.empty(shape)
        for pos in np.ndindex(*shape):
            bb = dict(b)
            for o, v in zip(own, pos):
                if o.is_const():
                    continue
                if len(o.t) == 1 and len(o.t[0][0]) == 1 and o.t[0][1] == 1:
                    bb[o.t[0][0][0]] = v
                else:
                    raise CannotEval('compound index')
            out[pos] = self.r(q, bb)
        return out

    def derived(self, name, ps):
        key = (name, ps)
        if key in self.cache:
            return self.cache[key]
        nm = REG.atoms[name]['num']
        k = nm[0]
        if self.grid and k in ('eigh', 'inv', 'det', 'svd', 'svdg', 'qr', 'pinv'):
            raise CannotEval('exact value of ' + k)
        if k == 'eigh':
            d = int(self.i(nm[3], {}))
            v = self.memo(('eigh', nm[1].key(), ps), lambda: np.linalg.eigh(self.matrix(nm[1], nm[2], (d, d), ps)))[nm[4]]
        elif k == 'inv':
            d = int(self.i(nm[3], {}))
            try:
                mt = self.matrix(nm[1], nm[2], (d, d), ps)
                if self.strict and d and not np.linalg.cond(mt) < 1e5:
                    raise CannotEval('ill conditioned matrix')
                v = np.linalg.inv(mt)
            except np.linalg.LinAlgError:
                raise CannotEval('singular')
        elif k == 'det':
            d = int(self.i(nm[3], {}))
            v = np.linalg.det(self.matrix(nm[1], nm[2], (d, d), ps))
        elif k == 'pinv':
            m, n = int(self.i(nm[3][0], {})), int(self.i(nm[3][1], {}))
            mt = self.matrix(nm[1], nm[2], (m, n), ps)
            sv = np.linalg.svd(mt, compute_uv=False)
            if sv.size and np.any((sv > 1e-12 * sv.max()) & (sv < 1e-6 * sv.max())):
                raise CannotEval('ill conditioned matrix')
            v = np.linalg.pinv(mt)
        elif k in ('svd', 'svdg'):
            m, n = int(self.i(nm[3][0], {})), int(self.i(nm[3][1], {}))
            full = True if k == 'svd' else nm[4]
            v = self.memo(('svd', nm[1].key(), ps, full),
                          lambda: np.linalg.svd(self.matrix(nm[1], nm[2], (m, n), ps), full_matrices=full))[nm[-1]]
        elif k == 'qr':
            m, n = int(self.i(nm[3][0], {})), int(self.i(nm[3][1], {}))
            v = self.memo(('qr', nm[1].key(), ps, nm[4]), lambda: np.linalg.qr(
                self.matrix(nm[1], nm[2], (m, n), ps), 'complete' if nm[4] else 'reduced'))[nm[5]]
        elif k == 'extreme':
            a = self.over(nm[2], nm[3], nm[4], ps)
            v = a.max() if nm[1] == 'amax' else a.min()
        elif k == 'prod':
            v = self.over(nm[1], nm[2], nm[3], ps).prod()
        elif k == 'py':
            if self.grid:
                raise CannotEval('exact value')
            v = nm[1](self, ps)
        else:
            raise CannotEval('derived atom ' + k)
        self.cache[key] = v
        return v

    def memo(self, key, f):
        if key not in self.cache:
            self.cache[key] = f()
        return self.cache[key]

    def over(self, q, own, dims, ps):
        shape = tuple(int(self.i(ie(d), {})) for d in dims)
        if 0 in shape:
            raise CannotEval('empty range')
        return self.matrix(q, own, shape, ps)

    # -------- conditions; tol > 0 makes the test strict (robustly true), tol < 0 lenient
    def c(self, c, bind, nd=0, tol=0.0):
        k = c[0]
        if k == 'true':
            return True
        if k == 'false':
            return False
        if k == 'not':
            return np.logical_not(self.c(c[1], bind, nd, -tol))
        if k == 'and':
            r = True
            for x in c[1]:
                r = np.logical_and(r, self.c(x, bind, nd, tol))
            return r
        if k == 'or':
            r = False
            for x in c[1]:
                r = np.logical_or(r, self.c(x, bind, nd, tol))
            return r
        if k == 'cmp':
            v = self.r(c[2], bind, nd)
            v = np.where(np.isnan(v), np.nan, v)
            if np.isnan(v).any():
                raise CannotEval('nan')
            if self.grid:
                sc = self.mag(c[2], bind, nd)
                v = np.where(np.abs(v) < 1e-10 * sc, 0.0, v)
                return {'<': v < 0, '<=': v <= 0, '==': v == 0}[c[1]]
            sc = self.mag(c[2], bind, nd) if tol else 1.0
            t = tol * sc
            if c[1] == '==' and self.strict and tol >= 0:
                return np.abs(v) <= 1e-14 * self.mag0(c[2], bind, nd)
            if c[1] == '==':
                return np.abs(v) <= (1e-9 * np.maximum(1.0, sc) if tol == 0 else (np.maximum(-t, 0) if tol < 0 else
                                                                                   1e-9 * np.maximum(1.0, sc)))
            if c[1] == '<':
                return v < -t
            return v <= -t
        if k == 'icmp':
            v = np.asarray(self.i(c[2], bind))
            return {'<': v < 0, '<=': v <= 0, '==': v == 0}[c[1]]
        if k in ('all', 'ex'):
            dd = self.i(c[2], bind)
            if isinstance(dd, np.ndarray):
                if dd.size and (dd == dd.flat[0]).all():
                    dd = int(dd.flat[0])
                else:
                    raise CannotEval('varying range')
            res = (k == 'all')
            for v in range(int(dd)):
                b = dict(bind)
                b[c[1]] = v
                x = self.c(c[3], b, nd, tol)
                res = np.logical_and(res, x) if k == 'all' else np.logical_or(res, x)
            return res
        raise CannotEval('condition ' + k)

    def margin(self, c, bind, want=True):
        """how clearly c is true (want) or false (not want); positive when it is"""
        k = c[0]
        if k in ('true', 'false'):
            return 1.0 if (k == 'true') == want else -1.0
        if k == 'not':
            return self.margin(c[1], bind, not want)
        if k in ('and', 'or'):
            return (min if (k == 'and') == want else max)(self.margin(x, bind, want) for x in c[1])
        if k == 'cmp':
            v = float(self.r(c[2], bind))
            if v != v:
                raise CannotEval('nan')
            if c[1] == '==' and want and abs(v) <= 1e-14 * float(self.mag0(c[2], bind, 0)):
                return 1e-6
            v = v / float(self.mag(c[2], bind, 0))
            if c[1] == '==':
                return -abs(v) if want else abs(v)
            return -v if want else v
        if k == 'icmp':
            return 1.0 if bool(self.c(c, bind)) == want else -1.0
        if k in ('all', 'ex'):
            n = int(self.i(c[2], bind))
            f = min if (k == 'all') == want else max
            xs = [self.margin(c[3], dict(bind, **{c[1]: v}), want) for v in range(n)]
            return f(xs) if xs else (1.0 if (k == 'all') == want else -1.0)
        raise CannotEval('condition ' + k)

    def moved(self, s):
        """the same with one input changed a little"""
        e = Env(self.rng, self.dims)
        e.free, e.scale, e.strict = dict(self.free), self.scale, True
        e.atoms = dict(self.atoms)
        names = sorted(n for n in e.atoms if not n.startswith('xgen') and 'num' not in REG.atoms.get(n, {}))
        if not names:
            raise CannotEval('no input')
        for _ in range(1 + int(self.rng.integers(0, 2))):
            n = names[int(self.rng.integers(0, len(names)))]
            at = REG.atoms[n]
            if any(at.get(p) for p in ('colorth', 'roworth', 'upper', 'lower', 'fixed')):
                continue
            old = np.asarray(e.atoms[n], dtype=float)
            u = self.rng.random()
            if u < 0.5 or not old.size:
                new = old * math.exp(s * self.rng.normal())
            elif at.get('gen') is None and not (at.get('nonneg') or at.get('positive')):
                step = s * self.rng.normal(size=old.shape)
                if u < 0.75 and old.ndim:
                    step = step * (self.rng.random(size=old.shape) < 0.4)
                new = old + step
            else:
                e2 = Env(self.rng, self.dims)
                e2.free, e2.scale = self.free, self.scale
                w = min(1.0, s) * self.rng.random()
                new = (1 - w) * old + w * np.asarray(e2.gen(n, at), dtype=float)
            if new.size and (np.abs(new).max() > 1e4 or (at.get('positive') and np.abs(new).min() < 1e-4)):
                continue
            e.atoms[n] = float(new) if new.ndim == 0 else new
        return e

    def mag0(self, r, bind, nd):
        tot = 0.0
        for m, co in r.t.items():
            tot = np.maximum(tot, np.abs(np.asarray(self.r(R({m: co}), bind, nd), dtype=float)))
        return tot

    def mag(self, r, bind, nd):
        """size of the terms of r (for tolerances)"""
        tot = 1.0
        for m, co in r.t.items():
            v = np.abs(np.asarray(self.r(R({m: co}), bind, nd), dtype=float))
            tot = np.maximum(tot, v)
        return tot


def bcast_ok(x):
    return bool(np.all(x))


def find_counterexample(goal, hyps, dims, rng, tries=60, tol=1e-5, regen=None):
    """numbers for the inputs under which every hypothesis holds and the goal clearly fails; None when not found.
    returns (env, n_valid)"""
    valid = 0
    for t in range(tries):
        env = Env(rng, {k: int(rng.integers(lo, hi + 1)) for k, (lo, hi) in dims.items()})
        env.free = {}
        env.strict = True
        env.grid = t % 2 == 1
        env.scale = float([1.0, 1.0, 3.0, 0.1][(t // 2) % 4])
        if regen is not None:
            regen(env)
        try:
            with np.errstate(all='ignore'):
                ok = True
                for h in hyps:
                    if not bcast_ok(env.c(h, {}, 0, 1e-9)):
                        ok = False
                        break
                if not ok:
                    continue
                valid += 1
                g = env.c(goal, {}, 0, -tol)
            if not bcast_ok(g):
                return env, valid
        except (CannotEval, FloatingPointError, ZeroDivisionError, np.linalg.LinAlgError, OverflowError, ValueError,
                TypeError, IndexError, RecursionError) as ex:
            if DEBUG:
                print('      try', t, type(ex).__name__, ex)
            continue
    if DEBUG:
        print('      valid inputs', valid)
    env = climb(goal, hyps, dims, rng, tol, regen)
    return env, valid


ERRS = (CannotEval, FloatingPointError, ZeroDivisionError, np.linalg.LinAlgError, OverflowError, ValueError, TypeError,
        IndexError, RecursionError)


def pick(c, want, rng):
    """one way of making c true (want) or false: alternatives are chosen at random"""
    k = c[0]
    if k == 'not':
        return X.c_not(pick(c[1], not want, rng))
    if k in ('and', 'or'):
        if (k == 'and') == want:
            return (X.c_and if k == 'and' else X.c_or)(*[pick(x, want, rng) for x in c[1]])
        xs = list(c[1])
        return pick(xs[int(rng.integers(0, len(xs)))], want, rng)
    return c


def climb(goal, hyps, dims, rng, tol, regen, seconds=6.0, starts=40):
    """search guided by how far the hypotheses are from holding and the goal from failing"""
    t0 = time.time()
    end = t0 + min(2.0 if os.environ.get("DED_FALSIFY") else seconds, LEFT[0])
    try:
        return climb_(goal, hyps, dims, rng, tol, regen, end, starts)
    finally:
        LEFT[0] -= 0 if os.environ.get("DED_FALSIFY") else time.time() - t0


LEFT = [90.0]       # seconds of guided search left in this process


def climb_(goal, hyps, dims, rng, tol, regen, end, starts):
    def score(env):
        tot = 0.0
        for h in hyps_:
            tot += min(0.0, env.margin(h, {}) - 1e-8)
        return tot + min(0.0, env.margin(goal_, {}, False) - 3 * tol)

    def fine(env):
        return all(bcast_ok(env.c(h, {}, 0, 1e-9)) for h in hyps) and not bcast_ok(env.c(goal, {}, 0, -tol))
    for t in range(starts):
        if time.time() > end:
            break
        best = None
        if t % 3:
            goal_, hyps_ = pick(goal, False, rng), [pick(h, True, rng) for h in hyps]
        else:
            goal_, hyps_ = goal, hyps
        for _ in range(1 + 5 * (t % 2)):
            env = Env(rng, {k: int(rng.integers(lo, hi + 1)) for k, (lo, hi) in dims.items()})
            env.free, env.strict, env.scale = {}, True, float(rng.choice([1.0, 1.0, 3.0, 0.1]))
            try:
                if regen is not None:
                    regen(env)
                with np.errstate(all='ignore'):
                    v = score(env)
                if best is None or v > best[0]:
                    best = (v, env)
            except ERRS as ex:
                if DEBUG:
                    print('      climb', type(ex).__name__, ex)
        if best is None:
            continue
        v, env = best
        fails = 0
        while time.time() < end and fails < 80:
            try:
                with np.errstate(all='ignore'):
                    if v >= 0 and fine(env):
                        return env
                    e2 = env.moved(float(rng.choice([1.0, 0.3, 0.1, 0.03, 0.005])))
                    v2 = score(e2)
            except ERRS as ex:
                fails += 1
                continue
            if v2 > v or (v2 == v and v < 0 and rng.random() < 0.5):
                fails = 0 if v2 > v else fails + 1
                v, env = v2, e2
            else:
                fails += 1
        if DEBUG:
            print('      climb from start', t, 'reached', v, env.dump(), [env.margin(h, {}) for h in hyps], env.margin(goal, {}, False), goal)
    return None
