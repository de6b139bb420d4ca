"""Run-time contract harness (runs under the project's own interpreter, PyPy).

A *clause* is an executable pre/postcondition pair on the real code: it generates
inputs that satisfy the precondition, calls the real function imported from /repo and
evaluates the postcondition against an independent oracle.  One call = one evaluation.
"""
import hashlib
import json
import signal
import sys
import time
import traceback
import zlib

import numpy as np

REGISTRY = {}


class Fail(Exception):
    """Postcondition violated by the real code."""


class Skip(Exception):
    """Generated input not inside the precondition (or inside a rounding margin)."""


class Hang(Exception):
    pass


def clause(prop, weight=1.0, name=None, exhaustive=None):
    """weight: relative share of the evaluation budget. exhaustive: fixed number of
    enumerated cases (the clause then reads g.index)."""
    def deco(f):
        nm = name or f.__name__
        REGISTRY.setdefault(prop, {})
        assert nm not in REGISTRY[prop], nm
        REGISTRY[prop][nm] = (f, weight, exhaustive)
        return f
    return deco


def show(x, depth=0):
    """Readable, replayable rendering of a value."""
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return {'objarray': [show(y, depth + 1) for y in x.ravel()[:20]], 'shape': list(x.shape)}
        return {'array': np.array2string(x, threshold=200, precision=17), 'shape': list(x.shape), 'dtype': str(x.dtype)}
    if isinstance(x, (list, tuple)):
        return [show(y, depth + 1) for y in list(x)[:20]]
    if isinstance(x, dict):
        return {str(k): show(v, depth + 1) for k, v in list(x.items())[:20]}
    if type(x).__name__ == 'Ellipsoid':
        c, q = x.double()
        return {'ellipsoid': [show(c), show(q)], 'abs_tol': repr(x._abs_tol)}
    if type(x).__name__ == 'Hyperplane':
        c, q = x.double()
        return {'hyperplane': [show(c), repr(q)], 'abs_tol': repr(x._abs_tol)}
    if callable(x):
        return 'function ' + getattr(x, '__name__', '?')
    return repr(x)


def snapshot(x):
    """Deep value of an argument, for frame checks."""
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ('oarr', x.shape, tuple(snapshot(y) for y in x.ravel()))
        return ('arr', x.shape, str(x.dtype), x.tobytes())
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(snapshot(y) for y in x))
    if isinstance(x, dict):
        return ('dict', tuple((k, snapshot(v)) for k, v in x.items()))
    nm = type(x).__name__
    if nm in ('Ellipsoid', 'Hyperplane'):
        c, q = x.double()
        v = [nm, snapshot(np.array(c)), snapshot(np.array(q)), x._abs_tol, x._rel_tol]
        if nm == 'Ellipsoid':
            v += [x._n_plot_2d_points, x._n_plot_3d_points]
        return tuple(v)
    if isinstance(x, (int, float, complex, str, bool, bytes, type(None), np.generic)):
        return ('sc', repr(x))
    return ('id', id(x))


class G:
    def __init__(self, prop, name, seed, index):
        key = ('%s|%s|%d|%d' % (prop, name, seed, index)).encode()
        self.rng = np.random.RandomState(zlib.crc32(key) & 0x7fffffff)
        self.index = index
        self.inputs = []
        self.trivial = False

    # -- bookkeeping -------------------------------------------------
    def use(self, *a):
        """Record inputs of the evaluation (for the replay file and distinctness)."""
        self.inputs.extend(a)
        return a[0] if len(a) == 1 else a

    # -- random pieces ----------------------------------------------
    def i(self, lo, hi):
        return int(self.rng.randint(lo, hi + 1))

    def pick(self, seq):
        seq = list(seq)
        return seq[self.rng.randint(len(seq))]

    def b(self, p=0.5):
        return bool(self.rng.rand() < p)

    def u(self, lo, hi):
        return float(self.rng.uniform(lo, hi))

    def dim(self, lo=1, hi=6):
        return self.i(lo, hi)

    def orth(self, n):
        q, r = np.linalg.qr(self.rng.randn(n, n))
        return q * np.sign(np.diag(r))

    def vec(self, n, zero_ok=False, scale=1.0):
        k = self.i(0, 5)
        if k == 0:
            v = np.zeros(n)
            v[self.i(0, n - 1)] = self.pick([1., -1., 2., 0.5])
        elif k == 1:
            v = self.rng.randint(-3, 4, n).astype(float)
        elif k == 2:
            v = np.ones(n) * self.pick([1., -1., 3.])
        else:
            v = self.rng.randn(n)
        v = v * scale
        if not zero_ok and not np.any(np.abs(v) > 1e-3):
            v = np.ones(n) * scale
        return v

    def spd(self, n, lo=0.2, hi=5.0):
        k = self.i(0, 5)
        if k == 0:
            return np.diag(self.rng.uniform(lo, hi, n))
        if k == 1:
            return np.eye(n) * self.u(lo, hi)
        u = self.orth(n)
        d = self.rng.uniform(lo, hi, n)
        if k == 2 and n > 1:
            d[:max(1, n // 2)] = d[0]
        q = u @ np.diag(d) @ u.T
        return 0.5 * (q + q.T)

    def psd(self, n, p_deg=0.5, lo=0.2, hi=5.0):
        """symmetric PSD, rank deficient with probability p_deg; exact zeros for diagonal ones"""
        if not self.b(p_deg):
            return self.spd(n, lo, hi)
        r = self.i(0, n - 1)
        d = np.zeros(n)
        d[:r] = self.rng.uniform(lo, hi, r)
        if self.b(0.4):
            return np.diag(self.rng.permutation(d))
        u = self.orth(n)
        q = u @ np.diag(d) @ u.T
        return 0.5 * (q + q.T)

    def sym(self, n, scale=2.0):
        a = self.rng.randn(n, n) * scale
        if self.b(0.2):
            a = np.diag(np.diag(a))
        return 0.5 * (a + a.T)

    def mat(self, m, n, scale=1.0):
        k = self.i(0, 4)
        if k == 0:
            return self.rng.randint(-3, 4, (m, n)).astype(float) * scale
        return self.rng.randn(m, n) * scale

    def nonsing(self, n):
        u, v = self.orth(n), self.orth(n)
        return u @ np.diag(self.rng.uniform(0.5, 3, n) * self.rng.choice([-1, 1], n)) @ v

    def layout(self, a):
        """same values, other memory layout"""
        k = self.i(0, 3)
        if k == 0:
            return np.asfortranarray(a)
        if k == 1:
            big = np.zeros(tuple(2 * s for s in a.shape), dtype=a.dtype)
            big[tuple(slice(None, None, 2) for _ in a.shape)] = a
            return big[tuple(slice(None, None, 2) for _ in a.shape)]
        if k == 2:
            return a[::-1].copy()[::-1]
        return a

    def tols(self):
        return dict(abs_tol=float(self.pick([1e-7, 1e-6, 1e-5, 1e-4, 1e-3])),
                    rel_tol=float(self.pick([1e-6, 1e-5, 1e-4, 1e-3])))

    def plots(self):
        return dict(n_plot_2d_points=self.i(3, 400), n_plot_3d_points=self.i(3, 400))

    def ell(self, n=None, deg=0.0, centre=True, **kw):
        from ellipy.elltool.core.ellipsoid.Ellipsoid import Ellipsoid
        if n is None:
            n = self.dim()
        c = self.vec(n, zero_ok=True, scale=2.0) if centre else np.zeros(n)
        q = self.psd(n, deg)
        return Ellipsoid(c, q, **kw)


def close(a, b, tol=1e-7, what='values differ'):
    a = np.asarray(a, dtype=complex) if np.iscomplexobj(a) else np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=complex) if np.iscomplexobj(b) else np.asarray(b, dtype=float)
    if a.shape != b.shape:
        raise Fail('%s: shape %s, expected %s' % (what, a.shape, b.shape))
    nan_a, nan_b = np.isnan(a), np.isnan(b)
    if not np.array_equal(nan_a, nan_b):
        raise Fail('%s: NaN pattern: got %s expected %s' % (what, a, b))
    inf = np.isinf(b)
    if np.any(inf):
        if not np.array_equal(a[inf], b[inf]):
            raise Fail('%s: inf pattern: got %s expected %s' % (what, a, b))
    ok = ~(nan_b | inf)
    if np.any(ok):
        sc = 1.0 + np.max(np.abs(b[ok]))
        d = np.max(np.abs(a[ok] - b[ok]))
        if not d <= tol * sc:
            raise Fail('%s: max difference %.6g (tolerance %.3g): got %s expected %s'
                       % (what, d, tol * sc, np.array2string(a, threshold=60), np.array2string(b, threshold=60)))


def need(cond, msg):
    if not cond:
        raise Fail(msg)


def rejects(f, *args, **kw):
    """The call must raise ValueError (the project's rejection)."""
    try:
        r = f(*args, **kw)
    except ValueError:
        return
    except (Fail, Skip, Hang):
        raise
    except Exception as e:
        raise Fail('expected a ValueError, got %s: %s' % (type(e).__name__, e))
    raise Fail('accepted, although it must be rejected; returned %s' % json.dumps(show(r))[:300])


def _alarm(signum, frame):
    raise Hang()


def run_one(prop, name, seed, index, limit=60):
    f, _, _ = REGISTRY[prop][name]
    g = G(prop, name, seed, index)
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        with np.errstate(all='ignore'):
            f(g)
        status, msg = 'pass', ''
    except Skip:
        status, msg = 'skip', ''
    except Fail as e:
        status, msg = 'fail', str(e)
    except Hang:
        status, msg = 'fail', 'no answer within %d s' % limit
    except MemoryError:
        status, msg = 'fail', 'memory exhausted'
    except Exception as e:
        status, msg = 'fail', 'unexpected %s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:])
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    return status, msg, g


def digest(inputs):
    h = hashlib.sha1()
    h.update(repr([snapshot(x) for x in inputs]).encode())
    return h.hexdigest()


def run_prop(prop, seed, budget_s, n_cases, max_fail=6, shard=(0, 1)):
    """Round-robin over the clauses until n_cases evaluations or the time budget is used."""
    clauses = REGISTRY.get(prop, {})
    t0 = time.time()
    res = dict(prop=prop, evaluations=0, skipped=0, distinct=0, failures=[], samples=[], clauses={})
    if not clauses:
        return res
    seen = set()
    tot = sum(w for _, w, _ in clauses.values())
    quota = {k: (ex if ex is not None else max(3, int(n_cases * w / tot))) for k, (_, w, ex) in clauses.items()}
    done = {k: 0 for k in clauses}
    stat = {k: dict(evaluated=0, skipped=0, failed=0) for k in clauses}
    for k in clauses:
        if clauses[k][2] is not None:
            stat[k]['exhaustive'] = clauses[k][2]
    active = list(clauses)
    while active and len(res['failures']) < max_fail:
        for k in list(active):
            if done[k] >= quota[k] or stat[k]['failed'] >= 2:
                active.remove(k)
                continue
            if time.time() - t0 > budget_s and done[k] >= 3 and clauses[k][2] is None:
                active.remove(k)
                continue
            step = max(1, min(10, quota[k] // 20))
            for _ in range(step):
                if done[k] >= quota[k]:
                    break
                idx = done[k]
                done[k] += 1
                if clauses[k][2] is not None and idx % shard[1] != shard[0]:
                    continue
                status, msg, g = run_one(prop, k, seed, idx)
                if status == 'skip':
                    stat[k]['skipped'] += 1
                    res['skipped'] += 1
                    continue
                res['evaluations'] += 1
                stat[k]['evaluated'] += 1
                d = k + digest(g.inputs)
                if d not in seen and g.inputs:
                    seen.add(d)
                if status == 'fail':
                    stat[k]['failed'] += 1
                    res['failures'].append(dict(property=prop, clause=k, seed=seed, index=idx, message=msg,
                                                inputs=[show(x) for x in g.inputs]))
                    break
                if stat[k]['evaluated'] == 1 and len(res['samples']) < 12:
                    res['samples'].append(dict(clause=k, seed=seed, index=idx, inputs=[show(x) for x in g.inputs][:6]))
    res['distinct'] = len(seen)
    res['clauses'] = stat
    res['wall_s'] = time.time() - t0
    return res
