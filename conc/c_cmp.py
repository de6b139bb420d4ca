"""C05 array comparison, C06 dictionary comparison, C26 membership lookup: run-time contracts."""
import copy

import numpy as np

from base import clause, close, need, rejects, Fail, Skip
from ellipy.gen.common.common import abs_rel_compare, is_member
from ellipy.gen.dict.dict import dict_compare, dict_compare_vec

TOL = [0., 2. ** -12, 2. ** -6, 0.25, 1., 4.]


def pairs(g):
    """two arrays of one shape whose differences and half-sums are exact in binary"""
    shape = g.pick([(), (1,), (4,), (3,), (2, 3), (1, 1), (2, 1, 2), (0,), (2, 0)])
    a = np.round(g.rng.uniform(-4, 4, shape) * 16) / 16
    a = np.asarray(a)
    if g.b(0.3):
        a = a * 0.
    b = a.copy()
    tol = g.pick(TOL)
    n = a.size
    for _ in range(g.i(0, 3)):
        if n:
            i = g.i(0, n - 1)
            d = g.pick([tol, -tol, tol + 2. ** -20, tol - 2. ** -20, 2. ** -6, -0.25, 1., 3., -tol * 0.5, 2 * tol])
            b.flat[i] = b.flat[i] + d
    if n and g.b(0.2):      # magnitudes that just do or do not exceed the absolute tolerance
        i = g.i(0, n - 1)
        a.flat[i] = g.pick([tol, tol * 0.5, 0.])
        b.flat[i] = g.pick([-tol, tol * 2, tol * 0.5, -tol * 0.5])
    if n and g.b(0.3):
        for _ in range(g.i(1, 3)):
            i = g.i(0, n - 1)
            v = g.pick([np.nan, np.inf, -np.inf])
            a.flat[i] = v
            b.flat[i] = v
            k = g.i(0, 9)
            if k == 0:
                b.flat[i] = g.pick([np.nan, np.inf, -np.inf, 0.])
            elif k == 1:
                a.flat[i] = g.pick([np.nan, np.inf, -np.inf, 0.])
    if g.b(0.15) and np.all(np.isfinite(a)) and np.all(np.isfinite(b)):
        a, b = np.round(a).astype(int), np.round(b).astype(int)
    elif g.b(0.1) and np.all(np.isfinite(a)) and np.all(np.isfinite(b)):
        a, b = a * 1j, b * 1j
    if g.b(0.15):
        a = b.copy()
    rel = g.pick([None, None, 0., 2. ** -8, 2. ** -4, 0.25, 0.5, 1., 2.])
    if rel is not None and n and g.b(0.4) and a.dtype.kind == 'f':
        i = g.i(0, n - 1)           # 2 d / s == rel exactly for rel a power of two is rare; build it: x = 2-r, y = 2+r -> d = 2r, s = 4
        sc = g.pick([1., 4., -2., 64.])
        a.flat[i] = (2 - rel) * sc
        b.flat[i] = (2 + rel) * sc * g.pick([1, 1, 1 + 2. ** -10, 1 - 2. ** -10])
    return a, b, tol, rel


def oracle(a, b, tol, rel, mag=np.abs):
    if a.dtype.kind == 'f':
        for k in (np.isnan, np.isposinf, np.isneginf):
            if not np.array_equal(k(a), k(b)):
                return False, None, None
        f = np.isfinite(a)
        a, b = np.where(f, a, 0.), np.where(f, b, 0.)
    d, s = np.ravel(mag(a - b)), np.ravel(mag(a) + mag(b))
    if d.size == 0:
        return True, None, None
    trig = (d > tol) & (s > tol) if rel is not None else np.zeros(d.shape, dtype=bool)
    q = np.zeros(d.shape)
    q[trig] = 2. * d[trig] / s[trig]
    ok = np.where(trig, q <= (rel if rel is not None else 0.), d <= tol)
    return bool(np.all(ok)), np.max(d), (np.max(q[trig]) if np.any(trig) else None)


# ------------------------------------------------------------------ C05
@clause('C05', 4)
def comparison(g):
    a, b, tol, rel = pairs(g)
    g.use(a, b, tol, rel)
    c = g.pick([1., 1., 1., 2.])

    def mag(x):
        return c * np.abs(x)
    eq, dmax, qmax = oracle(a, b, tol, rel, mag)
    a1, b1 = a.copy(), b.copy()
    r = abs_rel_compare(a1, b1, tol, rel, mag)
    need(a1.tobytes() == a.tobytes() and b1.tobytes() == b.tobytes(), 'the comparison changed its arguments')
    need(len(r) == 6, 'six values expected')
    need(bool(r[0]) == eq, 'answer %s, expected %s (abs %r rel %r)' % (r[0], eq, tol, rel))
    need((r[5] == '') == eq and isinstance(r[5], str), 'report %r for the answer %s' % (r[5], eq))
    if dmax is not None:
        close(r[1], dmax, 1e-14, 'absolute difference')
        need(bool(r[2]) == (qmax is not None), 'relative comparison flag %s, expected %s' % (r[2], qmax is not None))
        if qmax is not None:
            close(r[3], qmax, 1e-14, 'relative difference')
    s = abs_rel_compare(b.copy(), a.copy(), tol, rel, mag)
    need(bool(s[0]) == eq and (s[5] == '') == eq, 'answer changes when the arrays are exchanged')


@clause('C05', 1)
def comparison_reflexive(g):
    a, b, tol, rel = pairs(g)
    g.use(a, tol, rel)
    r = abs_rel_compare(a.copy(), a.copy(), tol, rel, np.abs)
    need(bool(r[0]) and r[5] == '', 'an array differs from itself: %s' % (r,))


@clause('C05', 1)
def comparison_monotone(g):
    a, b, tol, rel = pairs(g)
    t2 = tol + g.pick(TOL)
    g.use(a, b, tol, t2, rel)
    if not abs_rel_compare(a.copy(), b.copy(), tol, rel, np.abs)[0]:
        raise Skip()
    r2 = None if rel is None else rel + g.pick([0., 0.25, 1.])
    need(bool(abs_rel_compare(a.copy(), b.copy(), tol, r2, np.abs)[0]), 'not monotone in the relative tolerance')
    if rel is None or rel <= 2:
        e = oracle(a, b, t2, rel)[0]
        need(bool(abs_rel_compare(a.copy(), b.copy(), t2, rel, np.abs)[0]) == e, 'larger absolute tolerance')


@clause('C05', 0.5)
def comparison_reject(g):
    a, b, tol, rel = pairs(g)
    g.use(a, b)
    rejects(abs_rel_compare, a, np.append(np.ravel(b), [1.]), tol, rel, np.abs)
    rejects(abs_rel_compare, a, a, -0.5, rel, np.abs)
    rejects(abs_rel_compare, a, a, None, rel, np.abs)
    rejects(abs_rel_compare, a, a, np.array([0.1]), rel, np.abs)
    rejects(abs_rel_compare, a, a, tol, -0.5, np.abs)
    rejects(abs_rel_compare, a, a, tol, np.array([0.5, 0.5]), np.abs)
    rejects(abs_rel_compare, a, a, tol, rel, 'abs')
    rejects(abs_rel_compare, np.array(['a']), np.array(['a']), tol, rel, np.abs)
    if a.ndim == 1 and a.size > 1:
        rejects(abs_rel_compare, a, b.reshape(-1, 1), tol, rel, np.abs)


# ------------------------------------------------------------------ C06
KEYS = ['alpha', 'beta', 'gam', 'key4', 'inner', 'zz']


def num(g):
    return float(round(g.u(-4, 4) * 16) / 16)


def value(g, depth):
    k = g.i(0, 13 if depth > 0 else 9)
    if k <= 1:
        return num(g)
    if k == 2:
        return g.i(-3, 3)
    if k == 3:
        return g.pick(['', 'abc', 'x y'])
    if k == 4:
        return g.b()
    if k == 5:
        return None
    if k <= 7:
        a = np.round(g.rng.uniform(-4, 4, g.pick([(3,), (2, 2), (1,), (0,), (2, 3)])) * 16) / 16
        if a.size and g.b(0.2):
            a.flat[0] = g.pick([np.nan, np.inf, -np.inf])
        return a.astype(int) if g.b(0.2) and np.all(np.isfinite(a)) else a
    if k == 8:
        return [num(g) for _ in range(g.i(0, 3))]
    if k == 9:
        return np.array(['a', 'bc', 'd'][:g.i(1, 3)])
    if k <= 11:
        return dct(g, depth - 1)
    if k == 12:
        return [value(g, depth - 1) for _ in range(g.i(1, 3))]
    return np.array([dct(g, depth - 1) for _ in range(g.i(1, 3))])


def dct(g, depth, lo=1):
    ks = list(g.rng.permutation(KEYS))[:g.i(lo, 4)]
    return {str(k): value(g, depth) for k in ks}


def mutate(g, v, tol):
    """a value near v"""
    t = type(v)
    if t is dict:
        v = dict(v)
        k = g.i(0, 5)
        if k == 0 or not v:
            v['newkey'] = 1.
        elif k == 1:
            del v[g.pick(sorted(v))]
        else:
            key = g.pick(sorted(v))
            v[key] = mutate(g, v[key], tol)
        return v
    if t is list:
        v = list(v)
        if not v or g.b(0.2):
            return v + [1.]
        if g.b(0.2):
            return v[:-1]
        i = g.i(0, len(v) - 1)
        v[i] = mutate(g, v[i], tol)
        return v
    if t is np.ndarray and v.dtype.kind in 'fi':
        v = v.copy()
        k = g.i(0, 5)
        if k == 0:
            return np.append(np.ravel(v), v.dtype.type(1))
        if k == 1:
            return v.reshape(v.shape + (1,))
        if k == 2 and v.dtype.kind == 'i':
            return v.astype(float)
        if v.size == 0:
            return v
        i = g.i(0, v.size - 1)
        if v.dtype.kind == 'f':
            v.flat[i] = v.flat[i] + g.pick([tol, -tol, tol + 2. ** -20, 1., tol / 2])
            if g.b(0.15):
                v.flat[i] = g.pick([np.nan, np.inf, -np.inf])
        else:
            v.flat[i] += g.pick([1, 0])
        return v
    if t is np.ndarray and v.dtype.kind == 'O':
        v = copy.deepcopy(v)
        i = g.i(0, v.size - 1)
        v.flat[i] = mutate(g, v.flat[i], tol)
        return v
    if t is np.ndarray:
        v = v.copy()
        if g.b(0.3):
            return v[:-1] if v.size > 1 else np.append(v, 'q')
        v[g.i(0, v.size - 1)] = 'e'
        return v
    if t is float:
        return g.pick([v + tol, v - tol, v + tol + 2. ** -20, v + 1., 'text', int(v)])
    if t is int:
        return g.pick([v + 1, float(v), v])
    if t is bool:
        return g.pick([not v, int(v)])
    if t is str:
        return g.pick([v + 'x', 'abc', None])
    return g.pick([0., 'None', None])


def kind_of(v):
    with np.testing.suppress_warnings() as s:
        s.filter(DeprecationWarning)
        return np.asarray(v).dtype.kind


def eqv(x, y, tol, rel):
    if type(x) is not type(y):
        return False
    t = type(x)
    if t is dict:
        return set(x) == set(y) and all(eqv(x[k], y[k], tol, rel) for k in x)
    if t is list:
        return len(x) == len(y) and all(eqv(p, q, tol, rel) for p, q in zip(x, y))
    if t is np.ndarray and x.dtype.kind not in 'uifbc':
        if x.shape != y.shape:
            return False
        return x.dtype.kind == y.dtype.kind and all(eqv(p, q, tol, rel) for p, q in zip(x.ravel(), y.ravel()))
    if t is np.ndarray:
        return x.dtype.kind == y.dtype.kind and x.shape == y.shape and oracle(x.astype(float), y.astype(float), tol, rel)[0]
    if t in (float, int, bool):
        return oracle(np.array(float(x)), np.array(float(y)), tol, rel)[0]
    return x == y


def diff_keys(x, y, tol, rel):
    if set(x) != set(y):
        return set(x) ^ set(y)
    return {k for k in x if not eqv(x[k], y[k], tol, rel)}


def tolerances(g):
    return g.pick([0., 2. ** -10, 2. ** -4, 0.25]), g.pick([None, None, 0., 2. ** -6, 0.25])


@clause('C06', 3)
def dictionaries(g):
    tol, rel = tolerances(g)
    x = dct(g, 2, 0)
    y = copy.deepcopy(x)
    for _ in range(g.i(0, 2)):
        y = mutate(g, y, tol)
    if g.b(0.2):        # key order does not matter
        y = {k: y[k] for k in reversed(list(y))}
    g.use(x, y, tol, rel)
    eq = eqv(x, y, tol, rel)
    r, rep = dict_compare(x, y, tol, rel)
    need(bool(r) == eq, 'answer %s, expected %s; report %r' % (r, eq, rep))
    need((rep == '') == eq, 'report %r for the answer %s' % (rep, eq))
    for k in diff_keys(x, y, tol, rel):
        need(k in rep, 'key %s missing in the report %r' % (k, rep))
        if set(x) == set(y):
            need('.' + k in rep, 'key %s missing in the report %r' % (k, rep))
    r2, rep2 = dict_compare(y, x, tol, rel)
    need(bool(r2) == eq and (rep2 == '') == eq, 'answer changes when the arguments are exchanged')
    if g.b(0.3):
        need(bool(dict_compare(x, x, tol, rel)[0]), 'not equal to itself')


@clause('C06', 2)
def arrays_of_dictionaries(g):
    tol, rel = tolerances(g)
    n = g.i(1, 4)
    xs = [dct(g, 1) for _ in range(n)]
    ys = copy.deepcopy(xs)
    for _ in range(g.i(0, 2)):
        i = g.i(0, n - 1)
        ys[i] = mutate(g, ys[i], tol)
    k = g.i(0, 5)
    if k == 0:
        ys = ys + [dct(g, 1)]
    elif k == 1 and n > 1:
        ys = ys[:-1]
    g.use(xs, ys, tol, rel)
    eq = len(xs) == len(ys) and all(eqv(p, q, tol, rel) for p, q in zip(xs, ys))
    form = g.i(0, 2)
    a, b = (xs, ys) if form == 0 else (np.array(xs), np.array(ys)) if form == 1 else (xs, np.array(ys))
    r, rep = dict_compare(a, b, tol, rel)
    need(bool(r) == eq, 'answer %s, expected %s; report %r' % (r, eq, rep))
    need((rep == '') == eq, 'report %r for the answer %s' % (rep, eq))
    if len(xs) == len(ys):
        v, rep = dict_compare_vec(np.array(xs), np.array(ys), tol, rel)
        e = [eqv(p, q, tol, rel) for p, q in zip(xs, ys)]
        need(list(map(bool, v)) == e, 'elementwise answers %s, expected %s' % (v, e))
        for i, (p, q) in enumerate(zip(xs, ys)):
            for key in diff_keys(p, q, tol, rel):
                need(any(('(%d)' % i) in line and key in line for line in rep.split('\n')),
                     'difference of element %d under key %s missing in %r' % (i, key, rep))
        if n > 1 and len(set(map(len, xs))) >= 1 and n % 2 == 0:
            aa, bb = np.array(xs).reshape(2, -1), np.array(ys)
            need(not dict_compare(aa, bb, tol, rel)[0], 'arrays of different shapes are equal')
            need(dict_compare(aa, bb, tol, rel)[1] != '', 'no report for different shapes')
            r, rep = dict_compare(aa, bb.reshape(2, -1), tol, rel)
            need(bool(r) == all(e), '2-dimensional arrays: answer %s' % r)


@clause('C06', 0.5)
def dictionaries_reject(g):
    x = dct(g, 1)
    g.use(x)
    bad = g.pick([1, 'abc', None, 3.5, (x,), [1, 2], np.array([1., 2.]), ['a']])
    g.use(bad)
    if g.b():
        rejects(dict_compare, x, bad)
    else:
        rejects(dict_compare, bad, x)


# ------------------------------------------------------------------ C26
@clause('C26', 1)
def membership(g):
    k = g.i(0, 2)
    na, nb = g.i(0, 6), g.i(1, 7)
    if k == 0:
        a, b = g.rng.randint(-3, 4, na), g.rng.randint(-3, 4, nb)
    elif k == 1:
        a, b = g.rng.randint(-3, 4, na) * 0.5, g.rng.randint(-3, 4, nb) * 0.5
    else:
        w = np.array(['a', 'b', 'ab', 'ba', 'c'])
        a, b = w[g.rng.randint(0, 5, max(na, 1))], w[g.rng.randint(0, 5, nb)]
    g.use(a, b)
    arg = a.tolist() if g.b(0.3) and a.size else a
    m, ind = is_member(arg, b)
    e = [x in b.tolist() for x in a.tolist()]
    need(list(map(bool, m)) == e, 'membership %s, expected %s' % (m, e))
    pos = [b.tolist().index(x) for x, y in zip(a.tolist(), e) if y]
    need(list(ind) == pos, 'positions %s, expected %s' % (ind, pos))
