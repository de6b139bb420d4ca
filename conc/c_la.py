"""C17 orthogonal translations, C18 optimality, C19 roots/regularisation/tests, C22 quadratic forms: run-time contracts."""
import math

import numpy as np

from base import clause, close, need, rejects, Fail, Skip
from ellipy.gras.la import la
from ellipy.gras.gen.gen import sqrt_pos, mat_dot
from ellipy.gras.geom.ell.ell import quad_mat, inv_mat, ell_volume
from ellipy.elltool.core import core


def pair(g, n):
    """non-zero source and destination vectors, with the special relative positions"""
    a = g.vec(n)
    k = g.i(0, 9)
    if k == 0:
        b = a * g.pick([1., 2., 0.5, 1e-3, 7.])
    elif k == 1:
        b = -a * g.pick([1., 2., 0.5, 30.])
    elif k == 2:
        b = a + g.rng.randn(n) * 1e-4
    elif k == 3:
        b = -a + g.rng.randn(n) * 1e-4
    elif k == 4 and n > 1:
        b = g.vec(n)
        b = b - a * (a @ b) / (a @ a)
        if np.max(np.abs(b)) < 1e-3:
            b = g.rng.randn(n)
    else:
        b = g.vec(n)
    if k == 5:
        a, b = a * 1e-4, b * 1e3
    if not (np.any(a) and np.any(b)):
        raise Skip()
    return a, b


def unit(x):
    return x / np.sqrt(x @ x)


def check_transl(o, a, b, tol=1e-6, what=''):
    n = a.size
    o = np.asarray(o, dtype=float)
    need(o.shape == (n, n), '%s: shape %s, expected %s' % (what, o.shape, (n, n)))
    close(o.T @ o, np.eye(n), tol, what + ': not orthogonal')
    close(o @ unit(a), unit(b), tol, what + ': source direction not mapped to destination direction')


def shape_vecs(g, a, b):
    if g.b(0.3):
        return a.reshape(-1, 1).copy(), b.reshape(-1, 1).copy()
    return a.copy(), b.copy()


# ------------------------------------------------------------------ C17
@clause('C17', 2)
def transl_plane(g):
    n = g.dim(1, 9)
    a, b = pair(g, n)
    g.use(a, b)
    x, y = shape_vecs(g, a, b)
    check_transl(la.orth_transl(x, y), a, b, what='orth_transl')


@clause('C17', 2)
def transl_haus(g):
    n = g.dim(1, 9)
    a, b = pair(g, n)
    g.use(a, b)
    x, y = shape_vecs(g, a, b)
    check_transl(la.orth_transl_haus(x, y), a, b, what='orth_transl_haus')


@clause('C17', 2)
def transl_qr(g):
    n = g.dim(1, 9)
    a, b = pair(g, n)
    g.use(a, b)
    x, y = shape_vecs(g, a, b)
    check_transl(la.orth_transl_qr(x, y), a, b, what='orth_transl_qr')


@clause('C17', 1)
def transl_valign(g):
    n = g.dim(1, 9)
    a, b = pair(g, n)
    if g.b(0.2):
        a = a * g.pick([1e-9, 1e9])
    g.use(a, b)
    k = g.i(0, 4)
    x, y = a.copy(), b.copy()
    if k == 0:
        x, y = x.reshape(-1, 1), y.reshape(-1, 1)
    elif k == 1:
        x, y = x.reshape(1, -1), y.reshape(-1, 1)
    if n == 1:
        x, y = a.copy(), b.copy()
    # ell_valign(v, x) maps the second argument on the direction of the first
    o = np.asarray(core.ell_valign(x, y), dtype=float)
    need(o.shape == (n, n), 'ell_valign: shape %s' % (o.shape,))
    close(o.T @ o, np.eye(n), 1e-8, 'ell_valign: not orthogonal')
    close(o @ unit(b), unit(a), 1e-8, 'ell_valign: direction not mapped')


@clause('C17', 1)
def transl_max_variants(g):
    n = g.dim(1, 7)
    a, b = pair(g, n)
    m = g.mat(n, n)
    if g.b(0.2):
        m = np.outer(g.vec(n), g.vec(n))
    sm, dm = g.vec(n, zero_ok=True), g.vec(n, zero_ok=True)
    g.use(a, b, m, sm, dm)
    check_transl(la.orth_transl_max_tr(a.copy(), b.copy(), m), a, b, what='orth_transl_max_tr')
    o = la.orth_transl_max_dir(a.copy(), b.copy(), sm, dm)
    check_transl(np.reshape(o, (1, 1)) if n == 1 else o, a, b, what='orth_transl_max_dir')


@clause('C17', 1)
def transl_many(g):
    n, k, t = g.dim(1, 5), g.i(1, 4), g.i(1, 4)
    src = np.zeros((n, k))
    dst = np.zeros((n, k, t))
    for i in range(k):
        for j in range(t):
            a, b = pair(g, n)
            src[:, i] = a
            dst[:, i, j] = b
    g.use(src, dst)
    s, d = src.copy(), dst.copy()
    if t == 1 and g.b():
        d = dst[:, :, 0].copy()
        if k == 1 and g.b():
            d, s = dst[:, 0, 0].copy(), src[:, 0].copy()
    o = la.ml_orth_transl(s, d)
    need(o.shape == (n, n, t, k), 'ml_orth_transl shape %s' % (o.shape,))
    for i in range(k):
        for j in range(t):
            check_transl(o[:, :, j, i], src[:, i], dst[:, i, j], what='ml_orth_transl page %d,%d' % (j, i))


@clause('C17', 0.5)
def transl_zero(g):
    n = g.dim(1, 6)
    a, z = g.vec(n), np.zeros(n)
    g.use(a)
    f = g.pick([la.orth_transl, la.orth_transl_qr])
    g.use(f)
    x, y = (a, z) if g.b() else (z, a)
    if g.b(0.2):
        x = z
    if g.b(0.3):
        x, y = x.reshape(-1, 1), y.reshape(-1, 1)
    rejects(f, x, y)


# ------------------------------------------------------------------ C18
def tail_basis(a):
    """orthonormal complement of the direction a, n x (n-1)"""
    q, _ = np.linalg.qr(unit(a).reshape(-1, 1), 'complete')
    return q[:, 1:]


@clause('C18', 2)
def max_trace(g):
    n = g.dim(2, 7)
    a, b = pair(g, n)
    m = g.mat(n, n, g.pick([1., 10., 0.1]))
    if g.b(0.3):
        m = g.psd(n)
    g.use(a, b, m)
    o = la.orth_transl_max_tr(a.copy(), b.copy(), m.copy())
    check_transl(o, a, b, what='orth_transl_max_tr')
    ua, ub = unit(a), unit(b)
    k = tail_basis(a).T @ m @ tail_basis(b)
    best = ua @ m @ ub + np.sum(np.linalg.svd(k, compute_uv=False))
    got = np.trace(o @ m)
    sc = 1 + np.max(np.abs(m)) * n
    need(got >= best - 1e-6 * sc, 'trace %r is not the maximum %r' % (got, best))
    need(got <= best + 1e-6 * sc, 'trace %r above the maximum %r' % (got, best))


@clause('C18', 2)
def max_direction(g):
    n = g.dim(2, 7)
    a, b = pair(g, n)
    sm = g.vec(n, zero_ok=True) if g.b(0.7) else a * g.pick([1., -1., 0.5])
    dm = g.vec(n, zero_ok=True) if g.b(0.7) else b * g.pick([1., -1., 0.5])
    g.use(a, b, sm, dm)
    o = la.orth_transl_max_dir(a.copy(), b.copy(), sm.copy(), dm.copy())
    check_transl(o, a, b, what='orth_transl_max_dir')
    ua, ub = unit(a), unit(b)
    ps, pd = sm - ua * (ua @ sm), dm - ub * (ub @ dm)
    best = (ua @ sm) * (ub @ dm) + np.sqrt((ps @ ps) * (pd @ pd))
    got = dm @ (o @ sm)
    sc = 1 + np.sqrt((sm @ sm) * (dm @ dm))
    need(abs(got - best) <= 1e-6 * sc, 'inner product %r, maximum %r' % (got, best))


# ------------------------------------------------------------------ C19
POW = [2. ** -k for k in (1, 2, 3, 5, 8, 10)]


def spectral(g, lam):
    n = len(lam)
    if g.b(0.35):
        return np.eye(n)
    return g.orth(n)


@clause('C19', 2)
def root(g):
    n = g.dim(1, 7)
    tol = g.pick([0., 1e-7, 1e-4, 1e-2])
    lam = g.rng.uniform(0.1, 5, n)
    if g.b() and tol > 0:
        lam[:g.i(0, n)] = g.pick([0., -tol * 0.5, tol * 0.5])
    if g.b(0.2):
        lam[:] = lam[-1]
    u = spectral(g, lam)
    q = u @ np.diag(lam) @ u.T
    q = 0.5 * (q + q.T)
    g.use(q, tol)
    s = la.sqrtm_pos(g.layout(q.copy()), tol)
    need(np.shape(s) == (n, n), 'shape %s' % (np.shape(s),))
    close(s, s.T, 1e-10, 'root not symmetric')
    need(np.min(np.linalg.eigvalsh(0.5 * (s + s.T))) >= -1e-9, 'root not positive semidefinite')
    lc = np.maximum(lam, 0)
    close(s @ s, u @ np.diag(lc) @ u.T, 1e-6, 'square of the root')
    close(s, u @ np.diag(np.sqrt(lc)) @ u.T, 2e-4 if np.any(lam < 0.05) else 1e-7, 'root')


@clause('C19', 1)
def root_reject(g):
    n = g.dim(1, 6)
    tol = g.pick([0.] + POW)
    lam = g.rng.uniform(0.1, 5, n)
    k = g.i(0, 4)
    if k == 0:          # boundary value, exact on diagonal matrices: still accepted
        lam[g.i(0, n - 1)] = -tol
        q = np.diag(lam)
        g.use(q, tol)
        s = la.sqrtm_pos(q.copy(), tol)
        close(s, np.diag(np.sqrt(np.maximum(lam, 0))), 1e-9, 'root of diagonal matrix')
    elif k == 1:
        lam[g.i(0, n - 1)] = -tol - g.pick([2. ** -12, 0.5, 3.])
        q = np.diag(lam)
        g.use(q, tol)
        rejects(la.sqrtm_pos, q, tol)
    elif k == 2:
        lam[g.i(0, n - 1)] = -tol * 1.01 - 1e-6
        u = g.orth(n)
        q = u @ np.diag(lam) @ u.T
        q = 0.5 * (q + q.T)
        g.use(q, tol)
        rejects(la.sqrtm_pos, q, tol)
    elif k == 3:
        q = np.diag(lam)
        g.use(q)
        rejects(la.sqrtm_pos, q, -g.pick(POW))
    else:
        if n == 1:
            raise Skip()
        q = np.diag(np.round(lam * 16) / 16)
        i, j = g.rng.permutation(n)[:2]
        q[i, j] += tol + 2. ** -12
        g.use(q, tol)
        rejects(la.sqrtm_pos, q, tol)


@clause('C19', 2)
def regularise(g):
    n = g.dim(1, 7)
    tol = float(g.pick([1e-3, 0.1, 0.5, 1., 2.]))
    lam = g.rng.uniform(-3, 5, n)
    if g.b():
        lam[:g.i(0, n)] = g.pick([0., tol, tol * 2, tol * 0.5, -tol])
    u = spectral(g, lam)
    q = u @ np.diag(lam) @ u.T
    q = 0.5 * (q + q.T)
    g.use(q, tol)
    r = la.reg_pos_def_mat(q.copy(), tol)
    close(r, r.T, 1e-12, 'regularised matrix not symmetric')
    close(r, u @ np.diag(np.maximum(lam, tol)) @ u.T, 1e-8, 'regularised matrix')


@clause('C19', 1)
def regularise_general(g):
    m, n = g.dim(1, 6), g.dim(1, 6)
    tol = float(g.pick([1e-3, 0.1, 0.5, 1., 2.]))
    k = min(m, n)
    s = g.rng.uniform(0, 4, k)
    if g.b(0.3):
        s[:g.i(0, k)] = g.pick([0., tol, 0.5 * tol])
    if g.b(0.3):
        s[:] = s[0]
    u, v = g.orth(m)[:, :k], g.orth(n)[:, :k]
    a = u @ np.diag(s) @ v.T
    g.use(a, tol)
    r = la.reg_mat(a.copy(), tol)
    need(np.shape(r) == (m, n), 'shape %s' % (np.shape(r),))
    t = np.maximum(s, tol)
    if m >= n:
        close(a.T @ r, v @ np.diag(s * t) @ v.T, 1e-7, "A'R")
        close(r.T @ r, v @ np.diag(t * t) @ v.T, 1e-7, "R'R")
    if m <= n:
        close(a @ r.T, u @ np.diag(s * t) @ u.T, 1e-7, "AR'")
        close(r @ r.T, u @ np.diag(t * t) @ u.T, 1e-7, "RR'")
    if np.all(s > 1e-6):
        close(r, u @ np.diag(t) @ v.T, 1e-7, 'regularised matrix')


@clause('C19', 0.5)
def regularise_reject(g):
    n = g.dim(1, 4)
    q = g.spd(n)
    f = g.pick([la.reg_pos_def_mat, la.reg_mat])
    g.use(q, f)
    rejects(f, q, g.pick([0., -0.5, -1]))
    rejects(f, q, np.array([0.1, 0.1]))
    if n > 1:
        q = np.round(q * 16) / 16
        q[0, n - 1] += 0.5
        rejects(la.reg_pos_def_mat, q, 0.1)


@clause('C19', 2)
def test_definite(g):
    n = g.dim(1, 6)
    tol = g.pick([0.] + POW)
    base = np.sort(np.round(g.rng.uniform(0.6, 4, n) * 16) / 16)
    kind = g.i(0, 5)
    if kind <= 3:           # exact: diagonal
        d = g.pick([0., 2. ** -12, -2. ** -12, 0.25, -0.25])
        base[0] = g.pick([tol, -tol, 0.]) + d
        lam = base
        q = np.diag(g.rng.permutation(lam))
        lo = np.min(lam)
    else:
        base[0] = g.u(-1, 1)
        u = g.orth(n)
        q = u @ np.diag(base) @ u.T
        q = 0.5 * (q + q.T)
        lo = np.min(base)
        if min(abs(lo - tol), abs(lo + tol)) < 1e-6:
            raise Skip()
    g.use(q, tol)
    r = la.is_mat_pos_def(q.copy(), tol)
    need(bool(r) == (lo > tol), 'definite: %s for least eigenvalue %r and tolerance %r' % (r, lo, tol))
    r = la.is_mat_pos_def(q.copy(), tol, True)
    need(bool(r) == (lo >= -tol), 'semidefinite: %s for least eigenvalue %r and tolerance %r' % (r, lo, tol))


@clause('C19', 1)
def test_symmetric(g):
    n = g.dim(1, 6)
    tol = g.pick([0.] + POW)
    q = np.round(g.sym(n) * 64) / 64
    dev = 0.
    if n > 1:
        i, j = g.rng.permutation(n)[:2]
        dev = g.pick([0., tol, -tol, tol + 2. ** -20, -tol - 2. ** -20, tol * 0.5, 3.])
        q[i, j] = q[j, i] + dev
        dev = abs(q[i, j] - q[j, i])
    g.use(q, tol)
    r = la.is_mat_symm(q.copy(), tol)
    need(bool(r) == (dev <= tol), 'symmetric: %s for deviation %r and tolerance %r' % (r, dev, tol))
    if dev > tol:
        rejects(la.is_mat_pos_def, q, tol)
    m = g.mat(n, n + 1)
    rejects(la.is_mat_symm, m, tol)
    rejects(la.is_mat_symm, m[0], tol)
    rejects(la.is_mat_pos_def, q, -0.5)


@clause('C19', 1)
def test_nonsingular(g):
    m, n = g.dim(1, 6), g.dim(1, 6)
    if g.b(0.6):
        m = n
    tol = g.pick([0.] + POW)
    k = min(m, n)
    s = np.round(g.rng.uniform(0.6, 4, k) * 16) / 16
    exact = g.b(0.6)
    if exact:
        s[g.i(0, k - 1)] = max(0., tol + g.pick([0., 2. ** -12, -2. ** -12, -tol, 0.25]))
        a = np.zeros((m, n))
        a[np.arange(k), np.arange(k)] = s * g.rng.choice([-1, 1], k)
    else:
        s[g.i(0, k - 1)] = abs(g.u(-1, 1))
        a = g.orth(m)[:, :k] @ np.diag(s) @ g.orth(n)[:, :k].T
        if abs(np.min(s) - tol) < 1e-6:
            raise Skip()
    g.use(a, tol)
    if exact and not np.array_equal(np.sort(np.linalg.svd(a, compute_uv=False)), np.sort(s)):
        raise Skip()
    r = la.is_mat_not_deg(a.copy(), tol)
    need(bool(r) == (np.min(s) >= tol), 'non-singular: %s for least singular value %r and tolerance %r' % (r, np.min(s), tol))
    rejects(la.is_mat_not_deg, a, -0.5)


@clause('C19', 1)
def orthogonalise(g):
    m, n = g.dim(1, 6), g.dim(1, 6)
    a = g.mat(m, n)
    if g.b(0.2) and n > 1:
        a[:, n - 1] = a[:, 0] * g.pick([1., -2.])
    if g.b(0.2):
        a = -np.abs(a)
    g.use(a)
    o = la.mat_orth(a.copy())
    need(np.shape(o) == (m, m), 'shape %s' % (np.shape(o),))
    close(o.T @ o, np.eye(m), 1e-9, 'columns not orthonormal')
    r = o.T @ a
    for i in range(m):
        close(r[i, :min(i, n)], np.zeros(min(i, n)), 1e-8 * (1 + np.max(np.abs(a))), 'span of the leading columns')
    need(np.all(np.diagonal(r) >= -1e-8), 'negative product on the diagonal: %s' % np.diagonal(r))
    if m >= n:
        c = la.math_orth_col(a.copy())
        close(c, o[:, :n], 1e-12, 'math_orth_col')


@clause('C19', 1)
def guarded_root(g):
    tol = g.pick([0.] + POW)
    shape = g.pick([(), (3,), (2, 3), (1, 1), (2, 1, 2)])
    x = np.round(g.rng.uniform(-0.5, 3, shape) * 16) / 16 if shape else float(round(g.u(-0.5, 3) * 16) / 16)
    if g.b():
        x = np.abs(x) if shape else abs(x)
    if g.b(0.4):
        bv = g.pick([-tol, -tol * 0.5, -tol - 2. ** -12])
        if shape:
            x.flat[g.i(0, x.size - 1)] = bv
        else:
            x = bv
    g.use(np.asarray(x), tol)
    if np.any(np.asarray(x) < -tol):
        rejects(sqrt_pos, x, tol)
    else:
        close(sqrt_pos(x, tol), np.sqrt(np.maximum(x, 0)), 1e-14, 'guarded root')
    rejects(sqrt_pos, x, -0.25)


# ------------------------------------------------------------------ C22
def orient(g, v):
    k = g.i(0, 2)
    return v.copy() if k == 0 else (v.reshape(1, -1).copy() if k == 1 else v.reshape(-1, 1).copy())


@clause('C22', 3)
def quadratic(g):
    n = g.dim(1, 7)
    q = g.pick([g.spd(n), g.spd(n), g.nonsing(n), g.mat(n, n)])
    x = g.vec(n, zero_ok=True, scale=2.)
    c = g.vec(n, zero_ok=True, scale=2.)
    mode = g.pick(['plain', 'inv', 'invadv', 'Plain', 'INV', 'InvAdv'])
    ck = g.i(0, 4)
    g.use(q, x, c, mode, ck)
    if mode.lower() != 'plain':
        s = np.linalg.svd(q, compute_uv=False)
        if s[-1] < 1e-2:
            raise Skip()
    args = [g.layout(q.copy()), orient(g, x)]
    if ck == 0:
        c = np.zeros(n)
        r = quad_mat(*args, mode=mode)
    elif ck == 1:
        c = np.zeros(n)
        r = quad_mat(*args, g.pick([0, 0., np.zeros(1), np.array(0.), np.zeros((1, 1))]), mode)
    else:
        r = quad_mat(*args, orient(g, c), mode)
    y = x - c
    e = y @ q @ y if mode.lower() == 'plain' else y @ np.linalg.solve(q, y)
    need(np.size(r) == 1, 'size of the result %s' % (np.shape(r),))
    close(np.reshape(r, ()), e, 1e-8, 'quadratic form, mode %s' % mode)


@clause('C22', 1)
def quadratic_reject(g):
    n = g.dim(2, 6)
    q, x, c = g.spd(n), g.vec(n), g.vec(n)
    mode = g.pick(['plain', 'inv', 'invadv'])
    k = g.i(0, 9)
    g.use(q, x, c, k)
    if k == 0:
        rejects(quad_mat, q, x, c, g.pick(['plane', '', 'inverse', 'adv', 'plain ']))
    elif k == 1:
        rejects(quad_mat, q[:, :-1], x[:-1], c[:-1], mode)
    elif k == 2:
        rejects(quad_mat, q[:-1, :], x, c, mode)
    elif k == 3:
        rejects(quad_mat, q, orient(g, np.append(x, 1.)), 0., mode)
    elif k == 4:
        rejects(quad_mat, q, orient(g, x), orient(g, np.append(c, 1.)), mode)
    elif k == 5:
        rejects(quad_mat, q, orient(g, x[:-1]), orient(g, c[:-1]), mode)
    elif k == 6:
        rejects(quad_mat, q, g.mat(n, 2), c, mode)
    elif k == 7:
        rejects(quad_mat, q, x, g.mat(n, 2), mode)
    elif k == 8:
        rejects(quad_mat, q[0], x, c, mode)
    else:
        rejects(inv_mat, g.pick([q[0], q[:, :-1], np.zeros((n, n, 2))]))


@clause('C22', 1)
def inverse(g):
    n = g.dim(1, 7)
    q = g.pick([g.spd(n), g.nonsing(n), np.diag(g.rng.uniform(0.1, 5, n))])
    g.use(q)
    r = inv_mat(g.layout(q.copy()))
    close(r @ q, np.eye(n), 1e-8, 'inverse times matrix')
    close(q @ r, np.eye(n), 1e-8, 'matrix times inverse')


def ball_volume(n):
    v = [1., 2.]
    for i in range(2, n + 1):
        v.append(v[i - 2] * 2 * math.pi / i)
    return v[n]


@clause('C22', 1)
def volume(g):
    n = g.dim(1, 9)
    q = g.spd(n) if g.b(0.8) else np.diag(np.append(np.zeros(1), np.ones(n - 1)))
    g.use(q)
    d = np.prod(np.linalg.eigvalsh(q)) if np.all(np.diag(q) > 0) else 0.
    e = ball_volume(n) * math.sqrt(max(d, 0))
    r = ell_volume(q.copy())
    need(np.size(r) == 1, 'one number expected')
    close(r / max(e, 1), e / max(e, 1), 1e-9, 'volume in dimension %d' % n)


@clause('C22', 1)
def matrix_inner_product(g):
    n = g.dim(1, 5)
    k = g.pick([None, 1, 2, 3])
    s = (n, n) if k is None else (n, n, k)
    a, b = g.rng.randn(*s), g.rng.randn(*s)
    g.use(a, b)
    r = mat_dot(a.copy(), b.copy())
    if k is None:
        close(np.reshape(r, ()), np.sum(a * b) / n, 1e-10, 'matrix inner product')
    else:
        r = np.reshape(r, (-1,))
        need(r.size == k, 'one number per page')
        for t in range(k):
            close(r[t], np.sum(a[:, :, t] * b[:, :, t]) / n, 1e-10, 'page %d' % t)
    rejects(mat_dot, a, b[:, :-1])
    rejects(mat_dot, g.mat(n, n + 1), g.mat(n, n + 1))
