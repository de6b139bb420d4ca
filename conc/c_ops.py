"""C07 support function, C08 boundary, C09/C10 Minkowski sums, C14 membership, C15 comparison: run-time contracts."""
import numpy as np

from base import clause, close, need, rejects, Fail, Skip
from c_core import obj_arr
from ellipy.elltool.core.ellipsoid.Ellipsoid import Ellipsoid
from ellipy.elltool.core import core
from ellipy.gras.geom.ell.ell import rho_mat


def rho_oracle(c, q, l):
    """support value and point; None for the point where the root is within rounding of zero but not exactly"""
    v = l @ q @ l
    scale = np.max(np.abs(q)) * (l @ l) + 1e-300
    if abs(v) <= 1e-12 * scale:
        ex = np.all(l == 0) or np.all(q @ l == 0)
        return l @ c, (c if ex else None), 0.0
    r = np.sqrt(max(v, 0))
    return l @ c + r, c + q @ l / r, r


def dirs(g, n, k):
    a = np.stack([g.vec(n, zero_ok=True) for _ in range(k)], 1)
    return a * g.pick([1., 1., 0.1, 10.])


# ------------------------------------------------------------------ C07
@clause('C07', 2)
def rho_of_matrix(g):
    n, k = g.dim(1, 7), g.i(1, 6)
    q = g.psd(n, 0.5)
    l = dirs(g, n, k)
    c = g.vec(n, zero_ok=True)
    g.use(q, l, c)
    kind = g.i(0, 2)
    if kind == 0:
        s, b = rho_mat(g.layout(q), g.layout(l), 1e-7, c.reshape(-1, 1))
    elif kind == 1:
        s, b = rho_mat(q, l, ell_center_vec=c.reshape(-1, 1))
    else:
        c = np.zeros(n)
        s, b = rho_mat(q, l, 1e-7)
    need(np.shape(s) == (1, k) and np.shape(b) == (n, k), 'shapes %s %s' % (np.shape(s), np.shape(b)))
    for j in range(k):
        e, p, r = rho_oracle(c, q, l[:, j])
        close(s[0, j], e, 2e-6 if r == 0 else 1e-7, 'support value in direction %d' % j)
        if p is not None:
            close(b[:, j], p, 1e-6, 'support point in direction %d' % j)
            if r > 0:
                close(b[:, j] @ l[:, j], s[0, j], 1e-7, '<l, x> differs from the support value')
                d = b[:, j] - c
                need(np.all(np.isfinite(d)), 'support point not finite')


@clause('C07', 2)
def rho_ell_many_dirs(g):
    n, k = g.dim(1, 6), g.i(1, 6)
    e = g.ell(n, 0.4)
    l = dirs(g, n, k)
    multi = k == 6 and g.b(0.7)
    la = l.reshape((n, 2, 3)) if multi else l
    arg = g.pick([[e], obj_arr([e], (1, 1)), obj_arr([e], (1,))])
    g.use(e, la)
    s, b = Ellipsoid.rho(arg, la)
    if multi:
        need(np.shape(s) == (2, 3) and np.shape(b) == (n, 2, 3), 'shapes %s %s' % (np.shape(s), np.shape(b)))
    s, b = np.reshape(s, (-1,)), np.reshape(b, (n, -1))
    c, q = e.double()
    for j in range(k):
        v, p, r = rho_oracle(c, q, l[:, j])
        close(s[j], v, 2e-3 if r == 0 else 1e-7, 'support value')
        if p is not None:
            close(b[:, j], p, 1e-6, 'support point')


@clause('C07', 2)
def rho_many_ells(g):
    n = g.dim(1, 5)
    shape = g.pick([(2,), (3,), (1, 3), (3, 1), (2, 2), (2, 1, 2)])
    k = int(np.prod(shape))
    es = [g.ell(n, 0.3) for _ in range(k)]
    l = dirs(g, n, 1)
    A = obj_arr(es, shape)
    g.use(A, l)
    s, b = Ellipsoid.rho(A, l)
    need(np.shape(s) == shape, 'shape of the values')
    s, b = np.ravel(s), np.reshape(b, (n, -1))
    for j, e in enumerate(es):
        v, p, r = rho_oracle(*e.double(), l[:, 0])
        close(s[j], v, 2e-3 if r == 0 else 1e-7, 'support value of ellipsoid %d' % j)
        if p is not None:
            close(b[:, j], p, 1e-6, 'support point of ellipsoid %d' % j)


@clause('C07', 2)
def rho_pairs(g):
    n = g.dim(1, 5)
    k = g.i(2, 5)
    shape = g.pick([(k,), (1, k), (k, 1), 'nd'])
    if shape == 'nd':
        shape = (2, 2)
        k = 4
    es = [g.ell(n, 0.3) for _ in range(k)]
    l = dirs(g, n, k)
    la = l.reshape((n,) + shape) if len(shape) == 2 and shape[0] > 1 and shape[1] > 1 else l
    A = obj_arr(es, shape)
    g.use(A, la)
    s, b = Ellipsoid.rho(A, la)
    if la.ndim == 3:
        need(np.shape(s) == shape and np.shape(b) == (n,) + shape, 'shapes')
    s, b = np.ravel(s), np.reshape(b, (n, -1))
    for j, e in enumerate(es):
        v, p, r = rho_oracle(*e.double(), l[:, j])
        close(s[j], v, 2e-3 if r == 0 else 1e-7, 'support value of pair %d' % j)
        if p is not None:
            close(b[:, j], p, 1e-6, 'support point of pair %d' % j)


@clause('C07', 0.5)
def rho_reject(g):
    n = g.dim(2, 4)
    es = [g.ell(n) for _ in range(3)]
    g.use(es)
    rejects(Ellipsoid.rho, es, g.mat(n, 2))
    rejects(Ellipsoid.rho, es, g.mat(n + 1, 3))
    rejects(Ellipsoid.rho, es[:1], g.mat(n + 1, 2))
    rejects(Ellipsoid.rho, [es[0], 5], g.mat(n, 2))
    rejects(Ellipsoid.rho, es, np.array([['a'] * 3] * n))


# ------------------------------------------------------------------ C08
def sphere_vertices(k):
    return 10 * 4 ** k + 2


def depth_for(m):
    d = 1
    while sphere_vertices(d) < m:
        d += 1
    return d


def ell_any(g, n):
    q = g.psd(n, 0.25)
    kw = dict(n_plot_2d_points=g.i(3, 60), n_plot_3d_points=g.i(3, 200))
    return Ellipsoid(g.vec(n, zero_ok=True), q, **kw)


def check_boundary(e, pts, f, npts):
    c, q = e.double()
    n = c.size
    d, v = np.linalg.eigh(q)
    s = v @ np.diag(np.sqrt(np.maximum(d, 0))) @ v.T
    if n == 2:
        need(pts.shape == (npts, 2), '%s points instead of %d' % (pts.shape, npts))
        phi = 2 * np.pi * np.arange(npts) / npts
        close(pts, c + np.stack([np.cos(phi), np.sin(phi)], 1) @ s, 1e-7, 'boundary points')
        if f is not None:
            f = np.asarray(f)
            need(f.shape == (npts, 2), 'mesh shape')
            need(np.array_equal(f[:, 0], np.arange(npts)) and np.array_equal(f[:, 1], (np.arange(npts) + 1) % npts),
                 'polygon mesh')
    else:
        k = depth_for(npts)
        need(pts.shape == (sphere_vertices(k), 3), '%s points for %d requested' % (pts.shape, npts))
        if np.min(d) > 1e-3:
            w = (pts - c) @ np.linalg.inv(s)
            close(np.sum(w * w, 1), np.ones(len(w)), 1e-6, 'points are not on the boundary')
        else:
            from ellipy.gras.geom.tri.tri import sphere_tri
            close(pts, c + sphere_tri(k)[0] @ s, 1e-6, 'boundary points')
        if f is not None:
            check_closed_mesh(np.asarray(f), len(pts), 20 * 4 ** k)


def check_closed_mesh(f, nv, nf):
    need(f.shape == (nf, 3), 'mesh has shape %s, expected %d triangles' % (f.shape, nf))
    need(f.min() == 0 and f.max() == nv - 1, 'mesh indices')
    need(np.unique(f).size == nv, 'unused points')
    e = np.sort(np.vstack([f[:, [0, 1]], f[:, [1, 2]], f[:, [0, 2]]]), 1)
    key = e[:, 0] * nv + e[:, 1]
    need(np.all(e[:, 0] < e[:, 1]), 'degenerate triangle')
    _, cnt = np.unique(key, return_counts=True)
    need(np.all(cnt == 2), 'an edge does not belong to exactly two triangles')
    need(cnt.size == nv + nf - 2, 'wrong number of edges')


@clause('C08', 2)
def boundary(g):
    n = 2 if g.b(0.7) else 3
    e = ell_any(g, n)
    k = g.i(0, 3)
    npts = g.i(3, 40) if n == 2 else g.pick([3, 12, 42, 43, 100, 162, 163])
    g.use(e, npts, k)
    if k == 0:
        pts, f = e.get_boundary(npts, True)
    elif k == 1:
        pts, f = e.get_boundary(npts), None
    else:
        npts = e._n_plot_2d_points if n == 2 else e._n_plot_3d_points
        if k == 2:
            pts, f = e.get_boundary(return_grid=True)
        else:
            pts, f = e.get_boundary(), None
    check_boundary(e, pts, f, npts)


@clause('C08', 1.5)
def boundary_by_factor(g):
    n = 2 if g.b(0.7) else 3
    e = ell_any(g, n)
    base = e._n_plot_2d_points if n == 2 else e._n_plot_3d_points
    fac = g.pick([1.0, 0.5, 1.5, 2, 1.3, 0.77, 0.99])
    other = 3.7
    k = g.i(0, 4)
    if k == 0:
        arg, fac = None, 1.0
    elif k == 1:
        arg = fac
    elif k == 2:
        arg = np.array([fac, other]) if n == 2 else np.array([other, fac])
    elif k == 3:
        arg = [fac, other] if n == 2 else [other, fac]
    else:
        arg = np.float64(fac)
    npts = int(np.floor(base * fac))
    if npts < 1:
        raise Skip()
    g.use(e, arg)
    if g.b():
        if g.b():
            pts, f = e.get_boundary_by_factor(arg, True)
        else:
            pts, f = e.get_boundary_by_factor(arg), None
        check_boundary(e, pts, f, npts)
    else:
        check_rho_boundary(e, e.get_rho_boundary_by_factor(arg), npts)


def check_rho_boundary(e, res, npts):
    bp, f, sup, l = res
    c, q = e.double()
    n = c.size
    m = npts if n == 2 else sphere_vertices(depth_for(npts))
    need(l.shape == (m + 1, n) and bp.shape == (m + 1, n) and np.size(sup) == m + 1,
         'sizes %s %s %s for %d points' % (l.shape, bp.shape, np.shape(sup), npts))
    close(np.sum(l * l, 1), np.ones(m + 1), 1e-9, 'directions are not unit vectors')
    close(l[-1], l[0], 1e-12, 'first direction is not repeated')
    if n == 2:
        phi = 2 * np.pi * np.arange(m) / m
        close(l[:-1], np.stack([np.cos(phi), np.sin(phi)], 1), 1e-9, 'directions')
        f = np.asarray(f)
        need(np.array_equal(f[:, 0], np.arange(m)) and np.array_equal(f[:, 1], (np.arange(m) + 1) % m), 'polygon mesh')
    else:
        check_closed_mesh(np.asarray(f), m, 20 * 4 ** depth_for(npts))
    r2 = np.sum((l @ q) * l, 1)
    ok = r2 > 1e-9
    val = l @ c + np.sqrt(np.maximum(r2, 0))
    close(np.ravel(sup)[ok], val[ok], 1e-7, 'support values')
    if np.any(ok):
        close(bp[ok], c + (l @ q)[ok] / np.sqrt(r2[ok])[:, None], 1e-6, 'support points')


@clause('C08', 1.5)
def rho_boundary(g):
    n = 2 if g.b(0.7) else 3
    e = ell_any(g, n)
    if g.b():
        npts = g.i(3, 40) if n == 2 else g.pick([3, 42, 43, 162])
        res = e.get_rho_boundary(npts)
    else:
        npts = e._n_plot_2d_points if n == 2 else e._n_plot_3d_points
        res = e.get_rho_boundary()
    g.use(e, npts)
    check_rho_boundary(e, res, npts)


@clause('C08', 0.4)
def boundary_reject(g):
    n = g.pick([1, 4, 5])
    e = g.ell(n)
    g.use(e)
    rejects(e.get_boundary)
    rejects(e.get_boundary, 10)
    rejects(e.get_rho_boundary)
    rejects(e.get_boundary_by_factor, 1.)
    rejects(e.get_rho_boundary_by_factor, np.array([1., 1.]))
    e2 = g.ell(2)
    rejects(e2.get_boundary, g.pick([0, -3, 2.5]))
    rejects(e2.get_rho_boundary, g.pick([0, -3, 2.5]))


@clause('C08', 0.6)
def grid_by_factor(g):
    n = 2 if g.b(0.7) else 3
    e = ell_any(g, n)
    base = e._n_plot_2d_points if n == 2 else e._n_plot_3d_points
    fac = g.pick([1., 0.5, 1.5, 2.])
    npts = int(np.floor(base * fac))
    if npts < 1:
        raise Skip()
    g.use(e, fac)
    arg = np.array(fac) if g.b() else np.array([fac, 2.5] if n == 2 else [2.5, fac])
    v, f = e._get_grid_by_factor(arg)
    m = npts if n == 2 else sphere_vertices(depth_for(npts))
    need(v.shape == (m, n), 'grid size')
    close(np.sum(v * v, 1), np.ones(m), 1e-9, 'unit vectors')


# ------------------------------------------------------------------ C09 / C10
def reg(q, tol):
    d, v = np.linalg.eigh(q)
    if d[0] <= tol:
        return v @ np.diag(np.maximum(d, tol)) @ v.T
    return q


def sum_case(g, deg):
    n = g.dim(1, 6)
    k = g.i(2, 5)
    kw = {'abs_tol': float(g.pick([1e-3, 1e-2, 1e-5]))} if g.b(0.5) or deg else {}
    es = [g.ell(n, deg, **kw) for _ in range(k)]
    m = g.i(1, 3)
    l = np.stack([g.vec(n) for _ in range(m)], 1)
    return n, k, es, m, l


def sup(c, q, l):
    return l @ c + np.sqrt(max(l @ q @ l, 0))


def check_sum(g, es, l, res, external):
    cs = [e.get_center_vec() for e in es]
    qs = [reg(e.get_shape_mat(), e._abs_tol) for e in es]
    n = cs[0].size
    m = l.shape[1]
    need(np.shape(res) == (m,), 'one ellipsoid per direction expected, got %s' % (np.shape(res),))
    csum = np.sum(cs, 0)
    sg = 1 if external else -1
    for j in range(m):
        c, q = res[j].double()
        close(c, csum, 1e-8, 'centre is not the sum of the centres')
        tot = sum(sup(x, y, l[:, j]) for x, y in zip(cs, qs))
        close(sup(c, q, l[:, j]), tot, 1e-5, 'not tight in the given direction %d' % j)
        for _ in range(12):
            x = g.rng.randn(n)
            if g.b(0.3):
                x = l[:, j] + 0.3 * x
            t = sum(sup(a, b, x) for a, b in zip(cs, qs))
            s = sup(c, q, x)
            need(sg * (s - t) >= -1e-5 * (1 + abs(t)), '%s approximation: support %.9g against %.9g of the sum in direction %s'
                 % ('external' if external else 'internal', s, t, x))
        if external:
            p = [np.sqrt(l[:, j] @ y @ l[:, j]) for y in qs]
            close(q, sum(p) * sum(y / r for y, r in zip(qs, p)), 1e-6, 'shape of the external approximation')


@clause('C09', 2)
def external(g):
    n, k, es, m, l = sum_case(g, 0.0)
    la = l[:, 0] if m == 1 and g.b() else l
    g.use(es, la)
    check_sum(g, es, l, Ellipsoid.minksum_ea(g.pick([es, obj_arr(es, (k,)), obj_arr(es, (1, k))]), la), True)


@clause('C09')
def external_degenerate(g):
    n, k, es, m, l = sum_case(g, 0.6)
    g.use(es, l)
    if any(np.sqrt(x @ reg(e.get_shape_mat(), e._abs_tol) @ x) < 1e-4 for e in es for x in l.T):
        raise Skip()
    check_sum(g, es, l, Ellipsoid.minksum_ea(es, l), True)


@clause('C10', 2)
def internal(g):
    n, k, es, m, l = sum_case(g, 0.0)
    la = l
    g.use(es, la)
    check_sum(g, es, l, Ellipsoid.minksum_ia(g.pick([es, obj_arr(es, (k,)), obj_arr(es, (1, k))]), la), False)


@clause('C10')
def internal_degenerate(g):
    n, k, es, m, l = sum_case(g, 0.6)
    g.use(es, l)
    if any(np.sqrt(x @ reg(e.get_shape_mat(), e._abs_tol) @ x) < 1e-3 for e in es for x in l.T):
        raise Skip()
    check_sum(g, es, l, Ellipsoid.minksum_ia(es, l), False)


def one_summand(g, f):
    n = g.dim(1, 5)
    e = g.ell(n, 0.3)
    l = np.stack([g.vec(n) for _ in range(g.i(1, 3))], 1)
    g.use(e, l)
    r = np.array(f([e], l)).ravel()
    need(r.size == l.shape[1], 'one result per direction')
    for x in r:
        close(x.get_center_vec(), e.get_center_vec(), 1e-12)
        close(x.get_shape_mat(), e.get_shape_mat(), 1e-12)


def sum_reject(g, f):
    n = g.dim(2, 4)
    a, b = g.ell(n), g.ell(n + 1)
    l = np.ones((n, 1))
    g.use(a, b)
    rejects(f, [a, b], l)
    rejects(f, [a, a], np.ones((n + 1, 1)))
    rejects(f, [a, Ellipsoid()], l)
    rejects(f, [a, 3], l)


@clause('C09', 0.4)
def external_single(g):
    one_summand(g, Ellipsoid.minksum_ea)


@clause('C10', 0.4)
def internal_single(g):
    one_summand(g, Ellipsoid.minksum_ia)


@clause('C09', 0.3)
def external_reject(g):
    sum_reject(g, Ellipsoid.minksum_ea)


@clause('C10', 0.3)
def internal_reject(g):
    sum_reject(g, Ellipsoid.minksum_ia)


# ------------------------------------------------------------------ C14
def member(e, x):
    c, q = e.double()
    t = e._abs_tol
    q = reg(q, t)
    r = np.sqrt((x - c) @ np.linalg.solve(q, x - c))
    if abs(abs(r - 1) - t) < 1e-3 * t + 1e-9:
        return None
    return bool(r < 1 or abs(r - 1) < t)


@clause('C14', 3)
def is_internal(g):
    n = g.dim(1, 5)
    k = g.i(1, 4)
    m = g.i(1, 5)
    es = [g.ell(n, 0.15, **({'abs_tol': float(g.pick([1e-5, 1e-3, 0.05]))} if g.b(0.6) else {})) for _ in range(k)]
    xs = []
    for _ in range(m):
        e = g.pick(es)
        c, q = e.double()
        d, v = np.linalg.eigh(reg(q, e._abs_tol))
        u = g.rng.randn(n)
        u /= np.linalg.norm(u)
        r = g.pick([0., 0.5, 0.9, 1 - 2 * e._abs_tol, 1 - 0.5 * e._abs_tol, 1 + 0.5 * e._abs_tol, 1 + 2 * e._abs_tol, 1.2, 2.])
        xs.append(c + v @ (np.sqrt(d) * u) * r)
    X = np.array(xs).T
    shape = g.pick([(k,), (1, k), (k, 1)])
    A = g.pick([es, obj_arr(es, shape)])
    tab = [[member(e, x) for e in es] for x in xs]
    if any(None in r for r in tab):
        raise Skip()
    g.use(A, X)
    for mode, f in (('u', any), ('i', all)):
        exp = [f(r) for r in tab]
        r = np.ravel(Ellipsoid.is_internal(A, X, mode))
        need(list(r) == exp, "mode '%s' gives %s, expected %s" % (mode, list(r), exp))
        p = g.rng.permutation(m)
        r2 = np.ravel(Ellipsoid.is_internal(es[::-1], X[:, p], mode))
        need(list(r2) == [exp[i] for i in p], "mode '%s' depends on the order" % mode)


@clause('C14', 0.4)
def is_internal_reject(g):
    n = g.dim(2, 4)
    es = [g.ell(n) for _ in range(2)]
    g.use(es)
    rejects(Ellipsoid.is_internal, es, g.mat(n + 1, 2), 'u')
    rejects(Ellipsoid.is_internal, es, g.mat(n - 1, 2), 'i')
    rejects(Ellipsoid.is_internal, [], g.mat(n, 2), 'u')
    rejects(Ellipsoid.is_internal, [es[0], Ellipsoid()], g.mat(n, 2), 'u')
    rejects(Ellipsoid.is_internal, es, g.mat(n, 2), g.pick(['x', 'U', 'ui', '']))
    rejects(Ellipsoid.is_internal, [es[0], g.ell(n + 1)], g.mat(n, 2), 'u')


# ------------------------------------------------------------------ C15
@clause('C15', 2)
def is_bigger(g):
    n = g.dim(1, 6)
    t = float(g.pick([1e-6, 1e-3, 0.05]))
    q1 = g.spd(n)
    k = g.i(0, 3)
    d, v = np.linalg.eigh(q1)
    s = v @ np.diag(np.sqrt(d)) @ v.T
    if k == 0:
        q2 = g.psd(n, 0.3)
    else:
        u = g.orth(n)
        w = g.rng.uniform(0.05, 1, n)
        w[g.i(0, n - 1)] = g.pick([0.5, 1 - 1e-3, 1., 1 + 0.5 * t, 1 + 2 * t, 1.5, 3.])
        q2 = s @ u @ np.diag(w) @ u.T @ s
        q2 = 0.5 * (q2 + q2.T)
    mx = np.max(np.linalg.eigvals(np.linalg.solve(q1, q2)).real)
    if abs(mx - 1 - t) < 1e-3 * t + 1e-8:
        raise Skip()
    t2 = float(g.pick([t, 1e-5]))
    a = Ellipsoid(g.vec(n, zero_ok=True), q1, abs_tol=t)
    b = Ellipsoid(g.vec(n, zero_ok=True), q2, abs_tol=t2)
    g.use(a, b)
    if np.linalg.eigvalsh(q1)[0] <= t:
        raise Skip()
    r = a.is_bigger(g.pick([b, [b], obj_arr([b], (1, 1))]))
    need(bool(r) == (mx < 1 + t), 'is_bigger gives %s, largest generalised eigenvalue %.9g, tolerance %g' % (r, mx, t))


@clause('C15')
def bigger_special(g):
    n = g.dim(2, 5)
    q2 = g.spd(n)
    r = g.i(1, n - 1)
    d = np.zeros(n)
    d[:r] = g.rng.uniform(1, 50, r)
    u = g.orth(n)
    q1 = u @ np.diag(d) @ u.T
    a, b = Ellipsoid(0.5 * (q1 + q1.T)), Ellipsoid(q2)
    g.use(a, b)
    need(not a.is_bigger(b), 'an ellipsoid of smaller rank reported bigger')
    rejects(a.is_bigger, g.ell(n + 1))
    rejects(b.is_bigger, g.ell(n + 1))
    rejects(b.is_bigger, [b, b])
    rejects(b.is_bigger, 5)


@clause('C15', 2)
def sim_diag(g):
    n = g.dim(1, 6)
    a = g.spd(n)
    b = g.pick([g.sym, g.spd, lambda m: np.diag(g.rng.randn(m)), lambda m: np.zeros((m, m)), lambda m: np.eye(m)])(n)
    b = 0.5 * (b + b.T)
    g.use(a, b)
    t = core.ell_sim_diag(a, b, 1e-7)
    need(t.shape == (n, n), 'shape')
    close(t @ a @ t.T, np.eye(n), 1e-6, 'T A T\' is not the identity')
    m = t @ b @ t.T
    close(m, np.diag(np.diag(m)), 1e-6, "T B T' is not diagonal")
    if n > 1:
        ns = b.copy()
        ns[0, n - 1] += 1
        rejects(core.ell_sim_diag, a, ns, 1e-7)
        rejects(core.ell_sim_diag, a, g.sym(n + 1), 1e-7)
        ai = a.copy()
        ai[0, 0] = -1
        rejects(core.ell_sim_diag, ai, b, 1e-7)
        an = a.copy()
        an[0, n - 1] += 1
        rejects(core.ell_sim_diag, an, b, 1e-7)
    u = core.ell_unitball(n)
    close(u.get_shape_mat(), np.eye(n), 1e-14, 'unit ball')
    close(u.get_center_vec(), np.zeros(n), 1e-14, 'unit ball centre')
