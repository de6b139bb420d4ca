"""C01 construction, C02 frame, C03 copies, C04 equality, C11 projection, C12 polar, C13 characteristics,
C16 hyperplanes, C23 configuration: run-time contracts."""
import math

import numpy as np

from base import clause, close, need, rejects, Fail, Skip, snapshot
from ellipy.elltool.core.ellipsoid.Ellipsoid import Ellipsoid
from ellipy.elltool.core.hyperplane.Hyperplane import Hyperplane
from ellipy.elltool.conf.properties.Properties import Properties


def opt_tols(g):
    kw = {}
    if g.b():
        kw['abs_tol'] = float(g.pick([1e-8, 1e-6, 1e-4, 1e-2, 0.125]))
    if g.b():
        kw['rel_tol'] = float(g.pick([1e-8, 1e-5, 1e-2]))
    return kw


# ------------------------------------------------------------------ C01
@clause('C01')
def ell_accept(g):
    n = g.dim(1, 7)
    kw = opt_tols(g)
    tol = kw.get('abs_tol', Properties.get_abs_tol())
    q = g.psd(n, 0.4)
    if g.b(0.3):       # slightly indefinite, inside the tolerance
        u = g.orth(n)
        d = g.rng.uniform(0.1, 2, n)
        d[g.i(0, n - 1)] = -0.5 * tol
        q = u @ np.diag(d) @ u.T
        q = 0.5 * (q + q.T)
    if n > 1 and g.b(0.3):   # slightly asymmetric, inside the tolerance
        i = g.i(0, n - 2)
        q = q + np.eye(n) * 2 * tol
        q[i, n - 1] += 0.6 * tol
    c = g.vec(n, zero_ok=True)
    if g.b(0.2):
        q = np.diag(g.rng.randint(0, 4, n))       # integer dtype
    if g.b(0.15):
        q = q.astype(complex)
    if g.b(0.15):
        c = c + 0j * c
    if g.b(0.1):
        c = c + 1j * 0.1 * tol / n
    shape = g.pick([(n,), (n, 1), (1, n)])
    one = g.b(0.25)
    qa = g.layout(q.copy())
    ca = np.reshape(c, shape).copy()
    g.use(ca, qa, kw)
    e = Ellipsoid(qa, **kw) if one else Ellipsoid(ca, qa, **kw)
    qr = np.real(q)
    close(e.get_shape_mat(), 0.5 * (qr + qr.T), 1e-12, 'shape matrix')
    need(np.array_equal(e.get_shape_mat(), e.get_shape_mat().T), 'stored shape matrix is not exactly symmetric')
    close(e.get_center_vec(), np.zeros(n) if one else np.real(c), 1e-12, 'centre')
    pc, pq = e.parameters()
    close(pc, e.get_center_vec())
    close(pq, e.get_shape_mat())
    dc, dq = e.double()
    close(dc, pc)
    close(dq, pq)
    need(dc.dtype == np.float64 and dq.dtype == np.float64, 'data are not real floating point arrays')
    need(e._abs_tol == tol and e._rel_tol == kw.get('rel_tol', Properties.get_rel_tol()), 'tolerances')


@clause('C01')
def ell_empty(g):
    kw = opt_tols(g)
    g.use(kw)
    e = Ellipsoid(**kw)
    need(e.get_center_vec().shape == (0,) and e.get_shape_mat().shape == (0, 0), 'empty ellipsoid has data')
    e2 = Ellipsoid(np.zeros((0,)), np.zeros((0, 0)))
    need(e2.get_center_vec().shape == (0,), 'empty ellipsoid')


@clause('C01', 2)
def ell_reject(g):
    n = g.dim(1, 6)
    kw = opt_tols(g)
    tol = kw.get('abs_tol', Properties.get_abs_tol())
    q = g.spd(n)
    c = g.vec(n, zero_ok=True)
    k = g.i(0, 11)
    if k == 0:      # indefinite
        u = g.orth(n)
        d = g.rng.uniform(0.1, 2, n)
        d[g.i(0, n - 1)] = -g.pick([1.5 * tol, 3 * tol, 0.3, 2])
        q = u @ np.diag(d) @ u.T
        q = 0.5 * (q + q.T)
        if np.min(np.linalg.eigvalsh(q)) > -1.2 * tol:
            raise Skip()
    elif k == 1:    # not symmetric
        if n < 2:
            raise Skip()
        i = g.i(0, n - 2)
        j = g.i(i + 1, n - 1)
        if g.b():
            i, j = j, i
        q[i, j] += g.pick([1.5 * tol, 10 * tol, 0.5]) * g.pick([1, -1])
    elif k == 2:    # non-finite shape
        i, j = g.i(0, n - 1), g.i(0, n - 1)
        q[i, j] = q[j, i] = g.pick([np.nan, np.inf, -np.inf])
    elif k == 3:    # not square
        q = g.mat(n, n + 1)
        if g.b():
            q = np.abs(g.mat(n + 1, n))
    elif k == 4:    # not a matrix
        q = g.pick([np.ones(n), np.ones((n, n, 1)), np.array(1.0)])
    elif k == 5:    # size mismatch
        c = g.vec(n + g.pick([1, 2]), zero_ok=True)
    elif k == 6:    # size mismatch the other way
        c = g.vec(n, zero_ok=True)
        q = g.spd(n + 1)
    elif k == 7:    # non-finite centre
        c[g.i(0, n - 1)] = g.pick([np.nan, np.inf, -np.inf])
    elif k == 8:    # centre is a matrix
        c = g.mat(2, 2)
        q = g.spd(g.pick([2, 4]))
    elif k == 9:    # complex
        if g.b():
            c = c + 1j * g.pick([10 * tol * n + 1e-3, 1.0])
        else:
            q = q + 1j * np.eye(n) * g.pick([10 * tol, 1.0])
    elif k == 10:   # not numeric
        c = np.array(['a'] * n)
    else:           # indefinite but positive diagonal, or negative off a zero diagonal
        n = max(n, 2)
        q = np.eye(n)
        q[0, 1] = q[1, 0] = g.pick([2., -2., 1.5])
        c = np.zeros(n)
    g.use(c, q, kw, k)
    if k in (0, 1, 2, 3, 4, 11) and g.b(0.3):
        rejects(Ellipsoid, q, **kw)
    else:
        rejects(Ellipsoid, c, q, **kw)


@clause('C01')
def hyp_accept(g):
    n = g.dim(1, 7)
    kw = opt_tols(g)
    v = g.vec(n, zero_ok=True)
    s = g.pick([0., 1., -2.5, 3, g.u(-3, 3), np.float64(2.), np.array([1.5]), np.array(2.), True])
    if g.b(0.2):
        v = v.astype(complex)
    shape = g.pick([(n,), (n, 1), (1, n)])
    va = np.reshape(v, shape).copy()
    g.use(va, s, kw)
    k = g.i(0, 2)
    if k == 0:
        h = Hyperplane(va, **kw)
        s = 0.
    else:
        h = Hyperplane(va, s, **kw)
    hv, hs = h.parameters()
    close(hv, np.real(v), 1e-13, 'normal')
    close(np.array(hs), np.array(float(np.real(np.array(s).ravel()[0]))), 1e-13, 'shift')
    need(h._abs_tol == kw.get('abs_tol', Properties.get_abs_tol()), 'abs_tol')
    need(h._rel_tol == kw.get('rel_tol', Properties.get_rel_tol()), 'rel_tol')
    dv, ds = h.double()
    close(dv, hv)
    close(np.array(ds), np.array(hs))


@clause('C01')
def hyp_reject(g):
    n = g.dim(1, 6)
    v = g.vec(n, zero_ok=True)
    s = g.u(-2, 2)
    k = g.i(0, 5)
    if k == 0:
        v[g.i(0, n - 1)] = g.pick([np.nan, np.inf, -np.inf])
    elif k == 1:
        s = g.pick([np.nan, np.inf, -np.inf, np.array([np.inf])])
    elif k == 2:
        s = np.array([1., 2.])
    elif k == 3:
        v = g.mat(2, max(2, n))
    elif k == 4:
        v = v + 1j
    else:
        if g.b():
            v = np.array(['x'] * n)
        else:
            s = 'x'
    g.use(v, s)
    rejects(Hyperplane, v, s)


# ------------------------------------------------------------------ C02
def _frame(args, f):
    before = [snapshot(a) for a in args]
    r = f()
    for i, a in enumerate(args):
        if snapshot(a) != before[i]:
            raise Fail('argument %d was modified by the call' % i)
    return r


@clause('C02', 2)
def ell_ops_frame(g):
    n = g.dim(1, 5)
    k = g.i(1, 4)
    ells = [g.ell(n, 0.3 if g.b() else 0.0, **(g.tols() if g.b(0.3) else {})) for _ in range(k)]
    arr = np.empty((k,), dtype=object)
    arr[:] = ells
    lst = list(ells)
    ea = g.pick([arr, lst, arr.reshape((1, k))])
    dirs = g.mat(n, g.i(1, 4)) + 1e-2
    op = g.i(0, 16)
    g.use(op, ea, dirs)
    E = Ellipsoid
    basis = g.orth(n)[:, :g.i(1, n)] * 2.0
    x = g.mat(n, g.i(1, 3))
    reg = [g.ell(n) for _ in range(k)]
    args = [ea, dirs, ells, basis, x, reg]
    try:
        if op == 0:
            _frame(args, lambda: E.rho(ea, dirs[:, :1]))
        elif op == 1:
            _frame(args, lambda: E.rho([ells[0]], dirs))
        elif op == 2:
            _frame(args, lambda: E.minksum_ea(ea, dirs))
        elif op == 3:
            _frame(args, lambda: E.minksum_ia(ea, dirs))
        elif op == 4:
            _frame(args, lambda: E.get_projection(ea, basis))
        elif op == 5:
            _frame(args, lambda: E.polar([E(e.get_center_vec() * 0.0, e.get_shape_mat()) for e in reg]))
        elif op == 6:
            _frame(args, lambda: (E.volume(ea), E.trace(ea), E.min_eig(ea), E.max_eig(ea), E.dimension(ea),
                                  E.dimension(ea, True), E.is_degenerate(ea), E.is_empty(ea)))
        elif op == 7:
            _frame(args, lambda: E.is_internal(ea, x, g.pick('ui')))
        elif op == 8:
            _frame(args, lambda: ells[0].is_bigger(ells[-1]))
        elif op == 9:
            _frame(args, lambda: E.is_equal(ea, ea))
        elif op == 10:
            _frame(args, lambda: E.to_dict(ea, True))
        elif op == 11:
            _frame(args, lambda: E.uminus(ea))
        elif op == 12:
            _frame(args, lambda: E.get_copy(ea))
        elif op == 13:
            sv = [2, 3]
            _frame(args + [sv], lambda: ells[0].rep_mat(sv))
        elif op == 14:
            d = E.to_dict(ea, g.b())[0]
            _frame(args + [d], lambda: E.from_dict(d))
        elif op == 15:
            e3 = g.ell(g.pick([2, 3]), 0.3)
            fac = np.array([0.5, 0.4])
            _frame(args + [e3, fac], lambda: (e3.get_boundary(20), e3.get_rho_boundary(20),
                                              e3.get_boundary_by_factor(fac), e3.get_rho_boundary_by_factor(fac)))
        else:
            _frame(args, lambda: (E.get_abs_tol(ea), E.get_rel_tol(ea), str(ells[0]), -ells[0], ells[0] == ells[-1]))
    except ValueError:
        raise Skip()


@clause('C02')
def hyp_ops_frame(g):
    n = g.dim(1, 5)
    k = g.i(1, 4)
    hs = [Hyperplane(g.vec(n), g.u(-2, 2), **(g.tols() if g.b(0.3) else {})) for _ in range(k)]
    arr = np.empty((k,), dtype=object)
    arr[:] = hs
    ha = g.pick([arr, list(hs), arr.reshape(k, 1)])
    x = g.mat(n, k)
    op = g.i(0, 7)
    g.use(op, ha, x)
    H = Hyperplane
    args = [ha, x, hs]
    if op == 0:
        _frame(args, lambda: H.contains(arr, x))
    elif op == 1:
        _frame(args, lambda: H.is_parallel(ha, ha))
    elif op == 2:
        _frame(args, lambda: H.is_parallel(hs[0], ha))
    elif op == 3:
        _frame(args, lambda: H.is_equal(ha, ha))
    elif op == 4:
        _frame(args, lambda: (H.uminus(ha), H.dimension(ha), H.is_empty(ha), H.get_copy(ha)))
    elif op == 5:
        d = H.to_dict(ha, g.b())[0]
        _frame(args + [d], lambda: H.from_dict(d))
    elif op == 6:
        _frame(args, lambda: (hs[0].rep_mat([2, 2]), str(hs[0]), -hs[0]))
    else:
        xi = x.copy()
        xi[0, 0] = np.inf
        _frame(args + [xi], lambda: H.contains(arr, xi))


@clause('C02', 2)
def no_aliasing(g):
    n = g.dim(1, 5)
    c, q = g.vec(n, zero_ok=True), g.psd(n, 0.3)
    g.use(c.copy(), q.copy())
    one = g.b(0.3)
    e = Ellipsoid(q) if one else Ellipsoid(c, q)
    s0 = snapshot(e)
    q += 1.
    c += 1.
    need(snapshot(e) == s0, 'object changed when the arrays it was built from were written')
    for get in (lambda: e.get_center_vec(), lambda: e.get_shape_mat(), lambda: e.parameters()[0],
                lambda: e.parameters()[1], lambda: e.double()[0], lambda: e.double()[1],
                lambda: Ellipsoid.to_dict([e])[0].flat[0]['shape_mat'],
                lambda: Ellipsoid.to_dict([e])[0].flat[0]['center_vec'],
                lambda: Ellipsoid.get_copy([e]).flat[0].get_shape_mat(),
                lambda: Ellipsoid.get_abs_tol([e], None)):
        a = get()
        a[...] = 7.25
        need(snapshot(e) == s0, 'writing into returned data changed the object')
    v, s = g.vec(n), np.array([g.u(-2, 2)])
    h = Hyperplane(v, s)
    h0 = snapshot(h)
    v += 1.
    s += 1.
    need(snapshot(h) == h0, 'hyperplane changed when the arrays it was built from were written')
    for get in (lambda: h.parameters()[0], lambda: h.double()[0], lambda: Hyperplane.to_dict([h])[0].flat[0]['normal_vec']):
        a = get()
        a[...] = 7.25
        need(snapshot(h) == h0, 'writing into returned data changed the hyperplane')
    d = Ellipsoid.to_dict([e], True)[0]
    e2 = Ellipsoid.from_dict(d).flat[0]
    s2 = snapshot(e2)
    d.flat[0]['shape_mat'][...] = 9.
    d.flat[0]['center_vec'][...] = 9.
    need(snapshot(e2) == s2, 'object built from a dictionary shares its arrays')


@clause('C02')
def projection_in_place(g):
    n = g.dim(1, 5)
    k = g.i(1, 3)
    ells = [g.ell(n, 0.3) for _ in range(k)]
    other = [g.ell(n) for _ in range(2)]
    so = snapshot(other)
    arr = np.empty((k,), dtype=object)
    arr[:] = ells
    basis = g.orth(n)[:, :g.i(1, n)]
    exp = [(basis.T @ e.get_center_vec(), basis.T @ e.get_shape_mat() @ basis) for e in ells]
    b0 = basis.copy()
    g.use(arr, basis)
    ret = Ellipsoid.projection(arr, basis)
    need(ret.shape == arr.shape and all(x is y for x, y in zip(ret.ravel(), ells)),
         'projection does not return the given objects')
    need(np.array_equal(b0, basis), 'basis modified')
    for e, (c, q) in zip(ells, exp):
        close(e.get_center_vec(), c, 1e-9, 'centre after in-place projection')
        close(e.get_shape_mat(), q, 1e-9, 'shape after in-place projection')
    need(snapshot(other) == so, 'other objects changed')


@clause('C02', 2)
def library_frame(g):
    from ellipy.gras.la import la
    from ellipy.gras.gen.gen import MatVector as M, SquareMatVector as S, SymmetricMatVector as Y
    from ellipy.gras.gen import gen
    from ellipy.gras.geom.ell import ell as el
    from ellipy.gras.geom.sup import sup
    from ellipy.gras.geom.tri import tri
    from ellipy.gen.common import common
    from ellipy.gen.dict.dict import dict_compare
    from ellipy.elltool.core import core
    n, T = g.dim(2, 4), g.i(2, 4)
    q = g.spd(n)
    ind = g.sym(n)
    v, w, v2, w2 = g.vec(n), g.vec(n), g.vec(n), g.vec(n)
    A = np.stack([g.spd(n) for _ in range(T)], 2)
    B = g.rng.randn(n, n, T)
    x = g.mat(n, T)
    m = g.mat(n, n)
    num = np.array([1., np.nan, np.inf, 2.])
    num2 = np.array([1.5, np.nan, np.inf, 2.])
    d1 = {'a': num, 'b': [1, 2, {'c': q}], 'e': 'x'}
    th = np.linspace(0, 2 * np.pi, 12, endpoint=False)
    L = np.vstack((np.cos(th), np.sin(th)))
    r1, r2 = np.full(12, 3.), np.full(12, 1.)
    vm, fm = tri.icosahedron()
    names = ['rel_tol', 'abs_tol']
    pargs = {'abs_tol': 1e-3, 'other': 5}
    mask = A.copy()
    mask[:, :, 0] = -mask[:, :, 0]
    args = [q, ind, v, w, v2, w2, A, B, x, m, num, num2, d1, L, r1, r2, vm, fm, names, pargs, mask]
    calls = [
        lambda: la.sqrtm_pos(q), lambda: la.reg_pos_def_mat(ind, 0.5), lambda: la.reg_mat(m, 0.5),
        lambda: la.mat_orth(m), lambda: la.math_orth_col(m[:, :1]), lambda: la.orth_transl(v, w),
        lambda: la.orth_transl_qr(v, w), lambda: la.orth_transl_haus(v, w),
        lambda: la.orth_transl_max_tr(v, w, m), lambda: la.orth_transl_max_dir(v, w, v2, w2),
        lambda: la.ml_orth_transl(x, x[:, ::-1] + 10), lambda: la.is_mat_pos_def(q, 1e-7),
        lambda: la.is_mat_symm(m, 1.), lambda: la.is_mat_not_deg(m, 1e-7), lambda: la.try_treat_as_real(q + 0j),
        lambda: gen.sqrt_pos(np.abs(x) - 1e-9, 1e-8), lambda: gen.sort_rows_tol(x, 0.3), lambda: gen.mat_dot(m, q),
        lambda: (M.triu(B), M.make_symmetric(B), M.pinv(B), M.transpose(B)),
        lambda: (M.triu(m), M.make_symmetric(m), M.pinv(m), M.transpose(m)),
        lambda: M.eval_func(lambda z: z * 2, B, keep_size=True),
        lambda: (M.r_multiply(A, B), M.r_multiply(A, B, A), M.r_multiply(A, B, A, True), M.r_multiply(A, m)),
        lambda: (M.r_multiply_by_vec(A, x), M.r_multiply_by_vec(A, x, False)),
        lambda: (S.inv(A), S.sqrtm_pos(A), S.make_pos_definite_or_nan(mask), S.make_pos_definite_by_eig(mask)),
        lambda: (S.inv(q), S.sqrtm_pos(q), S.make_pos_definite_or_nan(q), S.make_pos_definite_by_eig(ind)),
        lambda: (S.lr_multiply(A, B), S.lr_multiply(A, B, 'L'), S.lr_multiply(q, m), S.lr_multiply(A, m)),
        lambda: (S.lr_multiply_by_vec(A, x), S.lr_divide_vec(A, x), S.lr_multiply_by_vec(q, v), S.lr_divide_vec(q, v)),
        lambda: (Y.lr_svd_multiply(A, B), Y.lr_svd_multiply_by_vec(A, x), Y.r_svd_multiply_by_vec(A, x),
                 Y.lr_svd_divide_vec(A, x)),
        lambda: (el.quad_mat(q, v), el.quad_mat(q, v, w, 'inv'), el.quad_mat(q, v, w, 'invadv'), el.inv_mat(q)),
        lambda: (el.rho_mat(q, x, 1e-7, v.reshape(-1, 1)), el.rho_mat(q, x[:, :1]), el.ell_volume(q)),
        lambda: common.abs_rel_compare(num, num2, 1e-3, 1e-3, np.abs),
        lambda: dict_compare(d1, d1, 1e-3, 1e-3),
        lambda: (core.ell_sim_diag(q, ind, 1e-7), core.ell_valign(v, w)),
        lambda: (sup.sup_2_boundary_2(L.T, r1), sup.sup_geom_diff_2d(r1, r2, L)),
        lambda: (tri.map_face_2_edge(fm), tri.shrink_face_tri(vm, fm, 0.5, 2), tri.is_face(fm, fm),
                 tri.is_tri_equal(vm, fm, vm, fm, 1e-5)),
        lambda: Properties.parse_prop(pargs, names), lambda: common.is_member(num, num2),
    ]
    j = g.i(0, len(calls) - 1)
    g.use(j, q, v, w, x, m)
    _frame(args, calls[j])


# ------------------------------------------------------------------ C03
def same_ell(a, b, tol=0.0, props=True):
    close(a.get_center_vec(), b.get_center_vec(), max(tol, 1e-13), 'centre')
    close(a.get_shape_mat(), b.get_shape_mat(), max(tol, 1e-13), 'shape')
    if props:
        for p in ('_abs_tol', '_rel_tol', '_n_plot_2d_points', '_n_plot_3d_points'):
            need(getattr(a, p) == getattr(b, p), 'property %s: %r vs %r' % (p, getattr(a, p), getattr(b, p)))


def same_hyp(a, b):
    close(a.parameters()[0], b.parameters()[0], 1e-13, 'normal')
    close(np.array(a.parameters()[1]), np.array(b.parameters()[1]), 1e-13, 'shift')
    need(a._abs_tol == b._abs_tol and a._rel_tol == b._rel_tol, 'tolerances')


def obj_arr(lst, shape):
    a = np.empty((len(lst),), dtype=object)
    a[:] = lst
    return a.reshape(shape)


SHAPES = [(1,), (1, 1), (2,), (3,), (2, 1), (1, 3), (2, 2), (2, 1, 2), (3, 2)]


@clause('C03')
def ell_copy(g):
    shape = g.pick(SHAPES + [()])
    k = int(np.prod(shape))
    n = g.dim(1, 4)
    ells = [g.ell(n if g.b() else g.dim(1, 4), 0.3, **{**g.tols(), **g.plots()}) for _ in range(k)]
    arr = obj_arr(ells, shape)
    g.use(arr)
    cp = Ellipsoid.get_copy(arr)
    need(cp.shape == shape, 'copy has shape %s, expected %s' % (cp.shape, shape))
    for a, b in zip(arr.ravel(), cp.ravel()):
        need(a is not b, 'copy is the same object')
        same_ell(a, b)
    if k:
        s = snapshot(ells)
        Ellipsoid.projection(obj_arr([cp.ravel()[0]], (1,)), np.eye(ells[0].get_center_vec().size)[:, :1])
        need(snapshot(ells) == s, 'original changed with its copy')
    ids = set(id(x) for x in cp.ravel())
    need(len(ids) == k, 'copies share objects')
    single = Ellipsoid.get_copy(ells[0])
    need(np.array(single).size == 1, 'copy of a single object')
    same_ell(ells[0], np.array(single).ravel()[0])
    lst = Ellipsoid.get_copy(ells)
    need(lst.shape == (k,), 'copy of a list')


@clause('C03')
def hyp_copy(g):
    shape = g.pick(SHAPES)
    k = int(np.prod(shape))
    hs = [Hyperplane(g.vec(g.dim(1, 4)), g.u(-2, 2), **g.tols()) for _ in range(k)]
    arr = obj_arr(hs, shape)
    g.use(arr)
    cp = Hyperplane.get_copy(arr)
    need(cp.shape == shape, 'shape')
    for a, b in zip(arr.ravel(), cp.ravel()):
        need(a is not b, 'copy is the same object')
        same_hyp(a, b)


@clause('C03')
def replicate(g):
    shape = g.pick([(2, 3), (1, 1), (1, 4), (3,), (2, 1, 2), (0, 2), (1,), (4, 1)])
    sv = g.pick([list(shape), np.array(shape), np.array(shape, dtype=int).reshape(1, -1), tuple(shape)])
    if g.b():
        e = g.ell(g.dim(1, 4), 0.3, **{**g.tols(), **g.plots()})
        g.use(e, sv)
        if g.b():
            r = e.rep_mat(sv)
        else:
            c, q = e.parameters()
            kw = dict(abs_tol=e._abs_tol, rel_tol=e._rel_tol, n_plot_2d_points=e._n_plot_2d_points,
                      n_plot_3d_points=e._n_plot_3d_points)
            r = Ellipsoid.from_rep_mat(c, q, sv, **kw)
        need(r.shape == shape, 'shape %s instead of %s' % (r.shape, shape))
        for x in r.ravel():
            need(x is not e, 'not a copy')
            same_ell(e, x)
    else:
        e = Hyperplane(g.vec(g.dim(1, 4)), g.u(-2, 2), **g.tols())
        g.use(e, sv)
        r = e.rep_mat(sv) if g.b() else Hyperplane.from_rep_mat(e.parameters()[0], e.parameters()[1], sv,
                                                               abs_tol=e._abs_tol, rel_tol=e._rel_tol)
        need(r.shape == shape, 'shape %s instead of %s' % (r.shape, shape))
        for x in r.ravel():
            need(x is not e, 'not a copy')
            same_hyp(e, x)
    need(len(set(id(x) for x in r.ravel())) == r.size, 'replicas share one object')
    rejects(e.rep_mat, g.pick([[2, -1], [1.5, 2], [], np.ones((2, 2))]))


@clause('C03')
def ell_dict(g):
    shape = g.pick(SHAPES)
    k = int(np.prod(shape))
    ells = [g.ell(g.dim(1, 4), 0.3, **{**g.tols(), **g.plots()}) for _ in range(k)]
    arr = obj_arr(ells, shape)
    g.use(arr)
    d, nice, desc, tr = Ellipsoid.to_dict(arr, True)
    need(d.shape == shape, 'shape of the dictionary array')
    for e, x in zip(arr.ravel(), d.ravel()):
        close(x['center_vec'], e.get_center_vec(), 1e-13, 'centre in the dictionary')
        close(x['shape_mat'], e.get_shape_mat(), 1e-13, 'shape in the dictionary')
        for p in ('abs_tol', 'rel_tol', 'n_plot_2d_points', 'n_plot_3d_points'):
            need(x[p] == getattr(e, '_' + p), 'property %s in the dictionary' % p)
        need(set(x) == set(nice) == set(desc) == set(tr), 'field lists differ')
    back = Ellipsoid.from_dict(d)
    need(back.shape == shape, 'shape after the round trip')
    for a, b in zip(arr.ravel(), back.ravel()):
        same_ell(a, b)
    d2, nice2, _, _ = Ellipsoid.to_dict(arr, False)
    for e, x in zip(arr.ravel(), d2.ravel()):
        need(set(x) == {'center_vec', 'shape_mat'}, 'fields without properties')
    for a, b in zip(arr.ravel(), Ellipsoid.from_dict(d2).ravel()):
        same_ell(a, b, props=False)
    one = Ellipsoid.from_dict(d.ravel()[0])
    same_ell(arr.ravel()[0], np.array(one).ravel()[0])


@clause('C03')
def hyp_dict(g):
    shape = g.pick(SHAPES)
    k = int(np.prod(shape))
    hs = [Hyperplane(g.vec(g.dim(1, 4)), g.pick([0., 1., -1., g.u(-2, 2)]), **g.tols()) for _ in range(k)]
    arr = obj_arr(hs, shape)
    g.use(arr)
    d, nice, desc, tr = Hyperplane.to_dict(arr, True)
    need(d.shape == shape, 'shape of the dictionary array')
    back = Hyperplane.from_dict(d)
    need(back.shape == shape, 'shape after the round trip')
    for a, b in zip(arr.ravel(), back.ravel()):
        v, s = a.parameters()
        w, t = b.parameters()
        close(np.linalg.norm(w), 1.0, 1e-9, 'normal is not a unit vector')
        need(t >= 0, 'negative shift')
        nv = np.linalg.norm(v)
        sg = np.sign(v @ w)
        close(w * sg, v / nv, 1e-9, 'normal')
        close(t * sg, s / nv, 1e-9, 'shift')
        need(a._abs_tol == b._abs_tol and a._rel_tol == b._rel_tol, 'tolerances')
        if s == 0:
            need(w[np.flatnonzero(np.abs(w) > 1e-12)[0]] > 0, 'sign of the normal for zero shift')


# ------------------------------------------------------------------ C04
def eq_oracle(a, b, at, rt):
    """None inside the rounding margin"""
    res = True
    for x, y in zip(a, b):
        x, y = np.asarray(x, float), np.asarray(y, float)
        if x.shape != y.shape:
            return False
        d = np.abs(x - y)
        s = np.abs(x) + np.abs(y)
        lim = np.maximum(at, np.where(s > at, rt * s / 2, at))
        if np.any(np.abs(d - lim) < 1e-3 * lim) or np.any(np.abs(s - at) < 1e-3 * at):
            res = None if res is not False else False
        if np.any(d > lim * 1.001):
            return False
    return res


def ell_norm(e):
    c, q = e.double()
    d, v = np.linalg.eigh(q)
    return [c, v @ np.diag(np.sqrt(np.maximum(d, 0))) @ v.T]


def hyp_norm(h):
    v, s = h.double()
    n = np.linalg.norm(v)
    v, s = v / n, s / n
    if s < 0 or (s == 0 and v[np.flatnonzero(v)[0]] < 0):
        v, s = -v, -s
    return [v, np.array(s)]


def perturbed_ell(g, e, kw):
    c, q = e.double()
    n = c.size
    k = g.i(0, 6)
    at, rt = kw['abs_tol'], kw['rel_tol']
    eps = g.pick([0.3 * at, 0.8 * at, 1.3 * at, 3 * at, 0.5 * rt, 1.5 * rt, 10 * max(at, rt)]) * g.pick([1, -1])
    if k == 0:
        c[g.i(0, n - 1)] += eps
    elif k == 1:
        d, v = np.linalg.eigh(q)
        sq = v @ np.diag(np.sqrt(np.maximum(d, 0))) @ v.T
        i, j = g.i(0, n - 1), g.i(0, n - 1)
        sq[i, j] += eps
        if i != j:
            sq[j, i] += eps
        q = sq @ sq
        q = 0.5 * (q + q.T)
        if np.min(np.linalg.eigvalsh(sq)) < 0:
            raise Skip()
    elif k == 2:
        q = q * (1 + abs(eps))
    elif k == 3:
        c = c * (1 + eps)
    elif k == 4:
        q = q + abs(eps) * np.eye(n)
    elif k == 5:
        c = -c
    return Ellipsoid(c, q, **kw)


@clause('C04', 2)
def ell_equal(g):
    kw = g.tols()
    n = g.dim(1, 5)
    k = g.i(1, 3)
    shape = g.pick([(k,), (1, k), (k, 1)])
    kw2 = {**kw, **(g.tols() if g.b(0.3) else {})}
    a = [g.ell(n if g.b(0.85) else g.dim(1, 4), 0.2, **kw) for _ in range(k)]
    b = [perturbed_ell(g, x, kw2) if g.b(0.9) else g.ell(g.dim(1, 4), **kw2) for x in a]
    at = min(kw['abs_tol'], kw2['abs_tol'])
    rt = min(kw['rel_tol'], kw2['rel_tol'])
    exp = [eq_oracle(ell_norm(x), ell_norm(y), at, rt) for x, y in zip(a, b)]
    if None in exp:
        raise Skip()
    A, B = obj_arr(a, shape), obj_arr(b, shape)
    g.use(A, B)
    r, rep = Ellipsoid.is_equal(A, B)
    need(np.array(r).shape == shape, 'shape of the answer %s' % (np.array(r).shape,))
    need(list(np.ravel(r)) == exp, 'is_equal gives %s, expected %s' % (list(np.ravel(r)), exp))
    r2, _ = Ellipsoid.is_equal(B, A)
    need(list(np.ravel(r2)) == exp, 'not symmetric')
    need(bool(rep) == (not all(exp)), 'report')
    r3, _ = Ellipsoid.eq(A, B)
    need(list(np.ravel(r3)) == exp, 'eq differs from is_equal')
    r4, rep4 = Ellipsoid.is_equal(A, A)
    need(np.all(r4) and rep4 == '', 'not reflexive')
    need((a[0] == b[0]) == eq_oracle(ell_norm(a[0]), ell_norm(b[0]), at, rt), 'operator ==')


@clause('C04')
def ell_equal_broadcast(g):
    kw = g.tols()
    n = g.dim(1, 4)
    e = g.ell(n, 0.2, **kw)
    k = g.i(1, 4)
    b = [perturbed_ell(g, e, kw) for _ in range(k)]
    shape = g.pick([(k,), (1, k), (k, 1)])
    exp = [eq_oracle(ell_norm(e), ell_norm(y), kw['abs_tol'], kw['rel_tol']) for y in b]
    if None in exp:
        raise Skip()
    B = obj_arr(b, shape)
    E = g.pick([e, [e], obj_arr([e], (1, 1))])
    g.use(E, B)
    for r in (Ellipsoid.is_equal(E, B)[0], Ellipsoid.is_equal(B, E)[0]):
        need(list(np.ravel(r)) == exp, 'broadcast answer %s expected %s' % (list(np.ravel(r)), exp))
        if k > 1:
            need(np.array(r).shape == shape, 'shape of the answer')


@clause('C04')
def ell_equal_props(g):
    kw = {**g.tols(), **g.plots()}
    e = g.ell(g.dim(1, 4), 0.2, **kw)
    kw2 = dict(kw)
    change = g.pick([None, 'n_plot_2d_points', 'n_plot_3d_points', 'abs_tol', 'rel_tol'])
    if change in ('n_plot_2d_points', 'n_plot_3d_points'):
        kw2[change] = kw[change] + g.pick([1, 5, 50])
        d = abs(kw2[change] - kw[change])
        if d <= max(kw['abs_tol'], kw['rel_tol'] * (kw2[change] + kw[change]) / 2) * 1.01:
            raise Skip()
    elif change:
        kw2[change] = 0.25
    f = Ellipsoid(e.get_center_vec(), e.get_shape_mat(), **kw2)
    g.use(e, kw, kw2)
    r, _ = Ellipsoid.is_equal([e], [f], True)
    need(bool(np.ravel(r)[0]) == (change is None), 'comparison with properties gives %s for change %s' % (r, change))
    r, _ = Ellipsoid.is_equal([e], [f])
    need(bool(np.ravel(r)[0]), 'comparison without properties')


@clause('C04', 2)
def hyp_equal(g):
    kw = g.tols()
    n = g.dim(1, 5)
    k = g.i(1, 3)
    a, b = [], []
    for _ in range(k):
        v, s = g.vec(n), g.pick([0., 1., -1., g.u(-2, 2)])
        a.append(Hyperplane(v, s, **kw))
        m = g.pick([1., -1., 2., -0.5, 1000.])
        w, t = v * m, s * m
        j = g.i(0, 4)
        eps = g.pick([0.3, 0.7, 1.5, 4, 100]) * g.pick([kw['abs_tol'], kw['rel_tol']]) * g.pick([1, -1])
        nw = np.linalg.norm(w)
        if j == 0:
            w[g.i(0, n - 1)] += eps * nw
        elif j == 1:
            t += eps * nw
        elif j == 2:
            t = -t
        b.append(Hyperplane(w, t, **kw))
    exp = [eq_oracle(hyp_norm(x), hyp_norm(y), kw['abs_tol'], kw['rel_tol']) for x, y in zip(a, b)]
    for x, y in zip(a, b):    # rounding noise decides the sign of a shift close to zero
        for h in (x, y):
            v, s = h.double()
            if s != 0 and abs(s) / np.linalg.norm(v) < 10 * kw['abs_tol']:
                raise Skip()
    if None in exp:
        raise Skip()
    A, B = obj_arr(a, (k,)), obj_arr(b, (k,))
    g.use(A, B)
    r, rep = Hyperplane.is_equal(A, B)
    need(list(np.ravel(r)) == exp, 'is_equal gives %s, expected %s' % (list(np.ravel(r)), exp))
    need(list(np.ravel(Hyperplane.is_equal(B, A)[0])) == exp, 'not symmetric')
    need(bool(rep) == (not all(exp)), 'report')
    need((a[0] == b[0]) == exp[0], 'operator ==')
    need(np.all(Hyperplane.is_equal(A, A)[0]), 'not reflexive')


@clause('C04', 0.4)
def equal_sizes(g):
    e = [g.ell(2) for _ in range(4)]
    g.use(obj_arr(e, (4,)))
    rejects(Ellipsoid.is_equal, e[:2], e[:3])
    rejects(Ellipsoid.is_equal, obj_arr(e, (2, 2)), obj_arr(e, (4,)))
    rejects(Ellipsoid.is_equal, [], e[:1])
    r, _ = Ellipsoid.is_equal([], [])
    need(np.all(r), 'empty arrays')
    rejects(Ellipsoid.is_equal, e[0], 5)
    em = Ellipsoid()
    need(np.all(Ellipsoid.is_equal([em], [Ellipsoid()])[0]), 'empty ellipsoids are equal')
    need(not np.any(Ellipsoid.is_equal([em], [e[0]])[0]), 'empty and non-empty are different')


# ------------------------------------------------------------------ C11
@clause('C11', 2)
def projection(g):
    n = g.dim(1, 6)
    m = g.i(1, n)
    shape = g.pick([(1,), (2,), (2, 2), (1, 3)])
    k = int(np.prod(shape))
    kw = g.tols() if g.b(0.4) else {}
    ells = [g.ell(n, 0.3, **{**kw, **g.plots()}) for _ in range(k)]
    arr = obj_arr(ells, shape)
    if g.b(0.3):
        bm = np.eye(n)[:, g.rng.permutation(n)[:m]]
    else:
        bm = g.orth(n)[:, :m]
    sc = g.rng.uniform(0.3, 4, m) * g.rng.choice([-1, 1], m)
    basis = bm * sc
    nb = basis / np.sqrt(np.sum(basis ** 2, 0))
    exp = [(nb.T @ e.get_center_vec(), nb.T @ e.get_shape_mat() @ nb) for e in ells]
    s = snapshot(ells)
    g.use(arr, basis)
    res = Ellipsoid.get_projection(arr, basis)
    need(snapshot(ells) == s, 'the copying projection modified the originals')
    need(res.shape == shape, 'shape')
    for r, (c, q), e in zip(res.ravel(), exp, ells):
        need(r is not e, 'copying projection returned the original')
        close(r.get_center_vec(), c, 1e-9, 'centre')
        close(r.get_shape_mat(), q, 1e-9, 'shape')
        need(r._abs_tol == e._abs_tol and r._n_plot_2d_points == e._n_plot_2d_points, 'properties')
    res2 = Ellipsoid.projection(arr, basis)
    for r, (c, q), e in zip(res2.ravel(), exp, ells):
        need(r is e, 'in-place projection returned another object')
        close(r.get_center_vec(), c, 1e-9, 'centre (in place)')
        close(r.get_shape_mat(), q, 1e-9, 'shape (in place)')


@clause('C11')
def projection_reject(g):
    n = g.dim(2, 5)
    ells = [g.ell(n) for _ in range(2)]
    s = snapshot(ells)
    k = g.i(0, 4)
    bm = g.orth(n)[:, :2]
    if k == 0:       # not orthogonal, either sign
        bm = bm.copy()
        bm[:, 1] += g.pick([1, -1]) * g.pick([0.1, 1e-2, 1e-4]) * bm[:, 0]
    elif k == 1:
        bm = np.hstack([np.eye(n), np.zeros((n, 1))])
    elif k == 2:
        bm = np.eye(n + 1)[:, :1]
    elif k == 3:
        bm = np.eye(n - 1)
    else:
        ells = [ells[0], g.ell(n + 1)]
        s = snapshot(ells)
    g.use(ells, bm)
    rejects(Ellipsoid.projection, ells, bm)
    rejects(Ellipsoid.get_projection, ells, bm)
    need(snapshot(ells) == s, 'rejected projection modified its arguments')


# ------------------------------------------------------------------ C12
@clause('C12', 2)
def polar(g):
    n = g.dim(1, 6)
    shape = g.pick([(1,), (1,), (2,), (2, 2), (1, 3)])
    k = int(np.prod(shape))
    ells = []
    for _ in range(k):
        q = g.spd(n)
        c = g.vec(n, zero_ok=True)
        r = np.sqrt(c @ np.linalg.solve(q, c))
        if r > 0:
            c = c / r * g.u(0, 0.9)
        ells.append(Ellipsoid(c, q))
    arr = obj_arr(ells, shape)
    g.use(arr)
    res = Ellipsoid.polar(arr)
    need(res.shape == shape, 'shape')
    for e, p in zip(arr.ravel(), res.ravel()):
        c, q = e.double()
        al = 1.0 / (1.0 - c @ np.linalg.solve(q, c))
        qi = np.linalg.inv(q)
        pc = -al * qi @ c
        pq = al * qi + np.outer(pc, pc)
        close(p.get_center_vec(), pc, 1e-6, 'polar centre')
        close(p.get_shape_mat(), pq, 1e-6, 'polar shape')
        for _ in range(3):       # set identity on samples: y in polar <=> rho(y|E) <= 1
            y = g.rng.randn(n)
            rho = y @ c + np.sqrt(y @ q @ y)
            inside = (y - pc) @ np.linalg.solve(pq, y - pc)
            if abs(rho - 1) > 1e-3:
                need((inside < 1) == (rho < 1), 'polar set identity')
        for robust in (True, False):
            z = e._get_scalar_polar_internal(robust)
            close(z.get_center_vec(), pc, 1e-6, 'internal method %s: centre' % robust)
            close(z.get_shape_mat(), pq, 1e-6, 'internal method %s: shape' % robust)


@clause('C12')
def polar_reject(g):
    n = g.dim(1, 5)
    q = g.spd(n)
    if g.b():
        c = g.vec(n)
        c = c / np.sqrt(c @ np.linalg.solve(q, c)) * g.pick([1.01, 1.5, 4., 10.])
    else:
        q = np.diag(g.rng.permutation(np.append(g.rng.uniform(0.5, 2, n - 1), 0.)))
        c = np.zeros(n)
    e = Ellipsoid(c, q)
    g.use(e)
    good = g.ell(n, centre=False)
    rejects(Ellipsoid.polar, [e])
    rejects(Ellipsoid.polar, [good, e])
    if np.linalg.matrix_rank(q) == n:
        for m in (True, False):
            rejects(e._get_scalar_polar_internal, m)


# ------------------------------------------------------------------ C13
def ball_volume(n):
    return math.pi ** (n / 2.) / math.gamma(n / 2. + 1)


@clause('C13', 2)
def characteristics(g):
    shape = g.pick([(1,), (2,), (3,), (2, 2), (1, 3), (3, 1)])
    k = int(np.prod(shape))
    ells = [g.ell(g.dim(1, 9), 0.35) for _ in range(k)]
    arr = obj_arr(ells, shape)
    g.use(arr)
    qs = [e.get_shape_mat() for e in ells]
    lam = [np.linalg.eigvalsh(q) for q in qs]
    deg = [l[0] <= e._abs_tol for l, e in zip(lam, ells)]
    vol = [0.0 if d else ball_volume(len(q)) * np.sqrt(np.prod(l)) for q, l, d in zip(qs, lam, deg)]
    close(np.array(Ellipsoid.volume(arr), dtype=float), np.array(vol), 1e-8, 'volume')
    close(Ellipsoid.trace(arr), np.array([np.sum(np.diag(q)) for q in qs]), 1e-9, 'trace')
    close(Ellipsoid.min_eig(arr), np.array([l[0] for l in lam]), 1e-8, 'min_eig')
    close(Ellipsoid.max_eig(arr), np.array([l[-1] for l in lam]), 1e-8, 'max_eig')
    need(np.array_equal(Ellipsoid.dimension(arr), np.reshape([len(q) for q in qs], shape)), 'dimension')
    d, r = Ellipsoid.dimension(arr, True)
    need(np.array_equal(d, np.reshape([len(q) for q in qs], shape)), 'dimension with rank')
    need(np.array_equal(r, np.reshape([int(np.sum(l > 1e-6)) for l in lam], shape)), 'rank')
    need(np.array_equal(Ellipsoid.is_degenerate(arr), np.reshape(deg, shape)), 'is_degenerate %s vs %s' % (
        Ellipsoid.is_degenerate(arr), deg))
    need(not np.any(Ellipsoid.is_empty(arr)) and np.shape(Ellipsoid.is_empty(arr)) == shape, 'is_empty')
    close(np.array(Ellipsoid.volume(list(ells)), dtype=float), np.array(vol), 1e-8, 'volume of a list')


@clause('C13')
def degenerate_threshold(g):
    n = g.dim(1, 5)
    at = float(g.pick([2. ** -10, 2. ** -5, 0.125]))
    least = at * g.pick([0.5, 1.0, 1.0, 1.5])
    d = g.rng.permutation(np.append(np.ones(n - 1) * 2, least))
    e = Ellipsoid(np.diag(d), abs_tol=at)
    g.use(e)
    need(bool(Ellipsoid.is_degenerate([e])[0]) == (least <= at), 'is_degenerate for least eigenvalue %g, tolerance %g' % (least, at))
    close(np.array(Ellipsoid.volume([e]), float), [0. if least <= at else ball_volume(n) * np.sqrt(np.prod(d))], 1e-9, 'volume')


@clause('C13', 0.5)
def empty_guard(g):
    e = [g.ell(2), Ellipsoid()]
    if g.b():
        e = e[::-1]
    g.use(e)
    for f in (Ellipsoid.volume, Ellipsoid.trace, Ellipsoid.min_eig, Ellipsoid.max_eig, Ellipsoid.is_degenerate):
        rejects(f, e)
        rejects(f, [Ellipsoid()])
        rejects(f, [g.ell(2), 3])
    need(list(Ellipsoid.is_empty(e)) == [x.get_center_vec().size == 0 for x in e], 'is_empty')
    need(list(Ellipsoid.dimension(e)) == [x.get_center_vec().size for x in e], 'dimension')


# ------------------------------------------------------------------ C16
def contains_oracle(h, x, tol):
    v, s = h.double()
    fin = np.isfinite(x)
    if np.any(v[~fin] != 0):
        return False
    d = abs(v[fin] @ x[fin] - s)
    if d != tol and abs(d - tol) < 1e-3 * tol:
        return None
    return d < tol


@clause('C16', 2)
def contains(g):
    n = g.dim(1, 5)
    kw = {'abs_tol': float(g.pick([1e-6, 0.25, 2. ** -8]))}
    mode = g.i(0, 3)
    exact = g.b(0.5)
    nh = 1 if mode in (0, 1) else g.i(2, 4)
    nx = nh if mode in (0, 3) else (g.i(2, 4) if mode == 1 else 1)

    def mkv():
        return g.rng.randint(-2, 3, n).astype(float) if exact else g.vec(n)
    hs = [Hyperplane(mkv(), float(g.i(-2, 2)) if exact else g.u(-2, 2), **kw) for _ in range(nh)]
    xs = []
    for j in range(nx):
        x = mkv()
        h = hs[j % nh]
        v, s = h.double()
        if g.b(0.75) and np.any(v != 0):       # put it close to the hyperplane
            i = int(np.flatnonzero(v)[0])
            off = g.pick([0, 0, 0.5, 1.0, 1.5, -0.5, -1.5, -1.0]) * kw['abs_tol']
            x[i] += (s + off - v @ x) / v[i]
        if g.b(0.25):
            x[g.i(0, n - 1)] = g.pick([np.inf, -np.inf])
        xs.append(x)
    X = np.array(xs).T
    pairs = [(hs[0], x) for x in xs] if nh == 1 else ([(h, xs[0]) for h in hs] if nx == 1 else list(zip(hs, xs)))
    if n == 1 and any(abs(h.double()[0][0]) <= kw['abs_tol'] for h in hs):
        raise Skip()
    exp = [contains_oracle(h, x, kw['abs_tol']) for h, x in pairs]
    if any(x is None for x in exp):
        raise Skip()
    if not exact:
        pass
    hshape, xshape = (nh,), (n, nx)
    if mode == 2:
        hshape = g.pick([(nh,), (1, nh), (nh, 1)])
    H = obj_arr(hs, hshape)
    if nh == 1 and g.b(0.3):
        H = hs[0]
    if nh == 1 and nx == 4 and g.b():
        xshape = (n, 2, 2)
    g.use(H, X)
    r = np.array(Hyperplane.contains(H, X.reshape(xshape)))
    need(list(r.ravel()) == exp, 'contains gives %s, expected %s' % (list(r.ravel()), exp))
    if nh == 1 and nx > 1:
        need(r.shape == xshape[1:], 'shape')
    if nx == 1 and nh > 1:
        need(r.shape == hshape, 'shape')


@clause('C16', 0.5)
def contains_reject(g):
    n = g.dim(2, 4)
    hs = [Hyperplane(g.vec(n), 1.) for _ in range(3)]
    k = g.i(0, 4)
    x = g.mat(n, 3)
    if k == 0:
        x = g.mat(n, g.pick([2, 4, 6]))
    elif k == 1:
        x = g.mat(n + 1, 3)
    elif k == 2:
        x[g.i(0, n - 1), g.i(0, 2)] = np.nan
    elif k == 3:
        hs[g.i(0, 2)] = Hyperplane(g.vec(n + 1), 1.)
    else:
        hs[0] = 3
    g.use(hs, x)
    rejects(Hyperplane.contains, hs, x)


@clause('C16', 2)
def parallel(g):
    n = g.dim(1, 5)
    k = g.i(1, 4)
    kw = {'abs_tol': float(g.pick([1e-6, 1e-3, 0.05]))}
    kw2 = {'abs_tol': float(g.pick([1e-7, 0.2]))}
    a, b = [], []
    for _ in range(k):
        v = g.vec(n)
        a.append(Hyperplane(v, g.u(-2, 2), **kw))
        w = v * g.pick([1., -1., 2.5, -0.3])
        j = g.i(0, 3)
        if j == 0:
            w[g.i(0, n - 1)] += g.pick([0.3, 0.7, 2., 10., -0.5, -3.]) * kw['abs_tol'] * np.linalg.norm(w)
        elif j == 1:
            w = g.vec(n)
        m = n
        if g.b(0.08):
            m = n + 1
            w = np.append(w, 0.)
        b.append(Hyperplane(w, g.u(-2, 2), **kw2))
    mode = g.i(0, 2)

    def orc(h1, h2, tol):
        v, w = h1.double()[0], h2.double()[0]
        if v.shape != w.shape:
            return False
        v, w = v / np.linalg.norm(v), w / np.linalg.norm(w)
        d = min(np.max(np.abs(v - w)), np.max(np.abs(v + w)))
        return None if abs(d - tol) < 1e-3 * tol else d < tol
    shape = g.pick([(k,), (1, k), (k, 1)])
    A, B = obj_arr(a, shape), obj_arr(b, shape)
    if mode == 0:
        exp = [orc(x, y, kw['abs_tol']) for x, y in zip(a, b)]
        args = (A, B)
    elif mode == 1:
        exp = [orc(a[0], y, kw['abs_tol']) for y in b]
        args = (g.pick([a[0], [a[0]]]), B)
    else:
        exp = [orc(x, b[0], kw['abs_tol']) for x in a]
        args = (A, g.pick([b[0], [b[0]]]))
    if None in exp:
        raise Skip()
    g.use(*args)
    r = Hyperplane.is_parallel(*args)
    need(list(np.ravel(r)) == exp, 'is_parallel gives %s, expected %s' % (list(np.ravel(r)), exp))
    if k > 1:
        need(np.shape(r) == shape, 'shape')


@clause('C16')
def negate_dim(g):
    shape = g.pick(SHAPES)
    k = int(np.prod(shape))
    kw = {'abs_tol': float(g.pick([1e-6, 0.25]))}
    hs = [Hyperplane(g.vec(g.dim(1, 4), zero_ok=True), g.pick([0., -0.0, 1., g.u(-2, 2)]), **kw) for _ in range(k)]
    if g.b(0.4):
        hs[0] = Hyperplane(np.array([g.pick([0., 0.25, 0.2, 0.5, -0.2, 1e-7])]), g.pick([0., 0.25, -0.2, 0.3, 1e-7]), **kw)
    arr = obj_arr(hs, shape)
    g.use(arr)
    m = Hyperplane.uminus(arr)
    need(m.shape == shape, 'shape of the negation')
    for a, b in zip(arr.ravel(), m.ravel()):
        close(b.parameters()[0], -a.parameters()[0], 1e-13, 'normal of the negation')
        close(np.array(b.parameters()[1]), np.array(-a.parameters()[1]), 1e-13, 'shift of the negation')
    one = -hs[0]
    close(one.parameters()[0], -hs[0].parameters()[0])
    exp = []
    for h in hs:
        v, s = h.double()
        exp.append(0 if v.size < 2 and abs(v[0]) <= kw['abs_tol'] and abs(s) <= kw['abs_tol'] else v.size)
    d = Hyperplane.dimension(arr)
    need(np.shape(d) == shape and list(np.ravel(d)) == exp, 'dimension %s expected %s' % (d, exp))
    need(list(np.ravel(Hyperplane.is_empty(arr))) == [x == 0 for x in exp], 'is_empty')


@clause('C16', 0.5)
def ell_negate(g):
    shape = g.pick(SHAPES)
    k = int(np.prod(shape))
    es = [g.ell(g.dim(1, 4), 0.3) for _ in range(k)]
    arr = obj_arr(es, shape)
    g.use(arr)
    m = Ellipsoid.uminus(arr)
    need(m.shape == shape, 'shape')
    for a, b in zip(es, m.ravel()):
        close(b.get_center_vec(), -a.get_center_vec(), 1e-13)
        close(b.get_shape_mat(), a.get_shape_mat(), 1e-13)
    close((-es[0]).get_center_vec(), -es[0].get_center_vec())


# ------------------------------------------------------------------ C23
NAMES = ['version', 'is_verbose', 'abs_tol', 'rel_tol', 'reg_tol', 'ode_solver_name', 'is_ode_norm_control',
         'is_enabled_ode_solver_options', 'n_plot_2d_points', 'n_plot_3d_points', 'n_time_grid_points']
GOOD = {'version': ['1', '2.5'], 'is_verbose': [True, False], 'abs_tol': [1e-3, 0.5, 1e-12], 'rel_tol': [1e-3, 0.5],
        'reg_tol': [1e-3, 0.5], 'ode_solver_name': ['ode45', 'ode23', 'ode113'], 'is_ode_norm_control': [True, False],
        'is_enabled_ode_solver_options': [True, False], 'n_plot_2d_points': [5, 100, 50.0], 'n_plot_3d_points': [7, 300, 60.],
        'n_time_grid_points': [5, 250, 1000.0]}
BAD = {'version': [1, 2.5, None], 'is_verbose': [1, 'yes', None, 0.], 'abs_tol': [0., -1e-3, 'a', None, 1, -np.inf, np.nan],
       'rel_tol': [0., -1e-3, 'a', None, 1, np.nan], 'reg_tol': [0., -1., 'a', 2], 'ode_solver_name': ['ode15', 1, 'ODE45', ''],
       'is_ode_norm_control': ['on', 1, 0], 'is_enabled_ode_solver_options': ['off', 1],
       'n_plot_2d_points': [5.5, 'a', None, [5]], 'n_plot_3d_points': [5.5, 'a', None, [5]],
       'n_time_grid_points': [2.5, 'a', None]}
GET = {'version': Properties.get_version, 'is_verbose': Properties.get_is_verbose, 'abs_tol': Properties.get_abs_tol,
       'rel_tol': Properties.get_rel_tol, 'reg_tol': Properties.get_reg_tol, 'ode_solver_name': Properties.get_ode_solver_name,
       'is_ode_norm_control': Properties.get_is_ode_norm_control,
       'is_enabled_ode_solver_options': Properties.get_is_enabled_ode_solver_options,
       'n_plot_2d_points': Properties.get_n_plot_2d_points, 'n_plot_3d_points': Properties.get_n_plot_3d_points,
       'n_time_grid_points': Properties.get_n_time_grid_points}
SET = {'is_verbose': Properties.set_is_verbose, 'abs_tol': Properties.set_abs_tol, 'rel_tol': Properties.set_rel_tol,
       'n_plot_2d_points': Properties.set_n_plot_2d_points, 'n_plot_3d_points': Properties.set_n_plot_3d_points,
       'n_time_grid_points': Properties.set_n_time_grid_points}
FIXED = ['is_ode_norm_control']    # its default 'on' is not a boolean


@clause('C23', 2)
def parse(g):
    conf = Properties.get_prop_dict()
    need([k for k in NAMES if k not in conf] == [], 'missing options %s' % conf)
    names = list(g.rng.permutation(NAMES)[:g.i(1, 11)])
    names = [str(x) for x in names]
    args = {}
    exp = []
    for nm in names:
        if g.b(0.6) or nm in FIXED:
            args[nm] = g.pick(GOOD[nm])
            exp.append(args[nm])
        else:
            exp.append(conf[nm])
    others = {}
    for nm in g.rng.permutation(NAMES)[:3]:
        if nm not in names:
            others[str(nm)] = g.pick([1, 'z', None])
    if g.b():
        others['unknown_key'] = 5
    full = {**others, **args}
    keep = dict(full)
    g.use(names, full)
    vals, rest = Properties.parse_prop(full, names)
    need(len(vals) == len(exp) and all(type(a) == type(b) and a == b for a, b in zip(vals, exp)),
         'values %s, expected %s' % (vals, exp))
    need(rest == others, 'remaining arguments %s, expected %s' % (rest, others))
    need(full == keep, 'argument dictionary modified')
    need(Properties.get_prop_dict() == conf, 'configuration changed by parsing')


@clause('C23')
def parse_reject(g):
    nm = g.pick(NAMES)
    bad = g.pick(BAD[nm])
    others = [str(x) for x in g.rng.permutation([x for x in NAMES if x != nm and x not in FIXED])[:g.i(0, 3)]]
    names = [str(x) for x in g.rng.permutation(others + [nm])]
    g.use(nm, bad, names)
    rejects(Properties.parse_prop, {nm: bad}, names)
    rejects(Properties.parse_prop, {}, ['abs_tol', 'no_such_property'])
    rejects(Properties.parse_prop, {'abs_tol': 1e-3}, g.pick([['abstol'], ['abs_tol', 'Abs_tol'], ['x', 'rel_tol']]))


@clause('C23', 2)
def history(g):
    """Random history of sets, reads, constructions and copies against a dictionary model."""
    saved = Properties.get_prop_dict()
    try:
        model = dict(saved)
        objs = []
        trace = []
        for _ in range(g.i(3, 12)):
            op = g.i(0, 4)
            if op <= 1:
                nm = g.pick(list(SET))
                val = g.pick(GOOD[nm])
                SET[nm](val)
                model[nm] = val
                trace.append(('set', nm, val))
            elif op == 2:
                e = Ellipsoid(np.eye(2))
                objs.append((e, dict(model)))
                h = Hyperplane(np.ones(2), 1.)
                objs.append((h, dict(model)))
                trace.append('construct')
            elif op == 3:
                d = Properties.get_prop_dict()
                d['abs_tol'] = 123.
                d['junk'] = 1
                trace.append('write into the copy')
            else:
                kw = {'abs_tol': g.pick(GOOD['abs_tol'])}
                e = Ellipsoid(np.eye(2), **kw)
                objs.append((e, {**model, **kw}))
                trace.append(('construct', kw))
            for nm in NAMES:
                need(GET[nm]() == model[nm], 'option %s is %r, expected %r after %s' % (nm, GET[nm](), model[nm], trace))
            need(Properties.get_prop_dict() == model, 'configuration dictionary')
            for o, m in objs:
                need(o._abs_tol == m['abs_tol'] and o._rel_tol == m['rel_tol'], 'object tolerances changed')
                if isinstance(o, Ellipsoid):
                    need(o._n_plot_2d_points == m['n_plot_2d_points'] and o._n_plot_3d_points == m['n_plot_3d_points'],
                         'object plotting options')
        g.use(trace)
    finally:
        for nm in SET:
            SET[nm](saved[nm])


@clause('C23', 0.5)
def properties_of_objects(g):
    k = g.i(1, 4)
    kws = [{**g.tols(), **g.plots()} for _ in range(k)]
    es = [g.ell(2, **kw) for kw in kws]
    g.use(kws)
    v, m = Ellipsoid.get_abs_tol(es)
    close(v, [kw['abs_tol'] for kw in kws], 1e-15)
    need(m == min(kw['abs_tol'] for kw in kws), 'smallest abs_tol')
    v, m = Ellipsoid.get_rel_tol(es, lambda z: np.max(z))
    close(v, [kw['rel_tol'] for kw in kws], 1e-15)
    need(m == max(kw['rel_tol'] for kw in kws), 'largest rel_tol')
    close(Ellipsoid.get_n_plot_2d_points(es), [kw['n_plot_2d_points'] for kw in kws])
    close(Ellipsoid.get_n_plot_3d_points(es), [kw['n_plot_3d_points'] for kw in kws])
