"""Contracts of ellipy.gras.la.la"""
from cc import *
import npm_la as L

LA = 'ellipy.gras.la.la.'


def mat(it, a, n, m=None):
    return lambda i, j: at(it, a, i, j)


def eq_mat(it, n, m, f, g):
    return guarded(lambda: all_ix((n, m), lambda i, j: c_eq(f(i, j), g(i, j))))


def prod(n, f, g):
    return lambda i, j: r_sum(n, lambda k: f(i, k) * g(k, j))


def tr(f):
    return lambda i, j: f(j, i)


def eye(i, j):
    return r_delta(ie(i) - ie(j))


def eig(it, q):
    d, lam, v = L.eigh_vals(it, q)
    return lam, v


def fun_of(n, lam, v, g):
    """V g(lam) V'"""
    return lambda i, j: r_sum(n, lambda k: v(i, k) * v(j, k) * g(lam(k)))


# ---------------------------------------------------------------- C19
@contract('C19', 'sqrtm_pos.psd', LA + 'sqrtm_pos')
def _(it, n):
    q = sym('Q', n, kind='psd')
    tol = scalar('tol', nonneg=True)
    out = call(it, LA + 'sqrtm_pos', q, tol)
    g = [('returns', returns(out))]
    if out[0] == 'ret':
        s = out[1]
        f = mat(it, s, n)
        g += [('shape', shape_is(it, s, n, n)), ('finite', finite(it, s)),
              ('symmetric', eq_mat(it, n, n, f, tr(f))),
              ('square', eq_mat(it, n, n, prod(n, f, f), mat(it, q, n)))]

        def psd():
            x = atom('x', (n,))
            e = lambda i: r_el(x, (i,) if not n == 1 else ())
            return c_le(0, r_sum(n, lambda i: r_sum(n, lambda j: e(i) * f(i, j) * e(j))))
        g.append(('semidefinite', guarded(psd)))
        g.append(('input unchanged', eq_mat(it, n, n, mat(it, q, n), lambda i, j: r_el('Q', (i, j) if not n == 1 else ()))))
    return g


@contract('C19', 'sqrtm_pos.general', LA + 'sqrtm_pos')
def _(it, n):
    q = sym('Q', n)
    tol = scalar('tol', nonneg=True)
    lam, v = eig(it, q)
    out = call(it, LA + 'sqrtm_pos', q, tol)
    ok = all_ix((n,), lambda k: c_le(-tol.v, lam(k)))
    if out[0] == 'ret':
        f = mat(it, out[1], n)
        want = fun_of(n, lam, v, lambda x: r_sqrt(X.r_pos(x)))
        return [('accepts only if eigenvalues >= -tol', ok), ('value', eq_mat(it, n, n, f, want))]
    return [('rejects only if some eigenvalue < -tol', c_and(c_not(ok), raised(out, 'wrongInput:notPosSemDef')))]


@contract('C19', 'sqrtm_pos.negtol', LA + 'sqrtm_pos', n=(SYM,))
def _(it, n):
    q = sym('Q', n)
    tol = scalar('tol')
    it.assume(c_lt(tol.v, 0))
    out = call(it, LA + 'sqrtm_pos', q, tol)
    return [('rejected', raised(out, 'wrongInput:abs_tolNegative'))]


@contract('C19', 'sqrtm_pos.nonsym', LA + 'sqrtm_pos', n=(SYM,))
def _(it, n):
    q = arr('Q', (n, n))
    i, j = fresh_ix(n), fresh_ix(n)
    it.assume(c_not(c_eq(r_el('Q', (i, j)), r_el('Q', (j, i)))))
    out = call(it, LA + 'sqrtm_pos', q)
    return [('rejected', raised(out, 'wrongInput:nonSymmMat'))]


@contract('C19', 'reg_pos_def_mat', LA + 'reg_pos_def_mat')
def _(it, n):
    q = sym('Q', n)
    tol = scalar('tol', pos=True)
    out = call(it, LA + 'reg_pos_def_mat', q, tol)
    g = [('returns', returns(out))]
    if out[0] == 'ret':
        lam, v = eig(it, q)
        f = mat(it, out[1], n)
        want = fun_of(n, lam, v, lambda x: X.r_max(x, tol.v))
        g += [('shape', shape_is(it, out[1], n, n)), ('value', eq_mat(it, n, n, f, want)),
              ('symmetric', eq_mat(it, n, n, f, tr(f)))]
    return g


@contract('C19', 'reg_pos_def_mat.bad', LA + 'reg_pos_def_mat', n=(SYM,), bad=('tol', 'sym'))
def _(it, n, bad):
    tol = scalar('tol', pos=(bad == 'sym'))
    if bad == 'tol':
        q = sym('Q', n)
        it.assume(c_le(tol.v, 0))
    else:
        q = arr('Q', (n, n))
        i, j = fresh_ix(n), fresh_ix(n)
        it.assume(c_not(c_eq(r_el('Q', (i, j)), r_el('Q', (j, i)))))
    out = call(it, LA + 'reg_pos_def_mat', q, tol)
    return [('rejected', raised(out, 'wrongInput:reg_tol' if bad == 'tol' else 'wrongInput:inp_mat'))]


@contract('C19', 'reg_mat', LA + 'reg_mat')
def _(it, n):
    q = arr('M', (n, n))
    tol = scalar('tol', pos=True)
    out = call(it, LA + 'reg_mat', q, tol)
    g = [('returns', returns(out))]
    if out[0] == 'ret':
        u, s, v = it.call(L.LA['svd'], [q], {'full_matrices': False})
        f = mat(it, out[1], n)
        g.append(('value', eq_mat(it, n, n, f, lambda i, j: r_sum(n, lambda k: at(it, u, i, k) * X.r_max(
            at(it, s, k), tol.v) * at(it, v, k, j)))))
    return g


@contract('C19', 'is_mat_symm', LA + 'is_mat_symm')
def _(it, n):
    q = arr('M', (n, n))
    tol = scalar('tol', nonneg=True)
    out = call(it, LA + 'is_mat_symm', q, tol)
    g = [('returns', returns(out))]
    if out[0] == 'ret':
        a = mat(it, q, n)
        want = all_ix((n, n), lambda i, j: c_le(X.r_abs(a(i, j) - a(j, i)), tol.v))
        g += iff('answer', is_true(out[1]), want)
    return g


@contract('C19', 'is_mat_symm.nonsquare', LA + 'is_mat_symm', n=(SYM,), what=('rect', 'vec'))
def _(it, n, what):
    m = dim('m', 1)
    if what == 'rect':
        it.assume(c_not(c_icmp('==', n - m)))
        q = arr('M', (n, m))
    else:
        q = arr('M', (n,))
    out = call(it, LA + 'is_mat_symm', q)
    return [('rejected', raised(out, 'wrongInput:nonSquareMat'))]


@contract('C19', 'is_mat_pos_def', LA + 'is_mat_pos_def', semi=(False, True))
def _(it, n, semi):
    q = sym('M', n)
    tol = scalar('tol', nonneg=True)
    out = call(it, LA + 'is_mat_pos_def', q, tol, semi)
    g = [('returns', returns(out))]
    if out[0] == 'ret':
        lam, v = eig(it, q)
        want = all_ix((n,), lambda k: c_le(-tol.v, lam(k)) if semi else c_lt(tol.v, lam(k)))
        g += iff('answer', is_true(out[1]), want)
    return g


@contract('C19', 'is_mat_not_deg', LA + 'is_mat_not_deg')
def _(it, n):
    q = arr('M', (n, n))
    tol = scalar('tol', nonneg=True)
    out = call(it, LA + 'is_mat_not_deg', q, tol)
    g = [('returns', returns(out))]
    if out[0] == 'ret':
        u, s, v = it.call(L.LA['svd'], [q], {'full_matrices': False})
        want = all_ix((n,), lambda k: c_le(tol.v, at(it, s, k)))
        g += iff('answer', is_true(out[1]), want)
    return g


@contract('C19', 'try_treat_as_real', LA + 'try_treat_as_real', n=(SYM,))
def _(it, n):
    q = arr('M', (n, n))
    out = call(it, LA + 'try_treat_as_real', q)
    g = [('returns', returns(out))]
    if out[0] == 'ret':
        g.append(('same', eq_mat(it, n, n, mat(it, out[1], n), mat(it, q, n))))
    return g
