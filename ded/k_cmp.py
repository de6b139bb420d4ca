"""Contracts of the simultaneous diagonalisation and the size comparison (C15)"""
from cc import *
from k_la import LA, mat, eq_mat, prod, tr, eye, eig
from k_core import new_ell, new_ells, el1, el2, cen, shp, EC, meth, is_ell
import npm_la as L
from callee import sqrtm_contract, simdiag_contract

CO = 'ellipy.elltool.core.core.'


def spectral_lemmas():
    """V'MV = diag(lam) for the eigen decompositions M = V diag(lam) V' computed on the path (contract of eigh)"""
    out = []
    for vn, a in list(REG.atoms.items()):
        if a.get('spec') and not a.get('npar') and len(a['dims']) == 2:
            ln, qf = a['spec']
            n = a['dims'][0]
            out.append(all_ix((n, n), lambda i, j: c_eq(
                r_sum(n, lambda p: r_sum(n, lambda q: r_el(vn, (p, i)) * qf(p, q) * r_el(vn, (q, j)))),
                r_el(ln, (i,)) * r_delta(i - j))))
    return out


@contract('C15', 'ell_sim_diag', CO + 'ell_sim_diag')
def _(it, n):
    a, b = sym('A', n, kind='pd'), sym('B', n)
    tol = scalar('tol', nonneg=True)
    lam, v = eig(it, a)
    made = sqrtm_contract(it)
    it.assume(all_ix((n,), lambda k: c_lt(tol.v, lam(k))))
    out = call(it, CO + 'ell_sim_diag', a, b, tol)
    g = [('returns', returns(out))]
    if out[0] != 'ret':
        return g
    t = mat(it, out[1], n)
    g += [('shape', shape_is(it, out[1], n, n)),
          ('T A T = I', eq_mat(it, n, n, prod(n, prod(n, t, mat(it, a, n)), tr(t)), eye)),
          ('T B T diagonal', guarded(lambda: Goal(all_ix((n, n), lambda i, j: c_or(c_icmp('==', i - j), c_eq(
              prod(n, prod(n, t, mat(it, b, n)), tr(t))(i, j), 0))), lemmas=spectral_lemmas())))]
    return g


def new2(it, n, k1='pd', k2='psd'):
    e1, c1, q1, t1 = new_ell(it, '', n, kind=k1)
    e2, c2, q2, t2 = new_ell(it, '2', n, kind=k2)
    lam, v = eig(it, sym('Q', n, kind=k1))
    return (e1, c1, q1, t1), (e2, c2, q2, t2), lam


def quadf(n, f, y):
    return r_sum(n, lambda i: r_sum(n, lambda j: y(i) * f(i, j) * y(j)))


@contract('C15', 'is_bigger', EC + '.is_bigger', kind=('pd', 'psd'))
def _(it, n, kind):
    """True exactly when the support function of the second shape is below (1 + tol) times that of the first (squared)"""
    (e1, c1, q1, t1), (e2, c2, q2, t2), lam = new2(it, n, 'pd', kind)
    it.assume(all_ix((n,), lambda k: c_lt(t1.v, lam(k))))
    made = simdiag_contract(it)
    out = call(it, it.getattr(e1, 'is_bigger'), e2)
    g = [('returns', returns(out))]
    if out[0] != 'ret':
        return g
    got = guarded(lambda: is_true(out[1]))
    if n == 1:
        return g + iff('value', got, guarded(lambda: c_lt(q2(0, 0), (X.ONE + t1.v) * q1(0, 0))))
    if isinstance(got, Unsupported) or not made:
        # rank test: a first ellipsoid of smaller rank is never bigger
        return g + [('value', got if isinstance(got, Unsupported) else c_not(got))]
    tn = made[0][0]
    lim = X.ONE + t1.v
    za = arr('z', (n,))
    z = lambda k: at(it, za, k)
    y = lambda i: r_sum(n, lambda k: r_el(tn, (k, i)) * z(k))
    dn = made[0][2]
    row = lambda k: (lambda i: r_el(tn, (k, i)))
    g += iff('value.rows', got, guarded(lambda: all_ix((n,), lambda k: c_lt(quadf(n, q2, row(k)), lim * quadf(n, q1, row(k))))))
    g.append(('value.identity', c_eq(lim * quadf(n, q1, y) - quadf(n, q2, y),
                                     r_sum(n, lambda k: (lim - r_el(dn, (k,))) * z(k) * z(k)))))
    g.append(('value.every direction', c_or(c_not(got), all_ix((n,), lambda k: c_le(0, (lim - r_el(dn, (k,))) * z(k) * z(k))))))
    return g


@contract('C15', 'is_bigger.rank', EC + '.is_bigger')
def _(it, n):
    """a first ellipsoid of smaller (exact numerical) rank is never bigger"""
    (e1, c1, q1, t1), (e2, c2, q2, t2), lam = new2(it, n, 'psd', 'psd')
    r = [it.call(it.getattr(e, 'dimension'), [[e]], {'return_rank': True})[1] for e in (e1, e2)]
    it.assume(c_lt(at(it, r[0], I0), at(it, r[1], I0)))
    out = call(it, it.getattr(e1, 'is_bigger'), e2)
    g = [('returns', returns(out))]
    return g + ([('value', guarded(lambda: c_not(is_true(out[1]))))] if out[0] == 'ret' else [])


@contract('C15', 'is_bigger.reject', EC + '.is_bigger', n=(SYM,), dims={'m': (1, 3)})
def _(it, n):
    """different dimensions are rejected"""
    m = dim('m', 1)
    it.assume(c_not(c_icmp('==', n - m)))
    e1 = new_ell(it, '', n, kind='pd')[0]
    e2 = new_ell(it, '2', m, kind='pd')[0]
    a, b = call(it, it.getattr(e1, 'is_bigger'), e2), call(it, it.getattr(e2, 'is_bigger'), e1)
    # the smaller rank is answered first
    return [('rejected', raised(a, 'wrongInput')), ('rejected.back', raised(b, 'wrongInput'))]


@contract('C15', 'ell_sim_diag.rejects', CO + 'ell_sim_diag', why=('asymmetric A', 'not positive', 'asymmetric B', 'size', 'not square'),
          skip=lambda n, why, **k: n == 1 and why.startswith('asym'))
def _(it, n, why):
    if why == 'not square' or why == 'size':
        m = dim('m', 1) if n != 1 else I1 + 1
        if n != 1:
            it.assume(c_not(c_icmp('==', n - m)))
    tol = scalar('tol', pos=True)
    a, b, tag = sym('A', n, kind='pd'), sym('B', n), None
    if why == 'asymmetric A' or why == 'asymmetric B':
        x = arr('X', (n, n))
        i, j = fresh_ix(n), fresh_ix(n)
        it.assume(c_lt(tol.v, X.r_abs(at(it, x, i, j) - at(it, x, j, i))))
        if why == 'asymmetric A':
            a, tag = x, 'wrongInput:nonSymmMat'
        else:
            b, tag = x, 'wrongInput:b_mat'
    lam, v = eig(it, sym('A', n, kind='sym' if why == 'not positive' else 'pd')) if why != 'asymmetric A' else (None, None)
    if why == 'not positive':
        a, tag = sym('A', n), 'wrongInput:a_mat'
        k = fresh_ix(n)
        it.assume(c_le(lam(k), tol.v))
    elif lam:
        it.assume(all_ix((n,), lambda k: c_lt(tol.v, lam(k))))
    if why == 'size':
        b, tag = sym('B2', m), 'wrongInput'
    elif why == 'not square':
        b, tag = arr('X', (n, m)), 'wrongInput:nonSquareMat'
    out = call(it, CO + 'ell_sim_diag', a, b, tol)
    if why == 'asymmetric A':
        return [('rejected', c_or(raised(out, tag), raised(out, 'wrongInput:a_mat')))]
    return [('rejected', raised(out, tag))]
