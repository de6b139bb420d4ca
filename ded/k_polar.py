"""Contracts of the polar (C12) and the projection (C11)"""
from cc import *
from k_la import LA, mat, eq_mat, prod, tr, eye, eig
from k_core import new_ell, new_ells, el1, el2, cen, shp, EC, meth
from k_rho import quad
import npm_la as L


def inside(it, n, cf, qf):
    """c' Q^-1 c"""
    w = inv_of(it, n, qf)
    return r_sum(n, lambda i: r_sum(n, lambda j: cf(i) * w(i, j) * cf(j)))


def inv_of(it, n, qf):
    w = L.inv(it, mk((n, n), lambda i, j: S(qf(i, j)), 'f'))
    return lambda i, j: at(it, w, i, j)


def polar_goals(it, n, o, cf, qf):
    pf = lambda i: cen(it, o)[1](i)
    P = lambda i, j: shp(it, o)[1](i, j)
    mf = lambda i, j: qf(i, j) - cf(i) * cf(j)
    c_p = lambda: r_sum(n, lambda i: cf(i) * pf(i))
    # M p = -c and M P = (1 - <c, p>) I with M = Q - c c'
    g = [('centre', guarded(lambda: all_ix((n,), lambda i: c_eq(r_sum(n, lambda j: mf(i, j) * pf(j)), -cf(i))))),
         ('shape', guarded(lambda: all_ix((n, n), lambda i, j: c_eq(
             r_sum(n, lambda k: mf(i, k) * P(k, j)), r_delta(i - j) * (X.ONE - c_p())))))]

    # with these, (y - p)' P^-1 (y - p) <= 1 iff (y - p)' M (y - p) <= 1 - <c, p>, which is the condition y'Qy <= (1 - <c, y>)^2
    def member():
        atom('y', () if n == 1 else (n,))
        yf = el1('y', n)
        d = lambda i: yf(i) - pf(i)
        lhs = r_sum(n, lambda i: r_sum(n, lambda j: d(i) * mf(i, j) * d(j))) - (X.ONE - c_p())
        cy = r_sum(n, lambda i: cf(i) * yf(i))
        return c_eq(lhs, quad(n, qf, yf) - (X.ONE - cy) ** 2)
    return g + [('members', guarded(member))]


@contract('C12', 'polar', EC + '.polar', how=('robust', 'other', 'array'))
def _(it, n, how):
    e, cf, qf, t = new_ell(it, '', n, kind='pd')
    lam, v = eig(it, sym('Q', n, kind='pd'))
    it.assume(all_ix((n,), lambda k: c_lt(t.v, lam(k))))
    k = inside(it, n, cf, qf)
    it.assume(c_lt(k, 1))
    # Schur complement lemma: Q positive definite and c'Q^-1 c < 1 make Q - c c' positive definite
    it.pd_facts = [lambda i, j: qf(i, j) - cf(i) * cf(j)]
    if how == 'array':
        out = call(it, EC + '.polar', [e])
    else:
        out = call(it, EC + '._get_scalar_polar_internal', e, how == 'robust')
    g = [('returns', returns(out))]
    if out[0] != 'ret':
        return g
    o = out[1] if how != 'array' else snippet(it, 'r[0]', r=out[1])
    return g + polar_goals(it, n, o, cf, qf)


@contract('C12', 'polar.rejects', EC + '.polar', why=('origin', 'degenerate'))
def _(it, n, why):
    e, cf, qf, t = new_ell(it, '', n, kind='pd' if why == 'origin' else 'psd')
    lam, v = eig(it, sym('Q', n, kind='pd' if why == 'origin' else 'psd'))
    if why == 'origin':
        it.assume(all_ix((n,), lambda k: c_lt(t.v, lam(k))))
        it.assume(c_le(1, inside(it, n, cf, qf)))
    else:
        it.assume(c_le(lam(fresh_ix(n)), t.v))
    out = call(it, EC + '.polar', [e])
    return [('rejected', raised(out, 'degenerateEllipsoid'))]
