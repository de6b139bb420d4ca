"""Contracts of the support function (C07)"""
from cc import *
from k_la import LA, mat, eq_mat, prod, tr, eye
from k_core import new_ell, new_ells, el1, el2, cen, shp, EC, meth, flagged
import npm_la as L

EL = 'ellipy.gras.geom.ell.ell.'


def quad(n, q, l):
    return r_sum(n, lambda i: r_sum(n, lambda j: l(i) * q(i, j) * l(j)))


def sup_goals(it, n, cf, qf, lf, sup, bp, nm=''):
    """sup: R, bp: fn(i) -> R, for one direction"""
    h = quad(n, qf, lf)
    g = []
    s = lambda: r_sum(n, lambda i: cf(i) * lf(i)) + r_sqrt(h)
    g.append((nm + 'support value', guarded(lambda: c_eq(sup(), s()))))
    g.append((nm + 'boundary point attains it', guarded(lambda: c_imp(c_lt(0, h), c_eq(r_sum(n, lambda i: bp(i) * lf(i)), s())))))
    g.append((nm + 'boundary point', guarded(lambda: c_imp(c_lt(0, h), all_ix((n,), lambda i: c_eq(
        (bp(i) - cf(i)) * r_sqrt(h), r_sum(n, lambda j: qf(i, j) * lf(j))))))))
    g.append((nm + 'degenerate direction gives the centre', guarded(lambda: c_imp(c_eq(h, 0), all_ix((n,), lambda i: c_eq(
        bp(i), cf(i)))))))
    return g


@contract('C07', 'rho_mat', EL + 'rho_mat', nd=('1', 'm'), centre=(True, False))
def _(it, n, nd, centre):
    m = I1 if nd == '1' else dim('m', 2)
    q = sym('Q', n, kind='psd')
    d = arr('l', (n, m))
    k = fresh_ix(m)
    lf = lambda i: at(it, d, i, k)
    tol = scalar('tol', pos=True)
    c = arr('c', (n, I1)) if centre else None
    cf = el1('c', n) if centre else (lambda i: X.ZERO)
    out = call(it, EL + 'rho_mat', q, d, tol, *([c] if centre else []))
    g = [('returns', returns(out))]
    if out[0] == 'ret':
        sup, bp = out[1]
        g += [('sup shape', shape_is(it, sup, 1, m)), ('bp shape', shape_is(it, bp, n, m))]
        g += sup_goals(it, n, cf, el2('Q', n), lf, lambda: at(it, sup, 0, k), lambda i: at(it, bp, i, k))
    return g


@contract('C07', 'rho.one', EC + '.rho', nd=('1', 'm'), form=('list', 'array', 'object'))
def _(it, n, nd, form):
    o, cf, qf, tol = new_ell(it, '', n)
    m = I1 if nd == '1' else dim('m', 2)
    d = arr('l', (n, m))
    k = fresh_ix(m)
    lf = lambda i: at(it, d, i, k)
    a = o if form == 'object' else [o] if form == 'list' else snippet(it, 'np.array([o])', o=o, np=it.load('numpy'))
    out = call(it, EC + '.rho', a, d)
    g = [('returns', returns(out))]
    if out[0] == 'ret':
        sup, bp = out[1]
        g += [('sup shape', shape_is(it, sup, 1, m)), ('bp shape', shape_is(it, bp, n, m))]
        g += sup_goals(it, n, cf, qf, lf, lambda: at(it, sup, 0, k), lambda i: at(it, bp, i, k))
    return g


@contract('C07', 'rho.grid', EC + '.rho')
def _(it, n):
    """one ellipsoid, an n x p x r array of directions"""
    o, cf, qf, tol = new_ell(it, '', n)
    p, r = dim('p', 2), dim('r', 2)
    d = arr('l', (n, p, r))
    k, j = fresh_ix(p), fresh_ix(r)
    out = call(it, EC + '.rho', [o], d)
    g = [('returns', returns(out))]
    if out[0] == 'ret':
        sup, bp = out[1]
        g += [('sup shape', shape_is(it, sup, p, r)), ('bp shape', shape_is(it, bp, n, p, r))]
        g += sup_goals(it, n, cf, qf, lambda i: at(it, d, i, k, j), lambda: at(it, sup, k, j), lambda i: at(it, bp, i, k, j))
    return g


@contract('C07', 'rho.many', EC + '.rho', mode=('same direction', 'pairs'))
def _(it, n, mode):
    m = dim('m', 2)
    lst, cf, qf, tf = new_ells(it, '', m, n)
    d = arr('l', (n, I1 if mode == 'same direction' else m))
    k = fresh_ix(m)
    out = call(it, EC + '.rho', lst, d)
    g = [('returns', returns(out))]
    if out[0] == 'ret':
        sup, bp = out[1]
        single = lambda a, f: f(a)
        if mode == 'same direction':
            g.append(('sup shape', shape_is(it, sup, m)))
        g.append(('bp shape', shape_is(it, bp, n, m)))
        sv = lambda: at(it, sup, k) if sup.ndim == 1 else at(it, sup, *([k] + [I0] * (sup.ndim - 1)))
        lf = (lambda i: at(it, d, i, 0)) if mode == 'same direction' else (lambda i: at(it, d, i, k))
        g += sup_goals(it, n, lambda i: cf(k, i), lambda i, j: qf(k, i, j), lf, sv, lambda i: at(it, bp, i, k))
    return g
