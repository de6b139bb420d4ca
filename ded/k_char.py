"""Contracts of the scalar characteristics (C13)"""
from cc import *
from k_la import LA, mat, eq_mat, prod, tr, eye, eig
from k_core import new_ell, new_ells, el1, el2, cen, shp, EC, meth
from k_rho import quad
import npm_la as L


def family(it, n, kind='psd'):
    m = dim('m', 1)
    lst, cf, qf, tf = new_ells(it, '', m, n, kind=kind)
    q = sym('Q', n, fam=(m,), kind=kind)
    k = fresh_ix(m)
    lam, v = eig(it, snippet(it, 'q[:, :, k]', q=q, k=k))
    return m, lst, cf, qf, tf, k, lam


@contract('C13', 'trace', EC + '.trace')
def _(it, n):
    m, lst, cf, qf, tf, k, lam = family(it, n)
    out = call(it, EC + '.trace', lst)
    g = [('returns', returns(out))]
    if out[0] == 'ret':
        g += [('shape', shape_is(it, out[1], m)),
              ('value', guarded(lambda: c_eq(at(it, out[1], k), r_sum(n, lambda i: qf(k, i, i)))))]
    return g


@contract('C13', 'eigenvalues', EC + '.max_eig', which=('min_eig', 'max_eig'))
def _(it, n, which):
    m, lst, cf, qf, tf, k, lam = family(it, n)
    out = call(it, EC + '.' + which, lst)
    g = [('returns', returns(out))]
    if out[0] == 'ret':
        r = lambda: at(it, out[1], k)
        i = fresh_ix(n)
        g += [('shape', shape_is(it, out[1], m)),
              ('is an eigenvalue', guarded(lambda: c_or(c_eq(n, 1), FALSE) if False else exists(i, c_eq(lam(i), r())))),
              ('extreme', guarded(lambda: all_ix((n,), lambda i: c_le(r(), lam(i)) if which == 'min_eig' else c_le(lam(i), r()))))]
    return g


@contract('C13', 'is_degenerate', EC + '.is_degenerate')
def _(it, n):
    m, lst, cf, qf, tf, k, lam = family(it, n)
    out = call(it, EC + '.is_degenerate', lst)
    g = [('returns', returns(out))]
    if out[0] == 'ret':
        i = fresh_ix(n)
        g += [('shape', shape_is(it, out[1], m))]
        got = guarded(lambda: is_true(out[1].get((k,))))
        if isinstance(got, Unsupported):
            return g + [('value', got)]
        g += iff('value', got, exists(i, c_le(lam(i), tf(k))))
    return g


@contract('C13', 'dimension', EC + '.dimension')
def _(it, n):
    m, lst, cf, qf, tf, k, lam = family(it, n)
    out = call(it, EC + '.dimension', lst)
    e = call(it, EC + '.is_empty', lst)
    it.outcome = out
    g = [('returns', c_and(returns(out), returns(e)))]
    if out[0] == 'ret' and e[0] == 'ret':
        g += [('shape', c_and(shape_is(it, out[1], m), shape_is(it, e[1], m))),
              ('value', guarded(lambda: c_eq(at(it, out[1], k), r_int(n)))),
              ('not empty', guarded(lambda: c_not(is_true(e[1].get((k,))))))]
    return g


def unit_ball(it, n, p, par):
    """volume of the unit ball of R^n, n = 2p: pi^p / p!,  n = 2p + 1: 2^(2p+1) pi^p p! / (2p+1)!,  n = 1: 2"""
    if par == 1:
        return real(2)
    pw = lambda b, k: A.arith(None, 'Pow', S(b), S(r_int(k))).v
    fact = lambda k: X.r_fn('fact', r_int(k))
    pi = X.r_fn('pi')
    if par == 'even':
        return pw(pi, p) * r_inv(fact(p))
    return pw(real(2), n) * pw(pi, p) * fact(p) * r_inv(fact(n))


@contract('C13', 'volume', EC + '.volume', n=None, par=('even', 'odd', 1), kind=('psd', 'pd'))
def _(it, par, kind):
    """every dimension n = 2p or 2p + 1"""
    p = dim('p', 1) if par != 1 else None
    n = ie(1) if par == 1 else p + p + (1 if par == 'odd' else 0)
    e, cf, qf, t = new_ell(it, '', n, kind=kind)
    q = sym('Q', n, kind=kind)
    lam, v = eig(it, q)
    good = all_ix((n,), lambda i: c_lt(t.v, lam(i)))
    out = call(it, EC + '.volume', [e])
    g = [('returns', returns(out))]
    if out[0] != 'ret':
        return g
    r = lambda: at(it, out[1], I0)
    return g + [('shape', shape_is(it, out[1], 1)),
                ('degenerate', guarded(lambda: c_or(good, c_eq(r(), 0)))),
                ('value', guarded(lambda: c_imp(good, c_eq(r(), unit_ball(it, n, p, par) * r_sqrt(
                    at(it, it.call(L.LA['det'], [q], {})))))))]


@contract('C13', 'characteristics.empty', EC + '.volume', n=None, which=('volume', 'trace', 'min_eig', 'max_eig', 'is_degenerate'))
def _(it, which):
    o = it.call(it.get(EC), [], {})
    q = sym('Q', dim('n', 2), kind='pd')
    e = it.call(it.get(EC), [q], {})
    out = call(it, EC + '.' + which, [e, o])
    return [('rejected', raised(out, 'wrongInput:emptyEllipsoid'))]
