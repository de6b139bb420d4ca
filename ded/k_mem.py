"""Contracts of the membership test (C14)"""
from cc import *
from k_la import LA, mat, eq_mat, prod, tr, eye, eig
from k_core import new_ell, new_ells, el1, el2, cen, shp, EC, meth, is_ell
from k_polar import inside, inv_of
import npm_la as L


def member(it, n, cf, qf, xf, t):
    """sqrt(<x-q, Q^-1 (x-q)>) below one or within t of one"""
    r = r_sqrt(inside(it, n, lambda i: xf(i) - cf(i), qf))
    return c_or(c_lt(r, X.ONE), c_lt(X.r_abs(r - X.ONE), t))


@contract('C14', 'is_internal.single', EC + '.is_internal', mode=('u', 'i', None))
def _(it, n, mode):
    """one ellipsoid, one vector, non-degenerate shape"""
    e, cf, qf, t = new_ell(it, '', n, kind='pd')
    lam, v = eig(it, sym('Q', n, kind='pd'))
    it.assume(all_ix((n,), lambda k: c_lt(t.v, lam(k))))
    x = arr('x', (n, I1))
    out = call(it, EC + '.is_internal', [e], x, mode)
    g = [('returns', returns(out))]
    if out[0] != 'ret':
        return g
    g.append(('shape', shape_is(it, out[1], 1, 1)))
    xf = lambda i: at(it, x, i, I0)
    got = guarded(lambda: is_true(out[1].get((I0, I0))))
    if isinstance(got, Unsupported):
        return g + [('value', got)]
    return g + iff('value', got, guarded(lambda: member(it, n, cf, qf, xf, t.v)))


@contract('C14', 'is_internal.many', EC + '.is_internal', mode=('u', 'i'), cols=('1', 'c'), dims={'m': (1, 3), 'c': (1, 3)})
def _(it, n, mode, cols):
    """any number of ellipsoids and vectors: union / intersection, column by column"""
    m = dim('m', 1)
    r = dim('c', 1) if cols == 'c' else I1
    lst, cf, qf, tf = new_ells(it, '', m, n, kind='pd')
    q = sym('Q', n, fam=(m,), kind='pd')
    k = fresh_ix(m)
    lam, v = eig(it, snippet(it, 'q[:, :, k]', q=q, k=k))
    it.assume(all_ix((m,), lambda p: all_ix((n,), lambda i: c_lt(tf(p), eig(it, snippet(it, 'q[:, :, k]', q=q, k=p))[0](i)))))
    x = arr('x', (n, r))
    out = call(it, EC + '.is_internal', lst, x, mode)
    g = [('returns', returns(out))]
    if out[0] != 'ret':
        return g
    g.append(('shape', shape_is(it, out[1], r, 1)))
    j = fresh_ix(r)
    got = guarded(lambda: is_true(out[1].get((j, I0))))
    if isinstance(got, Unsupported):
        return g + [('value', got)]

    def want():
        p = fresh_ix(m)
        c = member(it, n, lambda i: cf(p, i), lambda a, b: qf(p, a, b), lambda i: at(it, x, i, j), tf(p))
        return exists(p, c) if mode == 'u' else forall(p, c)
    return g + iff('value', got, guarded(want))


@contract('C14', 'is_internal.degenerate', EC + '.is_internal', mode=('u', 'i'), spec=('inverse', 'spectral'))
def _(it, n, mode, spec):
    """degenerate shapes: eigenvalues below the tolerance are lifted to the tolerance"""
    e, cf, qf, t = new_ell(it, '', n, kind='psd')
    q = sym('Q', n, kind='psd')
    lam, v = eig(it, q)
    it.assume(c_le(lam(fresh_ix(n)), t.v))
    x = arr('x', (n, I1))
    out = call(it, EC + '.is_internal', [e], x, mode)
    g = [('returns', returns(out))]
    if out[0] != 'ret':
        return g
    g.append(('shape', shape_is(it, out[1], 1, 1)))
    d = lambda i: at(it, x, i, I0) - cf(i)
    got = guarded(lambda: is_true(out[1].get((I0, I0))))
    if isinstance(got, Unsupported):
        return g + [('value', got)]

    def want():
        if spec == 'spectral':
            r = r_sqrt(r_sum(n, lambda k: r_sum(n, lambda i: v(i, k) * d(i)) ** 2 * r_inv(X.r_max(lam(k), t.v))))
        else:
            w = inv_of(it, n, lambda i, j: r_sum(n, lambda k: v(i, k) * X.r_max(lam(k), t.v) * v(j, k)))
            r = r_sqrt(r_sum(n, lambda i: r_sum(n, lambda j: d(i) * w(i, j) * d(j))))
        return c_or(c_lt(r, X.ONE), c_lt(X.r_abs(r - X.ONE), t.v))
    return g + iff('value', got, guarded(want))


@contract('C14', 'is_internal.rejects', EC + '.is_internal', n=(SYM,), why=('empty array', 'empty ellipsoid', 'mode', 'size'))
def _(it, n, why):
    e, cf, qf, t = new_ell(it, '', n, kind='pd')
    x = arr('x', (n, dim('c', 1)))
    a, mode, tag = [e], 'u', 'wrongInput'
    if why == 'empty array':
        a, tag = [], 'wrongInput:emptyArray'
    elif why == 'empty ellipsoid':
        a, tag = [e, it.call(it.get(EC), [], {})], 'wrongInput:emptyEllipsoid'
    elif why == 'mode':
        mode = 'x'
    else:
        r = dim('r', 1)
        it.assume(c_not(c_icmp('==', r - n)))
        x, tag = arr('x', (r, dim('c', 1))), 'wrongSizes'
    out = call(it, EC + '.is_internal', a, x, mode)
    return [('rejected', raised(out, tag))]
