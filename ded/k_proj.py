"""Contracts of the projection (C11)"""
from cc import *
from k_core import new_ell, new_ells, el1, el2, cen, shp, EC, meth, flagged


def basis(it, n, k, col=None):
    """basis matrix with non zero columns; (array, entries of the normalised columns)"""
    b = arr('B', (n, k))
    norm = lambda j: r_sqrt(r_sum(n, lambda i: at(it, b, i, j) ** 2))
    it.assume(all_ix((k,), lambda j: c_lt(0, r_sum(n, lambda i: at(it, b, i, j) ** 2))))
    return b, lambda i, j: at(it, b, i, j) * r_inv(norm(j))


def gram(it, n, b):
    return lambda i, j: r_sum(n, lambda a: at(it, b, a, i) * at(it, b, a, j))


def orth(it, n, k, b, tol):
    g = gram(it, n, b)
    return all_ix((k, k), lambda i, j: c_le(X.r_abs(g(i, j) * (X.ONE - r_delta(i - j))), tol))


def proj_goals(it, n, k, o, cf, qf, bf, nm=''):
    def c0():
        a, f = cen(it, o)
        return c_and(shape_is(it, a, k), all_ix((k,), lambda i: c_eq(f(i), r_sum(n, lambda a_: bf(a_, i) * cf(a_)))))

    def s0():
        a, f = shp(it, o)
        return c_and(shape_is(it, a, k, k), all_ix((k, k), lambda i, j: c_eq(
            f(i, j), r_sum(n, lambda p: r_sum(n, lambda q: bf(p, i) * qf(p, q) * bf(q, j))))))
    return [(nm + 'centre', guarded(c0)), (nm + 'shape', guarded(s0))]


@contract('C11', 'projection', EC + '.projection', how=('projection', 'get_projection'), nb=('k', 1), dims={'k': (2, 3), 'n': (3, 4)},
          skip=lambda n, nb, **kw: n == 1 and nb == 'k')
def _(it, n, how, nb):
    k = dim('k', 2) if nb == 'k' else ie(1)
    if nb == 'k':
        it.assume(c_icmp('<=', k - n))
    e, cf, qf, t = new_ell(it, '', n, kind='psd')
    b, bf = basis(it, n, k)
    it.assume(orth(it, n, k, b, t.v))
    out = call(it, EC + '.' + how, [e], b)
    g = [('returns', returns(out))]
    if out[0] != 'ret':
        return g
    o = snippet(it, 'r[0]', r=out[1])
    g += proj_goals(it, n, k, o, cf, qf, bf)
    if how == 'projection':
        g.append(('in place', TRUE if o is e else FALSE))
    else:
        from k_core import is_ell
        g += [('another object', FALSE if o is e else TRUE)] + is_ell(it, e, n, cf, qf, 'original ')
    b2 = [('basis unchanged', guarded(lambda: all_ix((n, k), lambda i, j: c_eq(at(it, b, i, j), X.r_el('B', tuple(
        x for x, d in ((i, n), (j, k)) if not d == 1))))))]
    return g + b2


@contract('C11', 'projection.rejects', EC + '.projection', how=('projection', 'get_projection'), why=('skew', 'wide', 'size'), n=(SYM,),
          dims={'k': (2, 3), 'n': (3, 4)})
def _(it, n, how, why):
    from k_core import is_ell
    e, cf, qf, t = new_ell(it, '', n, kind='psd')
    k = dim('k', 2)
    rows = n
    if why == 'size':
        rows = dim('r', 2)
        it.assume(c_not(c_icmp('==', rows - n)))
    b, bf = basis(it, rows, k)
    if why == 'wide':
        it.assume(c_icmp('<', rows - k))
    elif why == 'skew':
        it.assume(c_icmp('<=', k - n))
        it.assume(c_not(orth(it, n, k, b, t.v)))
    out = call(it, EC + '.' + how, [e], b)
    return [('rejected', raised(out, 'wrongInput'))] + is_ell(it, e, n, cf, qf, 'unchanged ')


@contract('C11', 'projection.family', EC + '.projection', how=('projection', 'get_projection'), nb=('k', 1), n=(SYM,),
          dims={'k': (2, 3), 'n': (3, 4), 'm': (2, 3)})
def _(it, n, how, nb):
    """arrays of any length, common dimension: every element is projected"""
    from k_core import is_ell
    k = dim('k', 2) if nb == 'k' else ie(1)
    m = dim('m', 2)
    if nb == 'k':
        it.assume(c_icmp('<=', k - n))
    lst, cf, qf, tf = new_ells(it, '', m, n, kind='psd')
    b, bf = basis(it, n, k)
    # orthogonal within the largest tolerance of the array
    t = arr('tol', (m,), nonneg=True, positive=True, gen=lambda env, d: 0.1 * env.positive(d))
    it.assume(orth(it, n, k, b, rv(it, snippet(it, 'np.max(t)', np=it.get(EC.rsplit('.', 1)[0] + '.np'), t=t))))
    out = call(it, EC + '.' + how, lst, b)
    g = [('returns', returns(out))]
    if out[0] != 'ret':
        return g
    p = fresh_ix(m)
    o = snippet(it, 'r[p]', r=out[1], p=p)
    g += proj_goals(it, n, k, o, lambda i: cf(p, i), lambda i, j: qf(p, i, j), bf)
    if how == 'get_projection':
        g += is_ell(it, snippet(it, 'r[p]', r=lst, p=p), n, lambda i: cf(p, i), lambda i, j: qf(p, i, j), 'original ')
    return g
