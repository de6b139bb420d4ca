"""Contracts of the absolute / relative comparison of arrays (C05)"""
from cc import *
import npm_la as L

AC = 'ellipy.gen.common.common.abs_rel_compare'


def absop(it):
    return snippet(it, 'lambda z: np.abs(z)', np=it.load('numpy'))


def full(name, dims):
    """arbitrary entries: finite, nan, +inf or -inf"""
    dims = tuple(ie(d) for d in dims)
    atom(name, dims)
    atom('bad:' + name, dims)
    atom('inf:' + name, dims)
    b = lambda k: c_lt(0, r_el('bad:' + name, k))
    p = lambda k: c_and(b(k), c_lt(0, r_el('inf:' + name, k)), c_lt(0, r_el(name, k)))
    m = lambda k: c_and(b(k), c_lt(0, r_el('inf:' + name, k)), c_not(c_lt(0, r_el(name, k))))
    return mk(dims, lambda *k: S(r_el(name, k), b(k), p(k), m(k)), 'f'), b, p, m


def close(x, y, a, r):
    d, s = X.r_abs(x - y), X.r_abs(x) + X.r_abs(y)
    c = c_le(d, a)
    return c if r is None else c_or(c, c_and(c_lt(a, s), c_le(2 * d, r * s)))


def exists_ix(dims, f):
    ix = tuple(fresh_ix(ie(d)) for d in dims)
    c = f(*ix)
    for e in ix:
        c = exists(e, c)
    return c


@contract('C05', 'abs_rel_compare', AC, rel=(False, True), nd=(1, 2), dims={'m': (1, 3)})
def _(it, n, rel, nd):
    dims = (n,) if nd == 1 else (n, dim('m', 1))
    x, y = arr('x', dims), arr('y', dims)
    a = scalar('a', nonneg=True)
    r = scalar('r', nonneg=True) if rel else None
    out = call(it, AC, x, y, a, r, absop(it))
    g = [('returns', returns(out))]
    if out[0] != 'ret':
        return g
    res = out[1]
    ax, ay = (lambda *i: at(it, x, *i)), (lambda *i: at(it, y, *i))
    ox, oy = (lambda *i: r_el('x', i if n != 1 else i[1:])), (lambda *i: r_el('y', i if n != 1 else i[1:]))
    g.append(('arguments kept', all_ix(dims, lambda *i: c_and(c_eq(ax(*i), ox(*map(ie, i))), c_eq(ay(*i), oy(*map(ie, i)))))))
    got = guarded(lambda: is_true(res[0]))
    if isinstance(got, Unsupported):
        return g + [('value', got)]
    g += iff('value', got, guarded(lambda: all_ix(dims, lambda *i: close(ox(*map(ie, i)), oy(*map(ie, i)), a.v, r.v if rel else None))))
    d = lambda *i: X.r_abs(ox(*map(ie, i)) - oy(*map(ie, i)))
    g.append(('absolute difference is an upper bound', guarded(lambda: all_ix(dims, lambda *i: c_le(d(*i), rv(it, res[1]))))))
    g.append(('absolute difference is attained', guarded(lambda: exists_ix(dims, lambda *i: c_eq(d(*i), rv(it, res[1]))))))
    if not rel:
        g.append(('no relative difference', guarded(lambda: c_and(c_not(is_true(res[2])), shape_is(it, res[3], 0)))))
    else:
        trig = lambda *i: c_and(c_lt(a.v, d(*i)), c_lt(a.v, X.r_abs(ox(*map(ie, i))) + X.r_abs(oy(*map(ie, i)))))
        isr = guarded(lambda: is_true(res[2]))
        if isinstance(isr, Unsupported):
            return g + [('relative', isr)]
        g += iff('relative triggered', isr, guarded(lambda: exists_ix(dims, trig)))
        q = lambda *i: 2 * d(*i) * X.r_inv(X.r_abs(ox(*map(ie, i))) + X.r_abs(oy(*map(ie, i))))
        if isinstance(res[3], Arr) and res[3].ndim == 1:
            g.append(('no relative difference', c_not(isr)))
        else:
            g.append(('relative difference is an upper bound', guarded(lambda: all_ix(dims, lambda *i: c_or(
                c_not(trig(*i)), c_le(q(*i), rv(it, res[3])))))))
            g.append(('relative difference is attained', guarded(lambda: exists_ix(dims, lambda *i: c_and(
                trig(*i), c_eq(q(*i), rv(it, res[3])))))))
    g.append(('report', guarded(lambda: c_not(got) if bool(res[5]) else got)))
    return g


@contract('C05', 'abs_rel_compare.non-finite', AC, rel=(False, True))
def _(it, n, rel):
    """nan and infinities must coincide; the finite pairs decide the rest"""
    dims = (n,)
    x, xb, xp, xm = full('x', dims)
    y, yb, yp, ym = full('y', dims)
    a = scalar('a', nonneg=True)
    r = scalar('r', nonneg=True) if rel else None
    out = call(it, AC, x, y, a, r, absop(it))
    g = [('returns', returns(out))]
    if out[0] != 'ret':
        return g
    res = out[1]
    got = guarded(lambda: is_true(res[0]))
    if isinstance(got, Unsupported):
        return g + [('value', got)]
    both = lambda p, q: c_and(c_or(c_not(p), q), c_or(c_not(q), p))
    ex, ey = (lambda i: r_el('x', (ie(i),))), (lambda i: r_el('y', (ie(i),)))
    g += iff('value', got, guarded(lambda: all_ix(dims, lambda i: c_and(
        both(xb((ie(i),)), yb((ie(i),))), both(xp((ie(i),)), yp((ie(i),))), both(xm((ie(i),)), ym((ie(i),))),
        c_or(xb((ie(i),)), close(ex(i), ey(i), a.v, r.v if rel else None))))))
    i = fresh_ix(n)
    kept = lambda arr_, e, b, p, m: all_ix(dims, lambda i: kept1(arr_.get((ie(i),)), e(i), b((ie(i),)), p((ie(i),)), m((ie(i),)), both))
    g.append(('arguments kept', guarded(lambda: c_and(kept(x, ex, xb, xp, xm), kept(y, ey, yb, yp, ym)))))
    g.append(('report', guarded(lambda: c_not(got) if bool(res[5]) else got)))
    return g


def kept1(s, e, b, p, m, both):
    return c_and(both(s.bad, b), c_or(b, c_eq(s.v, e)), both(s.pinf, p), both(s.ninf, m))


@contract('C05', 'abs_rel_compare.rejects', AC, n=(SYM,), why=('shape', 'tolerance', 'relative tolerance', 'norm'), dims={'m': (1, 3)})
def _(it, n, why):
    x, y, a, r, f = arr('x', (n,)), arr('y', (n,)), scalar('a', nonneg=True), None, absop(it)
    if why == 'shape':
        m = dim('m', 1)
        it.assume(c_not(c_icmp('==', n - m)))
        y, tag = arr('y', (m,)), 'wrongInput:wrongArgs'
    elif why == 'tolerance':
        a, tag = scalar('b'), 'wrongInput:wrongAbsTol'
        it.assume(c_lt(a.v, X.ZERO))
    elif why == 'relative tolerance':
        r, tag = scalar('b'), 'wrongInput:wrongRelTol'
        it.assume(c_lt(r.v, X.ZERO))
    else:
        f, tag = None, 'wrongInput:wrongNormOp'
    out = call(it, AC, x, y, a, r, f)
    return [('rejected', raised(out, tag))]
