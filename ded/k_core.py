"""Contracts of the ellipsoid classes: construction (C01)"""
from cc import *
from k_la import LA, mat, eq_mat, prod, tr, eye, eig
from cc import norm2_ as norm2
import npm_la as L

EC = 'ellipy.elltool.core.ellipsoid.Ellipsoid.Ellipsoid'


def el1(name, n):
    return lambda i: r_el(name, () if n == 1 else (ie(i),))


def el2(name, n):
    return lambda i, j: r_el(name, () if n == 1 else (ie(i), ie(j)))


def meth(it, o, name, *args, **kw):
    return it.call(it.getattr(o, name), list(args), kw)


def cen(it, o):
    a = meth(it, o, 'get_center_vec')
    return a, (lambda i: at(it, a, i))


def shp(it, o):
    a = meth(it, o, 'get_shape_mat')
    return a, (lambda i, j: at(it, a, i, j))


def new_ell(it, name, n, kind='psd', tol=None, **kw):
    """an ellipsoid built by the real constructor; returns (object, centre fn, shape fn, tolerance)"""
    q = sym('Q' + name, n, kind=kind)
    t = tol if tol is not None else scalar('tol' + name, pos=True, gen=lambda env, d: 0.1 * env.positive())
    o = it.call(it.get(EC), [arr('c' + name, (n,)), q], dict(kw, abs_tol=t))
    return o, el1('c' + name, n), el2('Q' + name, n), t


def is_ell(it, o, n, cf, qf, what=''):
    """result is an ellipsoid with the given centre and shape"""
    def c0():
        a, f = cen(it, o)
        return c_and(shape_is(it, a, n), all_ix((n,), lambda i: c_eq(f(i), cf(i))))

    def s0():
        a, f = shp(it, o)
        return c_and(shape_is(it, a, n, n), all_ix((n, n), lambda i, j: c_eq(f(i, j), qf(i, j))))
    return [(what + 'centre', guarded(c0)), (what + 'shape', guarded(s0))]


@contract('C01', 'construct', EC + '.__init__', nargs=(1, 2))
def _(it, n, nargs):
    tol = scalar('tol', pos=True)
    q = sym('Q', n)
    args = [q] if nargs == 1 else [arr('c', (n,)), q]
    lam, v = eig(it, q)
    ok = all_ix((n,), lambda k: c_le(-tol.v, lam(k)))
    out = call(it, EC, *args, abs_tol=tol)
    if out[0] == 'raise':
        return [('rejects only indefinite matrices', c_not(ok)), ('tag', raised(out, 'wrongInput:shape_mat'))]
    cf = el1('c', n) if nargs == 2 else lambda i: X.ZERO
    g = [('semidefinite within the tolerance', ok)] + is_ell(it, out[1], n, cf, el2('Q', n))
    return g + [('tolerance', guarded(lambda: c_eq(rv(it, it.getattr(out[1], '_abs_tol')), tol.v)))]


@contract('C01', 'construct.asymmetric', EC + '.__init__')
def _(it, n):
    tol = scalar('tol', pos=True)
    q = arr('Q', (n, n))
    out = call(it, EC, arr('c', (n,)), q, abs_tol=tol)
    f = el2('Q', n)
    near = all_ix((n, n), lambda i, j: c_le(X.r_abs(f(i, j) - f(j, i)), tol.v))
    if out[0] == 'raise':
        return [('tag', raised(out, 'wrongInput:shape_mat'))]
    g = [('symmetric within the tolerance', near)]
    return g + is_ell(it, out[1], n, el1('c', n), lambda i, j: (f(i, j) + f(j, i)) * real(0.5))


@contract('C01', 'construct.centre', EC + '.__init__', form=('row', 'col'))
def _(it, n, form):
    q = sym('Q', n, kind='pd')
    cf = el1('c', n)
    arr('c', (n,))
    c = mk((I1, n), lambda k, i: S(cf(i)), 'f') if form == 'row' else mk((n, I1), lambda i, k: S(cf(i)), 'f')
    out = call(it, EC, c, q)
    return [('returns', returns(out))] + (is_ell(it, out[1], n, cf, el2('Q', n)) if out[0] == 'ret' else [])


@contract('C01', 'construct.bad', EC + '.__init__', n=(SYM,), bad=('rect', 'vec', 'cube', 'csize', 'cmat', 'clist'))
def _(it, n, bad):
    m = dim('m', 2)
    it.assume(c_not(c_icmp('==', m - n)))
    q = arr('Q', {'rect': (n, m), 'vec': (n,), 'cube': (n, n, n)}.get(bad, (n, n))) if bad[0] != 'c' or bad == 'cube' \
        else sym('Q', n, kind='pd')
    c = arr('c', (m,) if bad == 'csize' else (n, m) if bad == 'cmat' else (n,))
    if bad == 'clist':
        c = I.Opaque('list') if False else 'text'
    out = call(it, EC, c, q)
    tag = {'csize': 'wrongInput', 'cmat': 'wrongInput:center_vec', 'clist': 'wrongInput:center_vec'}.get(
        bad, 'wrongInput:shape_mat')
    return [('rejected', raised(out, tag))]




@contract('C01', 'construct.empty', EC + '.__init__', n=None)
def _(it):
    out = call(it, EC)
    if out[0] != 'ret':
        return [('returns', FALSE)]
    c, q = meth(it, out[1], 'double')
    return [('shape', shape_is(it, q, 0, 0)), ('centre', shape_is(it, c, 0)),
            ('empty', guarded(lambda: is_true(it.call(it.get(EC + '.is_empty'), [out[1]], {}).get(())
                                              if isinstance(it.call(it.get(EC + '.is_empty'), [out[1]], {}), Arr)
                                              else it.call(it.get(EC + '.is_empty'), [out[1]], {}))))]


def flagged(name, dims, inf=False):
    """array with arbitrary entries, some of which may be nan / infinite (inf: infinite of either sign only)"""
    dims = tuple(ie(d) for d in dims)
    atom(name, dims)
    atom('bad:' + name, dims)
    if inf:
        b, u = (lambda k: c_lt(0, r_el('bad:' + name, k))), (lambda k: c_lt(0, r_el(name, k)))
        return mk(dims, lambda *k: S(r_el(name, k), b(k), c_and(b(k), u(k)), c_and(b(k), c_not(u(k)))), 'f')
    return mk(dims, lambda *k: S(r_el(name, k), c_lt(0, r_el('bad:' + name, k)), None, None), 'f')


@contract('C01', 'construct.nonfinite', EC + '.__init__', n=(SYM,), which=('centre', 'shape'))
def _(it, n, which):
    tol = scalar('tol', pos=True)
    c = flagged('c', (n,)) if which == 'centre' else arr('c', (n,))
    q = flagged('Q', (n, n)) if which == 'shape' else sym('Q', n, kind='pd')
    ix = tuple(fresh_ix(n) for _ in range(1 if which == 'centre' else 2))
    it.assume(c_lt(0, r_el('bad:' + ('c' if which == 'centre' else 'Q'), ix)))
    out = call(it, EC, c, q, abs_tol=tol)
    return [('rejected', raised(out, 'wrongInput:' + ('center_vec' if which == 'centre' else 'shape_mat')))]


def new_ells(it, name, m, n, kind='psd', **kw):
    """list of m ellipsoids built by the real constructor; centre fn(k, i), shape fn(k, i, j), tolerance fn(k)"""
    q = sym('Q' + name, n, fam=(m,), kind=kind)
    c = arr('c' + name, (n, m))
    t = arr('tol' + name, (m,), nonneg=True, positive=True, gen=lambda env, d: 0.1 * env.positive(d))
    lst = snippet(it, '[E(c[:, k], q[:, :, k], abs_tol=t[k]) for k in range(m)]', E=it.get(EC), c=c, q=q, t=t, m=m)
    ii = lambda *k: tuple(x for x in k if x is not None)
    one = n == 1
    return lst, (lambda k, i: r_el('c' + name, ii(None if one else ie(i), ie(k)))), \
        (lambda k, i, j: r_el('Q' + name, ii(None if one else ie(i), None if one else ie(j), ie(k)))), \
        (lambda k: r_el('tol' + name, (ie(k),)))
