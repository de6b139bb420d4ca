"""Contracts of copying, replication and dictionary round trips (C03)"""
from cc import *
from k_core import new_ell, new_ells, el1, el2, cen, shp, EC, meth, is_ell
from k_hyp import HC, is_hyp
import npm_la as L

PROPS = ('abs_tol', 'rel_tol', 'n_plot_2d_points', 'n_plot_3d_points')


def opts(it, which=PROPS):
    p = {k: scalar(k, pos=True, gen=lambda env, d: 0.1 * env.positive()) for k in which[:2]}
    p.update({k: scalar(k, ty='int', pos=True) for k in which[2:]})
    return p


def prop_of(it, cls, o, name, k=None):
    a = it.call(it.get(cls + '.get_property'), [o if k is not None else [o], name, None], {})
    return at(it, a, k if k is not None else I0)


def same_props(it, cls, o, p, what=''):
    return [(what + k, guarded(lambda k=k: c_eq(prop_of(it, cls, o, k), rv(it, p[k])))) for k in p]


def make(it, cls, n):
    """an object of the class with every option set; the object, options, checker of the data"""
    p = opts(it, PROPS if cls == EC else PROPS[:2])
    if cls == EC:
        o = it.call(it.get(cls), [arr('c', (n,)), sym('Q', n, kind='psd')], dict(p))
        return o, p, lambda x, w='': is_ell(it, x, n, el1('c', n), el2('Q', n), w)
    o = it.call(it.get(cls), [arr('v', (n,)), scalar('s')], dict(p))
    return o, p, lambda x, w='': is_hyp(it, x, n, el1('v', n), r_el('s', ()), w)


def family(it, cls, m, n):
    p = {k: arr(k, (m,), nonneg=True, positive=True, gen=lambda env, d: 0.1 * env.positive(d)) for k in PROPS[:2]}
    kw = ', '.join('%s=%s[k]' % (k, k) for k in p)
    if cls == EC:
        c, q = arr('c', (n, m)), sym('Q', n, fam=(m,), kind='psd')
        lst = snippet(it, '[E(c[:, k], q[:, :, k], %s) for k in range(m)]' % kw, E=it.get(EC), c=c, q=q, m=m, **p)
        return lst, p, lambda o, k, w='': is_ell(it, o, n, lambda i: at(it, c, i, k), lambda i, j: at(it, q, i, j, k), w)
    v, s = arr('v', (n, m)), arr('s', (m,))
    lst = snippet(it, '[H(v[:, k], s[k], %s) for k in range(m)]' % kw, H=it.get(HC), v=v, s=s, m=m, **p)
    return lst, p, lambda o, k, w='': is_hyp(it, o, n, lambda i: at(it, v, i, k), at(it, s, k), w)


def fresh_objects(a, b):
    """distinct objects (identity)"""
    return TRUE if a is not b else FALSE


@contract('C03', 'get_copy.single', 'ellipy.elltool.core.abasicellipsoid.ABasicEllipsoid.ABasicEllipsoid.get_copy', cls=(EC, HC))
def _(it, n, cls):
    o, p, data = make(it, cls, n)
    out = call(it, cls + '.get_copy', [o])
    g = [('returns', returns(out))]
    if out[0] != 'ret':
        return g
    x = snippet(it, 'a.flatten()[0]', a=out[1])
    return g + [('shape', shape_is(it, out[1], 1)), ('new object', fresh_objects(x, o))] + data(x) + same_props(it, cls, x, p)


@contract('C03', 'get_copy.array', 'ellipy.elltool.core.abasicellipsoid.ABasicEllipsoid.ABasicEllipsoid.get_copy',
          cls=(EC, HC), dims={'m': (2, 4)})
def _(it, n, cls):
    m = dim('m', 2)
    lst, p, data = family(it, cls, m, n)
    out = call(it, cls + '.get_copy', lst)
    g = [('returns', returns(out))]
    if out[0] != 'ret':
        return g
    k = fresh_ix(m)
    x = snippet(it, 'a[k]', a=out[1], k=k)
    g += [('shape', shape_is(it, out[1], m))] + data(x, k)
    return g + same_props(it, cls, x, {q: snippet(it, 'a[k]', a=p[q], k=k) for q in p})


@contract('C03', 'rep_mat', 'ellipy.elltool.core.abasicellipsoid.ABasicEllipsoid.ABasicEllipsoid.rep_mat',
          cls=(EC, HC), form=('vector', 'matrix'), dims={'m': (1, 3), 'r': (1, 3)})
def _(it, n, cls, form):
    o, p, data = make(it, cls, n)
    m, r = dim('m', 1), dim('r', 1)
    sh = [m] if form == 'vector' else [m, r]
    out = call(it, it.getattr(o, 'rep_mat'), tuple(sh))
    g = [('returns', returns(out))]
    if out[0] != 'ret':
        return g
    ix = [fresh_ix(d) for d in sh]
    x = snippet(it, 'a[tuple(k)]', a=out[1], k=ix)
    return g + [('shape', shape_is(it, out[1], *sh)), ('new object', fresh_objects(x, o))] + data(x) + same_props(it, cls, x, p)


@contract('C03', 'dict round trip', EC + '.from_dict', form=('single', 'array'), dims={'m': (1, 3)})
def _(it, n, form):
    """export with the properties and import give back the same data and properties"""
    if form == 'single':
        o, p, data = make(it, EC, n)
        lst, m, k = [o], I1, I0
        want = lambda x: data(x) + same_props(it, EC, x, p)
    else:
        m = dim('m', 1)
        lst, p, data = family(it, EC, m, n)
        k = fresh_ix(m)
        want = lambda x: data(x, k) + same_props(it, EC, x, {q: snippet(it, 'a[k]', a=p[q], k=k) for q in p})
    d = call(it, EC + '.to_dict', lst, True)
    g = [('exports', returns(d))]
    if d[0] != 'ret':
        return g
    out = call(it, EC + '.from_dict', d[1][0])
    g.append(('imports', returns(out)))
    if out[0] != 'ret':
        return g
    x = snippet(it, 'a[k]', a=out[1], k=k)
    return g + [('shape', shape_is(it, out[1], m))] + want(x)


@contract('C03', 'hyperplane dict round trip', HC + '.from_dict')
def _(it, n):
    """same point set (the data are a non-zero multiple), unit normal, non-negative shift, same properties"""
    o, p, data = make(it, HC, n)
    v, s = el1('v', n), r_el('s', ())
    it.assume(c_lt(0, r_sum(n, lambda i: v(i) * v(i))))
    if n == 1:
        t = rv(it, p['abs_tol'])
        it.assume(c_or(c_lt(t, X.r_abs(v(0))), c_lt(t, X.r_abs(s))))
    d = call(it, HC + '.to_dict', [o], True)
    g = [('exports', returns(d))]
    if d[0] != 'ret':
        return g
    out = call(it, HC + '.from_dict', d[1][0])
    g.append(('imports', returns(out)))
    if out[0] != 'ret':
        return g
    x = snippet(it, 'a[0]', a=out[1])
    w, u = meth(it, x, 'parameters')
    wf, u = (lambda i: at(it, w, i)), rv(it, u)
    g += [('unit normal', guarded(lambda: c_eq(r_sum(n, lambda i: wf(i) * wf(i)), X.ONE))),
          ('non-negative shift', guarded(lambda: c_le(X.ZERO, u))),
          ('same point set', guarded(lambda: all_ix((n,), lambda i: c_eq(wf(i) * s, v(i) * u)))),
          ('parallel', guarded(lambda: all_ix((n, n), lambda i, j: c_eq(wf(i) * v(j), wf(j) * v(i)))))]
    return g + same_props(it, HC, x, p)
