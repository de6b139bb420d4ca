"""Contracts of the equality of ellipsoids and hyperplanes (C04) and of the dictionary comparison (C06)"""
from cc import *
from k_la import LA, mat, eq_mat, prod, tr, eye, eig
from k_core import new_ell, new_ells, el1, el2, cen, shp, EC, meth, is_ell
from k_hyp import HC, new_hyp, nonzero
from k_arc import close, exists_ix
from callee import sqrtm_contract, compare_contract
import npm_la as L

rmin = lambda a, b: r_ite(c_le(a, b), a, b)


def tols(it, name):
    return {'abs_tol': scalar('a' + name, pos=True, gen=lambda env, d: 0.1 * env.positive()),
            'rel_tol': scalar('r' + name, pos=True, gen=lambda env, d: 0.1 * env.positive())}


def ell_of(it, name, n, kind='pd', p=None):
    p = p or tols(it, name)
    q = sym('Q' + name, n, kind=kind)
    return it.call(it.get(EC), [arr('c' + name, (n,)), q], dict(p)), el1('c' + name, n), q, p


def root(it, made, q, tol):
    """the contract of sqrtm_pos applied to q"""
    r = it.call(it.get('ellipy.gras.la.la.sqrtm_pos'), [q, tol], {})
    return lambda i, j: at(it, r, i, j)


@contract('C04', 'equality.ellipsoids', EC + '.__eq__')
def _(it, n):
    e1, c1, q1, p1 = ell_of(it, '1', n)
    e2, c2, q2, p2 = ell_of(it, '2', n)
    a = rmin(p1['abs_tol'].v, p2['abs_tol'].v)
    r = rmin(p1['rel_tol'].v, p2['rel_tol'].v)
    for q, p in ((q1, p1), (q2, p2)):
        lam, v = eig(it, q)
        it.assume(all_ix((n,), lambda k: c_lt(p['abs_tol'].v, lam(k))))
    made = sqrtm_contract(it)
    compare_contract(it)
    out = call(it, it.getattr(e1, '__eq__'), e2)
    g = [('returns', returns(out))]
    if out[0] != 'ret':
        return g
    got = guarded(lambda: is_true(out[1]))
    if isinstance(got, Unsupported):
        return g + [('value', got)]
    s1, s2 = root(it, made, q1, p1['abs_tol']), root(it, made, q2, p2['abs_tol'])
    return g + iff('value', got, guarded(lambda: c_and(
        all_ix((n,), lambda i: close(c1(i), c2(i), a, r)),
        all_ix((n, n), lambda i, j: close(s1(i, j), s2(i, j), a, r)))))


def hyp_of(it, name, n):
    p = tols(it, name)
    o = it.call(it.get(HC), [arr('v' + name, (n,)), scalar('s' + name)], dict(p))
    v, s = el1('v' + name, n), r_el('s' + name, ())
    it.assume(c_lt(0, r_sum(n, lambda i: v(i) * v(i))))
    if n == 1:
        it.assume(c_or(c_lt(p['abs_tol'].v, X.r_abs(v(0))), c_lt(p['abs_tol'].v, X.r_abs(s))))
    return o, v, s, p


def unit(n, v, s):
    k = X.r_inv(r_sqrt(r_sum(n, lambda i: v(i) * v(i))))
    return (lambda i: v(i) * k), s * k


@contract('C04', 'equality.hyperplanes', HC + '.__eq__', sign=('+-', '-+', '++', '--'))
def _(it, n, sign):
    """non-zero shifts of the given signs; the unit normals are taken with non-negative shift"""
    e1, v1, s1, p1 = hyp_of(it, '1', n)
    e2, v2, s2, p2 = hyp_of(it, '2', n)
    for s, z in ((s1, sign[0]), (s2, sign[1])):
        it.assume(c_lt(X.ZERO, s if z == '+' else -s))
    a = rmin(p1['abs_tol'].v, p2['abs_tol'].v)
    r = rmin(p1['rel_tol'].v, p2['rel_tol'].v)
    compare_contract(it)
    out = call(it, it.getattr(e1, '__eq__'), e2)
    g = [('returns', returns(out))]
    if out[0] != 'ret':
        return g
    got = guarded(lambda: is_true(out[1]))
    if isinstance(got, Unsupported):
        return g + [('value', got)]
    (w1, u1), (w2, u2) = unit(n, v1, s1), unit(n, v2, s2)
    f1, f2 = (1 if sign[0] == '+' else -1), (1 if sign[1] == '+' else -1)
    return g + iff('value', got, guarded(lambda: c_and(
        all_ix((n,), lambda i: close(f1 * w1(i), f2 * w2(i), a, r)), close(f1 * u1, f2 * u2, a, r))))


@contract('C04', 'equality.dimensions', EC + '.__eq__', n=(SYM,), cls=(EC, HC), dims={'m': (1, 3)})
def _(it, n, cls):
    """objects of different dimensions are different"""
    m = dim('m', 2)
    it.assume(c_not(c_icmp('==', n - m)))
    if cls == EC:
        e1, c1, q1, p1 = ell_of(it, '1', n)
        e2, c2, q2, p2 = ell_of(it, '2', m)
        for q, p, d in ((q1, p1, n), (q2, p2, m)):
            lam, v = eig(it, q)
            it.assume(all_ix((d,), lambda k: c_lt(p['abs_tol'].v, lam(k))))
        sqrtm_contract(it)
    else:
        e1, v1, s1, p1 = hyp_of(it, '1', n)
        e2, v2, s2, p2 = hyp_of(it, '2', m)
        it.assume(c_lt(X.ZERO, s1))
        it.assume(c_lt(X.ZERO, s2))
    compare_contract(it)
    out = call(it, it.getattr(e1, '__eq__'), e2)
    g = [('returns', returns(out))]
    return g + ([('value', guarded(lambda: c_not(is_true(out[1]))))] if out[0] == 'ret' else [])


@contract('C04', 'equality.reflexive', EC + '.__eq__', cls=(EC, HC))
def _(it, n, cls):
    if cls == EC:
        e1, c1, q1, p1 = ell_of(it, '1', n)
        lam, v = eig(it, q1)
        it.assume(all_ix((n,), lambda k: c_lt(p1['abs_tol'].v, lam(k))))
        sqrtm_contract(it)
    else:
        e1, v1, s1, p1 = hyp_of(it, '1', n)
        it.assume(c_not(c_eq(s1, X.ZERO)))
        compare_contract(it)
    out = call(it, it.getattr(e1, '__eq__'), e1)
    g = [('returns', returns(out))]
    return g + ([('value', guarded(lambda: is_true(out[1])))] if out[0] == 'ret' else [])


@contract('C04', 'equality.arrays', 'ellipy.elltool.core.abasicellipsoid.ABasicEllipsoid.ABasicEllipsoid._is_equal_internal',
          n=(SYM,), form=('pairs', 'one first', 'one second'))
def _(it, n, form):
    """elementwise on arrays of equal tolerances, a single object is compared with every element"""
    e1, c1, q1, p1 = ell_of(it, '1', n)
    e2, c2, q2, p2 = ell_of(it, '2', n, p=p1)
    e3, c3, q3, p3 = ell_of(it, '3', n, p=p1)
    e4, c4, q4, p4 = ell_of(it, '4', n, p=p1)
    a, b, pr = {'pairs': ([e1, e2], [e3, e4], ((0, 2), (1, 3))), 'one first': ([e1], [e2, e3], ((0, 1), (0, 2))),
                'one second': ([e1, e2], [e3], ((0, 2), (1, 2)))}[form]
    cs, qs, ps = (c1, c2, c3, c4), (q1, q2, q3, q4), (p1, p2, p3, p4)
    for q, p in zip(qs, ps):
        lam, v = eig(it, q)
        it.assume(all_ix((n,), lambda k: c_lt(p['abs_tol'].v, lam(k))))
    tol = [ps[0][k].v for k in ('abs_tol', 'rel_tol')]
    made = sqrtm_contract(it)
    compare_contract(it)
    out = call(it, EC + '.is_equal', a, b)
    g = [('returns', returns(out))]
    if out[0] != 'ret':
        return g
    g.append(('shape', shape_is(it, out[1][0], 2)))
    for k, (x, y) in enumerate(pr):
        got = guarded(lambda: is_true(out[1][0].get((ie(k),))))
        if isinstance(got, Unsupported):
            return g + [('value', got)]
        s1, s2 = root(it, made, qs[x], ps[x]['abs_tol']), root(it, made, qs[y], ps[y]['abs_tol'])
        g += iff('value.%d' % k, got, guarded(lambda: c_and(
            all_ix((n,), lambda i: close(cs[x](i), cs[y](i), *tol)),
            all_ix((n, n), lambda i, j: close(s1(i, j), s2(i, j), *tol)))))
    return g


# ------------------------------------------------------------------------------------------ C06 dictionaries
DC = 'ellipy.gen.dict.dict.dict_compare'
objs = lambda it, x: snippet(it, 'np.array(x)', x=it.new_list(x), np=it.load('ellipy.gen.dict.dict').ns['np'])
DV = 'ellipy.gen.dict.dict.dict_compare_vec'


def skeleton(name):
    """(left, right, pairs of numeric leaves, keys that differ structurally) : structure fixed, all numbers symbolic"""
    n, m = dim('n', 2), dim('m', 1)
    x, y, u, w = arr('x', (n,)), arr('y', (n,)), arr('u', (n, m)), arr('w', (n, m))
    arr('i', (n,), int=True, gen=lambda env, d: env.normal(d).round())
    s, t = scalar('s'), scalar('t')
    ix, iu = (n,), (n, m)
    ex = lambda: lambda a, r: all_ix(ix, lambda i: close(r_el('x', (ie(i),)), r_el('y', (ie(i),)), a, r))
    eu = lambda: lambda a, r: all_ix(iu, lambda i, j: close(r_el('u', (ie(i), ie(j))), r_el('w', (ie(i), ie(j))), a, r))
    es = lambda: lambda a, r: close(r_el('s', ()), r_el('t', ()), a, r)
    return {
        'vector': ({'keyp': x}, {'keyp': y}, {'keyp': [ex()]}, []),
        'two keys': ({'keyp': x, 'keyq': u}, {'keyq': w, 'keyp': y}, {'keyp': [ex()], 'keyq': [eu()]}, []),
        'nested': ({'keyp': {'a': x, 'b': 'z'}, 'keyq': u}, {'keyp': {'a': y, 'b': 'z'}, 'keyq': w}, {'keyp': [ex()], 'keyq': [eu()]}, []),
        'deep': ({'keyp': {'a': {'b': {'c': x}}}}, {'keyp': {'a': {'b': {'c': y}}}}, {'keyp': [ex()]}, []),
        'list': ({'keyp': [x, u]}, {'keyp': [y, w]}, {'keyp': [ex(), eu()]}, []),
        'list of dictionaries': ({'keyp': [{'a': x}, {'a': u}]}, {'keyp': [{'a': y}, {'a': w}]}, {'keyp': [ex(), eu()]}, []),
        'number': ({'keyp': s, 'keyq': 'z'}, {'keyp': t, 'keyq': 'z'}, {'keyp': [es()]}, []),
        'other keys': ({'keyp': x, 'keyq': u}, {'keyp': x, 'keyr': u}, {}, [None]),
        'fewer keys': ({'keyp': x}, {'keyp': x, 'keyq': u}, {}, [None]),
        'nested keys': ({'keyp': {'a': x}, 'keyq': x}, {'keyp': {'b': x}, 'keyq': y}, {'keyq': [ex()]}, ['keyp']),
        'length': ({'keyp': [x, u], 'keyq': x}, {'keyp': [x], 'keyq': y}, {'keyq': [ex()]}, ['keyp']),
        'shape': ({'keyp': x, 'keyq': u}, {'keyp': u, 'keyq': w}, {'keyq': [eu()]}, ['keyp']),
        'type': ({'keyp': x, 'keyq': 'z'}, {'keyp': 'z', 'keyq': 'z'}, {}, ['keyp']),
        'text': ({'keyp': 'z', 'keyq': x}, {'keyp': 'y', 'keyq': y}, {'keyq': [ex()]}, ['keyp']),
        'number type': ({'keyp': mk((n,), lambda k: S(r_el('i', (ie(k),)), ty='int'), 'i'), 'keyq': x}, {'keyp': y, 'keyq': y}, {'keyq': [ex()]}, ['keyp']),
    }[name]


SKEL = ('vector', 'two keys', 'nested', 'deep', 'list', 'list of dictionaries', 'number', 'other keys', 'fewer keys',
        'nested keys', 'length', 'shape', 'type', 'text', 'number type')


@contract('C06', 'dictionaries', DC, n=(SYM,), kind=SKEL, rel=(False, True))
def _(it, n, kind, rel):
    left, right, same, bad = skeleton(kind)
    a = scalar('a', nonneg=True)
    r = scalar('r', nonneg=True) if rel else None
    compare_contract(it)
    out = call(it, DC, left, right, a, r)
    g = [('returns', returns(out))]
    if out[0] != 'ret':
        return g
    got = guarded(lambda: is_true(out[1][0]))
    rep = out[1][1]
    if isinstance(got, Unsupported):
        return g + [('value', got)]
    rv_ = r.v if rel else None
    eqs = {k: c_and(*[f(a.v, rv_) for f in fs]) for k, fs in same.items()}
    want = FALSE if bad else c_and(TRUE, *eqs.values())
    g += iff('value', got, want)
    g.append(('report empty exactly when equal', c_not(got) if bool(rep) else got))
    text = rep if isinstance(rep, str) else ''
    for k, c in eqs.items():
        named = k in text
        g.append(('difference under %s reported' % k, TRUE if named else c))
        g.append(('nothing else reported under %s' % k, c_not(c) if named else TRUE))
    for k in bad:
        g.append(('structural difference reported', TRUE if (k or 'keyr' if kind != 'fewer keys' else 'keyq') in text else FALSE))
    return g


@contract('C06', 'arrays of dictionaries', DV, n=(SYM,), form=('compare', 'vector', 'one shorter', 'lists'))
def _(it, n, form):
    x, y, u, w = (arr(v, (n,)) for v in 'xyuw')
    a, r = scalar('a', nonneg=True), scalar('r', nonneg=True)
    compare_contract(it)
    left, right = [{'keyp': x}, {'keyp': u}], [{'keyp': y}, {'keyp': w}]
    eqs = [all_ix((n,), lambda i, p=p, q=q: close(r_el(p, (ie(i),)), r_el(q, (ie(i),)), a.v, r.v)) for p, q in ('xy', 'uw')]
    if form == 'one shorter':
        right = right[:1]
    if form in ('compare', 'one shorter', 'lists'):
        if form == 'lists':
            out = call(it, DC, left, right, a, r)
        else:
            out = call(it, DC, objs(it, left), objs(it, right), a, r)
    else:
        out = call(it, DV, objs(it, left), objs(it, right), a, r)
    g = [('returns', returns(out))]
    if out[0] != 'ret':
        return g
    res, rep = out[1]
    if form == 'vector':
        g.append(('shape', shape_is(it, res, 2)))
        for k in range(2):
            g += iff('value.%d' % k, guarded(lambda: is_true(res.get((ie(k),)))), eqs[k])
    else:
        g += iff('value', guarded(lambda: is_true(res)), FALSE if form == 'one shorter' else c_and(*eqs))
    if form != 'one shorter':
        g.append(('report empty exactly when equal', c_not(c_and(*eqs)) if bool(rep) else c_and(*eqs)))
    return g
