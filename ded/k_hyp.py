"""Contracts of the hyperplane class (C16)"""
from cc import *
from k_core import el1, el2, meth, flagged
import npm_la as L

HC = 'ellipy.elltool.core.hyperplane.Hyperplane.Hyperplane'


def new_hyp(it, name, n):
    """a hyperplane built by the real constructor: object, normal, shift, tolerance"""
    t = scalar('tol' + name, pos=True, gen=lambda env, d: 0.1 * env.positive())
    s = scalar('s' + name)
    o = it.call(it.get(HC), [arr('v' + name, (n,)), s], dict(abs_tol=t))
    return o, el1('v' + name, n), s.v, t


def new_hyps(it, name, m, n):
    t = arr('tol' + name, (m,), nonneg=True, positive=True, gen=lambda env, d: 0.1 * env.positive(d))
    v, s = arr('v' + name, (n, m)), arr('s' + name, (m,))
    lst = snippet(it, '[H(v[:, k], s[k], abs_tol=t[k]) for k in range(m)]', H=it.get(HC), v=v, s=s, t=t, m=m)
    ii = lambda *k: tuple(x for x in k if x is not None)
    one = n == 1
    return lst, (lambda k, i: r_el('v' + name, ii(None if one else ie(i), ie(k)))), (lambda k: r_el('s' + name, (ie(k),))), \
        (lambda k: r_el('tol' + name, (ie(k),)))


def is_hyp(it, o, n, vf, s, what=''):
    def v0():
        a = meth(it, o, 'parameters')
        return c_and(shape_is(it, a[0], n), all_ix((n,), lambda i: c_eq(at(it, a[0], i), vf(i))), c_eq(rv(it, a[1]), s))
    return [(what + 'normal and shift', guarded(v0))]


@contract('C16', 'hyperplane.construct', HC + '.__init__')
def _(it, n):
    out = call(it, HC, arr('v', (n,)), scalar('s'))
    g = [('returns', returns(out))]
    return g + (is_hyp(it, out[1], n, el1('v', n), r_el('s', ())) if out[0] == 'ret' else [])


@contract('C16', 'hyperplane.construct.non-finite', HC + '.__init__', which=('normal', 'shift'))
def _(it, n, which):
    v = flagged('v', (n,)) if which == 'normal' else arr('v', (n,))
    s = flagged('s', (I1,)) if which == 'shift' else scalar('s')
    it.assume(c_lt(0, r_el('bad:v', (fresh_ix(n),)) if which == 'normal' else r_el('bad:s', (I0,))))
    out = call(it, HC, v, s)
    return [('rejected', raised(out, 'wrongInput:' + ('normal_vec' if which == 'normal' else 'shift')))]


def nonzero(it, n, vf, s, t):
    """the degenerate zero hyperplane of the line has dimension zero and is left out"""
    if n == 1:
        it.assume(c_or(c_lt(t.v, X.r_abs(vf(0))), c_lt(t.v, X.r_abs(s))))


@contract('C16', 'contains.single', HC + '.contains')
def _(it, n):
    h, vf, s, t = new_hyp(it, '', n)
    x = arr('x', (n, I1))
    nonzero(it, n, vf, s, t)
    out = call(it, HC + '.contains', [h], x)
    g = [('returns', returns(out))]
    if out[0] != 'ret':
        return g
    g.append(('shape', shape_is(it, out[1], 1)))
    got = guarded(lambda: is_true(out[1].get((I0,))))
    if isinstance(got, Unsupported):
        return g + [('value', got)]
    return g + iff('value', got, guarded(lambda: c_lt(X.r_abs(r_sum(n, lambda i: vf(i) * at(it, x, i, I0)) - s), t.v)))


@contract('C16', 'contains.arrays', HC + '.contains', form=('one to many', 'many to one', 'one to one'), dims={'m': (2, 4)})
def _(it, n, form):
    m = dim('m', 2)
    if form == 'one to many':
        h, v0, s0, t0 = new_hyp(it, '', n)
        lst, vf, sf, tf = [h], (lambda k, i: v0(i)), (lambda k: s0), (lambda k: t0.v)
    else:
        lst, vf, sf, tf = new_hyps(it, '', m, n)
    k = fresh_ix(m)
    if n == 1:
        it.assume(all_ix((m,), lambda p: c_or(c_lt(tf(p), X.r_abs(vf(p, 0))), c_lt(tf(p), X.r_abs(sf(p))))))
    x = arr('x', (n, I1 if form == 'many to one' else m))
    out = call(it, HC + '.contains', lst, x)
    g = [('returns', returns(out))]
    if out[0] != 'ret':
        return g
    g.append(('shape', shape_is(it, out[1], m)))
    k = fresh_ix(m)
    got = guarded(lambda: is_true(out[1].get((k,))))
    if isinstance(got, Unsupported):
        return g + [('value', got)]
    xi = lambda i: at(it, x, i, I0 if form == 'many to one' else k)
    return g + iff('value', got, guarded(lambda: c_lt(X.r_abs(r_sum(n, lambda i: vf(k, i) * xi(i)) - sf(k)), tf(k))))


@contract('C16', 'contains.rejects', HC + '.contains', n=(SYM,), why=('dimension', 'mixed', 'sizes'), dims={'m': (2, 4), 'r': (1, 3)})
def _(it, n, why):
    r = dim('r', 1)
    if why == 'sizes':
        m = dim('m', 2)
        lst = new_hyps(it, '', m, n)[0]
        r = dim('r', 2)
        it.assume(c_not(c_icmp('==', r - m)))
        x, tag = arr('x', (n, r)), 'wrongSizes'
    elif why == 'dimension':
        it.assume(c_not(c_icmp('==', r - n)))
        lst, x, tag = [new_hyp(it, '', n)[0]], arr('x', (r, dim('c', 1))), 'wrongInput:wrongSizes'
    else:
        r = dim('r', 2)
        it.assume(c_not(c_icmp('==', r - n)))
        lst, x, tag = [new_hyp(it, '', n)[0], new_hyp(it, '2', r)[0]], arr('x', (n, I1)), 'wrongSizes'
    out = call(it, HC + '.contains', lst, x)
    return [('rejected', raised(out, tag))]


@contract('C16', 'is_parallel', HC + '.is_parallel', form=('single', 'pairs', 'one first', 'one second'), dims={'m': (2, 4)})
def _(it, n, form):
    m = I1 if form == 'single' else dim('m', 2)
    if form in ('single', 'one first'):
        h, v0, s0, t0 = new_hyp(it, '', n)
        a, va, ta = [h], (lambda k, i: v0(i)), (lambda k: t0.v)
    else:
        a, va, sa, ta = new_hyps(it, '', m, n)
    if form in ('single', 'one second'):
        h2, v2, s2, t2 = new_hyp(it, '2', n)
        b, vb = [h2], (lambda k, i: v2(i))
    else:
        b, vb, sb, tb = new_hyps(it, '2', m, n)
    k = fresh_ix(m) if form != 'single' else I0
    nrm = lambda f: r_sum(n, lambda i: f(i) * f(i))
    na, nb = (lambda i: va(k, i)), (lambda i: vb(k, i))
    for f in (lambda k, i: va(k, i)), (lambda k, i: vb(k, i)):
        it.assume(all_ix((m,), lambda p: c_lt(0, nrm(lambda i: f(p, i)))))
    out = call(it, HC + '.is_parallel', a, b)
    g = [('returns', returns(out))]
    if out[0] != 'ret':
        return g
    g.append(('shape', shape_is(it, out[1], m)))
    got = guarded(lambda: is_true(out[1].get((k,))))
    if isinstance(got, Unsupported):
        return g + [('value', got)]

    def want():
        ra, rb = X.r_inv(r_sqrt(nrm(na))), X.r_inv(r_sqrt(nrm(nb)))
        return c_or(all_ix((n,), lambda i: c_lt(X.r_abs(na(i) * ra - nb(i) * rb), ta(k))),
                    all_ix((n,), lambda i: c_lt(X.r_abs(na(i) * ra + nb(i) * rb), ta(k))))
    return g + iff('value', got, guarded(want))


@contract('C16', 'uminus', HC + '.uminus', form=('single', 'array'), dims={'m': (1, 3)})
def _(it, n, form):
    if form == 'single':
        h, vf, s, t = new_hyp(it, '', n)
        out = call(it, it.getattr(h, '__neg__'))
        g = [('returns', returns(out))]
        return g + (is_hyp(it, out[1], n, lambda i: -vf(i), -s) if out[0] == 'ret' else [])
    m = dim('m', 1)
    lst, vf, sf, tf = new_hyps(it, '', m, n)
    out = call(it, HC + '.uminus', lst)
    g = [('returns', returns(out))]
    if out[0] != 'ret':
        return g
    k = fresh_ix(m)
    return g + [('shape', shape_is(it, out[1], m))] + is_hyp(it, snippet(it, 'a[k]', a=out[1], k=k), n, lambda i: -vf(k, i), -sf(k))


@contract('C16', 'dimension', HC + '.dimension', form=('single', 'array'), dims={'m': (1, 3)})
def _(it, n, form):
    m = I1 if form == 'single' else dim('m', 1)
    if form == 'single':
        h, v0, s0, t0 = new_hyp(it, '', n)
        lst, vf, sf, tf = [h], (lambda k, i: v0(i)), (lambda k: s0), (lambda k: t0.v)
    else:
        lst, vf, sf, tf = new_hyps(it, '', m, n)
    out = call(it, HC + '.dimension', lst)
    g = [('returns', returns(out))]
    if out[0] != 'ret':
        return g
    k = fresh_ix(m) if form != 'single' else I0
    g.append(('shape', shape_is(it, out[1], m)))

    def want():
        d = at(it, out[1], k)
        if n != 1:
            return c_eq(d, X.r_int(n))
        z = c_and(c_le(X.r_abs(vf(k, 0)), tf(k)), c_le(X.r_abs(sf(k)), tf(k)))
        return c_and(c_or(c_not(z), c_eq(d, X.ZERO)), c_or(z, c_eq(d, X.ONE)))
    return g + [('value', guarded(want))]


@contract('C16', 'contains.infinite', HC + '.contains')
def _(it, n):
    """infinite coordinates are allowed only where the normal is zero"""
    h, vf, s, t = new_hyp(it, '', n)
    nonzero(it, n, vf, s, t)
    x = flagged('x', (n, I1), inf=True)
    out = call(it, HC + '.contains', [h], x)
    g = [('returns', returns(out))]
    if out[0] != 'ret':
        return g
    bad = lambda i: c_lt(0, r_el('bad:x', (ie(i), I0)))
    got = guarded(lambda: is_true(out[1].get((I0,))))
    if isinstance(got, Unsupported):
        return g + [('value', got)]
    return g + iff('value', got, guarded(lambda: c_and(
        all_ix((n,), lambda i: c_or(c_not(bad(i)), c_eq(vf(i), X.ZERO))),
        c_lt(X.r_abs(r_sum(n, lambda i: r_ite(bad(i), X.ZERO, vf(i) * r_el('x', (ie(i), I0)))) - s), t.v))))
