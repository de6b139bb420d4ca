"""Contracts of ellipy.gras.geom.ell.ell and mat_dot (C22), support function of a matrix (C07)"""
from cc import *
from k_la import mat, eq_mat, prod, tr, eye
from k_orth import prove_eq
import npm_la as L

EL = 'ellipy.gras.geom.ell.ell.'
GEN = 'ellipy.gras.gen.gen.'


def orient(name, n, form):
    el = lambda i: r_el(name, () if n == 1 else (i,))
    arr(name, (n,))
    if form == 'vec':
        return mk((n,), lambda i: S(el(i)), 'f'), el
    if form == 'row':
        return mk((I1, n), lambda k, i: S(el(i)), 'f'), el
    return mk((n, I1), lambda i, k: S(el(i)), 'f'), el


@contract('C22', 'quad_mat', EL + 'quad_mat', mode=('plain', 'inv', 'invadv', 'INV'), x=('vec', 'row', 'col'),
          c=('none', 'zero', 'vec', 'row', 'col'),
          skip=lambda n, mode, x, c: (mode == 'INV' and (x != 'vec' or c != 'vec')))
def _(it, n, mode, x, c):
    q = sym('Q', n, kind='pd') if mode != 'plain' else arr('Q', (n, n))
    xv, xf = orient('x', n, x)
    args = [q, xv]
    cf = lambda i: X.ZERO
    if c == 'zero':
        args.append(S(X.ZERO) if False else 0.0)
    elif c != 'none':
        cv, cf = orient('c', n, c)
        args.append(cv)
    kw = {} if mode == 'plain' else {'mode': mode}
    out = call(it, EL + 'quad_mat', *args, **kw)
    g = [('returns', returns(out))]
    if out[0] != 'ret':
        return g
    y = lambda i: xf(i) - cf(i)
    qa = mat(it, q, n)

    def value():
        r = out[1]
        v = at(it, r, *([I0] * (r.ndim if isinstance(r, Arr) else 0)))
        if mode == 'plain':
            w = r_sum(n, lambda i: r_sum(n, lambda j: y(i) * qa(i, j) * y(j)))
        else:
            inv = it.call(L.LA['inv'], [q], {})
            w = r_sum(n, lambda i: r_sum(n, lambda j: y(i) * at(it, inv, i, j) * y(j)))
        return c_eq(v, w)
    return g + [('value', guarded(value))]


@contract('C22', 'quad_mat.bad', EL + 'quad_mat', n=(SYM,), bad=('nonsquare', 'xsize', 'csize', 'mode', 'xmatrix', 'qvec'))
def _(it, n, bad):
    m = dim('m', 2)
    it.assume(c_not(c_icmp('==', m - n)))
    q = arr('Q', (n, m) if bad == 'nonsquare' else (n,) if bad == 'qvec' else (n, n))
    x = arr('x', (m,) if bad == 'xsize' else (n, m) if bad == 'xmatrix' else (n,))
    c = arr('c', (m,) if bad == 'csize' else (n,))
    out = call(it, EL + 'quad_mat', q, x, c, 'other' if bad == 'mode' else 'plain')
    tag = {'nonsquare': 'wrongInput:q_mat', 'qvec': 'wrongInput:q_mat', 'xsize': 'wrongInput:q_mat:x_vec',
           'csize': 'wrongInput:q_mat:c_vec', 'mode': 'wrongInput:mode', 'xmatrix': 'wrongInput:x_vec'}[bad]
    return [('rejected', raised(out, tag))]


@contract('C22', 'inv_mat', EL + 'inv_mat')
def _(it, n):
    q = sym('Q', n, kind='pd')
    out = call(it, EL + 'inv_mat', q)
    g = [('returns', returns(out))]
    if out[0] == 'ret':
        f = mat(it, out[1], n)
        g += [('shape', shape_is(it, out[1], n, n)), ('inverse', eq_mat(it, n, n, prod(n, mat(it, q, n), f), eye))]
    return g


@contract('C22', 'inv_mat.general', EL + 'inv_mat')
def _(it, n):
    q = arr('Q', (n, n), nonsing=True, gen=lambda env, d: env.normal(d) + 4 * np.eye(d[0]) if d else env.positive())
    if n == 1:
        it.assume(c_not(c_eq(at(it, q, 0, 0), 0)))
    out = call(it, EL + 'inv_mat', q)
    g = [('returns', returns(out))]
    if out[0] == 'ret':
        f = mat(it, out[1], n)
        g += [('inverse', eq_mat(it, n, n, prod(n, mat(it, q, n), f), eye))]
    return g


@contract('C22', 'inv_mat.bad', EL + 'inv_mat', n=(SYM,), bad=('rect', 'vec'))
def _(it, n, bad):
    m = dim('m', 2)
    it.assume(c_not(c_icmp('==', m - n)))
    out = call(it, EL + 'inv_mat', arr('Q', (n, m) if bad == 'rect' else (n,)))
    return [('rejected', raised(out, 'wrongInput:q_mat'))]


def ball_volume(it, n):
    """volume of the unit ball of R^n"""
    h = r_int(n) * real(0.5)
    p = A.arith(None, "Pow", S(X.r_fn("pi")), S(h)).v
    return p * r_inv(X.r_fn('gamma', h + 1))


@contract('C22', 'ell_volume', EL + 'ell_volume')
def _(it, n):
    q = sym('Q', n, kind='pd')
    out = call(it, EL + 'ell_volume', q)
    g = [('returns', returns(out))]
    if out[0] == 'ret':
        def value():
            det = it.call(L.LA['det'], [q], {})
            return c_eq(at(it, out[1]), ball_volume(it, n) * r_sqrt(at(it, det)))
        g += [('value', guarded(value))]
    return g


@contract('C22', 'mat_dot', GEN + 'mat_dot', form=('2d', '3d'))
def _(it, n, form):
    t = (dim('T', 1),) if form == '3d' else ()
    a, b = arr('A', (n, n) + t), arr('B', (n, n) + t)
    out = call(it, GEN + 'mat_dot', a, b)
    g = [('returns', returns(out))]
    if out[0] == 'ret':
        g += [('shape', shape_is(it, out[1], 1, 1, *t)),
              ('value', guarded(lambda: all_ix(t, lambda *k: c_eq(
                  at(it, out[1], I0, I0, *k) * r_int(n),
                  r_sum(n, lambda i: r_sum(n, lambda j: at(it, a, i, j, *k) * at(it, b, i, j, *k)))))))]
    return g


@contract('C22', 'mat_dot.bad', GEN + 'mat_dot', n=(SYM,), bad=('size', 'square'))
def _(it, n, bad):
    m = dim('m', 2)
    it.assume(c_not(c_icmp('==', m - n)))
    a = arr('A', (n, n) if bad == 'size' else (n, m))
    b = arr('B', (n, m))
    out = call(it, GEN + 'mat_dot', a, b)
    return [('rejected', raised(out, 'wrongInput:size' if bad == 'size' else 'wrongInput:not_square'))]
