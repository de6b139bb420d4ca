"""Contracts of the matrix families (C20 products, C21 unary operations): every operation acts page by page"""
from cc import *
from k_la import eq_mat, prod, tr, eye, eig, fun_of
import npm_la as L
from fractions import Fraction

MV = 'ellipy.gras.gen.gen.MatVector.'
SQ = 'ellipy.gras.gen.gen.SquareMatVector.'
SM = 'ellipy.gras.gen.gen.SymmetricMatVector.'


def fam(name, dims, T=None, **kw):
    """family of matrices (T pages) or one matrix; its entry function takes (i, j, t)"""
    one = [ie(d) == 1 for d in dims]
    a = arr(name, tuple(dims) + (() if T is None else (T,)), **kw)
    ii = lambda i, j, t: tuple(ie(k) for k, o in zip((i, j), one) if not o) + (() if T is None else (ie(t),))
    return a, (lambda i, j, t: r_el(name, ii(i, j, t)))


def page(it, a, T):
    return (lambda i, j, t: at(it, a, i, j, t)) if T is not None else (lambda i, j, t: at(it, a, i, j))


def kept(it, a, f, dims):
    return ('input unchanged', guarded(lambda: all_ix(dims, lambda *k: c_eq(at(it, a, *k), f(*k)))))


def pages(it, out, dims, want, name='value'):
    """returns an array of the given shape with entries want(i, j, t)"""
    g = [('returns', returns(out))]
    if out[0] != 'ret':
        return g
    g.append(('shape', shape_is(it, out[1], *dims)))
    if not isinstance(out[1], Arr) or out[1].ndim != len(dims):
        return g
    return g + [('finite', guarded(lambda: finite(it, out[1]))),
                (name, guarded(lambda: all_ix(dims, lambda *k: c_eq(at(it, out[1], *k), want(*k)))))]


# ---------------------------------------------------------------- C21 unary operations
@contract('C21', 'transpose', MV + 'transpose', single=(False, True))
def _(it, n, single):
    m, T = dim('m', 1), dim('T', 1)
    a, f = fam('A', (n, m), None if single else T)
    out = call(it, MV + 'transpose', a)
    g = pages(it, out, (m, n, I1 if single else T), lambda i, j, t: f(j, i, t))
    return g + [kept(it, a, lambda i, j, t=0: f(i, j, t), (n, m) if single else (n, m, T))]


@contract('C21', 'make_symmetric', MV + 'make_symmetric', single=(False, True))
def _(it, n, single):
    T = dim('T', 1)
    a, f = fam('A', (n, n), None if single else T)
    out = call(it, MV + 'make_symmetric', a)
    return pages(it, out, (n, n, I1 if single else T), lambda i, j, t: (f(i, j, t) + f(j, i, t)) * R.const_(Fraction(1, 2)))


@contract('C21', 'triu', MV + 'triu', single=(False, True))
def _(it, n, single):
    m, T = dim('m', 1), dim('T', 1)
    a, f = fam('A', (n, m), None if single else T)
    out = call(it, MV + 'triu', a)
    g = pages(it, out, (n, m, I1 if single else T), lambda i, j, t: r_ite(c_icmp('<=', ie(i) - ie(j)), f(i, j, t), X.ZERO))
    return g + [kept(it, a, lambda i, j, t=0: f(i, j, t), (n, m) if single else (n, m, T))]


@contract('C21', 'pinv', MV + 'pinv', single=(False, True))
def _(it, n, single):
    m, T = dim('m', 1), dim('T', 1)
    a, f = fam('A', (n, m), None if single else T)
    out = call(it, MV + 'pinv', a)

    def want(i, j, t):
        pg = a if single else snippet(it, 'a[:, :, t]', a=a, t=t)
        return at(it, it.call(L.LA['pinv'], [pg], {}), i, j)
    return pages(it, out, (m, n, I1 if single else T), want)


@contract('C21', 'inv', SQ + 'inv', single=(False, True))
def _(it, n, single):
    T = dim('T', 1)
    a = sym('A', n, fam=() if single else (T,), kind='pd')
    out = call(it, SQ + 'inv', a)
    dims = (n, n) if single else (n, n, T)
    g = [('returns', returns(out))]
    if out[0] != 'ret':
        return g
    P, Q = page(it, a, None if single else T), page(it, out[1], None if single else T)
    g.append(('shape', shape_is(it, out[1], *dims)))
    return g + [('inverse of every page', guarded(lambda: all_ix(dims, lambda i, j, t=0: c_eq(
        r_sum(n, lambda k: P(i, k, t) * Q(k, j, t)), eye(i, j)))))]


@contract('C21', 'sqrtm_pos', SQ + 'sqrtm_pos', single=(False, True))
def _(it, n, single):
    T = dim('T', 1)
    a = sym('A', n, fam=() if single else (T,), kind='psd')
    out = call(it, SQ + 'sqrtm_pos', a)
    dims = (n, n) if single else (n, n, T)
    g = [('returns', returns(out))]
    if out[0] != 'ret':
        return g
    P, Q = page(it, a, None if single else T), page(it, out[1], None if single else T)
    g += [('shape', shape_is(it, out[1], *dims)), ('finite', guarded(lambda: finite(it, out[1])))]
    g += [('square of every page', guarded(lambda: all_ix(dims, lambda i, j, t=0: c_eq(
        r_sum(n, lambda k: Q(i, k, t) * Q(k, j, t)), P(i, j, t))))),
        ('symmetric pages', guarded(lambda: all_ix(dims, lambda i, j, t=0: c_eq(Q(i, j, t), Q(j, i, t)))))]

    def psd():
        x = atom('x', (n,))
        e = lambda i: r_el(x, (i,) if not n == 1 else ())
        t = fresh_ix(T)
        return c_le(0, r_sum(n, lambda i: r_sum(n, lambda j: e(i) * Q(i, j, t) * e(j))))
    g.append(('semidefinite pages', guarded(psd)))
    return g


def eig_of(it, a, t):
    return eig(it, a if t is None else snippet(it, 'a[:, :, t]', a=a, t=t))


@contract('C21', 'make_pos_definite_or_nan', SQ + 'make_pos_definite_or_nan', single=(False, True))
def _(it, n, single):
    T = dim('T', 1)
    a = sym('A', n, fam=() if single else (T,))
    P = page(it, a, None if single else T)
    out = call(it, SQ + 'make_pos_definite_or_nan', a)
    dims = (n, n) if single else (n, n, T)
    g = [('returns', returns(out))]
    if out[0] != 'ret':
        return g
    g.append(('shape', shape_is(it, out[1], *dims)))
    if not isinstance(out[1], Arr) or out[1].ndim != len(dims):
        return g

    def psd(t):
        lam, v = eig_of(it, a, None if single else t)
        return all_ix((n,), lambda k: c_le(X.ZERO, lam(k)))

    def val(i, j, t=None):
        s = out[1].get((ie(i), ie(j)) + (() if t is None else (ie(t),)))
        ok = psd(t)
        return c_and(c_or(c_not(ok), c_and(c_not(s.bad), c_eq(s.v, P(i, j, t)))),
                     c_or(ok, c_and(s.bad, c_not(s.pinf), c_not(s.ninf))))
    return g + [('pages kept or masked', guarded(lambda: all_ix(dims, val)))]


@contract('C21', 'make_pos_definite_by_eig', SQ + 'make_pos_definite_by_eig', single=(False, True), given=(False, True))
def _(it, n, single, given):
    T = dim('T', 1)
    a = sym('A', n, fam=() if single else (T,))
    v0 = scalar('value', nonneg=True)
    out = call(it, SQ + 'make_pos_definite_by_eig', a, *([v0] if given else []))
    val = v0.v if given else R.const_(Fraction('1e-12'))

    def want(i, j, t=None):
        lam, v = eig_of(it, a, None if single else t)
        return fun_of(n, lam, v, lambda x: r_ite(c_lt(x, X.ZERO), val, x))(i, j)
    return pages(it, out, (n, n) if single else (n, n, T), want)


# ---------------------------------------------------------------- C21 functions
@contract('C21', 'eval_func', MV + 'eval_func', mode=('uniform', 'keep', 'list'), single=(False, True))
def _(it, n, mode, single):
    """the function is applied to exactly the pages, in order"""
    m, T = dim('m', 1), dim('T', 1)
    a, f = fam('A', (n, m), None if single else T)
    if mode == 'uniform':
        fn = snippet(it, 'lambda x: np.sum(x * w) + x[0, 0] * x[0, 0]', np=np_of(it), w=fam('W', (n, m))[0])
        w = fam('W', (n, m))[1]
        want = lambda t: r_sum(n, lambda i: r_sum(m, lambda j: f(i, j, t) * w(i, j, 0))) + f(0, 0, t) * f(0, 0, t)
        out = call(it, MV + 'eval_func', fn, a)
        g = pages(it, out, (I1 if single else T,), want)
    elif mode == 'keep':
        fn = snippet(it, 'lambda x: x * x[0, 0] + 1')
        out = call(it, MV + 'eval_func', fn, a, True, True)
        g = pages(it, out, (n, m, I1 if single else T), lambda i, j, t: f(i, j, t) * f(0, 0, t) + X.ONE)
    else:
        fn = snippet(it, 'lambda x: x.T * 2')
        out = call(it, MV + 'eval_func', fn, a, False)
        g = [('returns', returns(out))]
        if out[0] != 'ret':
            return g
        k = fresh_ix(I1 if single else T)
        pg = guarded(lambda: it.npm.getitem(it, out[1], 0 if single else k))
        if isinstance(pg, Unsupported):
            return g + [('value', pg)]
        g += [('length', c_icmp('==', ie(it.call(it.npm.BUILTINS['len'], [out[1]], {})) - ie(I1 if single else T))),
              ('shape', shape_is(it, pg, m, n)),
              ('value', guarded(lambda: all_ix((m, n), lambda i, j: c_eq(at(it, pg, i, j), 2 * f(j, i, 0 if single else k)))))]
    return g + [kept(it, a, lambda i, j, t=0: f(i, j, t), (n, m) if single else (n, m, T))]


def np_of(it):
    return it.load('ellipy.gras.gen.gen').ns['np']


@contract('C21', 'from_func', MV + 'from_func', form=('matrix', 'vector', 'number'))
def _(it, n, form):
    """value at every point of the time grid"""
    m, T = dim('m', 1), dim('T', 1)
    t = arr('t', (T,))
    b, bf = fam('B', (n, m))
    c, cf = fam('C', (n, m))
    tv = lambda k: r_el('t', (ie(k),))
    if form == 'matrix':
        fn = snippet(it, 'lambda s: b * s + c * s * s', b=b, c=c)
        dims, want = (n, m, T), lambda i, j, k: bf(i, j, 0) * tv(k) + cf(i, j, 0) * tv(k) * tv(k)
    elif form == 'vector':
        v = arr('v', (n,))
        fn = snippet(it, 'lambda s: v * s + 1', v=v)
        dims, want = (n, I1, T), lambda i, j, k: r_el('v', () if n == 1 else (ie(i),)) * tv(k) + X.ONE
    else:
        fn = snippet(it, 'lambda s: s * s + 2 * s')
        dims, want = (I1, I1, T), lambda i, j, k: tv(k) * tv(k) + 2 * tv(k)
    out = call(it, MV + 'from_func', fn, t)
    return pages(it, out, dims, want)


# ---------------------------------------------------------------- C20 products
def mul(k, f, g):
    return lambda i, j, t: r_sum(k, lambda l: f(i, l, t) * g(l, j, t))


def tr3(f):
    return lambda i, j, t: f(j, i, t)


@contract('C20', 'r_multiply.two', MV + 'r_multiply', right=('family', 'matrix', 'one page'), sparse=(False, True), skip=lambda n, right, sparse: sparse and right == 'one page')
def _(it, n, right, sparse):
    m, p, T = dim('m', 2), dim('p', 2), dim('T', 1)
    a, f = fam('A', (n, m, ), T)
    if right == 'one page':
        b0, g0 = fam('B', (m, p))
        b = snippet(it, 'np.expand_dims(b, 2)', np=np_of(it), b=b0)
    else:
        b, g0 = fam('B', (m, p), T if right == 'family' else None)
    out = call(it, MV + 'r_multiply', a, b, None, sparse)
    return pages(it, out, (n, p, T), mul(m, f, g0))


@contract('C20', 'r_multiply.column', MV + 'r_multiply', right=('family', 'matrix'))
def _(it, n, right):
    """p = 1, and m = 1"""
    m, T = dim('m', 2), dim('T', 1)
    a, f = fam('A', (n, m), T)
    b, g0 = fam('B', (m, 1), T if right == 'family' else None)
    out = call(it, MV + 'r_multiply', a, b)
    return pages(it, out, (n, I1, T), mul(m, f, g0))


@contract('C20', 'r_multiply.outer product', MV + 'r_multiply', n=(SYM,), right=('family', 'matrix'))
def _(it, n, right):
    p, T = dim('p', 2), dim('T', 1)
    a, f = fam('A', (n, 1), T)
    b, g0 = fam('B', (1, p), T if right == 'family' else None)
    out = call(it, MV + 'r_multiply', a, b)
    return pages(it, out, (n, p, T), lambda i, j, t: f(i, 0, t) * g0(0, j, t))


@contract('C20', 'r_multiply.scalar', MV + 'r_multiply', right=('family', 'matrix'), first=(False, True), sparse=(False, True))
def _(it, n, right, first, sparse):
    """one-by-one factors multiply every page"""
    m, T = dim('m', 2), dim('T', 1)
    r = T if right == 'family' else None
    if first:
        a, f = fam('A', (1, 1), T)
        b, g0 = fam('B', (n, m), r)
    else:
        a, f = fam('A', (n, m), T)
        b, g0 = fam('B', (1, 1), r)
    out = call(it, MV + 'r_multiply', a, b, None, sparse)
    want = (lambda i, j, t: f(0, 0, t) * g0(i, j, t)) if first else (lambda i, j, t: f(i, j, t) * g0(0, 0, t))
    return pages(it, out, (n, m, T), want)


@contract('C20', 'r_multiply.three', MV + 'r_multiply', n=(SYM,), b=('family', 'matrix'), c=('family', 'matrix'), sparse=(False, True),
          cols=('many', 1))
def _(it, n, b, c, sparse, cols):
    m, p, q, T = dim('m', 2), dim('p', 2), I1 if cols == 1 else dim('q', 2), dim('T', 1)
    x, f = fam('A', (n, m), T)
    y, g0 = fam('B', (m, p), T if b == 'family' else None)
    z, h0 = fam('C', (p, q), T if c == 'family' else None)
    out = call(it, MV + 'r_multiply', x, y, z, sparse)
    return pages(it, out, (n, q, T), mul(p, mul(m, f, g0), h0))


@contract('C20', 'r_multiply.three with scalars', MV + 'r_multiply', n=(SYM,), form=('001', '010', '100', '011', '101', '110'),
          b=('family', 'matrix'))
def _(it, n, form, b):
    """1 marks the one-by-one factor"""
    m, p, T = dim('m', 2), dim('p', 2), dim('T', 1)
    r = T if b == 'family' else None
    sh = {'001': ((n, m), (m, p), (1, 1)), '010': ((n, m), (1, 1), (m, p)), '100': ((1, 1), (n, m), (m, p)),
          '011': ((n, m), (1, 1), (1, 1)), '101': ((1, 1), (n, m), (1, 1)), '110': ((1, 1), (1, 1), (n, m))}[form]
    (x, f), (y, g0), (z, h0) = fam('A', sh[0], T), fam('B', sh[1], r), fam('C', sh[2], r)
    out = call(it, MV + 'r_multiply', x, y, z)
    one = lambda u: lambda t: u(0, 0, t)
    want = {'001': lambda i, j, t: mul(m, f, g0)(i, j, t) * h0(0, 0, t), '010': lambda i, j, t: mul(m, f, h0)(i, j, t) * g0(0, 0, t),
            '100': lambda i, j, t: f(0, 0, t) * mul(m, g0, h0)(i, j, t), '011': lambda i, j, t: f(i, j, t) * g0(0, 0, t) * h0(0, 0, t),
            '101': lambda i, j, t: f(0, 0, t) * g0(i, j, t) * h0(0, 0, t), '110': lambda i, j, t: f(0, 0, t) * g0(0, 0, t) * h0(i, j, t)}[form]
    return pages(it, out, (n, m if form in ('011', '101', '110') else p, T), want)


@contract('C20', 'r_multiply.bad pages', MV + 'r_multiply', n=(SYM,))
def _(it, n):
    m, p, T, S_ = dim('m', 2), dim('p', 2), dim('T', 1), dim('S', 2)
    it.assume(c_not(c_icmp('==', T - S_)))
    out = call(it, MV + 'r_multiply', fam('A', (n, m), T)[0], fam('B', (m, p), S_)[0])
    return [('rejected', raised(out, 'wrongInput'))]


@contract('C20', 'r_multiply_by_vec', MV + 'r_multiply_by_vec', sparse=(False, True, None))
def _(it, n, sparse):
    m, T = dim('m', 1), dim('T', 1)
    a, f = fam('A', (n, m), T)
    b = arr('b', (m, T))
    out = call(it, MV + 'r_multiply_by_vec', a, b, *([] if sparse is None else [sparse]))
    return pages(it, out, (n, T), lambda i, t: r_sum(m, lambda k: f(i, k, t) * r_el('b', (ie(k), ie(t)))))


@contract('C20', 'lr_multiply', SQ + 'lr_multiply', flag=('R', 'L', None), a=('family', 'matrix'), b=('family', 'matrix'),
          skip=lambda n, flag, a, b: a == 'family' and b == 'matrix')
def _(it, n, flag, a, b):
    m, T = dim('m', 1), dim('T', 1)
    inner = n if flag != 'L' else m
    x, f = fam('A', (n, m), T if a == 'family' else None)
    y, g0 = fam('B', (inner, inner), T if b == 'family' else None)
    out = call(it, SQ + 'lr_multiply', y, x, *([flag] if flag else []))
    o = m if flag != 'L' else n
    if flag == 'L':
        want = mul(m, mul(m, f, g0), tr3(f))
    else:
        want = mul(n, mul(n, tr3(f), g0), f)
    return pages(it, out, (o, o) if b == 'matrix' else (o, o, T), lambda i, j, t=0: want(i, j, t))


@contract('C20', 'lr_multiply.bad flag', SQ + 'lr_multiply', n=(SYM,), a=('family', 'matrix'), b=('family', 'matrix'))
def _(it, n, a, b):
    T = dim('T', 1)
    out = call(it, SQ + 'lr_multiply', fam('B', (n, n), T if b == 'family' else None)[0],
               fam('A', (n, n), T if a == 'family' else None)[0], 'X')
    return [('rejected', raised(out, 'wrong_input'))]


def vecs(n, name, form, T):
    """vectors: one (1-d or a column) or one per time point; entry function (i, t)"""
    e = lambda i, t: r_el(name, (() if n == 1 else (ie(i),)) + ((ie(t),) if form == 'family' else ()))
    if form == 'family':
        return arr(name, (n, T)), e
    if form == 'vector':
        return arr(name, (n,)), e
    return arr(name, (n, I1)), e


@contract('C20', 'lr_multiply_by_vec', SQ + 'lr_multiply_by_vec', a=('family', 'vector', 'column'), b=('family', 'matrix'))
def _(it, n, a, b):
    T = dim('T', 2)
    x, f = vecs(n, 'a', a, T)
    y, g0 = fam('B', (n, n), T if b == 'family' else None)
    out = call(it, SQ + 'lr_multiply_by_vec', y, x)
    want = lambda k, t: r_sum(n, lambda i: r_sum(n, lambda j: f(i, t) * g0(i, j, t) * f(j, t)))
    return pages(it, out, (I1, T if 'family' in (a, b) else I1), want)


@contract('C20', 'lr_divide_vec', SQ + 'lr_divide_vec', a=('family', 'vector', 'column'), b=('family', 'matrix'))
def _(it, n, a, b):
    T = dim('T', 2)
    x, f = vecs(n, 'a', a, T)
    q = sym('B', n, fam=(T,) if b == 'family' else (), kind='pd')
    out = call(it, SQ + 'lr_divide_vec', q, x)

    def want(*k):
        t = k[-1]
        inv = it.call(L.LA['inv'], [q if b == 'matrix' else snippet(it, 'a[:, :, t]', a=q, t=t)], {})
        return r_sum(n, lambda i: r_sum(n, lambda j: f(i, t) * at(it, inv, i, j) * f(j, t)))
    return pages(it, out, (I1, T if a == 'family' else I1) if b == 'matrix' else (T,), want)


@contract('C20', 'lr_svd_multiply', SM + 'lr_svd_multiply', flag=('R', 'L', None), a=('family', 'matrix'))
def _(it, n, flag, a):
    """A' B A and A B A' with symmetric B"""
    m, T = dim('m', 2), dim('T', 1)
    inner = n if flag != 'L' else m
    x, f = fam('A', (n, m), T if a == 'family' else None)
    y = sym('B', inner, fam=(T,))
    g0 = lambda i, j, t: at(it, y, i, j, t)
    out = call(it, SM + 'lr_svd_multiply', y, x, *([flag] if flag else []))
    o = m if flag != 'L' else n
    want = mul(m, mul(m, f, g0), tr3(f)) if flag == 'L' else mul(n, mul(n, tr3(f), g0), f)
    return pages(it, out, (o, o, T), want)


@contract('C20', 'r_svd_multiply_by_vec', SM + 'r_svd_multiply_by_vec')
def _(it, n):
    T = dim('T', 1)
    y = sym('B', n, fam=(T,))
    x, f = vecs(n, 'a', 'family', T)
    out = call(it, SM + 'r_svd_multiply_by_vec', y, x)
    return pages(it, out, (n, T), lambda i, t: r_sum(n, lambda k: at(it, y, i, k, t) * f(k, t)))


@contract('C20', 'lr_svd_multiply_by_vec', SM + 'lr_svd_multiply_by_vec')
def _(it, n):
    T = dim('T', 2)
    y = sym('B', n, fam=(T,))
    x, f = vecs(n, 'a', 'family', T)
    out = call(it, SM + 'lr_svd_multiply_by_vec', y, x)
    return pages(it, out, (I1, T), lambda k, t: r_sum(n, lambda i: r_sum(n, lambda j: f(i, t) * at(it, y, i, j, t) * f(j, t))))


@contract('C20', 'lr_svd_divide_vec', SM + 'lr_svd_divide_vec', b=('family', 'matrix', 'one page'))
def _(it, n, b):
    T = dim('T', 2)
    y = sym('B', n, fam=(T,) if b == 'family' else (), kind='pd')
    y0 = snippet(it, 'np.expand_dims(b, 2)', np=np_of(it), b=y) if b == 'one page' else y
    x, f = vecs(n, 'a', 'family', T)
    out = call(it, SM + 'lr_svd_divide_vec', y0, x)

    def want(t):
        inv = it.call(L.LA['inv'], [y if b != 'family' else snippet(it, 'a[:, :, t]', a=y, t=t)], {})
        return r_sum(n, lambda i: r_sum(n, lambda j: f(i, t) * at(it, inv, i, j) * f(j, t)))
    return pages(it, out, (T,), want)


@contract('C21', 'sqrtm_pos.masked pages', SQ + 'sqrtm_pos')
def _(it, n):
    """pages that are not a number stay so, the other pages get their root"""
    T = dim('T', 1)
    a0 = sym('A', n, fam=(T,), kind='psd')
    atom('hole', (T,), gen=lambda env, d: env.normal(d))
    hole = lambda t: c_lt(X.ZERO, r_el('hole', (ie(t),)))
    a = mk((n, n, T), lambda i, j, t: S(at(it, a0, i, j, t), bad=hole(t)), 'f')
    out = call(it, SQ + 'sqrtm_pos', a)
    g = [('returns', returns(out))]
    if out[0] != 'ret':
        return g
    g.append(('shape', shape_is(it, out[1], n, n, T)))
    f = out[1].get

    def val(t):
        q = lambda i, j: f((ie(i), ie(j), ie(t)))
        full = all_ix((n, n), lambda i, j: c_and(c_not(q(i, j).bad), c_eq(r_sum(n, lambda k: q(i, k).v * q(k, j).v), at(it, a0, i, j, t))))
        none = all_ix((n, n), lambda i, j: c_and(q(i, j).bad, c_not(q(i, j).pinf), c_not(q(i, j).ninf)))
        return c_and(c_or(hole(t), full), c_or(c_not(hole(t)), none))
    return g + [('roots and holes', guarded(lambda: all_ix((T,), val)))]


@contract('C20', 'lr_svd_multiply.bad flag', SM + 'lr_svd_multiply', n=(SYM,))
def _(it, n):
    T = dim('T', 1)
    out = call(it, SM + 'lr_svd_multiply', sym('B', n, fam=(T,)), fam('A', (n, n), T)[0], 'X')
    return [('rejected', raised(out, 'wrongInput:flag'))]
