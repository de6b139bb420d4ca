"""Assumed contracts of the numpy functions: products, diagonals, triangles, miscellany."""
import expr as X
from expr import (IntE, R, ie, I0, I1, REG, Unsupported, TRUE, FALSE, c_and, c_or, c_not, c_icmp, c_eq, c_lt, real, r_ite, fresh_ix, forall, exists)
from vals import PyRaise, B, b_of, bsimp, S, s_of, s_mul, s_add, v_ite, Obj, SymSeq, Arr, OArr, mk
import interp as I
import npm_arr as A
from npm_arr import is_scalar, kmax, to_arr, out, ufunc, copy_arr, sum_over, fl
from npm_fn import NP, nf, num, list_arr
from npm_fn2 import expand_dims_


def mul_kind(a, b):
    return 'f' if 'f' in (a.kind, b.kind) else kmax(a.kind, b.kind)


def matmul(it, a, b):
    a, b = to_arr(it, a), to_arr(it, b)
    if isinstance(a, OArr) or isinstance(b, OArr):
        raise Unsupported('product of object arrays')
    if a.ndim == 0 or b.ndim == 0:
        raise PyRaise('ValueError', '', 'matmul of a scalar')
    if a.mask is not None or b.mask is not None:
        if a.ndim == 1 and b.ndim == 1:
            return A.np_sum(it, to_arr(it, ufunc(it, s_mulv, [a, b])))
        return masked_mm(it, a, b)
    ra, rb = a.ndim == 1, b.ndim == 1
    a2 = expand_dims_(it, a, 0) if ra else a
    b2 = expand_dims_(it, b, 1) if rb else b
    it.require_same(a2.shape[-1], b2.shape[-2], 'matmul')
    fa, fb = a2.snap(), b2.snap()
    lead = A.bshape(it, a2.shape[:-2], b2.shape[:-2]) if a2.ndim > 2 or b2.ndim > 2 else ()
    d = a2.shape[-1] if not a2.shape[-1].is_const() or b2.shape[-2].is_const() else a2.shape[-1]
    oa, ob = len(lead) - (a2.ndim - 2), len(lead) - (b2.ndim - 2)

    def fn(*idx):
        l, i, j = idx[:-2], idx[-2], idx[-1]
        la = [I0 if a2.shape[k] == 1 else l[oa + k] for k in range(a2.ndim - 2)]
        lb = [I0 if b2.shape[k] == 1 else l[ob + k] for k in range(b2.ndim - 2)]
        return sum_over(it, d, lambda k: s_mul(s_of(fa(*la, i, k)), s_of(fb(*lb, k, j))))
    r = mk(lead + (a2.shape[-2], b2.shape[-1]), fn, mul_kind(a, b))
    if ra or rb:
        ix = [slice(None)] * len(lead) + ([0] if ra else [slice(None)]) + ([0] if rb else [slice(None)])
        return A.getitem_arr(it, r, tuple(ix))
    return r


def s_mulv(x, y):
    return s_mul(num(x), num(y))


def masked_mm(it, a, b):
    """product through a selected axis (both operands selected by the same mask there)"""
    if a.mask is None or b.mask is None or a.mask[0].split('@')[0] != b.mask[0].split('@')[0]:
        raise Unsupported('product of different selections')
    (sa, na), (sb, nb) = a.mask[3], b.mask[3]
    if na != 1 or nb != 1 or sa != a.ndim - 1 or sb != max(b.ndim - 2, 0) or a.ndim > 2 or b.ndim > 2:
        raise Unsupported('product of selections')
    fa, fb, d = a.snap(), b.snap(), a.shape[-1]
    cf = a.mask[1]

    def term(x, y, k):
        v = s_mul(num(x), num(y))
        c = cf(*([I0] * sa + [k]))
        return A.msel(c, v)
    if a.ndim == 2 and b.ndim == 2:
        return mk((a.shape[0], b.shape[1]), lambda i, j: sum_over(it, d, lambda k: term(fa(i, k), fb(k, j), k)), 'f')
    if a.ndim == 2:
        return mk((a.shape[0],), lambda i: sum_over(it, d, lambda k: term(fa(i, k), fb(k), k)), 'f')
    return mk((b.shape[1],), lambda j: sum_over(it, d, lambda k: term(fa(k), fb(k, j), k)), 'f')


NP['matmul'] = I.Native('numpy.matmul', lambda it, args, kw: matmul(it, *args))


@nf('dot')
def dot(it, a, b):
    a, b = list_arr(it, a), list_arr(it, b)
    a = a if is_scalar(a) else to_arr(it, a)
    b = b if is_scalar(b) else to_arr(it, b)
    if is_scalar(a) or is_scalar(b) or a.ndim == 0 or b.ndim == 0:
        return ufunc(it, lambda x, y: A.arith(it, 'Mult', x, y), [a, b])
    if a.ndim <= 2 and b.ndim <= 2:
        return matmul(it, a, b)
    raise Unsupported('dot of three-dimensional arrays')


@nf('inner', 'vdot')
def inner(it, a, b):
    a, b = to_arr(it, a), to_arr(it, b)
    if a.ndim == 1 and b.ndim == 1:
        return matmul(it, a, b)
    raise Unsupported('inner')


@nf('outer')
def outer(it, a, b):
    a, b = A.ravel(it, to_arr(it, a)), A.ravel(it, to_arr(it, b))
    f, g = a.snap(), b.snap()
    return mk((a.shape[0], b.shape[0]), lambda i, j: A.arith(it, 'Mult', f(i), g(j)), kmax(a.kind, b.kind))


@nf('kron')
def kron(it, a, b):
    raise Unsupported('kron')


@nf('diag')
def diag(it, a, k=0):
    a = to_arr(it, a)
    if k != 0:
        raise Unsupported('off-diagonal')
    if a.ndim not in (1, 2):
        raise PyRaise('ValueError', '', 'Input must be 1- or 2-d.')
    if a.ndim == 1:
        f, kd, n = a.snap(), a.kind, a.shape[0]
        if a.mask is not None:
            raise Unsupported('diag of a selection')

        def fn(i, j):
            c = c_icmp('==', ie(i) - ie(j))
            if c == TRUE:
                return f(i)
            if c == FALSE:
                return zero(kd)
            if kd == 'f':
                v = num(f(i))
                if v.bad == X.FALSE:
                    return S(X.r_delta(ie(i) - ie(j)) * v.v)
                return v_ite(c, v, S(X.ZERO))
            return v_ite(c, f(i), zero(kd))
        return mk((n, n), fn, kd)
    return diagonal_(it, a)


def zero(k):
    return {'f': S(X.ZERO), 'i': 0, 'b': False}[k]


def diagonal_(it, a):
    f = a.snap()
    m, n = a.shape[-2:]
    if X.int_holds(None, '<=', m - n):
        d = m
    elif X.int_holds(None, '<=', n - m):
        d = n
    else:
        d = m if it.decide(c_icmp('<=', m - n)) else n
    return mk(a.shape[:-2] + (d,), lambda *idx: f(*(idx[:-1] + (idx[-1], idx[-1]))), a.kind, ro=True)


@nf('diagonal')
def diagonal(it, a, offset=0, axis1=0, axis2=1):
    a = to_arr(it, a)
    if offset != 0 or (axis1, axis2) not in ((0, 1), (-2, -1)) or (a.ndim != 2 and (axis1, axis2) == (0, 1)):
        raise Unsupported('diagonal')
    return diagonal_(it, a)


@nf('trace')
def trace(it, a):
    d = diagonal_(it, to_arr(it, a))
    return A.np_sum(it, d)


def tri(it, a, keep):
    a = to_arr(it, a)
    f, k = a.snap(), a.kind

    def fn(*idx):
        c = keep(ie(idx[-2]), ie(idx[-1]))
        v = f(*idx)
        return v_ite(c, v, zero(k))
    return mk(a.shape, fn, k)


@nf('triu')
def triu(it, a, k=0):
    return tri(it, a, lambda i, j: c_icmp('<=', i + k - j))


@nf('tril')
def tril(it, a, k=0):
    return tri(it, a, lambda i, j: c_icmp('<=', j - i - k))


@nf('fill_diagonal')
def fill_diagonal(it, a, v):
    f = a.snap()
    a.write_if([('all',)] * a.ndim, lambda *i: c_icmp('==', ie(i[0]) - ie(i[1])), lambda *i: fl(v))


@nf('argmax')
def argmax(it, a, axis=None):
    raise Unsupported('argmax')


@nf('einsum')
def einsum(it, sig, *ops):
    if not isinstance(sig, str) or '.' in sig or '->' not in sig:
        raise Unsupported('einsum')
    ins, o = sig.replace(' ', '').split('->')
    ins = ins.split(',')
    arrs = [to_arr(it, a) for a in ops]
    dims = {}
    for s, a in zip(ins, arrs):
        if len(s) != a.ndim:
            raise PyRaise('ValueError', '', 'einsum')
        for c, d in zip(s, a.shape):
            if c in dims:
                it.require_same(dims[c], d)
            else:
                dims[c] = d
    fs = [a.snap() for a in arrs]
    rest = [c for c in dims if c not in o]

    def fn(*idx):
        def rec(k, env):
            if k == len(rest):
                v = None
                for s, f in zip(ins, fs):
                    w = num(f(*[env[c] for c in s]))
                    v = w if v is None else s_mul(v, w)
                return v
            return sum_over(it, dims[rest[k]], lambda q: rec(k + 1, {**env, rest[k]: q}))
        return rec(0, dict(zip(o, idx)))
    return out(mk([dims[c] for c in o], fn, 'f'))


@nf('nonzero')
def nonzero(it, a):
    raise Unsupported('nonzero')


@nf('flatnonzero')
def flatnonzero(it, a):
    """positions of the non-zero elements; only the first one is described"""
    a = A.reshape(it, to_arr(it, a), [-1])
    f = a.snap()
    d = a.shape[0]
    nz = lambda k: c_not(c_eq(num(f(k)).v, X.ZERO))
    e = fresh_ix(d)
    if num(f(e)).bad != FALSE and not it.implied(c_not(num(f(e)).bad)):
        raise Unsupported('flatnonzero of non-finite values')
    # a positive sum of squares has a non-zero term
    if not it.implied(c_lt(X.ZERO, X.r_sum(d, lambda k: num(f(k)).v * num(f(k)).v))) and not it.decide(exists(e, nz(e))):
        return mk((I0,), lambda i: 0, 'i')
    first = fresh_ix(d)
    it.assume(nz(first))
    k = fresh_ix(d)
    it.assume(forall(k, c_or(c_icmp('<=', first - k), c_not(nz(k)))))
    n = REG.fresh('cnt')
    REG.dims[n] = 1
    REG.ranks[n] = None

    def el(i):
        if ie(i) == 0:
            return first
        raise Unsupported('positions of non-zero elements')
    return mk((IntE.sym(n),), el, 'i')


@nf('isin', 'in1d')
def isin(it, a, b):
    raise Unsupported('isin')


@nf('result_type', 'iinfo')
def unsup(it, *a):
    raise Unsupported('numpy function')


EPS = 2.220446049250313e-16


def finfo(it, args, kw):
    return I.Mod('finfo', {'eps': S(real(EPS)), 'max': Unsup('finfo.max')})


class Unsup:
    def __init__(self, n):
        self.n = n


NP['finfo'] = I.Native('numpy.finfo', finfo)
