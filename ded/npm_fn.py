"""Assumed contracts of the numpy functions that the code under verification calls (arrays without linear algebra)."""
import math
import expr as X
from expr import (IntE, R, ie, I0, I1, REG, Unsupported, TRUE, FALSE, c_and, c_or, c_not, c_icmp, c_eq, c_le, c_lt, real,
                  r_ite, r_sum, fresh_ix, forall, exists, cond_subst, prod_dim)
from vals import (PyRaise, B, b_of, bsimp, S, s_of, s_add, s_sub, s_mul, s_div, s_neg, s_abs, s_sqrt, s_cmp, v_subst, v_ite,
                  Obj, Fam, SymSeq, Arr, OArr, mk, HOOK, known_nonzero)
import interp as I
import npm_arr as A
from npm_arr import (is_scalar, kind_of, kmax, to_arr, out, ufunc, copy_arr, np_sum, np_any, np_all, reduce_, nest, sum_over,
                     norm_shape, fl, small)

NP = {}


def nf(*names):
    def deco(f):
        def call(it, args, kw):
            kw = {k: v for k, v in kw.items() if k not in ('order', 'copy', 'subok') or k in f.__code__.co_varnames}
            try:
                f.__sig__.bind(it, *args, **kw)
            except TypeError:
                raise Unsupported('numpy arguments of ' + names[0])
            return f(it, *args, **kw)
        import inspect
        f.__sig__ = inspect.signature(f)
        for n in names:
            NP[n] = I.Native('numpy.' + n, call)
        return f
    return deco


def dt_kind(dt, dflt='f'):
    """kind of a dtype argument"""
    if dt is None:
        return dflt
    if isinstance(dt, I.TypeVal):
        return {'float': 'f', 'int': 'i', 'bool': 'b', 'object': 'O', 'str': 'O', 'complex': 'f'}.get(dt.name, 'O')
    if isinstance(dt, I.Native):
        dt = dt.name
    if isinstance(dt, str):
        return {'float': 'f', 'float64': 'f', 'int': 'i', 'bool': 'b', 'object': 'O', 'O': 'O', 'f': 'f', 'i': 'i'}.get(dt, 'O')
    if isinstance(dt, (I.PyClass, I.Opaque)):
        return 'O'
    raise Unsupported('dtype')


def cast(it, v, k):
    if k == 'f':
        return ufunc(it, fl, [v], 'f')
    if k == 'b':
        return ufunc(it, lambda x: bsimp(b_of(x)), [v], 'b')
    if k == 'i':
        return ufunc(it, to_int, [v], 'i')
    return v


def to_int(x):
    if isinstance(x, (int, IntE)):
        return x if not isinstance(x, bool) else int(x)
    s = s_of(x)
    if s.ty == 'int':
        return s
    if s.v.is_const() and s.bad == FALSE:
        c = s.v.const()
        q = abs(c.numerator) // c.denominator
        return q if c >= 0 else -q
    e = int_of_real(s.v)
    if e is not None and s.bad == FALSE:
        return e
    if s.bad == FALSE:
        return S(r_ite(c_le(0, s.v), X.r_fn('floor', s.v), -X.r_fn('floor', -s.v)), ty='int')
    raise Unsupported('integer part')


def int_of_real(r):
    """the integer polynomial equal to r, when r is one"""
    e = ie(0)
    for (fs, sm), c in r.t.items():
        if sm or c.denominator != 1:
            return None
        m = ie(int(c))
        for f, p in fs:
            if f[0] != 'int' or p < 0:
                return None
            for _ in range(p):
                m = m * IntE.sym(f[1])
        e = e + m
    return e.simp()


# ---------------------------------------------------------------- creation
def filled(it, shape, val, k):
    sh = norm_shape(it, shape)
    for d in sh:
        if X.int_holds(None, '<', ie(d)):
            raise PyRaise('ValueError', '', 'negative dimensions')
    if k == 'O':
        tot = A.flat_len(sh)
        if tot.is_const():
            return OArr(sh, [val if val != 'none' else None] * tot.const())
        return OArr(sh, SymSeq(tot, lambda i: val if val != 'none' else None))
    return mk(sh, lambda *i: val, k)


def const_val(v, k):
    if k == 'f':
        return S(real(v))
    if k == 'b':
        return bool(v)
    return int(v)


@nf('zeros')
def zeros(it, shape, dtype=None, order=None):
    k = dt_kind(dtype)
    return filled(it, shape, const_val(0, k) if k != 'O' else 0, k)


@nf('ones')
def ones(it, shape, dtype=None, order=None):
    k = dt_kind(dtype)
    return filled(it, shape, const_val(1, k) if k != 'O' else 1, k)


@nf('empty', 'ndarray')
def empty(it, shape, dtype=None, order=None):
    k = dt_kind(dtype)
    if k == 'O':
        return filled(it, shape, None, k)
    sh = norm_shape(it, shape)
    # unspecified contents
    nm = REG.fresh('junk')
    REG.atoms[nm] = {'dims': tuple(sh)}
    if k == 'f':
        return mk(sh, lambda *i: S(X.r_el(nm, i)), 'f')
    raise Unsupported('uninitialised array')


@nf('full')
def full(it, shape, fill_value, dtype=None):
    k = dt_kind(dtype, kind_of(fill_value))
    if k == 'O':
        return filled(it, shape, fill_value, 'O')
    v = fill_value if not isinstance(fill_value, Arr) else fill_value.get((I0,) * fill_value.ndim)
    return cast(it, filled(it, shape, v, k), k)


@nf('zeros_like')
def zeros_like(it, a, dtype=None):
    a = to_arr(it, a)
    k = dt_kind(dtype, a.kind)
    return mk(a.shape, lambda *i: const_val(0, k), k)


@nf('ones_like')
def ones_like(it, a, dtype=None):
    a = to_arr(it, a)
    k = dt_kind(dtype, a.kind)
    return mk(a.shape, lambda *i: const_val(1, k), k)


@nf('eye', 'identity')
def eye(it, n, M=None, dtype=None):
    k = dt_kind(dtype)
    n = dim_arg(n)
    m = n if M is None else dim_arg(M)
    if k == 'f':
        return mk((n, m), lambda i, j: S(X.r_delta(ie(i) - ie(j))), 'f')
    return mk((n, m), lambda i, j: cond_num(c_icmp('==', ie(i) - ie(j)), k), k)


def cond_num(c, k):
    if k == 'b':
        return bsimp(B(c))
    return v_ite(c, 1, 0)


def dim_arg(n):
    if isinstance(n, Arr):
        n = n.get((I0,) * n.ndim)
    if isinstance(n, S):
        e = int_of_real(n.v)
        if n.ty == 'int' and e is not None:
            return ie(e)
        raise PyRaise('TypeError', '', 'dimension is not an integer')
    return ie(n)


@nf('arange')
def arange(it, a, b=None, step=None, dtype=None):
    if b is None:
        a, b = 0, a
    if step is None:
        step = 1
    if all(isinstance(v, (int, IntE)) for v in (a, b)) and step == 1:
        n = ie(b) - ie(a)
        if not X.int_holds(None, '<=', -n):
            if not it.decide(c_icmp('<=', -n)):
                n = I0
        return mk((n,), lambda i: (ie(a) + ie(i)).simp(), 'i')
    if all(isinstance(v, int) for v in (a, b, step)) and step:
        n = max(0, -(-(b - a) // step))
        return mk((n,), lambda i: (ie(a) + ie(i) * step).simp(), 'i')
    raise Unsupported('arange with these arguments')


@nf('linspace')
def linspace(it, a, b, num=50, endpoint=True):
    n = dim_arg(num)
    a, b = s_of(a), s_of(b)
    if not isinstance(endpoint, bool):
        raise Unsupported('linspace')
    div = n - 1 if endpoint else n
    if div.is_const() and div.const() == 0:
        return mk((n,), lambda i: fl(a), 'f')
    if endpoint and not X.int_holds(None, '<', -div):
        raise Unsupported('linspace of unknown length')
    return mk((n,), lambda i: s_add(a, s_mul(s_sub(b, a), S(X.real(ie(i)) * X.r_inv(X.real(div))))), 'f')


# ---------------------------------------------------------------- conversion
@nf('asarray', 'asanyarray', 'ascontiguousarray', 'atleast_1d', 'asfarray')
def asarray(it, v, dtype=None, order=None):
    """no copy when the argument already is an array of that type"""
    k = dt_kind(dtype, None) if dtype is not None else None
    if isinstance(v, (Arr, OArr)) and (k is None or k == (v.kind if isinstance(v, Arr) else 'O')) and len(v.shape) > 0:
        return v
    return array(it, v, dtype)


@nf('array')
def array(it, v, dtype=None, ndmin=None, order=None, copy=True):
    if copy is not True and copy is not None:
        if copy is not False:
            raise Unsupported('copy flag')
        return asarray(it, v, dtype)
    k = dt_kind(dtype, None) if dtype is not None else None
    if k == 'O':
        return obj_array(it, v)
    a = to_arr(it, v)
    if isinstance(a, OArr):
        if isinstance(v, list) or isinstance(v, tuple):
            return a
        return OArr(a.shape, list(a.items) if isinstance(a.items, list) else a.items)
    a = copy_arr(a)
    if k is not None and k != a.kind:
        a = to_arr(it, cast(it, a, k))
    return a


def obj_array(it, v):
    if isinstance(v, OArr):
        return OArr(v.shape, list(v.items) if isinstance(v.items, list) else v.items)
    w = A.unseq(v) if isinstance(v, list) else v
    if isinstance(w, SymSeq):
        e = w.at(IntE.sym('%o'))
        if isinstance(e, (Obj,)) or e is None:
            return OArr((w.n,), w)
        raise Unsupported('object array of a symbolic list')
    if isinstance(w, (list, tuple)):
        if all(isinstance(x, (list, tuple)) for x in w) and w:
            rows = [obj_array(it, x) for x in w]
            return OArr((len(w),) + rows[0].shape, [y for r in rows for y in r.items])
        return OArr((len(w),), list(w))
    if isinstance(w, Arr):
        raise Unsupported('numeric array as objects')
    return OArr((), [w])


@nf('copy')
def np_copy(it, a):
    return copy_arr(to_arr(it, a))


for _n, _k in (('float64', 'f'), ('float_', 'f'), ('int32', 'i'), ('int64', 'i'), ('int_', 'i'), ('bool_', 'b'),
               ('intc', 'i')):
    def _mkt(n=_n, k=_k):
        nm = {'f': 'float', 'i': 'int', 'b': 'bool'}[k]

        def call(it, args, kw):
            v = args[0] if args else 0
            return out(to_arr(it, cast(it, v if is_scalar(v) else to_arr(it, v), k)))
        return I.TypeVal(nm, call)
    NP[_n] = _mkt()


# ---------------------------------------------------------------- elementwise
def ew(*names, kind=None):
    def deco(f):
        def call(it, args, kw):
            if kw:
                raise Unsupported('ufunc keywords of ' + names[0])
            args = [list_arr(it, a) for a in args]
            if any(isinstance(a, OArr) for a in args):
                raise Unsupported('ufunc of objects')
            return ufunc(it, lambda *x: f(it, *x), args, kind)
        for n in names:
            NP[n] = I.Native('numpy.' + n, call)
        return f
    return deco


def list_arr(it, a):
    if isinstance(a, (list, tuple, SymSeq, A.Cell, range)):
        return to_arr(it, a)
    return a


def num(v):
    return s_of(v)


ew('sqrt', kind='f')(lambda it, x: s_sqrt(num(x)))
ew('abs', 'absolute', 'fabs')(lambda it, x: abs(x) if isinstance(x, int) else
                              (x if isinstance(x, IntE) and X.int_holds(None, '<=', -x) else s_abs(num(x))))
ew('sign')(lambda it, x: (x > 0) - (x < 0) if isinstance(x, int) else S(X.r_fn('sign', num(x).v), num(x).bad, ty=num(x).ty))
ew('square')(lambda it, x: A.arith(it, 'Mult', x, x))
ew('negative')(lambda it, x: A.arith(it, 'Sub', 0, x))
for _n, _o in (('add', 'Add'), ('subtract', 'Sub'), ('multiply', 'Mult'), ('divide', 'Div'), ('true_divide', 'Div'),
               ('power', 'Pow'), ('remainder', 'Mod'), ('mod', 'Mod'), ('floor_divide', 'FloorDiv')):
    ew(_n)(lambda it, x, y, o=_o: A.arith(it, o, x, y))
for _n, _o in (('equal', 'Eq'), ('not_equal', 'NotEq'), ('less', 'Lt'), ('less_equal', 'LtE'), ('greater', 'Gt'),
               ('greater_equal', 'GtE')):
    ew(_n, kind='b')(lambda it, x, y, o=_o: A.ncmp(it, o, x, y))
ew('logical_and', 'bitwise_and', kind='b')(lambda it, x, y: bsimp(B(c_and(b_of(x).c, b_of(y).c))))
ew('logical_or', 'bitwise_or', kind='b')(lambda it, x, y: bsimp(B(c_or(b_of(x).c, b_of(y).c))))
ew('logical_xor', 'bitwise_xor', kind='b')(lambda it, x, y: bsimp(B(c_not(X.c_iff(b_of(x).c, b_of(y).c)))))
ew('logical_not', kind='b')(lambda it, x: bsimp(B(c_not(b_of(x).c))))
ew('isfinite', kind='b')(lambda it, x: bsimp(B(c_not(num(x).bad))))
ew('isreal', kind='b')(lambda it, x: True)
ew('iscomplex', kind='b')(lambda it, x: False)


def f_isnan(it, x):
    s = num(x)
    if s.bad == FALSE or it.implied(c_not(s.bad)):
        return False
    if s.pinf is None or s.ninf is None:
        raise Unsupported('isnan of an untracked infinity')
    return bsimp(B(c_and(s.bad, c_not(s.pinf), c_not(s.ninf))))


def f_isinf(it, x):
    s = num(x)
    if s.bad == FALSE or it.implied(c_not(s.bad)):
        return False
    if s.pinf is None or s.ninf is None:
        raise Unsupported('isinf of an untracked infinity')
    return bsimp(B(c_or(s.pinf, s.ninf)))


ew('isnan', kind='b')(f_isnan)
ew('isinf', kind='b')(f_isinf)


def s_max(x, y):
    x, y = num(x), num(y)
    bad = c_or(x.bad, y.bad)
    t = None if bad != FALSE else FALSE
    return S(X.r_max(x.v, y.v), bad, t, t, A.ty2(x, y))


def s_min(x, y):
    x, y = num(x), num(y)
    bad = c_or(x.bad, y.bad)
    t = None if bad != FALSE else FALSE
    return S(X.r_min(x.v, y.v), bad, t, t, A.ty2(x, y))


def imax(x, y):
    if isinstance(x, (int, IntE)) and isinstance(y, (int, IntE)):
        d = ie(x) - ie(y)
        if X.int_holds(None, '<=', d):
            return y
        if X.int_holds(None, '<=', -d):
            return x
    return s_max(x, y)


def imin(x, y):
    if isinstance(x, (int, IntE)) and isinstance(y, (int, IntE)):
        d = ie(x) - ie(y)
        if X.int_holds(None, '<=', d):
            return x
        if X.int_holds(None, '<=', -d):
            return y
    return s_min(x, y)


ew('maximum', 'fmax')(lambda it, x, y: imax(x, y))
ew('minimum', 'fmin')(lambda it, x, y: imin(x, y))


@nf('clip')
def clip(it, a, lo, hi):
    r = a
    if lo is not None:
        r = ufunc(it, imax, [r, lo])
    if hi is not None:
        r = ufunc(it, imin, [r, hi])
    return r


def elem_fn(name):
    def f(it, x):
        s = num(x)
        return S(X.r_fn(name, s.v), s.bad, None if s.bad != FALSE else FALSE, None if s.bad != FALSE else FALSE)
    return f


for _n in ('cos', 'sin', 'exp', 'floor'):
    ew(_n, kind='f')(elem_fn(_n))


def f_fix(it, x):
    s = num(x)
    if s.ty == 'int':
        return fl(s)
    return fl(to_int(s))


ew('fix', 'trunc', kind='f')(f_fix)


def f_round(it, x):
    s = num(x)
    if s.ty == 'int':
        return x
    raise Unsupported('rounding')


ew('round', 'rint', 'around', 'ceil')(f_round)


@nf('real', 'real_if_close')
def np_real(it, a):
    return a if is_scalar(a) else to_arr(it, a)


@nf('imag')
def np_imag(it, a):
    return ufunc(it, lambda x: S(X.ZERO), [list_arr(it, a)], 'f')


@nf('isscalar')
def isscalar(it, a):
    return is_scalar(a) or isinstance(a, str)


@nf('isrealobj')
def isrealobj(it, a):
    return True


@nf('iscomplexobj')
def iscomplexobj(it, a):
    return False


@nf('where')
def where(it, c, x=None, y=None):
    if x is None:
        raise Unsupported('where with one argument')
    c, x, y = [list_arr(it, a) for a in (c, x, y)]
    k = kmax(kind_of(x), kind_of(y))
    return ufunc(it, lambda a, b, d: v_ite(b_of(a).c, cval(b, k), cval(d, k)), [c, x, y], k)


def cval(v, k):
    return fl(v) if k == 'f' else v


@nf('array_equal')
def array_equal(it, a, b):
    a, b = to_arr(it, a), to_arr(it, b)
    if isinstance(a, OArr) or isinstance(b, OArr):
        raise Unsupported('array_equal of objects')
    if a.ndim != b.ndim:
        return False
    for p, q in zip(a.shape, b.shape):
        if not it.same(p, q) and not it.decide(c_icmp('==', p - q)):
            return False
    return np_all(it, to_arr(it, ufunc(it, lambda x, y: A.ncmp(it, 'Eq', x, y), [a, b], 'b')))


@nf('allclose')
def allclose(it, a, b, rtol=1e-5, atol=1e-8):
    def f(x, y):
        x, y = num(x), num(y)
        d = s_sub(s_abs(s_sub(x, y)), s_add(num(atol), s_mul(num(rtol), s_abs(y))))
        return bsimp(s_cmp('<=', d, S(X.ZERO)))
    return np_all(it, to_arr(it, ufunc(it, f, [list_arr(it, a), list_arr(it, b)], 'b')))
