"""Array part of the assumed numpy contracts: conversion, broadcasting, indexing, assignment, reshaping, reductions."""
import expr as X
from expr import (IntE, R, ie, I0, I1, REG, Unsupported, TRUE, FALSE, c_and, c_or, c_not, c_icmp, c_eq, real, r_ite,
                  r_sum, fresh_ix, forall, exists, cond_subst, prod_dim)
from vals import (PyRaise, B, b_of, bsimp, S, s_of, s_add, s_sub, s_mul, s_div, s_neg, s_abs, s_sqrt, s_cmp, v_subst, v_ite,
                  Obj, Fam, SymSeq, Arr, OArr, mk, HOOK)
import interp as I

SCAL = (S, B, int, float, IntE)          # bool is an int


def is_scalar(v):
    return isinstance(v, SCAL)


def kind_of(v):
    if isinstance(v, (bool, B)):
        return 'b'
    if isinstance(v, (int, IntE)):
        return 'i'
    if isinstance(v, S):
        return 'i' if v.ty == 'int' else 'f'
    if isinstance(v, float):
        return 'f'
    if isinstance(v, Arr):
        return v.kind
    return 'O'


def kmax(*ks):
    for k in 'Ofib':
        if k in ks:
            return k
    return 'f'


def dsimp(d):
    return ie(d).simp()


def unseq(lst):
    """list value -> python list or SymSeq"""
    if isinstance(lst, list) and len(lst) == 1 and isinstance(lst[0], I.SymTail):
        return lst[0].seq
    return lst


def to_arr(it, v):
    """np.asarray: Arr or OArr"""
    if isinstance(v, (Arr, OArr)):
        return v
    if is_scalar(v):
        return mk((), lambda: v, kind_of(v))
    if isinstance(v, Cell):
        return to_arr(it, v.get())
    if isinstance(v, range):
        v = list(v)
    if isinstance(v, (list, tuple)):
        v = unseq(v)
    if isinstance(v, SymSeq):
        if v.n.is_const():
            v = [v.at(k) for k in range(v.n.const())]
        else:
            return stack_sym(it, v)
    if isinstance(v, (list, tuple)):
        if not v:
            return mk((0,), lambda i: S(X.ZERO), 'f')
        els = [x if is_scalar(x) else to_arr(it, x) for x in v]
        if all(is_scalar(x) or (isinstance(x, Arr) and x.ndim == 0) for x in els):
            els = [x if is_scalar(x) else x.get(()) for x in els]
            k = kmax(*[kind_of(x) for x in els])
            return mk((len(els),), pick(els), k)
        if all(isinstance(x, Arr) for x in els):
            sh = els[0].shape
            for x in els[1:]:
                if x.ndim != len(sh) or not all(it.same(a, b) for a, b in zip(x.shape, sh)):
                    raise Unsupported('array of arrays of different shapes')
            fs = [x.snap() for x in els]
            k = kmax(*[x.kind for x in els])
            return mk((len(els),) + sh, lambda i, *r: pick([LazyCall(f, r) for f in fs])(i), k)
        if all(isinstance(x, OArr) for x in els):
            sh = els[0].shape
            if any(len(x.shape) != len(sh) or any(a != b for a, b in zip(x.shape, sh)) for x in els):
                raise Unsupported('ragged object array')
            if all(isinstance(x.items, list) for x in els):
                return OArr((len(els),) + sh, [y for x in els for y in x.items])
            if len(els) == 1:
                return OArr((1,) + sh, els[0].items)
        raise Unsupported('np.array of a mixed list')
    if v is None or isinstance(v, (Obj, dict, str, I.PyClass, I.PyFunc, I.Opaque, I.Native, I.TypeVal)):
        return OArr((), [v])
    raise Unsupported('np.array of %s' % type(v).__name__)


class LazyCall:
    def __init__(self, f, a):
        self.f, self.a = f, a


def pick(els):
    """function of one index choosing from a python list"""
    def g(x):
        return x.f(*x.a) if isinstance(x, LazyCall) else x

    def fn(i):
        i = ie(i)
        if i.is_const():
            return g(els[i.const()])
        r = g(els[-1])
        for k in range(len(els) - 2, -1, -1):
            r = v_ite(c_icmp('==', i - k), g(els[k]), r)
        return r
    return fn


def stack_sym(it, seq):
    n = seq.n
    nm = '~s' + REG.fresh('')
    REG.ix[nm] = n
    v = seq.at(IntE.sym(nm))
    if is_scalar(v):
        return mk((n,), lambda i: v_subst(v, {nm: ie(i)}), kind_of(v))
    if isinstance(v, (Obj, dict)) or v is None:
        return OArr((n,), seq)
    a = to_arr(it, v)
    if isinstance(a, Arr):
        for d in a.shape:
            if nm in d.syms():
                raise Unsupported('ragged array')
        f = a.snap()
        names = ['~q%d' % k for k in range(a.ndim)]
        for q, d in zip(names, a.shape):
            REG.ix[q] = d

        def fn(i, *r):
            return v_subst(f(*r), {nm: ie(i)}) if not any(nm in ie(x).syms() for x in r) else fail()

        def fail():
            raise Unsupported('index capture')
        return mk((n,) + a.shape, fn, a.kind)
    if isinstance(a, OArr) and all(d == 1 for d in a.shape):
        return OArr((n,) + a.shape, it.make_seq(n, lambda k: to_arr(it, seq.at(k)).items[0]))
    raise Unsupported('np.array of a symbolic list')


class Cell:
    """element of an object array obtained through .flat (only to be read)"""
    def __init__(self, v):
        self.v = v

    def get(self):
        return self.v


def copy_arr(a):
    if isinstance(a, OArr):
        return OArr(a.shape, list(a.items) if isinstance(a.items, list) else a.items)
    f = a.snap()
    r = mk(a.shape, f, a.kind)
    r.mask = a.mask
    return r


def out(a):
    """numpy returns scalars for zero-dimensional results"""
    if isinstance(a, Arr) and a.ndim == 0:
        return a.get(())
    return a


# ---------------------------------------------------------------- broadcasting
def bdim(it, a, b):
    if it.same(a, b):
        return a
    if a == 1 or it.same(a, 1):
        return b
    if b == 1 or it.same(b, 1):
        return a
    if it.decide(c_icmp('==', ie(a) - ie(b))):
        return a
    if it.decide(c_icmp('==', ie(a) - 1)):
        return b
    if it.decide(c_icmp('==', ie(b) - 1)):
        return a
    raise PyRaise('ValueError', '', 'broadcast')


def bshape(it, *shapes):
    nd = max(len(s) for s in shapes)
    out_ = []
    for k in range(nd):
        d = None
        for s in shapes:
            q = k - (nd - len(s))
            if q >= 0:
                d = s[q] if d is None else bdim(it, d, s[q])
        out_.append(d)
    return tuple(out_)


def bget(it, a, shape):
    """function of the broadcast indices"""
    f = a.snap()
    off = len(shape) - a.ndim
    ones = [it.same(d, 1) and not it.same(shape[off + k], 1) or d == 1 for k, d in enumerate(a.shape)]
    return lambda *idx: f(*[I0 if ones[k] else idx[off + k] for k in range(a.ndim)])


def ufunc(it, fn, args, kind=None):
    """elementwise function of the elements"""
    if all(is_scalar(a) for a in args):
        return fn(*args)
    arrs = [to_arr(it, a) for a in args]
    if any(isinstance(a, OArr) for a in arrs):
        raise Unsupported('arithmetic on an object array')
    mask = None
    for a in arrs:
        if a.mask is not None:
            if mask is not None and mask[0] != a.mask[0]:
                raise Unsupported('two different selections')
            mask = a.mask
    shape = bshape(it, *[a.shape for a in arrs])
    if mask is not None and len(shape) != mask[2]:
        raise Unsupported('broadcast of a selection')
    gs = [bget(it, a, shape) for a in arrs]
    k = kind or kmax(*[a.kind for a in arrs])
    r = mk(shape, lambda *idx: fn(*[g(*idx) for g in gs]), k)
    r.mask = mask
    return out(r)


# ---------------------------------------------------------------- numbers
def int_like(v):
    return isinstance(v, (int, IntE))


def arith(it, op, a, b):
    if isinstance(a, B):
        a = s_of(a)
    if isinstance(b, B):
        b = s_of(b)
    if int_like(a) and int_like(b):
        if op == 'Add':
            return (ie(a) + ie(b)).simp()
        if op == 'Sub':
            return (ie(a) - ie(b)).simp()
        if op == 'Mult':
            return (ie(a) * ie(b)).simp()
        if op == 'FloorDiv':
            return idiv(it, a, b)
        if op == 'Mod':
            return imod(it, a, b)
        if op == 'Pow':
            if ie(b).is_const() and ie(b).const() >= 0:
                r = I1
                for _ in range(ie(b).const()):
                    r = r * ie(a)
                return r.simp()
    x, y = s_of(a), s_of(b)
    if op == 'Add':
        return s_add(x, y)
    if op == 'Sub':
        return s_sub(x, y)
    if op == 'Mult':
        return s_mul(x, y)
    if op == 'Div':
        return s_div(x, y)
    if op == 'Pow':
        if y.v.is_const() and y.v.const().denominator == 1 and y.bad == FALSE:
            n = int(y.v.const())
            if 0 <= n <= 8:
                return S(x.v ** n, x.bad, None if x.bad != FALSE else FALSE, None if x.bad != FALSE else FALSE, x.ty)
            if n < 0:
                return s_div(S(X.ONE), S(x.v ** -n, x.bad, None if x.bad != FALSE else FALSE,
                                         None if x.bad != FALSE else FALSE))
        if y.v.is_const() and y.v.const() * 2 == 1:
            return s_sqrt(x)
        if x.bad == FALSE and y.bad == FALSE:
            return S(X.r_fn('pow', x.v, y.v))
    if op in ('FloorDiv', 'Mod') and x.bad == FALSE and y.bad == FALSE and y.v.is_const() and y.v.const() > 0:
        q = X.r_fn('floor', x.v * X.r_inv(y.v)) if not x.v.is_const() else real(int(x.v.const() // y.v.const()))
        return S(q, ty=ty2(x, y)) if op == 'FloorDiv' else S(x.v - q * y.v, ty=ty2(x, y))
    raise Unsupported('operator %s on numbers' % op)


def ty2(x, y):
    return 'int' if x.ty == 'int' and y.ty == 'int' else 'float'


def divmod_int(it, a, b):
    a, b = ie(a), ie(b)
    if b.is_const() and a.is_const():
        return ie(a.const() // b.const()), ie(a.const() % b.const())
    # split the monomials into multiples of b and a rest within [0, b)
    if len(b.t) == 1:
        (bm, bc), = b.t
        q, r = {}, {}
        for m, c in a.t:
            mm = list(m)
            ok = c % bc == 0
            if ok:
                for s in bm:
                    if s in mm:
                        mm.remove(s)
                    else:
                        ok = False
                        break
            if ok:
                q[tuple(mm)] = q.get(tuple(mm), 0) + c // bc
            else:
                r[m] = r.get(m, 0) + c
        q, r = IntE(q), IntE(r)
        if b.is_const() and r.t:
            # constants of the rest
            c0 = dict(r.t).get((), 0)
            q = q + c0 // b.const()
            r = r - (c0 // b.const()) * b.const()
        if X.int_holds(None, '<=', -r) and X.int_holds(None, '<', r - b):
            return q, r
    if len(b.t) > 1:
        # compound divisor: divide by its leading term
        bm, bc = max(b.t, key=lambda x: (len(x[0]), x[0]))
        q, r = I0, a
        for _ in range(6):
            for m, c in r.t:
                mm = list(m)
                try:
                    for s in bm:
                        mm.remove(s)
                except ValueError:
                    continue
                if c % bc == 0:
                    t = IntE({tuple(mm): c // bc})
                    q, r = q + t, r - t * b
                    break
            else:
                break
        if X.int_holds(None, '<=', -r) and X.int_holds(None, '<', r - b):
            return q, r
    # bring the quotient from the ranges
    if X.int_holds(None, '<=', -a) and X.int_holds(None, '<', a - b):
        return I0, a
    raise Unsupported('integer division %s by %s' % (a, b))


def idiv(it, a, b):
    return divmod_int(it, a, b)[0].simp()


def imod(it, a, b):
    return divmod_int(it, a, b)[1].simp()


CMPN = {'Eq': '==', 'NotEq': '!=', 'Lt': '<', 'LtE': '<=', 'Gt': '>', 'GtE': '>='}


def ncmp(it, op, a, b):
    """comparison of two numbers"""
    if int_like(a) and int_like(b):
        d = ie(a) - ie(b)
        if op == 'Eq':
            c = c_icmp('==', d)
        elif op == 'NotEq':
            c = c_not(c_icmp('==', d))
        elif op == 'Lt':
            c = c_icmp('<', d)
        elif op == 'LtE':
            c = c_icmp('<=', d)
        elif op == 'Gt':
            c = c_icmp('<', -d)
        else:
            c = c_icmp('<=', -d)
        return bsimp(B(c))
    if isinstance(a, (B, bool)) and isinstance(b, (B, bool)):
        x, y = b_of(a).c, b_of(b).c
        if op == 'Eq':
            return bsimp(B(X.c_iff(x, y)))
        if op == 'NotEq':
            return bsimp(B(c_not(X.c_iff(x, y))))
    return bsimp(s_cmp(CMPN[op], s_of(a), s_of(b)))


# ---------------------------------------------------------------- indexing
def norm_index(it, k, d):
    """index k of an axis of size d, as IntE; IndexError outside"""
    d = ie(d)
    if isinstance(k, S):
        raise PyRaise('IndexError', '', 'float index')
    k = ie(k)
    if X.int_holds(None, '<', k):
        k = k + d
        if not X.int_holds(None, '<=', -k) and not it.decide(c_icmp('<=', -k)):
            raise PyRaise('IndexError')
        return k
    if not X.int_holds(None, '<=', -k):
        if not it.decide(c_icmp('<=', -k)):
            return norm_index(it, k + d, d)
    if not X.int_holds(None, '<', k - d):
        if not it.decide(c_icmp('<', k - d)):
            raise PyRaise('IndexError')
    return k


def norm_slice(it, s, d):
    """(offset, length, sign)"""
    d = ie(d)
    step = 1 if s.step is None else s.step
    step = ie(step).const() if ie(step).is_const() else None
    if step == -1 and s.start is None and s.stop is None:
        return d - 1, d, -1
    if step != 1:
        raise Unsupported('slice step')

    def lim(v, dflt):
        if v is None:
            return dflt
        v = ie(v)
        if X.int_holds(None, '<', v) or (not X.int_holds(None, '<=', -v) and it.decide(c_icmp('<', v))):
            v = v + d
            if not X.int_holds(None, '<=', -v) and it.decide(c_icmp('<', v)):
                v = I0
            return v
        if not X.int_holds(None, '<=', v - d) and not it.decide(c_icmp('<=', v - d)):
            return d
        return v
    lo, hi = lim(s.start, I0), lim(s.stop, d)
    if not X.int_holds(None, '<=', lo - hi) and not it.decide(c_icmp('<=', lo - hi)):
        return lo, I0, 1
    return lo, hi - lo, 1


def plan(it, a, ix):
    """(region per own axis, new axes list) : region entries ('pt',e) ('rng',off,len,sign) ('new',) ('mask',Arr) ('arr',Arr)"""
    if not isinstance(ix, tuple):
        ix = (ix,)
    ix = list(ix)
    ax_used = 0
    for x in ix:
        if x is None or x is Ellipsis:
            continue
        if isinstance(x, Arr) and x.kind == 'b':
            ax_used += x.ndim
        else:
            ax_used += 1
    if ax_used > len(a.shape):
        raise PyRaise('IndexError')
    if Ellipsis not in [x for x in ix if x is Ellipsis]:
        ix.append(Ellipsis)
    outp = []
    ax = 0
    for x in ix:
        if x is Ellipsis:
            for _ in range(len(a.shape) - ax_used):
                outp.append(('rng', I0, a.shape[ax], 1, ax))
                ax += 1
        elif x is None:
            outp.append(('new',))
        elif isinstance(x, slice):
            outp.append(('rng',) + norm_slice(it, x, a.shape[ax]) + (ax,))
            ax += 1
        elif isinstance(x, (int, IntE)) and not isinstance(x, bool):
            outp.append(('pt', norm_index(it, x, a.shape[ax]), ax))
            ax += 1
        elif isinstance(x, Arr) and x.ndim == 0 and x.kind == 'i':
            outp.append(('pt', norm_index(it, x.get(()), a.shape[ax]), ax))
            ax += 1
        elif isinstance(x, (Arr, list)):
            x = to_arr(it, x)
            if isinstance(x, OArr):
                raise Unsupported('object index')
            if x.kind == 'b':
                for q in range(x.ndim):
                    if not it.same(x.shape[q], a.shape[ax + q]):
                        raise PyRaise('IndexError', '', 'boolean index')
                outp.append(('mask', x, ax))
                ax += x.ndim
            else:
                outp.append(('arr', x, ax))
                ax += 1
        elif isinstance(x, S):
            raise PyRaise('IndexError', '', 'float index')
        else:
            raise Unsupported('index %r' % type(x).__name__)
    return outp


def mask_info(it, m):
    """None when all selected, else (key, cond fn)"""
    f = m.snap()
    ix = m.ix()
    c = b_of(f(*ix)).c
    if c == TRUE or it.implied(forall_all(ix, c)):
        return None
    import npm_fn2
    key = X.cond_key(b_of(f(*[npm_fn2.own_ix('m%d' % k, d) for k, d in enumerate(m.shape)])).c)
    return key, (lambda *i: b_of(f(*i)).c)


def forall_all(ix, c):
    for e in ix:
        c = forall(e, c)
    return c


def getitem_arr(it, a, ix):
    if isinstance(ix, Arr) and ix.kind == 'b' and ix.ndim == a.ndim and a.mask is None:
        pl = [('mask', ix, 0)]
        for q in range(ix.ndim):
            if not it.same(ix.shape[q], a.shape[q]):
                raise PyRaise('IndexError', '', 'boolean index')
    else:
        pl = plan(it, a, ix)
    if a.mask is not None:
        raise Unsupported('indexing a selection')
    kinds = [p[0] for p in pl]
    if 'mask' in kinds or 'arr' in kinds:
        if kinds.count('mask') + kinds.count('arr') > 1:
            raise Unsupported('several index arrays')
        return fancy(it, a, pl)
    shape, axmap = [], [None] * a.ndim
    for p in pl:
        if p[0] == 'new':
            shape.append(I1)
        elif p[0] == 'pt':
            axmap[p[2]] = ('f', p[1])
        else:
            axmap[p[4]] = ('a', len(shape), p[1], p[3])
            shape.append(p[2])
    if not shape:
        return a.get([axmap[k][1] for k in range(a.ndim)])
    return a.view(shape, axmap)


def fancy(it, a, pl):
    f = a.snap()
    shape, how = [], []
    mask = None
    for p in pl:
        if p[0] == 'new':
            shape.append(I1)
            how.append(('new', len(shape) - 1))
        elif p[0] == 'pt':
            how.append(('pt', p[1]))
        elif p[0] == 'rng':
            how.append(('rng', len(shape), p[1], p[3]))
            shape.append(p[2])
        elif p[0] == 'arr':
            x = p[1]
            g = x.snap()
            # bounds
            e = x.ix()
            d = a.shape[p[2]]
            k = g(*e)
            if isinstance(k, (int, IntE)):
                k = norm_index_quiet(it, k, d)
            else:
                raise Unsupported('index array of unknown integers')
            how.append(('arr', len(shape), x.ndim, g, d))
            shape += list(x.shape)
        else:
            x = p[1]
            mi = mask_info(it, x)
            how.append(('rngs', len(shape), x.ndim))
            if mi is not None:
                mask = (mi[0], mi[1], len(shape), x.ndim)
            shape += list(x.shape)

    def fn(*idx):
        own = []
        for h in how:
            if h[0] == 'pt':
                own.append(h[1])
            elif h[0] == 'rng':
                own.append(h[2] + ie(idx[h[1]]) * h[3])
            elif h[0] == 'arr':
                k = ie(h[3](*idx[h[1]:h[1] + h[2]]))
                own.append(norm_index_quiet(it, k, h[4]))
            elif h[0] == 'rngs':
                own += list(idx[h[1]:h[1] + h[2]])
        return f(*own)
    r = mk(shape, fn, a.kind)
    if mask is not None:
        key, cf, st, nd = mask
        r.mask = ('%s@%d/%d' % (key, st, len(shape)), lambda *idx: cf(*idx[st:st + nd]), len(shape), (st, nd))
    return out(r)


def norm_index_quiet(it, k, d):
    k = ie(k)
    if X.int_holds(None, '<', k):
        k = k + d
    if X.int_holds(None, '<=', -k) and X.int_holds(None, '<', k - d):
        return k
    raise Unsupported('index array out of known bounds')


def setitem_arr(it, a, ix, v):
    if isinstance(ix, Arr) and ix.kind == 'b' and ix.ndim == a.ndim:
        pl = [('mask', ix, 0)]
    else:
        pl = plan(it, a, ix)
    kinds = [p[0] for p in pl]
    region = [None] * a.ndim
    shape = []
    cond, mkey = None, None
    for p in pl:
        if p[0] == 'new':
            raise Unsupported('newaxis in an assignment')
        if p[0] == 'pt':
            region[p[2]] = ('pt', p[1])
        elif p[0] == 'rng':
            full = p[1] == 0 and p[3] == 1 and it.same(p[2], a.shape[p[4]])
            region[p[4]] = ('all',) if full else ('rng', p[1], p[2], p[3])
            shape.append(p[2])
        elif p[0] == 'mask':
            x = p[1]
            mi = mask_info(it, x)
            st = p[2]
            for q in range(x.ndim):
                region[st + q] = ('all',)
            if mi is not None:
                mkey = '%s@%d/%d' % (mi[0], len(shape), -1)
                cond = (mi[1], st, x.ndim, len(shape))
            shape += list(x.shape)
        else:
            raise Unsupported('assignment through an index array')
    # value
    if isinstance(v, (list, tuple)) or isinstance(v, SymSeq):
        v = to_arr(it, v)
    if isinstance(v, OArr):
        raise Unsupported('object stored in a numeric array')
    if is_scalar(v):
        g = lambda *idx: v
        vk = kind_of(v)
    elif isinstance(v, Arr):
        if v.mask is not None:
            if cond is None or v.mask[0].split('@')[0] != mkey.split('@')[0] or v.mask[3] != (cond[3], cond[2]):
                raise Unsupported('assignment of another selection')
            if v.ndim != len(shape):
                raise Unsupported('assignment of a selection')
            g = v.snap()
        else:
            w = v
            # leading axes of size one may be dropped
            while w.ndim > len(shape):
                if not it.same(w.shape[0], 1):
                    raise PyRaise('ValueError', '', 'could not broadcast')
                w = getitem_arr(it, w, 0)
                if is_scalar(w):
                    w = to_arr(it, w)
            off = len(shape) - w.ndim
            for k, d in enumerate(w.shape):
                if d == 1 or it.same(d, shape[off + k]):
                    continue
                if cond is not None and cond[3] <= off + k < cond[3] + cond[2]:
                    raise Unsupported('assignment to a selection')
                if not it.decide(c_icmp('==', d - shape[off + k])) and not it.decide(c_icmp('==', d - 1)):
                    raise PyRaise('ValueError', '', 'could not broadcast')
            g = bget(it, w, shape)
        vk = v.kind
    else:
        raise Unsupported('assignment of %s' % type(v).__name__)
    if a.kind == 'i' and vk == 'f':
        raise Unsupported('float stored in an integer array')
    if a.kind == 'b' and vk != 'b':
        h0 = g
        g = lambda *idx: bsimp(b_of(h0(*idx)))
    if a.kind == 'f' and vk != 'f':
        h1 = g
        g = lambda *idx: fl(h1(*idx))
    if cond is None:
        a.write(region, lambda *idx: g(*idx))
    else:
        cf, st, nd, _ = cond
        a.write_if(region, lambda *own: cf(*own[st:st + nd]), lambda *idx: g(*idx))


def fl(v):
    """the number as a float"""
    s = s_of(v)
    return s if s.ty == 'float' else S(s.v, s.bad, s.pinf, s.ninf, 'float')


# ---------------------------------------------------------------- reshape
def flat_len(shape):
    return prod_dim(list(reversed([ie(d) for d in shape]))) if shape else I1


def reshape_map(it, old, new, order='C'):
    """function of the new indices giving the old indices"""
    old, new = [ie(d) for d in old], [ie(d) for d in new]
    if order == 'F':
        g = reshape_map(it, old[::-1], new[::-1], 'C')
        return lambda *idx: tuple(reversed(g(*reversed(idx))))
    # group factors, minor (last) first
    ow = [(k, d) for k, d in enumerate(old) if not it.same(d, 1)]
    nw = [(k, d) for k, d in enumerate(new) if not it.same(d, 1)]
    groups = []
    while ow or nw:
        go, gn = [], []
        if not ow or not nw:
            raise PyRaise('ValueError', '', 'cannot reshape')
        go.append(ow.pop())
        gn.append(nw.pop())
        po, pn = go[0][1], gn[0][1]
        while not it.same(po, pn):
            # extend the smaller product
            if factor_of(po, pn):
                if not ow:
                    raise PyRaise('ValueError', '', 'cannot reshape')
                go.append(ow.pop())
                po = po * go[-1][1]
            elif factor_of(pn, po):
                if not nw:
                    raise PyRaise('ValueError', '', 'cannot reshape')
                gn.append(nw.pop())
                pn = pn * gn[-1][1]
            else:
                if len(go) + len(gn) == 2 and not ow and not nw and it.differ(po, pn):
                    raise PyRaise('ValueError', '', 'cannot reshape')
                raise Unsupported('reshape %s to %s' % (old, new))
        for gg in (go, gn):
            if len(gg) > 1 and po not in REG.fact:
                prod_dim([d for k, d in gg])
        groups.append((go, gn))

    def fn(*idx):
        r = [I0] * len(old)
        for go, gn in groups:
            e, st = I0, I1
            for k, d in gn:
                e = e + ie(idx[k]) * st
                st = st * d
            for q, (k, d) in enumerate(go):
                if q == len(go) - 1:
                    r[k] = e
                else:
                    e, m = divmod_int(it, e, d)
                    r[k] = m
        return tuple(r)
    return fn


def factor_of(small, big):
    """is the product of dimensions `small` a proper divisor of `big` (structurally)?"""
    small, big = ie(small), ie(big)
    if small.is_const() and big.is_const():
        return small.const() < big.const() and big.const() % small.const() == 0
    if len(small.t) != 1 or len(big.t) != 1:
        fb = list(REG.fact.get(big, ()))
        fs = list(REG.fact.get(small, (small,)))
        for x in fs:
            if x in fb:
                fb.remove(x)
            else:
                return False
        return bool(fb)
    (ms, cs), (mb, cb) = small.t[0], big.t[0]
    if cb % cs:
        return False
    mb = list(mb)
    for s in ms:
        if s in mb:
            mb.remove(s)
        else:
            return False
    return bool(mb) or cb != cs


def divide_dim(it, total, part):
    """total / part for -1 in reshape"""
    total, part = ie(total), ie(part)
    if part == 1:
        return total
    if total == 0:
        return I0
    if total.is_const() and part.is_const():
        if total.const() % part.const():
            raise PyRaise('ValueError', '', 'cannot reshape')
        return ie(total.const() // part.const())
    fs = list(REG.fact.get(total, (total,)))
    for x in REG.fact.get(part, (part,)):
        if x in fs:
            fs.remove(x)
        else:
            raise Unsupported('reshape(-1)')
    return prod_dim(fs)


def norm_shape(it, v):
    if isinstance(v, (int, IntE)):
        return [ie(v)]
    if isinstance(v, Arr):
        if v.ndim == 0:
            v = [v.get(())]
        else:
            v = it.as_seq(v)
    v = unseq(v) if isinstance(v, list) else v
    if isinstance(v, SymSeq):
        v = it.as_seq(v)
        if isinstance(v, SymSeq):
            raise Unsupported('shape of symbolic length')
    outp = []
    for x in v:
        if isinstance(x, Arr):
            x = x.get((I0,) * x.ndim)
        if isinstance(x, S):
            if x.ty == 'int' and x.v.is_const():
                x = int(x.v.const())
            else:
                raise PyRaise('TypeError', '', 'shape entries must be integers')
        outp.append(ie(x))
    return outp


def reshape(it, a, shape, order='C'):
    shape = norm_shape(it, shape)
    a = to_arr(it, a)
    if isinstance(a, Arr) and a.mask is not None:
        raise Unsupported('reshape of a selection')
    neg = [k for k, d in enumerate(shape) if d == -1]
    total = I1
    for d in a.shape:
        total = total * d
    total0 = flat_len(a.shape[::-1] if order == "F" else a.shape)
    if neg:
        rest = I1
        for k, d in enumerate(shape):
            if k != neg[0]:
                rest = rest * d
        rest_p = prod_dim([d for k, d in enumerate(shape) if k != neg[0]]) if len(shape) > 1 else I1
        shape[neg[0]] = divide_dim(it, total0, rest_p)
    new_total = I1
    for d in shape:
        new_total = new_total * d
    if not it.same(total, new_total):
        if not it.decide(c_icmp('==', total - new_total)):
            raise PyRaise('ValueError', '', 'cannot reshape')
    if isinstance(a, OArr):
        if order == 'F' and len(shape) > 1:
            raise Unsupported('F order object reshape')
        return OArr(shape, a.items)
    if it.same(total, 0):
        f0 = a.kind
        return mk(shape, lambda *i: S(X.ZERO), f0, ro=True)
    if len(shape) == a.ndim and all(it.same(p, q) for p, q in zip(shape, a.shape)):
        vm = tuple(('a', k, I0, 1) for k in range(a.ndim))
        return a.view(shape, vm) if a.ndim else a
    try:
        m = reshape_map(it, a.shape, shape, order)
    except Unsupported:
        raise
    # a pure insertion / removal of unit axes keeps the memory
    vw = unit_view(it, a, shape)
    if vw is not None:
        return vw
    f = a.snap()
    return mk(shape, lambda *idx: f(*m(*idx)), a.kind, ro=True)


def unit_view(it, a, shape):
    o = [(k, d) for k, d in enumerate(a.shape) if not it.same(d, 1)]
    n = [(k, d) for k, d in enumerate(shape) if not it.same(d, 1)]
    if len(o) != len(n) or not all(it.same(x[1], y[1]) for x, y in zip(o, n)):
        return None
    axmap = [('f', I0)] * a.ndim
    for (k, _), (q, _) in zip(o, n):
        axmap[k] = ('a', q, I0, 1)
    return a.view(shape, axmap)


def ravel(it, a):
    r = reshape(it, a, [-1])
    return r


def transpose(it, a, axes=None):
    nd = a.ndim
    axes = list(range(nd))[::-1] if axes is None else [x % nd for x in axes]
    if isinstance(a, OArr):
        if nd <= 1 or sum(0 if d == 1 else 1 for d in a.shape) <= 1:
            return OArr([a.shape[x] for x in axes], a.items)
        raise Unsupported('transpose of an object array')
    axmap = [None] * nd
    for new, old in enumerate(axes):
        axmap[old] = ('a', new, I0, 1)
    r = a.view([a.shape[x] for x in axes], axmap)
    if a.mask is not None:
        if nd != 1:
            raise Unsupported('transpose of a selection')
        r = copy_arr(a)
    return r


# ---------------------------------------------------------------- reductions
def small(d):
    return d.is_const() and d.const() <= 8


def sum_over(it, d, fn):
    """sum of S values fn(k), k in [0,d)"""
    d = ie(d)
    if small(d):
        tot = None
        for k in range(d.const()):
            v = s_of(fn(ie(k)))
            tot = v if tot is None else s_add(tot, v)
        return tot if tot is not None else S(X.ZERO)
    e = fresh_ix(d, 'k')
    v = s_of(fn(e))
    bad = FALSE if v.bad == FALSE else exists(e, v.bad)
    t = v.v
    for s in sorted(e.syms()):
        if s in REG.ix and s in t.syms() or s in REG.ix:
            t = X.r_sum_sym(s, REG.ix[s], t) if s in e.syms() else t
    fl_ = FALSE if bad == FALSE else None
    return S(t, bad, fl_, fl_, v.ty)


def quant(it, d, fn, kind):
    d = ie(d)
    if small(d):
        cs = [fn(ie(k)) for k in range(d.const())]
        return c_and(*cs) if kind == 'all' else c_or(*cs)
    e = fresh_ix(d, 'k')
    c = fn(e)
    return forall(e, c) if kind == 'all' else exists(e, c)


def axes_of(a, axis):
    if axis is None:
        return list(range(a.ndim))
    if isinstance(axis, (tuple, list)):
        return [ie(x).const() % a.ndim for x in axis]
    k = ie(axis).const()
    if k >= a.ndim or k < -a.ndim:
        raise PyRaise('ValueError', '', 'axis')
    return [k % a.ndim]


def reduce_(it, a, axis, keepdims, red, kind=None):
    """red(dims, fn) with fn(*idx over the reduced axes) -> element; returns the value"""
    if not isinstance(a, Arr):
        a = to_arr(it, a)
    if isinstance(a, OArr):
        raise Unsupported('reduction of an object array')
    axs = axes_of(a, axis)
    f = a.snap()
    keep = [k for k in range(a.ndim) if k not in axs]
    if a.mask is not None:
        if keep:
            raise Unsupported('partial reduction of a selection')

    def fn(*idx):
        def g(*r):
            full = [None] * a.ndim
            for k, q in zip(axs, r):
                full[k] = q
            if keepdims:
                for k in keep:
                    full[k] = idx[k]
            else:
                for k, q in zip(keep, idx):
                    full[k] = q
            return f(*full)
        m = None
        if a.mask is not None:
            m = lambda *r: a.mask[1](*r)
        return red([a.shape[k] for k in axs], g, m)
    shape = [I1 if k in axs else a.shape[k] for k in range(a.ndim)] if keepdims else [a.shape[k] for k in keep]
    if not shape:
        return fn()
    return mk(shape, fn, kind or a.kind)


def nest(dims, g, step, m=None):
    """apply a one-dimensional reduction step(d, fn) over several axes"""
    def rec(k, pre):
        if k == len(dims):
            return g(*pre)
        return step(dims[k], lambda q: rec(k + 1, pre + [q]))
    return rec(0, [])


def np_sum(it, a, axis=None, keepdims=False):
    def red(dims, g, m):
        if m is not None:
            h = lambda *r: msel(m(*r), s_of(g(*r)))
        else:
            h = g
        return nest(dims, h, lambda d, fn: sum_over(it, d, fn)) if dims else s_of(g())
    return reduce_(it, a, axis, keepdims, red)


def msel(c, v):
    return S(r_ite(c, v.v, X.ZERO), c_and(c, v.bad), None if v.bad != FALSE else FALSE, None if v.bad != FALSE else FALSE, v.ty)


def np_any(it, a, axis=None, keepdims=False):
    def red(dims, g, m):
        h = (lambda *r: c_and(m(*r), b_of(g(*r)).c)) if m is not None else (lambda *r: b_of(g(*r)).c)
        return bsimp(B(nest(dims, h, lambda d, fn: quant(it, d, fn, 'ex'))))
    return reduce_(it, a, axis, keepdims, red, 'b')


def np_all(it, a, axis=None, keepdims=False):
    def red(dims, g, m):
        h = (lambda *r: c_or(c_not(m(*r)), b_of(g(*r)).c)) if m is not None else (lambda *r: b_of(g(*r)).c)
        return bsimp(B(nest(dims, h, lambda d, fn: quant(it, d, fn, 'all'))))
    return reduce_(it, a, axis, keepdims, red, 'b')
