"""Assumed contracts of the numpy functions: reductions, shapes, joins, products."""
import itertools
import math
import expr as X
from expr import (IntE, R, ie, I0, I1, REG, Unsupported, TRUE, FALSE, c_and, c_or, c_not, c_icmp, c_eq, c_le, c_lt, real,
                  r_ite, r_sum, fresh_ix, forall, exists, cond_subst, prod_dim)
from vals import (PyRaise, B, b_of, bsimp, S, s_of, s_add, s_sub, s_mul, s_div, s_neg, s_abs, s_sqrt, s_cmp, v_subst, v_ite,
                  Obj, Fam, SymSeq, Arr, OArr, mk, HOOK)
import interp as I
import npm_arr as A
from npm_arr import (is_scalar, kind_of, kmax, to_arr, out, ufunc, copy_arr, np_sum, np_any, np_all, reduce_, nest, sum_over,
                     norm_shape, fl, small, reshape, transpose, getitem_arr)
from npm_fn import NP, nf, dt_kind, cast, num, s_max, s_min, imax, imin, list_arr, dim_arg


# ---------------------------------------------------------------- keyed atoms
def abstract(r, own):
    """canonical form of the expression r over its own index names: (key, params, expression in terms of %p names)"""
    free = sorted(s for s in r.syms() if s in REG.ix and s not in own)
    if len(free) > 3:
        raise Unsupported('too many parameters')
    best = None
    for perm in itertools.permutations(free):
        mp = {s: IntE.sym('%%p%d' % k) for k, s in enumerate(perm)}
        for k, s in enumerate(perm):
            REG.ix.setdefault('%%p%d' % k, REG.ix[s])
        q = r.subst(mp) if mp else r
        if best is None or q.key() < best[0]:
            best = (q.key(), [IntE.sym(s) for s in perm], q)
    return best


def own_ix(letter, d):
    """index name reserved for the own axis of a derived atom"""
    d = ie(d)
    if d == 1:
        return I0
    if d in REG.fact:
        r, st = I0, I1
        for k, f in enumerate(REG.fact[d]):
            r = r + st * own_ix('%s%d' % (letter, k), f)
            st = st * f
        return r
    if d.is_const():
        nm = '%%%s:%d' % (letter, d.const())
    else:
        nm = '%%%s:%s' % (letter, d.key())
    REG.ix[nm] = d
    return IntE.sym(nm)


def sub_own(r, own, vals):
    """r with the own (compound) indices replaced"""
    mp = {}
    for o, v in zip(own, vals):
        if o.is_const():
            continue
        if len(o.t) == 1 and o.t[0][1] == 1 and len(o.t[0][0]) == 1:
            mp[o.t[0][0][0]] = ie(v)
        else:
            mp.update(split_compound(o, ie(v)))
    return r.subst(mp)


def split_compound(o, v):
    """values of the component symbols of the compound index o when it takes the value v"""
    comps = []
    for m, c in o.t:
        cand = [s for s in m if s.startswith('%')]
        if c != 1 or len(cand) != 1:
            raise Unsupported('compound index')
        st = I1
        for s in m:
            if s != cand[0]:
                st = st * IntE.sym(s)
        comps.append((cand[0], st, REG.ix[cand[0]]))
    comps.sort(key=lambda x: (len(x[1].t[0][0]), x[0]))
    outp = {}
    e = v
    for k, (nm, st, d) in enumerate(comps):
        if k == len(comps) - 1:
            outp[nm] = e
        else:
            e, m = A.divmod_int(None, e, d)
            outp[nm] = m
    return outp


def params_subst(q, vals):
    return {'%%p%d' % k: v for k, v in enumerate(vals)}


def extreme(it, dims, g, which):
    """largest / smallest of g over the index ranges: S"""
    dims = [ie(d) for d in dims]
    own = [own_ix('m%d' % k, d) for k, d in enumerate(dims)]
    v = num(g(*own))
    names = set()
    for o in own:
        names |= o.syms() & set(REG.ix)
    names = {s for s in names if s.startswith('%')}
    if not (v.v.syms() & names) and v.bad == FALSE:
        return v
    if v.bad != FALSE:
        c = v.bad
        for o in own:
            c = exists(o, c)
        if not it.implied(c_not(c)):
            raise Unsupported('extreme of possibly non-finite numbers')
    key, pars, q = abstract(v.v, names)
    k2 = (which, key, tuple(d.key() for d in dims))
    if k2 not in REG.keyed:
        nm = '%s#%d' % (which, len(REG.keyed))
        REG.keyed[k2] = nm

        def defs(idx):
            mp = {'%%p%d' % k: e for k, e in enumerate(idx)}
            m = X.r_el(nm, idx)
            body = q.subst(mp)
            c1 = c_le(body, m) if which == 'amax' else c_le(m, body)
            c2 = c_eq(body, m)
            for o in own:
                c1, c2 = forall(o, c1), exists(o, c2)
            return [c1, c2]
        REG.atoms[nm] = {'dims': (), 'defs': defs, 'nonneg': X.r_nonneg(q),
                         'num': ('extreme', which, q, own, dims)}
    return S(X.r_el(REG.keyed[k2], pars), ty=v.ty)


def np_extreme(it, a, axis, keepdims, which):
    a = to_arr(it, a)
    if isinstance(a, OArr):
        raise Unsupported('extreme of objects')
    f2 = (imax if which == 'amax' else imin)

    def red(dims, g, m):
        if m is not None:
            raise Unsupported('extreme of a selection')
        tot = 1
        for d in dims:
            if d == 0:
                raise PyRaise('ValueError', '', 'zero-size array')
            tot = tot * d.const() if d.is_const() and tot is not None else None
        if tot is not None and tot <= 4:
            vals = [g(*[ie(x) for x in p]) for p in itertools.product(*[range(d.const()) for d in dims])]
            r = vals[0]
            for v in vals[1:]:
                r = f2(r, v)
            return r
        for d in dims:
            if not X.int_holds(None, '<', -d) and not it.decide(c_icmp('<', -d)):
                raise PyRaise('ValueError', '', 'zero-size array')
        return extreme(it, dims, g, which)
    return reduce_(it, a, axis, keepdims, red)


def seq_extreme(it, seq, which):
    """min / max of a python sequence"""
    f2 = (imax if which == 'amax' else imin)
    if isinstance(seq, list):
        if not seq:
            raise PyRaise('ValueError', '', 'empty sequence')
        r = unit(seq[0])
        for v in seq[1:]:
            r = f2(r, unit(v))
        return r
    d = ie(seq.n)
    if not X.int_holds(None, '<', -d) and not it.decide(c_icmp('<', -d)):
        raise PyRaise('ValueError', '', 'empty sequence')
    return extreme(it, [d], lambda k: unit(seq.at(k)), which)


def unit(v):
    if isinstance(v, Arr):
        if not all(d == 1 for d in v.shape):
            raise Unsupported('comparison of arrays')
        return v.get((I0,) * v.ndim)
    return v


@nf('max', 'amax', 'nanmax')
def np_max(it, a, axis=None, keepdims=False):
    return np_extreme(it, a, axis, keepdims, 'amax')


@nf('min', 'amin', 'nanmin')
def np_min(it, a, axis=None, keepdims=False):
    return np_extreme(it, a, axis, keepdims, 'amin')


@nf('sum')
def f_sum(it, a, axis=None, keepdims=False, dtype=None):
    return np_sum(it, list_arr(it, a), axis, keepdims)


@nf('mean')
def f_mean(it, a, axis=None, keepdims=False):
    a = to_arr(it, a)
    n = I1
    for k in A.axes_of(a, axis):
        n = n * a.shape[k]
    s = np_sum(it, a, axis, keepdims)
    return ufunc(it, lambda x: s_div(num(x), S(real(n))), [s], 'f')


@nf('any')
def f_any(it, a, axis=None, keepdims=False):
    return np_any(it, list_arr(it, a), axis, keepdims)


@nf('all', 'alltrue')
def f_all(it, a, axis=None, keepdims=False):
    return np_all(it, list_arr(it, a), axis, keepdims)


@nf('prod', 'product')
def f_prod(it, a, axis=None, keepdims=False):
    a = to_arr(it, a)

    def red(dims, g, m):
        if m is not None:
            raise Unsupported('product of a selection')
        return nest(dims, g, lambda d, fn: prod_over(it, d, fn))
    return reduce_(it, a, axis, keepdims, red)


def prod_over(it, d, fn):
    d = ie(d)
    if small(d):
        r = 1
        for k in range(d.const()):
            r = A.arith(it, 'Mult', r, fn(ie(k)))
        return r
    o = own_ix('m', d)
    v = num(fn(o))
    names = {s for s in o.syms() if s.startswith('%')}
    if v.bad != FALSE:
        raise Unsupported('product of possibly non-finite numbers')
    if v.v.is_const() and v.v.const() in (0, 1):
        return S(v.v, ty=v.ty)
    key, pars, q = abstract(v.v, names)
    k2 = ('prod', key, d.key())
    if k2 not in REG.keyed:
        nm = 'prod#%d' % len(REG.keyed)
        REG.keyed[k2] = nm
        from vals import known_nonzero
        pos = known_nonzero(q) and X.r_nonneg(q)
        REG.atoms[nm] = {'dims': (), 'nonneg': X.r_nonneg(q), 'positive': pos, 'num': ('prod', q, [o], [d])}
    return S(X.r_el(REG.keyed[k2], pars), ty=v.ty)


@nf('cumsum')
def f_cumsum(it, a, axis=None):
    a = to_arr(it, a)
    if axis is None:
        a = A.ravel(it, a)
        axis = 0
    axis = ie(axis).const() % a.ndim
    f = a.snap()

    def fn(*idx):
        k = ie(idx[axis])
        if k.is_const() and k.const() <= 8:
            t = None
            for q in range(k.const() + 1):
                w = f(*(idx[:axis] + (ie(q),) + idx[axis + 1:]))
                t = w if t is None else A.arith(it, 'Add', t, w)
            return t
        e = IntE.sym(REG.fresh('~c'))
        REG.ix[list(e.syms())[0]] = a.shape[axis]
        v = f(*(idx[:axis] + (e,) + idx[axis + 1:]))
        # constant increments
        if isinstance(v, (int, IntE)) and not (ie(v).syms() & e.syms()):
            return (ie(v) * (k + 1)).simp()
        v = num(v)
        if v.bad != FALSE:
            raise Unsupported('cumulative sum of possibly non-finite numbers')
        nm = list(e.syms())[0]
        d = a.shape[axis]
        body = r_ite(c_icmp('<=', e - k), v.v, X.ZERO)
        return S(X.r_sum_sym(nm, d, body), ty=v.ty)
    return mk(a.shape, fn, a.kind)


# ---------------------------------------------------------------- shapes
@nf('reshape')
def f_reshape(it, a, shape=None, order='C', newshape=None):
    shape = newshape if shape is None else shape
    return reshape(it, to_arr(it, a), shape, order)


@nf('ravel')
def f_ravel(it, a, order='C'):
    return reshape(it, to_arr(it, a), [-1], order)


@nf('squeeze')
def squeeze(it, a, axis=None):
    a = to_arr(it, a)
    if axis is None:
        axs = []
        for k, d in enumerate(a.shape):
            if it.same(d, 1) or (not it.differ(d, 1) and it.decide(c_icmp('==', d - 1))):
                axs.append(k)
    else:
        axs = A.axes_of(a, axis)
        for k in axs:
            if not it.same(a.shape[k], 1) and not it.decide(c_icmp('==', a.shape[k] - 1)):
                raise PyRaise('ValueError', '', 'cannot select an axis to squeeze')
    return out0(drop(it, a, axs))


def out0(a):
    return a


def drop(it, a, axs):
    if isinstance(a, OArr):
        return OArr([d for k, d in enumerate(a.shape) if k not in axs], a.items)
    axmap, q = [], 0
    for k in range(a.ndim):
        if k in axs:
            axmap.append(('f', I0))
        else:
            axmap.append(('a', q, I0, 1))
            q += 1
    return a.view([d for k, d in enumerate(a.shape) if k not in axs], axmap)


@nf('expand_dims')
def expand_dims(it, a, axis):
    a = to_arr(it, a)
    axs = [axis] if not isinstance(axis, (tuple, list)) else list(axis)
    nd = a.ndim + len(axs)
    axs = sorted(ie(x).const() % nd for x in axs)
    sh, axmap, k = [], [], 0
    for q in range(nd):
        if q in axs:
            sh.append(I1)
        else:
            sh.append(a.shape[k])
            axmap.append(('a', q, I0, 1))
            k += 1
    if isinstance(a, OArr):
        return OArr(sh, a.items)
    return a.view(sh, axmap)


@nf('transpose')
def f_transpose(it, a, axes=None):
    a = to_arr(it, a)
    return transpose(it, a, None if axes is None else [ie(x).const() for x in it.as_seq(axes)])


@nf('swapaxes')
def swapaxes(it, a, p, q):
    a = to_arr(it, a)
    ax = list(range(a.ndim))
    ax[p], ax[q] = ax[q], ax[p]
    return transpose(it, a, ax)


@nf('moveaxis')
def moveaxis(it, a, p, q):
    a = to_arr(it, a)
    p, q = p % a.ndim, q % a.ndim
    ax = [k for k in range(a.ndim) if k != p]
    ax.insert(q, p)
    return transpose(it, a, ax)


@nf('broadcast_to')
def broadcast_to(it, a, shape):
    a = to_arr(it, a)
    sh = tuple(norm_shape(it, shape))
    sh2 = A.bshape(it, a.shape, sh)
    g = A.bget(it, a, sh2)
    return mk(sh2, g, a.kind, ro=True)


@nf('size')
def f_size(it, a, axis=None):
    a = to_arr(it, a)
    if axis is not None:
        return a.shape[axis].simp()
    return A.flat_len(a.shape).simp()


@nf('ndim')
def f_ndim(it, a):
    return to_arr(it, a).ndim


@nf('shape')
def f_shape(it, a):
    return tuple(d.simp() for d in to_arr(it, a).shape)


@nf('flip', 'flipud')
def flip(it, a, axis=0):
    a = to_arr(it, a)
    ix = tuple(slice(None, None, -1) if k == axis % a.ndim else slice(None) for k in range(a.ndim))
    return getitem_arr(it, a, ix)


@nf('fliplr')
def fliplr(it, a):
    return getitem_arr(it, to_arr(it, a), (slice(None), slice(None, None, -1)))


@nf('tile')
def tile(it, a, reps):
    a = to_arr(it, a)
    reps = [ie(x) for x in (it.as_seq(reps) if not is_scalar(reps) else [reps])]
    nd = max(a.ndim, len(reps))
    reps = [I1] * (nd - len(reps)) + reps
    sh = [I1] * (nd - a.ndim) + list(a.shape)
    if isinstance(a, OArr):
        if nd == 1 and isinstance(a.items, list) and reps[0].is_const():
            return OArr((sh[0] * reps[0],), a.items * reps[0].const())
        raise Unsupported('tile of objects')
    f = a.snap()
    lead = nd - a.ndim
    nsh = []
    for d, r in zip(sh, reps):
        nsh.append(prod_dim([d, r]) if not (d == 1 or r == 1) else d * r)

    def fn(*idx):
        o = []
        for k in range(lead, nd):
            if sh[k] == 1:
                o.append(I0)
            elif reps[k] == 1:
                o.append(idx[k])
            else:
                o.append(A.divmod_int(it, idx[k], sh[k])[1])
        return f(*o)
    return mk(nsh, fn, a.kind)


@nf('repmat')
def repmat(it, a, m, n):
    a = to_arr(it, a)
    if a.ndim == 1:
        a = expand_dims_(it, a, 0)
    return NP['tile'].fn(it, [a, (m, n)], {})


def expand_dims_(it, a, axis):
    return NP['expand_dims'].fn(it, [a, axis], {})


@nf('repeat')
def repeat(it, a, repeats, axis=None):
    a = to_arr(it, a)
    if axis is None:
        a = A.ravel(it, a)
        axis = 0
    axis %= a.ndim
    r = dim_arg(repeats)
    f = a.snap()
    sh = list(a.shape)
    sh[axis] = r if sh[axis] == 1 else (sh[axis] if r == 1 else prod_dim([r, sh[axis]]))

    def fn(*idx):
        o = list(idx)
        o[axis] = I0 if a.shape[axis] == 1 else (idx[axis] if r == 1 else A.divmod_int(it, idx[axis], r)[0])
        return f(*o)
    return mk(sh, fn, a.kind)


# ---------------------------------------------------------------- joins
def concat(it, arrs, axis):
    if isinstance(arrs, SymSeq):
        return concat_sym(it, arrs, axis)
    arrs = [to_arr(it, a) for a in arrs]
    if not arrs:
        raise PyRaise('ValueError', '', 'need at least one array')
    if any(isinstance(a, OArr) for a in arrs):
        if all(a.ndim == 1 for a in arrs) and all(isinstance(a, OArr) and isinstance(a.items, list) for a in arrs):
            items = [x for a in arrs for x in a.items]
            return OArr((len(items),), items)
        if all(isinstance(a, OArr) and isinstance(a.items, list) for a in arrs) and axis % arrs[0].ndim == 0 and \
                all(x == y for a in arrs for x, y in zip(a.shape[1:], arrs[0].shape[1:])):
            items = [x for a in arrs for x in a.items]
            n = sum(a.shape[0].const() for a in arrs)
            return OArr((n,) + arrs[0].shape[1:], items)
        raise Unsupported('joining object arrays')
    nd = arrs[0].ndim
    if any(a.ndim != nd for a in arrs) or nd == 0:
        raise PyRaise('ValueError', '', 'all the input array dimensions must match')
    axis %= nd
    for a in arrs[1:]:
        for k in range(nd):
            if k != axis:
                it.require_same(a.shape[k], arrs[0].shape[k])
    if any(a.mask is not None for a in arrs):
        raise Unsupported('joining selections')
    arrs = [a for a in arrs if not a.shape[axis] == 0] or arrs[:1]
    offs, tot = [], I0
    for a in arrs:
        offs.append(tot)
        tot = tot + a.shape[axis]
    fs = [a.snap() for a in arrs]
    k = kmax(*[a.kind for a in arrs])

    def fn(*idx):
        x = ie(idx[axis])
        res = None
        for q in range(len(arrs) - 1, -1, -1):
            loc = idx[:axis] + (x - offs[q],) + idx[axis + 1:]
            if q and X.int_holds(None, '<', x - offs[q]):
                continue
            if q and X.int_holds(None, '<=', offs[q] - x):
                v = fs[q](*loc)
                return v if res is None else (v if res is _no else res_merge(res, v, x, offs, q))
            v = fs[q](*loc)
            if res is None:
                res = v
            else:
                res = v_ite(c_icmp('<', x - offs[q + 1]), fl_k(v, k), fl_k(res, k))
        return res
    return mk(arrs[0].shape[:axis] + (tot,) + arrs[0].shape[axis + 1:], fn, k)


_no = object()


def res_merge(res, v, x, offs, q):
    return v_ite(c_icmp('<', x - offs[q + 1]), v, res)


def fl_k(v, k):
    return fl(v) if k == 'f' else v


def concat_sym(it, seq, axis):
    """a symbolic number of arrays joined along an axis where each has size one, or equal sizes"""
    e = IntE.sym(REG.fresh('~j'))
    REG.ix[list(e.syms())[0]] = seq.n
    a = to_arr(it, seq.at(e))
    nd = a.ndim
    axis %= nd
    d = a.shape[axis]
    if d.syms() & e.syms():
        raise Unsupported('joining arrays of different sizes')
    n = seq.n if d == 1 else prod_dim([d, seq.n])
    st = A.stack_sym(it, seq)
    f = st.snap()

    def fn(*idx):
        if d == 1:
            q, r = idx[axis], I0
        else:
            q, r = A.divmod_int(it, idx[axis], d)
        return f(q, *(idx[:axis] + (r,) + idx[axis + 1:]))
    return mk(a.shape[:axis] + (n,) + a.shape[axis + 1:], fn, a.kind)


def args_seq(it, v):
    return it.as_seq(v)


@nf('concatenate')
def concatenate(it, arrs, axis=0):
    if axis is None:
        s = args_seq(it, arrs)
        if isinstance(s, SymSeq):
            raise Unsupported('joining a symbolic number of arrays')
        return concat(it, [A.ravel(it, to_arr(it, a)) for a in s], 0)
    return concat(it, args_seq(it, arrs), axis)


def up(it, a, nd):
    a = to_arr(it, a)
    while a.ndim < nd:
        a = expand_dims_(it, a, 0)
    return a


def seq_map(it, s, f):
    if isinstance(s, list):
        return [f(x) for x in s]
    return it.make_seq(s.n, lambda k: f(s.at(k)))


@nf('hstack')
def hstack(it, arrs):
    s = seq_map(it, args_seq(it, arrs), lambda a: up(it, a, 1))
    nd = (s[0] if isinstance(s, list) else s.at(fresh_ix(s.n))).ndim
    return concat(it, s, 0 if nd == 1 else 1)


@nf('vstack', 'row_stack')
def vstack(it, arrs):
    return concat(it, seq_map(it, args_seq(it, arrs), lambda a: up(it, a, 2)), 0)


@nf('column_stack')
def column_stack(it, arrs):
    def f(a):
        a = to_arr(it, a)
        return a if a.ndim > 1 else expand_dims_(it, up(it, a, 1), 1)
    return concat(it, seq_map(it, args_seq(it, arrs), f), 1)


@nf('dstack')
def dstack(it, arrs):
    def f(a):
        a = up(it, a, 2)
        return a if a.ndim > 2 else expand_dims_(it, a, 2)
    return concat(it, seq_map(it, args_seq(it, arrs), f), 2)


@nf('stack')
def stack(it, arrs, axis=0):
    def f(a):
        return expand_dims_(it, to_arr(it, a), axis)
    return concat(it, seq_map(it, args_seq(it, arrs), f), axis)


@nf('append')
def append(it, a, b, axis=None):
    if axis is None:
        return concat(it, [A.ravel(it, to_arr(it, a)), A.ravel(it, to_arr(it, b))], 0)
    return concat(it, [to_arr(it, a), to_arr(it, b)], axis)


@nf('rollaxis')
def rollaxis(it, a, axis, start=0):
    if axis == 0 and start == 0:
        return to_arr(it, a)
    raise Unsupported('rollaxis')


@nf('split')
def split(it, a, ind, axis=0):
    """splitting at every position: the single slices"""
    a, ind = to_arr(it, a), to_arr(it, ind)
    if not isinstance(a, Arr) or ind.ndim != 1 or axis not in (0, 1) or a.ndim <= axis:
        raise Unsupported('split')
    d = a.shape[axis]
    k = fresh_ix(ind.shape[0]) if not ind.shape[0].is_const() or ind.shape[0].const() > 0 else None
    if not (ind.shape[0] + 1 == d) or (k is not None and not (ie(ind.get((k,))) == k + 1)):
        raise Unsupported('split')
    f = a.snap()

    def part(q):
        sh = list(a.shape)
        sh[axis] = I1
        return mk(sh, lambda *i: f(*(i[:axis] + (ie(q) + ie(i[axis]),) + i[axis + 1:])), a.kind)
    if d.is_const():
        return [part(q) for q in range(d.const())]
    return SymSeq(d, part)
