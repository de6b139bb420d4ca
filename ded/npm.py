"""Python built-ins, attribute access and operator dispatch for the symbolic interpreter; the native modules."""
import math
import expr as X
from expr import (IntE, R, ie, I0, I1, REG, Unsupported, TRUE, FALSE, c_and, c_or, c_not, c_icmp, real, fresh_ix, forall)
from vals import (PyRaise, B, b_of, bsimp, S, s_of, s_abs, s_cmp, s_sqrt, v_subst, v_ite, Obj, Fam, SymSeq, Arr, OArr, mk,
                  HOOK, CondStr, Poison)
import interp as I
from interp import Native, TypeVal, Mod, PyClass, PyFunc, Bound, Opaque, Star, SymTail
import npm_arr as A
from npm_arr import is_scalar, kind_of, to_arr, ufunc, out
import npm_fn as F
import npm_fn2 as F2
import npm_fn3 as F3
import npm_la as LA
from npm_fn import NP

REPLACED = ('ellipy.gen.logging.logging',)


def replaced(it, name):
    return {'get_logger': Native('get_logger', lambda it, a, k: Opaque('logger'))}


def throw_error(it, args, kw):
    tag = args[0] if args else kw.get('tag')
    if kw.get('throw', True) is False or (len(args) > 3 and args[3] is False):
        return Opaque('error')
    raise PyRaise('ValueError', tag if isinstance(tag, str) else '')


def throw_warn(it, args, kw):
    return None


def is_member(it, args, kw):
    a, b = [unlist(it, x) for x in args]
    if not all(isinstance(x, str) for x in a + b):
        raise Unsupported('is_member of numbers')
    fl = [x in b for x in a]
    idx = [b.index(x) for x, f in zip(a, fl) if f]
    return (mk((len(fl),), A.pick(fl), 'b') if fl else to_arr(it, []),
            mk((len(idx),), A.pick(idx), 'i') if idx else to_arr(it, []))


def unlist(it, x):
    if isinstance(x, OArr):
        x = x.items
    s = it.as_seq(x)
    if isinstance(s, SymSeq):
        raise Unsupported('symbolic list')
    return s


OVERRIDE = {'ellipy.gen.common.common': {'throw_error': throw_error, 'throw_warn': throw_warn, 'is_member': is_member,
                                         'get_caller_name': lambda it, a, k: 'caller',
                                         'get_caller_name_ext': lambda it, a, k: ('caller', 'caller')}}


# ---------------------------------------------------------------- types
def t_int(it, args, kw):
    if not args:
        return 0
    v = args[0]
    if isinstance(v, str):
        raise Unsupported('int of text')
    v = F2.unit(v)
    if isinstance(v, B):
        return v_ite(v.c, 1, 0)
    r = F.to_int(v)
    return r


def t_float(it, args, kw):
    if not args:
        return S(X.ZERO)
    v = args[0]
    if isinstance(v, str):
        return s_of(float(v))
    return A.fl(F2.unit(v))


def t_bool(it, args, kw):
    if not args:
        return False
    v = args[0]
    if isinstance(v, Arr):
        v = F2.unit(v)
    if isinstance(v, (S, B, int, float, IntE)):
        return bsimp(b_of(v))
    return it.truth(v)


def t_str(it, args, kw):
    if args and isinstance(args[0], str):
        return args[0]
    if args and isinstance(args[0], int):
        return str(args[0])
    return Opaque('text')


def t_list(it, args, kw):
    if not args:
        return it.new_list([])
    s = it.as_seq(args[0])
    return it.wrap_seq(s) if isinstance(s, SymSeq) else it.new_list(list(s))


def t_tuple(it, args, kw):
    if not args:
        return ()
    s = it.as_seq(args[0])
    if isinstance(s, SymSeq):
        return s
    return tuple(s)


def t_dict(it, args, kw):
    d = {}
    if args:
        a = args[0]
        if isinstance(a, dict):
            d.update(a)
        else:
            for p in unlist(it, a):
                k, v = it.unpack(p, 2)
                d[hkey(k)] = v
    d.update(kw)
    return it.new_dict(d)


def t_set(it, args, kw):
    return set(hkey(x) for x in (unlist(it, args[0]) if args else []))


def t_type(it, args, kw):
    if len(args) != 1:
        raise Unsupported('type()')
    return type_of(args[0])


def hkey(k):
    if isinstance(k, IntE):
        if k.is_const():
            return k.const()
        raise Unsupported('symbolic key')
    if isinstance(k, (str, int, bool, tuple)) or k is None:
        return k
    if isinstance(k, S) and k.v.is_const() and k.bad == FALSE:
        c = k.v.const()
        return int(c) if c.denominator == 1 else float(c)
    if isinstance(k, (PyClass, TypeVal, Obj)):
        return k
    raise Unsupported('key of type ' + type(k).__name__)


T = {n: TypeVal(n, c) for n, c in (('int', t_int), ('float', t_float), ('bool', t_bool), ('str', t_str), ('list', t_list),
                                   ('tuple', t_tuple), ('dict', t_dict), ('set', t_set), ('type', t_type),
                                   ('frozenset', t_set), ('complex', None), ('object', None), ('bytes', None),
                                   ('NoneType', None), ('function', None), ('module', None),
                                   ('ndarray', lambda it, a, k: NP['empty'].fn(it, a, k)))}
NP['ndarray'] = T['ndarray']
NP['generic'] = TypeVal('generic')
NP['number'] = TypeVal('number')
NP['integer'] = TypeVal('integer')
NP['floating'] = TypeVal('floating')
NP['float'] = T['float']
NP['int'] = T['int']
NP['bool'] = T['bool']
NP['object'] = NP['object_'] = T['object']
NP['double'] = NP['float64']
NP['complex'] = NP['complex128'] = T['complex']
NP['str'] = NP['str_'] = T['str']


def type_of(v):
    if isinstance(v, (bool, B)):
        return T['bool']
    if isinstance(v, (int, IntE)):
        return T['int']
    if isinstance(v, (float, S)):
        return T['int'] if isinstance(v, S) and v.ty == 'int' else T['float']
    if isinstance(v, (Arr, OArr)):
        return T['ndarray']
    if isinstance(v, (str, CondStr)):
        return T['str']
    if v is None:
        return T['NoneType']
    if isinstance(v, Obj):
        return v.cls
    if isinstance(v, (PyFunc, Native, Bound)):
        return T['function']
    if isinstance(v, (PyClass, TypeVal)):
        return T['type']
    for t in (list, tuple, dict, set):
        if isinstance(v, t):
            return T[t.__name__]
    if isinstance(v, SymSeq):
        return T['list']
    raise Unsupported('type of %s' % type(v).__name__)


def isinst(it, v, t):
    if isinstance(t, tuple):
        return any(isinst(it, v, x) for x in t)
    if isinstance(t, PyClass):
        return isinstance(v, Obj) and v.cls.sub(t)
    if isinstance(t, Opaque):
        n = t.name
        if n == 'Iterable':
            return isinstance(v, (list, tuple, dict, set, str, SymSeq, Arr, OArr, range))
        if n == 'Callable':
            return is_callable(v)
        raise Unsupported('isinstance of ' + n)
    if isinstance(t, Native):
        raise Unsupported('isinstance ' + t.name)
    n = t.name
    if n == 'object':
        return True
    if n in ('number', 'generic'):
        return isinstance(v, (S, B, IntE))
    if n in ('integer', 'floating'):
        raise Unsupported('isinstance ' + n)
    tn = type_of(v)
    if isinstance(tn, PyClass):
        return False
    if n == 'int' and tn.name == 'bool':
        return True
    return tn.name == n


def is_callable(v):
    return isinstance(v, (PyFunc, Native, Bound, PyClass, TypeVal)) or \
        (isinstance(v, Obj) and v.cls.lookup('__call__') is not None)


# ---------------------------------------------------------------- builtins
BUILTINS = dict(T)
for _e in ('ValueError', 'TypeError', 'Exception', 'KeyError', 'IndexError', 'AttributeError', 'NotImplementedError',
           'AssertionError', 'RuntimeError', 'RuntimeWarning', 'ArithmeticError', 'ZeroDivisionError', 'UserWarning',
           'DeprecationWarning', 'BaseException', 'FutureWarning', 'Warning', 'StopIteration', 'OverflowError', 'ImportError',
           'NameError', 'SyntaxError'):
    BUILTINS[_e] = TypeVal(_e, lambda it, a, k: Opaque('exception'))
BUILTINS['NotImplemented'] = Opaque('NotImplemented')
BUILTINS['Ellipsis'] = Ellipsis
BUILTINS['__debug__'] = True


def bi(*names):
    def deco(f):
        for n in names:
            BUILTINS[n] = Native(n, lambda it, args, kw, f=f: f(it, *args, **kw))
        return f
    return deco


@bi('range')
def b_range(it, a, b=None, step=None):
    lo, hi = (0, a) if b is None else (a, b)
    st = 1 if step is None else ie(step)
    for v in (lo, hi):
        if isinstance(v, S):
            if v.ty != 'int':
                raise PyRaise('TypeError', '', 'float range')
            raise Unsupported('range of an unknown integer')
    if isinstance(lo, Arr):
        lo = F2.unit(lo)
    if isinstance(hi, Arr):
        hi = F2.unit(hi)
    st = st if isinstance(st, int) else st.const() if st.is_const() else None
    if st is None:
        raise Unsupported('symbolic step')
    lo, hi = ie(lo), ie(hi)
    if lo.is_const() and hi.is_const():
        return [x for x in range(lo.const(), hi.const(), st)]
    if st == -1:
        n = lo - hi
    elif st == 1:
        n = hi - lo
    else:
        raise Unsupported('step of a symbolic range')
    if not X.int_holds(None, '<=', -n):
        if not it.decide(c_icmp('<=', -n)):
            return []
    if n.is_const():
        return [(lo + k * st).simp() for k in range(n.const())]
    return SymSeq(n, lambda k: (lo + ie(k) * st).simp())


@bi('len')
def b_len(it, v):
    if isinstance(v, (list, tuple, dict, set, str)):
        s = A.unseq(v) if isinstance(v, list) else v
        return s.n.simp() if isinstance(s, SymSeq) else len(s)
    if isinstance(v, SymSeq):
        return v.n.simp()
    if isinstance(v, (Arr, OArr)):
        if v.ndim == 0:
            raise PyRaise('TypeError', '', 'len() of unsized object')
        return v.shape[0].simp()
    if isinstance(v, FlatView):
        return v.size()
    if isinstance(v, Obj) and v.cls.lookup('__len__'):
        return it.call(it.getattr(v, '__len__'), [])
    raise PyRaise('TypeError', '', 'len')


def seq_arg(it, args):
    return it.as_seq(args[0]) if len(args) == 1 else list(args)


@bi('min')
def b_min(it, *args):
    return F2.seq_extreme(it, seq_arg(it, args), 'amin')


@bi('max')
def b_max(it, *args):
    return F2.seq_extreme(it, seq_arg(it, args), 'amax')


@bi('abs')
def b_abs(it, v):
    return NP['abs'].fn(it, [v], {})


@bi('sum')
def b_sum(it, seq, start=0):
    s = it.as_seq(seq)
    if isinstance(s, SymSeq):
        e = s.at(IntE.sym(REG.fresh('~b')))
        if is_scalar(e):
            return A.arith(it, 'Add', start, A.sum_over(it, s.n, s.at))
        a = A.stack_sym(it, s)
        return binop(it, 'Add', start, A.np_sum(it, a, 0))
    r = start
    for v in s:
        r = binop(it, 'Add', r, v)
    return r


@bi('any')
def b_any(it, seq):
    s = it.as_seq(seq)
    if isinstance(s, SymSeq):
        return bsimp(B(A.quant(it, s.n, lambda k: b_of(s.at(k)).c, 'ex')))
    return bsimp(B(c_or(*[b_of(v).c if not isinstance(v, (list, tuple, dict)) else (TRUE if v else FALSE) for v in s])))


@bi('all')
def b_all(it, seq):
    s = it.as_seq(seq)
    if isinstance(s, SymSeq):
        return bsimp(B(A.quant(it, s.n, lambda k: b_of(s.at(k)).c, 'all')))
    return bsimp(B(c_and(*[b_of(v).c if not isinstance(v, (list, tuple, dict)) else (TRUE if v else FALSE) for v in s])))


@bi('map')
def b_map(it, f, *seqs):
    if len(seqs) == 1:
        s = it.as_seq(seqs[0])
        if isinstance(s, SymSeq) and not s.n.is_const():
            at = it.generic(s.n, lambda i: it.call(f, [s.at(i)]), None)
            return it.wrap_seq(it.make_seq(s.n, at))
        if isinstance(s, SymSeq):
            s = [s.at(k) for k in range(s.n.const())]
        return it.new_list([it.call(f, [v]) for v in s])
    ss = [it.as_seq(s) for s in seqs]
    if any(isinstance(s, SymSeq) for s in ss):
        z = b_zip(it, *seqs)
        zs = it.as_seq(z)
        at = it.generic(zs.n, lambda i: it.call(f, list(zs.at(i))), None)
        return it.wrap_seq(it.make_seq(zs.n, at))
    return it.new_list([it.call(f, list(v)) for v in zip(*ss)])


@bi('filter')
def b_filter(it, f, seq):
    s = unlist(it, seq)
    return it.new_list([v for v in s if it.truth(v if f is None else it.call(f, [v]))])


@bi('zip')
def b_zip(it, *seqs):
    if any(isinstance(s, Star) for s in seqs):
        if len(seqs) != 1:
            raise Unsupported('zip')
        s = seqs[0].seq
        e = s.at(IntE.sym(REG.fresh('~z')))
        if not isinstance(e, (tuple, list)):
            raise Unsupported('zip of a symbolic number of sequences')
        return [it.make_seq(s.n, lambda k, q=q: s.at(k)[q]) for q in range(len(e))]
    ss = [it.as_seq(s) for s in seqs]
    if not any(isinstance(s, SymSeq) for s in ss):
        return [tuple(v) for v in zip(*ss)]
    ns = [s.n if isinstance(s, SymSeq) else ie(len(s)) for s in ss]
    for n in ns[1:]:
        if not it.same(n, ns[0]):
            raise Unsupported('zip of sequences of different lengths')
    gs = [s.at if isinstance(s, SymSeq) else A.pick(s) for s in ss]
    return SymSeq(ns[0], lambda k: tuple(g(k) for g in gs))


@bi('enumerate')
def b_enumerate(it, seq, start=0):
    s = it.as_seq(seq)
    if isinstance(s, SymSeq):
        return SymSeq(s.n, lambda k: ((ie(k) + start).simp(), s.at(k)))
    return [(k + start, v) for k, v in enumerate(s)]


@bi('reversed')
def b_reversed(it, seq):
    s = it.as_seq(seq)
    if isinstance(s, SymSeq):
        return SymSeq(s.n, lambda k: s.at(s.n - 1 - ie(k)))
    return list(reversed(s))


@bi('sorted')
def b_sorted(it, seq, key=None, reverse=False):
    s = unlist(it, seq)
    if key is not None:
        ks = [it.call(key, [v]) for v in s]
    else:
        ks = s
    if all(isinstance(k, (str, int)) for k in ks):
        r = [v for _, v in sorted(zip(ks, s), key=lambda p: p[0], reverse=reverse)]
        return it.new_list(r)
    raise Unsupported('sorting')


@bi('round')
def b_round(it, v, nd=None):
    if isinstance(v, (int, IntE)):
        return v
    raise Unsupported('round')


@bi('pow')
def b_pow(it, a, b):
    return binop(it, 'Pow', a, b)


@bi('divmod')
def b_divmod(it, a, b):
    return (binop(it, 'FloorDiv', a, b), binop(it, 'Mod', a, b))


@bi('isinstance')
def b_isinstance(it, v, t):
    return isinst(it, v, t)


@bi('issubclass')
def b_issubclass(it, v, t):
    ts = t if isinstance(t, tuple) else (t,)
    return any(isinstance(v, PyClass) and isinstance(x, PyClass) and v.sub(x) for x in ts)


@bi('callable')
def b_callable(it, v):
    return is_callable(v)


@bi('hasattr')
def b_hasattr(it, v, n):
    if isinstance(v, Obj):
        return v.hasattr(n) or v.cls.lookup(n) is not None
    try:
        it.getattr(v, n)
        return True
    except PyRaise as e:
        if e.etype == 'AttributeError':
            return False
        raise


@bi('getattr')
def b_getattr(it, v, n, *d):
    try:
        return it.getattr(v, n)
    except PyRaise as e:
        if e.etype == 'AttributeError' and d:
            return d[0]
        raise


@bi('setattr')
def b_setattr(it, v, n, x):
    it.setattr(v, n, x)


@bi('id')
def b_id(it, v):
    return Opaque('id')


@bi('print')
def b_print(it, *a, **k):
    return None


@bi('iter')
def b_iter(it, v):
    return v


@bi('exec', 'eval', 'locals', 'globals')
def b_special(it, *a):
    raise Unsupported('exec')


def special(it, name, args, scope):
    if name == 'globals':
        return scope.mod.ns
    raise Unsupported(name)


# ---------------------------------------------------------------- flat views
class FlatView:
    def __init__(self, a):
        self.a = a

    def size(self):
        return A.flat_len(self.a.shape).simp()


def flat_get(it, fv, ix):
    a = fv.a
    if isinstance(a, OArr):
        n = a.size()
        k = A.norm_index(it, ix, n)
        if isinstance(a.items, list):
            if not k.is_const():
                return A.pick(a.items)(k)
            return a.items[k.const()]
        return a.items.at(k)
    return getitem(it, A.copy_arr(A.ravel(it, a)), ix)


# ---------------------------------------------------------------- item access
def getitem(it, base, ix):
    if isinstance(base, Arr):
        if base.ndim == 0 and (isinstance(ix, (B, bool)) or isinstance(ix, Arr) and ix.ndim == 0 and ix.kind == 'b'):
            # a 0-d array selected by a 0-d condition: one element or none
            v = base.get(())
            if it.truth(ix.get(()) if isinstance(ix, Arr) else ix):
                return mk((I1,), lambda k: v, base.kind)
            return mk((I0,), lambda k: v, base.kind)
        return A.getitem_arr(it, base, conv_ix(ix))
    if isinstance(base, OArr):
        return oarr_get(it, base, ix)
    if isinstance(base, FlatView):
        return flat_get(it, base, ix)
    if isinstance(base, dict):
        k = hkey(ix)
        if k not in base:
            raise PyRaise('KeyError')
        return base[k]
    if isinstance(base, list):
        base = A.unseq(base)
    if isinstance(base, SymSeq):
        if isinstance(ix, slice):
            if ix == slice(None):
                return it.wrap_seq(base)
            off, n, sg = A.norm_slice(it, ix, base.n)
            if n.is_const():
                return it.new_list([base.at(off + k * sg) for k in range(n.const())])
            return it.wrap_seq(it.make_seq(n, lambda k: base.at(off + ie(k) * sg)))
        return base.at(A.norm_index(it, F2.unit(ix), base.n))
    if isinstance(base, (list, tuple, str)):
        if isinstance(ix, slice):
            s = slice(*[None if x is None else cint(x) for x in (ix.start, ix.stop, ix.step)])
            r = base[s]
            return it.new_list(r) if isinstance(r, list) else r
        if not isinstance(ix, (int, IntE, Arr)):
            raise PyRaise('TypeError', '', 'list index')
        k = A.norm_index(it, F2.unit(ix), len(base))
        if k.is_const():
            return base[k.const()]
        return A.pick(list(base))(k)
    if isinstance(base, Obj) and base.cls.lookup('__getitem__'):
        return it.call(it.getattr(base, '__getitem__'), [ix])
    if isinstance(base, Opaque):
        return Opaque(base.name)
    if isinstance(base, (S, B)) and ix == ():
        return base
    if is_scalar(base):
        raise PyRaise('TypeError', '', 'not subscriptable')
    raise PyRaise('TypeError', '', 'not subscriptable: %s' % type(base).__name__)


def cint(x):
    x = ie(x)
    if not x.is_const():
        raise Unsupported('symbolic slice of a concrete list')
    return x.const()


def conv_ix(ix):
    if isinstance(ix, tuple):
        return tuple(conv_ix(x) for x in ix)
    if isinstance(ix, A.Cell):
        return ix.get()
    if isinstance(ix, (B, bool)):
        raise Unsupported('boolean scalar index')
    return ix


def oarr_region(it, a, ix):
    if not isinstance(ix, tuple):
        ix = (ix,)
    pl = A.plan(it, a, conv_ix(ix))
    return pl


def oarr_get(it, a, ix):
    if isinstance(ix, Arr) or isinstance(ix, list):
        return oarr_fancy(it, a, to_arr(it, ix))
    pl = oarr_region(it, a, ix)
    if any(p[0] in ('mask', 'arr') for p in pl):
        raise Unsupported('index array into objects')
    if all(p[0] == 'pt' for p in pl):
        e, st = I0, I1
        for p in reversed(pl):
            e = e + p[1] * st
            st = st * a.shape[p[2]]
        if isinstance(a.items, list):
            return a.items[e.const()] if e.is_const() else A.pick(a.items)(e)
        return a.items.at(e)
    # sub-array
    shape = [I1 if p[0] == 'new' else p[2] for p in pl if p[0] != 'pt']
    full = all(p[0] in ('new',) or (p[0] == 'rng' and p[1] == 0 and p[3] == 1 and it.same(p[2], a.shape[p[4]])) or
               (p[0] == 'pt' and it.same(a.shape[p[2]], 1)) for p in pl)
    if full:
        return OArr(shape, a.items)
    if isinstance(a.items, list) and all(d.is_const() for d in a.shape):
        import itertools
        axes = []
        for p in pl:
            if p[0] == 'pt':
                axes.append((p[2], [p[1].const()]))
            elif p[0] == 'rng':
                axes.append((p[4], [(p[1] + k * p[3]).const() for k in range(p[2].const())]))
        axes.sort()
        sh = [d.const() for d in a.shape]
        items = []
        for c in itertools.product(*[x for _, x in axes]):
            e = 0
            for q, d in zip(c, sh):
                e = e * d + q
            items.append(a.items[e])
        return OArr(shape, items)
    if isinstance(a.items, SymSeq) and a.ndim == 1 and pl[0][0] == 'rng':
        p = pl[0]
        return OArr((p[2],), it.make_seq(p[2], lambda k: a.items.at(p[1] + ie(k) * p[3])))
    raise Unsupported('part of an object array')


def oarr_fancy(it, a, x):
    if isinstance(x, OArr):
        raise Unsupported('index')
    f = x.snap()
    if x.kind == 'b':
        n = a.size()
        if n.is_const() and isinstance(a.items, list):
            flt = A.ravel(it, x) if x.ndim != 1 else x
            g = flt.snap()
            items = [a.items[k] for k in range(n.const()) if it.truth(g(ie(k)))]
            return OArr((len(items),), items)
        mi = A.mask_info(it, x)
        if mi is None:
            return OArr((n,), a.items)
        raise Unsupported('selection of objects')
    if a.ndim == 1 and x.ndim == 1:
        if x.shape[0].is_const():
            items = []
            for k in range(x.shape[0].const()):
                items.append(oarr_get(it, a, f(ie(k))))
            return OArr((len(items),), items)
        return OArr(x.shape, it.make_seq(x.shape[0], lambda k: oarr_get(it, a, f(ie(k)))))
    raise Unsupported('index array into objects')


def setitem(it, base, ix, v):
    if isinstance(base, Arr):
        if base.kind == 'f' or base.kind == 'i' or base.kind == 'b':
            A.setitem_arr(it, base, conv_ix(ix), v)
            return
    if isinstance(base, dict):
        it.dict_mut(base)
        base[hkey(ix)] = v
        return
    if isinstance(base, list):
        if A.unseq(base) is not base:
            raise Unsupported('assignment into a symbolic list')
        if len(it.levels) > 1:
            raise Unsupported('list changed in a loop')
        k = A.norm_index(it, ix, len(base))
        base[k.const() if k.is_const() else bad('symbolic index')] = v
        return
    if isinstance(base, FlatView):
        base2 = base.a
        if isinstance(base2, OArr):
            k = A.norm_index(it, ix, base2.size())
            oset(it, base2, k, v)
            return
        fl = A.ravel(it, base2)
        if fl.ro:
            raise Unsupported('assignment through flat')
        A.setitem_arr(it, fl, ix, v)
        return
    if isinstance(base, OArr):
        pl = oarr_region(it, base, ix)
        if all(p[0] == 'pt' for p in pl):
            e, st = I0, I1
            for p in reversed(pl):
                e = e + p[1] * st
                st = st * base.shape[p[2]]
            if isinstance(v, OArr) and v.size() == 1:
                v = v.items[0] if isinstance(v.items, list) else v.items.at(I0)
            oset(it, base, e, v)
            return
        if all(p[0] == 'rng' and p[1] == 0 and p[3] == 1 and it.same(p[2], base.shape[p[4]]) for p in pl) and \
                isinstance(v, OArr) and len(it.levels) == 1 and all(it.same(p, q) for p, q in zip(v.shape, base.shape)):
            base.items = list(v.items) if isinstance(v.items, list) else v.items
            return
        raise Unsupported('assignment into an object array')
    if isinstance(base, Obj) and base.cls.lookup('__setitem__'):
        it.call(it.getattr(base, '__setitem__'), [ix, v])
        return
    raise Unsupported('item assignment to %s' % type(base).__name__)


def bad(m):
    raise Unsupported(m)


def oset(it, a, e, v):
    old = a.items
    if isinstance(a.items, list) and e.is_const():
        k = e.const()
        prev = a.items[k]

        def undo():
            a.items[k] = prev
        a.items[k] = v
    else:
        n = a.size()
        prevseq = a.items

        def at(j):
            j = ie(j)
            c = c_icmp('==', j - e)
            if c == TRUE:
                return v
            o = (A.pick(prevseq)(j) if isinstance(prevseq, list) else prevseq.at(j))
            return o if c == FALSE else v_ite(c, v, o)

        def undo():
            a.items = old
        a.items = SymSeq(n, at)
    if HOOK.log is not None:
        HOOK.log.append((undo, 'oset', a, e, v))


# ---------------------------------------------------------------- operators
DUNDER = {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'MatMult': 'matmul', 'Div': 'truediv', 'Pow': 'pow'}


class Sparse:
    """scipy.sparse matrix: only products, transposition and conversion are described"""
    def __init__(self, dense):
        self.dense = dense


def csc_matrix(it, args, kw):
    kw = dict(kw)
    shape = kw.pop('shape', args[1] if len(args) == 2 else None)
    x = A.unseq(args[0]) if isinstance(args[0], list) else args[0]
    if kw or not args or len(args) > 2 or not isinstance(x, tuple) or len(x) != 2 or not isinstance(x[1], tuple) or shape is None:
        raise Unsupported('this form of a sparse matrix')
    data, (i, j) = to_arr(it, x[0]), [to_arr(it, v) for v in x[1]]
    if any(v.ndim != 1 or isinstance(v, OArr) or v.mask is not None for v in (data, i, j)) or i.kind != 'i' or j.kind != 'i':
        raise Unsupported('this form of a sparse matrix')
    it.require_same(data.shape[0], i.shape[0])
    it.require_same(data.shape[0], j.shape[0])
    d = data.shape[0]
    m, n = [A.ie(v) for v in A.norm_shape(it, shape)]
    f, gi, gj = data.snap(), i.snap(), j.snap()
    # positions must lie inside the matrix
    k = fresh_ix(d)
    for g, b in ((gi, m), (gj, n)):
        e = ie(F2.unit(g(k)))
        if not (it.implied(c_icmp('<=', -e)) and it.implied(c_icmp('<', e - b))):
            raise Unsupported('positions of a sparse matrix')

    def at(r, c):
        def term(k):
            v = s_of(f(k))
            if v.bad != FALSE and not it.implied(c_not(v.bad)):
                raise Unsupported('sparse matrix of possibly non-finite numbers')
            return v.v * X.r_delta(ie(F2.unit(gi(k))) - r) * X.r_delta(ie(F2.unit(gj(k))) - c)
        return S(X.r_sum(d, term))
    return Sparse(mk((m, n), at, 'f'))


def sparse_matmul(it, a, b):
    both = isinstance(a, Sparse) and isinstance(b, Sparse)
    r = F3.matmul(it, *[x.dense if isinstance(x, Sparse) else x for x in (a, b)])
    return Sparse(r) if both else r


def binop(it, op, a, b):
    if isinstance(a, A.Cell):
        a = a.get()
    if isinstance(b, A.Cell):
        b = b.get()
    if isinstance(a, Sparse) or isinstance(b, Sparse):
        if op == 'MatMult':
            return sparse_matmul(it, a, b)
        raise Unsupported('operator %s of a sparse matrix' % op)
    if op == 'MatMult':
        return F3.matmul(it, a, b)
    if isinstance(a, set) and isinstance(b, set) and op in ('Sub', 'BitAnd', 'BitOr', 'BitXor'):
        return {'Sub': a - b, 'BitAnd': a & b, 'BitOr': a | b, 'BitXor': a ^ b}[op]
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        return Opaque('text')
    if is_scalar(a) and is_scalar(b):
        if op in ('BitAnd', 'BitOr', 'BitXor') and isinstance(a, (bool, B)) and isinstance(b, (bool, B)):
            x, y = b_of(a).c, b_of(b).c
            return bsimp(B({'BitAnd': c_and(x, y), 'BitOr': c_or(x, y), 'BitXor': c_not(X.c_iff(x, y))}[op]))
        if isinstance(a, bool):
            a = int(a)
        if isinstance(b, bool):
            b = int(b)
        if op == 'Div':
            z = b if isinstance(b, (int, IntE)) else None
            if z is not None and ie(z) == 0:
                raise PyRaise('ZeroDivisionError')
        return A.arith(it, op, a, b)
    if isinstance(a, str) or isinstance(b, str):
        if op == 'Add' and isinstance(a, str) and isinstance(b, str):
            return a + b
        if op == 'Mod' and isinstance(a, str):
            xs = [text_of(x) for x in (b if isinstance(b, tuple) else (b,))]
            try:
                import re
                return Opaque('text') if None in xs else re.sub('%[0-9.]*[a-zA-Z]', '%s', a) % tuple(xs)
            except (TypeError, ValueError):
                return Opaque('text')
        if op == 'Mult' and isinstance(b, int):
            return a * b
        raise PyRaise('TypeError')
    if isinstance(a, (Arr, OArr)) or isinstance(b, (Arr, OArr)):
        if isinstance(a, (list, tuple)):
            a = to_arr(it, a)
        if isinstance(b, (list, tuple)):
            b = to_arr(it, b)
        if a is None or b is None or isinstance(a, (dict, Obj)) or isinstance(b, (dict, Obj)):
            raise PyRaise('TypeError')
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            return NP[{'BitAnd': 'logical_and', 'BitOr': 'logical_or', 'BitXor': 'logical_xor'}[op]].fn(it, [a, b], {})
        k = 'f' if op == 'Div' else None
        if k is None and kind_of(a) == 'b' and kind_of(b) == 'b':
            if op == 'Sub':
                raise PyRaise('TypeError', '', 'boolean subtract')
            if op == 'Add':
                return NP['logical_or'].fn(it, [a, b], {})
            if op == 'Mult':
                return NP['logical_and'].fn(it, [a, b], {})
        return ufunc(it, lambda x, y: A.arith(it, op, x, y), [a, b], k)
    if isinstance(a, list) and isinstance(b, list) and op == 'Add':
        x, y = A.unseq(a), A.unseq(b)
        if isinstance(x, SymSeq) or isinstance(y, SymSeq):
            return it.wrap_seq(join_seq(it, x, y))
        return it.new_list(x + y)
    if isinstance(a, tuple) and isinstance(b, tuple) and op == 'Add':
        return a + b
    if op == 'Mult' and isinstance(b, (list, tuple)):
        a, b = b, a
    if op == 'Mult' and isinstance(a, (list, tuple)) and isinstance(b, (int, IntE)):
        s = A.unseq(a) if isinstance(a, list) else a
        if isinstance(s, SymSeq):
            raise Unsupported('repeated symbolic list')
        if ie(b).is_const():
            r = s * ie(b).const()
            return it.new_list(r) if isinstance(r, list) else r
        if len(s) == 1 and (s[0] is None or is_scalar(s[0]) or isinstance(s[0], (str, Obj))):
            v = s[0]
            return it.wrap_seq(SymSeq(ie(b), lambda k: v))
        raise Unsupported('repeated list')
    for x, y, pre in ((a, b, ''), (b, a, 'r')):
        if isinstance(x, Obj) and op in DUNDER:
            m = x.cls.lookup('__%s%s__' % (pre, DUNDER[op]))
            if m is not None:
                return it.call(it.bind(m, x, x.cls), [y])
    raise PyRaise('TypeError', '', 'operator %s' % op)


def join_seq(it, x, y):
    nx = x.n if isinstance(x, SymSeq) else ie(len(x))
    ny = y.n if isinstance(y, SymSeq) else ie(len(y))
    if nx == 0:
        return y
    if ny == 0:
        return x
    gx = x.at if isinstance(x, SymSeq) else A.pick(x)
    gy = y.at if isinstance(y, SymSeq) else A.pick(y)

    def at(k):
        k = ie(k)
        if X.int_holds(None, '<', k - nx):
            return gx(k)
        if X.int_holds(None, '<=', nx - k):
            return gy(k - nx)
        return v_ite(c_icmp('<', k - nx), gx(k), gy(k - nx))
    return SymSeq(nx + ny, at)


def unop(it, op, v):
    if isinstance(v, Opaque):
        return v
    if op == 'USub':
        if isinstance(v, (list, tuple, str, dict)) or v is None:
            raise PyRaise('TypeError')
        if isinstance(v, bool):
            return -int(v)
        if isinstance(v, float):
            return -v
        if isinstance(v, Arr) and v.kind == 'b':
            raise PyRaise('TypeError', '', 'boolean negative')
        return ufunc(it, neg, [v])
    if op == 'UAdd':
        return v
    if op == 'Invert':
        if isinstance(v, bool):
            raise Unsupported('~ of a python bool')
        if isinstance(v, B) or (isinstance(v, Arr) and v.kind == 'b'):
            return NP['logical_not'].fn(it, [v], {})
        if isinstance(v, (int, IntE)):
            return (-ie(v) - 1).simp()
    raise Unsupported('unary operator')


def neg(x):
    from vals import s_neg
    if isinstance(x, (int, IntE)):
        return (-ie(x)).simp()
    return s_neg(s_of(x))


CMPM = {'Eq': '__eq__', 'NotEq': '__ne__', 'Lt': '__lt__', 'LtE': '__le__', 'Gt': '__gt__', 'GtE': '__ge__'}


def inot(v):
    if isinstance(v, bool):
        return not v
    return bsimp(B(c_not(b_of(v).c)))


def compare(it, op, a, b):
    if isinstance(a, A.Cell):
        a = a.get()
    if isinstance(b, A.Cell):
        b = b.get()
    if op in ('Is', 'IsNot'):
        r = same_obj(it, a, b)
        return r if op == 'Is' else inot(r)
    if op in ('In', 'NotIn'):
        r = contains(it, a, b)
        return r if op == 'In' else inot(r)
    if is_scalar(a) and is_scalar(b):
        return A.ncmp(it, op, a, b)
    if isinstance(a, (Arr, OArr)) or isinstance(b, (Arr, OArr)):
        if a is None or b is None or isinstance(a, (str, dict)) or isinstance(b, (str, dict)):
            raise Unsupported('array compared with another kind of value')
        if isinstance(a, (list, tuple)):
            a = to_arr(it, a)
        if isinstance(b, (list, tuple)):
            b = to_arr(it, b)
        if isinstance(a, (OArr, Obj)) or isinstance(b, (OArr, Obj)):
            raise Unsupported('comparison of object arrays')
        try:
            return ufunc(it, lambda x, y: A.ncmp(it, op, x, y), [a, b], 'b')
        except PyRaise as e:
            if e.msg == 'broadcast' and op in ('Eq', 'NotEq'):
                return op == 'NotEq'
            raise
    if op in ('Eq', 'NotEq'):
        r = equal(it, a, b)
        return r if op == 'Eq' else inot(r)
    if isinstance(a, str) and isinstance(b, str):
        return {'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[op]
    if isinstance(a, Obj):
        m = a.cls.lookup(CMPM[op])
        if m is not None:
            return it.call(it.bind(m, a, a.cls), [b])
    if isinstance(a, (tuple, list)) and type(a) is type(b):
        raise Unsupported('ordering of sequences')
    if isinstance(a, set) and isinstance(b, set):
        return {'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[op]
    raise PyRaise('TypeError', '', 'comparison')


def same_obj(it, a, b):
    if a is None or b is None:
        if isinstance(a, (CondStr, Poison)) or isinstance(b, (CondStr, Poison)):
            raise Unsupported('identity')
        return a is None and b is None
    if isinstance(a, bool) and isinstance(b, bool):
        return a == b
    if isinstance(a, (B, bool)) and isinstance(b, (B, bool)):
        return bsimp(B(X.c_iff(b_of(a).c, b_of(b).c)))
    if isinstance(a, TypeVal) and isinstance(b, TypeVal):
        return a.name == b.name
    if isinstance(a, (PyClass, TypeVal, PyFunc, Native, Obj, dict, list)) or isinstance(b, (PyClass, TypeVal, Obj, dict, list)):
        return a is b
    if isinstance(a, (Arr, OArr)) and isinstance(b, (Arr, OArr)):
        return a is b
    if type(a) is not type(b):
        return False
    raise Unsupported('identity of %s' % type(a).__name__)


def equal(it, a, b):
    if isinstance(a, CondStr) or isinstance(b, CondStr):
        if isinstance(b, CondStr):
            a, b = b, a
        x, y = equal(it, a.a, b), equal(it, a.b, b)
        return bsimp(B(c_or(c_and(a.c, b_of(x).c), c_and(c_not(a.c), b_of(y).c))))
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            raise Unsupported('comparison of text')
        if isinstance(a, str) and isinstance(b, str) and (MARK in a or MARK in b) and (a and b):
            raise Unsupported('comparison of text')
        return type(a) is type(b) and a == b
    if is_scalar(a) and is_scalar(b):
        return A.ncmp(it, 'Eq', a, b)
    for t in (tuple, list):
        if isinstance(a, t) and isinstance(b, t):
            x, y = (A.unseq(a), A.unseq(b)) if t is list else (a, b)
            if isinstance(x, SymSeq) or isinstance(y, SymSeq):
                raise Unsupported('comparison of symbolic lists')
            if len(x) != len(y):
                return False
            return bsimp(B(c_and(*[b_of(equal(it, p, q)).c for p, q in zip(x, y)])))
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return False
        return bsimp(B(c_and(*[b_of(equal(it, a[k], b[k])).c for k in a])))
    if isinstance(a, Obj):
        m = a.cls.lookup('__eq__')
        if m is not None:
            return it.call(it.bind(m, a, a.cls), [b])
        return a is b
    if isinstance(a, (PyClass, TypeVal)) or isinstance(b, (PyClass, TypeVal)):
        return same_obj(it, a, b)
    if isinstance(a, (Arr, OArr)) or isinstance(b, (Arr, OArr)):
        return it.truth(compare(it, 'Eq', a, b))
    if isinstance(a, set) and isinstance(b, set):
        return a == b
    if isinstance(a, (Opaque, Poison)) or isinstance(b, (Opaque, Poison)):
        raise Unsupported('comparison of %s' % type(a).__name__)
    return False


def contains(it, a, b):
    if isinstance(b, (dict, set)):
        return hkey(a) in b
    if isinstance(b, str):
        if isinstance(a, str):
            return a in b
        raise Unsupported('text')
    s = it.as_seq(b)
    if isinstance(s, SymSeq):
        return bsimp(B(A.quant(it, s.n, lambda k: b_of(equal(it, s.at(k), a)).c, 'ex')))
    return bsimp(B(c_or(*[b_of(equal(it, v, a)).c for v in s])))


# ---------------------------------------------------------------- attributes
def meth(f):
    return lambda it, v: Native('method', lambda it2, args, kw: f(it2, v, *args, **kw))


def npm_call(name):
    return lambda it, v, *a, **k: NP[name].fn(it, [v] + list(a), k)


def m_flatten(it, v, order='C'):
    v = to_arr(it, v)
    if isinstance(v, OArr):
        return A.reshape(it, OArr(v.shape, list(v.items) if isinstance(v.items, list) else v.items), [-1])
    return A.copy_arr(A.reshape(it, v, [-1], order))


def m_reshape(it, v, *shape, order='C'):
    if len(shape) == 1:
        shape = shape[0]
        if isinstance(shape, (int, IntE)):
            shape = [shape]
    else:
        shape = list(shape)
    return A.reshape(it, to_arr(it, v), shape, order)


def m_transpose(it, v, *axes):
    v = to_arr(it, v)
    if len(axes) == 1 and (axes[0] is None or isinstance(axes[0], (list, tuple))):
        axes = axes[0]
    return A.transpose(it, v, list(axes) if axes else None)


def m_copy(it, v, order='C'):
    if is_scalar(v):
        return v
    return A.copy_arr(v)


def m_astype(it, v, dt, copy=True):
    k = F.dt_kind(dt)
    if k == 'O':
        raise Unsupported('astype object')
    if copy is not True:
        if copy is not False:
            raise Unsupported('copy flag')
        if isinstance(v, Arr) and k == v.kind:
            return v
    return F.cast(it, A.copy_arr(v) if isinstance(v, Arr) else v, k)


def m_item(it, v, *ix):
    if not ix:
        if isinstance(v, OArr):
            return v.items[0] if isinstance(v.items, list) else v.items.at(I0)
        return F2.unit(v) if isinstance(v, Arr) else v
    return getitem(it, v, tuple(ix) if len(ix) > 1 else ix[0]) if isinstance(v, Arr) and len(ix) == v.ndim else \
        flat_get(it, FlatView(v), ix[0])


def m_fill(it, v, x):
    if isinstance(v, OArr):
        raise Unsupported('fill')
    A.setitem_arr(it, v, tuple([slice(None)] * v.ndim), x)


def m_tolist(it, v):
    if isinstance(v, OArr):
        if v.ndim == 1:
            return it.wrap_seq(v.items) if isinstance(v.items, SymSeq) else it.new_list(list(v.items))
        raise Unsupported('tolist')
    if isinstance(v, Arr) and v.ndim == 1:
        s = it.as_seq(v)
        return it.wrap_seq(s)
    if isinstance(v, Arr) and v.ndim == 0:
        return v.get(())
    raise Unsupported('tolist')


ARR_M = {'flatten': meth(m_flatten), 'reshape': meth(m_reshape), 'transpose': meth(m_transpose), 'copy': meth(m_copy),
         'astype': meth(m_astype), 'item': meth(m_item), 'fill': meth(m_fill), 'tolist': meth(m_tolist)}
for _n in ('ravel', 'sum', 'any', 'all', 'max', 'min', 'dot', 'squeeze', 'mean', 'prod', 'cumsum', 'swapaxes', 'repeat',
           'diagonal', 'trace', 'clip', 'round', 'argmax', 'nonzero'):
    ARR_M[_n] = meth(npm_call(_n))


def dtype_of(v):
    if isinstance(v, OArr):
        if isinstance(v.items, list) and v.items and all(isinstance(x, str) for x in v.items):
            k = 'U'
        else:
            k = 'O'
    else:
        k = {'f': 'f', 'i': 'i', 'b': 'b'}.get(kind_of(v), 'O')
    return Mod('dtype', {'kind': k, 'name': {'f': 'float64', 'i': 'int64', 'b': 'bool', 'O': 'object', 'U': 'str'}[k],
                         'type': T[{'f': 'float', 'i': 'int', 'b': 'bool', 'O': 'object', 'U': 'str'}[k]], 'dt': k})


def arr_attr(it, v, n):
    a = v
    if n in ('shape', 'ndim', 'size', 'T', 'flat'):
        a = to_arr(it, v) if is_scalar(v) else v
    if n == 'shape':
        return tuple(d.simp() for d in a.shape)
    if n == 'ndim':
        return a.ndim
    if n == 'size':
        return A.flat_len(a.shape).simp()
    if n == 'T':
        return v if is_scalar(v) else A.transpose(it, a)
    if n == 'flat':
        return FlatView(a)
    if n == 'real':
        return v
    if n == 'imag':
        return NP['imag'].fn(it, [v], {})
    if n == 'dtype':
        return dtype_of(v)
    if n == '__class__':
        return type_of(v)
    if n in ARR_M:
        return ARR_M[n](it, v)
    if hasattr(float, n) or n in ('conj', 'conjugate', 'var', 'std', 'argmin', 'sort', 'argsort'):
        raise Unsupported('array attribute ' + n)
    raise PyRaise('AttributeError', '', n)


def l_append(it, lst, x):
    lst2 = lst
    if A.unseq(lst) is not lst:
        s = A.unseq(lst)
        if len(it.levels) > 1:
            raise Unsupported('append to a symbolic list in a loop')
        lst[:] = [SymTail(join_seq(it, s, [x]))]
        return
    lst2.append(x)
    if HOOK.log is not None:
        HOOK.log.append(((lambda: lst2.pop()), 'append', lst2, x))


def top_only(it, lst, f):
    if len(it.levels) > 1 and it.list_nid(lst) < 1:
        raise Unsupported('list changed in a loop')
    if A.unseq(lst) is not lst:
        raise Unsupported('symbolic list changed')
    if len(it.levels) > 1:
        raise Unsupported('list changed in a loop')
    return f()


def l_extend(it, lst, s):
    s = it.as_seq(s)
    if isinstance(s, SymSeq):
        if len(it.levels) > 1:
            raise Unsupported('extend in a loop')
        lst[:] = [SymTail(join_seq(it, A.unseq(lst), s))]
        return
    for x in s:
        l_append(it, lst, x)


def l_index(it, lst, x):
    for k, v in enumerate(unlist(it, lst)):
        if it.truth(equal(it, v, x)):
            return k
    raise PyRaise('ValueError')


LIST_M = {'append': meth(l_append), 'extend': meth(l_extend),
          'pop': meth(lambda it, l, *k: top_only(it, l, lambda: l.pop(*k))),
          'insert': meth(lambda it, l, k, v: top_only(it, l, lambda: l.insert(k, v))),
          'remove': meth(lambda it, l, v: top_only(it, l, lambda: l.remove(v))),
          'reverse': meth(lambda it, l: top_only(it, l, lambda: l.reverse())),
          'copy': meth(lambda it, l: it.new_list(list(l))), 'index': meth(l_index),
          'count': meth(lambda it, l, v: sum(1 for x in unlist(it, l) if it.truth(equal(it, x, v)))),
          'sort': meth(lambda it, l: top_only(it, l, lambda: l.sort()))}


def d_get(it, d, k, dflt=None):
    return d.get(hkey(k), dflt)


def d_pop(it, d, k, *dflt):
    it.dict_mut(d)
    k = hkey(k)
    if k in d:
        return d.pop(k)
    if dflt:
        return dflt[0]
    raise PyRaise('KeyError')


def d_update(it, d, o=None, **kw):
    it.dict_mut(d)
    d.update(o or {})
    d.update(kw)


def d_setdefault(it, d, k, v=None):
    it.dict_mut(d)
    return d.setdefault(hkey(k), v)


DICT_M = {'keys': meth(lambda it, d: list(d)), 'values': meth(lambda it, d: list(d.values())),
          'items': meth(lambda it, d: list(d.items())), 'get': meth(d_get), 'pop': meth(d_pop), 'update': meth(d_update),
          'copy': meth(lambda it, d: it.new_dict(dict(d))), 'setdefault': meth(d_setdefault)}


MARK = '\u2039?\u203a'     # stands for the text of an unknown number inside a known text


def text_of(v):
    if isinstance(v, (str, bool)) or type(v) is int:
        return str(v)
    if isinstance(v, Opaque):
        return None
    return MARK


def str_method(n):
    def f(it, s, *args, **kw):
        if n == 'format':
            xs, ks = [text_of(a) for a in args], {k: text_of(a) for k, a in kw.items()}
            try:
                return Opaque('text') if None in xs or None in ks.values() else s.format(*xs, **ks)
            except (IndexError, KeyError, ValueError):
                return Opaque('text')
        if n == 'join':
            xs = unlist(it, args[0])
            return s.join(xs) if all(isinstance(x, str) for x in xs) else Opaque('text')
        if all(isinstance(a, (str, int)) for a in args):
            r = getattr(s, n)(*args)
            return it.new_list(r) if isinstance(r, list) else r
        return Opaque('text')
    return meth(f)


def attr(it, v, n):
    if isinstance(v, A.Cell):
        v = v.get()
    if isinstance(v, (Arr, OArr, S, B)):
        return arr_attr(it, v, n)
    if isinstance(v, bool) and n in ('flatten', 'ravel', 'any', 'all', 'item', 'reshape'):
        v = B(TRUE if v else FALSE)          # numpy booleans are kept as plain ones
        return arr_attr(it, v, n)
    if isinstance(v, (bool, int, IntE, float)):
        if n in ('real', 'imag', '__class__'):
            return arr_attr(it, v, n)
        if n in ('flatten', 'ravel') and isinstance(v, (int, IntE)):
            # python integers and numpy integer scalars are not told apart
            return arr_attr(it, mk((), lambda: v, 'i'), n)
        if n in ('ndim', 'size', 'shape', 'flatten', 'T', 'dtype', 'copy'):
            raise PyRaise('AttributeError', '', n)
        raise Unsupported('attribute %s of a number' % n)
    if isinstance(v, list):
        if n in LIST_M:
            return LIST_M[n](it, v)
        if hasattr(list, n) and not n.startswith('__'):
            raise Unsupported('list.' + n)
        raise PyRaise('AttributeError', '', n)
    if isinstance(v, dict):
        if n in DICT_M:
            return DICT_M[n](it, v)
        if hasattr(dict, n):
            raise Unsupported('dict.' + n)
        raise PyRaise('AttributeError', '', n)
    if isinstance(v, str):
        if hasattr(str, n):
            return str_method(n)(it, v)
        raise PyRaise('AttributeError', '', n)
    if isinstance(v, Opaque):
        if n == '__class__':
            raise Unsupported('class of an opaque value')
        return Native('opaque', lambda it2, a, k: Opaque(v.name))
    if isinstance(v, TypeVal):
        if n == '__name__':
            return v.name
        if n == 'fromkeys':
            return Native('fromkeys', lambda it2, a, k: it2.new_dict({hkey(x): (a[1] if len(a) > 1 else None)
                                                                     for x in unlist(it2, a[0])}))
        raise Unsupported('attribute of type ' + v.name)
    if isinstance(v, PyFunc):
        if n in ('__name__',):
            return v.name
        if n in v.attrs:
            return v.attrs[n]
        raise PyRaise('AttributeError', '', n)
    if isinstance(v, tuple):
        if n == 'index':
            return meth(lambda it2, t, x: l_index(it2, list(t), x))(it, v)
        if n == 'count':
            return LIST_M['count'](it, list(v))
        raise PyRaise('AttributeError', '', n)
    if isinstance(v, FlatView):
        if n == 'copy':
            return Native('copy', lambda it2, a, k: m_flatten(it2, v.a))
        raise Unsupported('flat.' + n)
    if isinstance(v, (set, frozenset)):
        if n in ('add', 'update', 'discard', 'remove') and len(it.levels) == 1:
            return Native(n, lambda it2, a, k: getattr(v, n)(*[hkey(x) if n != 'update' else [hkey(y) for y in x] for x in a]))
        if n in ('union', 'intersection', 'difference', 'issubset', 'issuperset'):
            return Native(n, lambda it2, a, k: getattr(v, n)(*[set(hkey(y) for y in it2.as_seq(x)) for x in a]))
        raise Unsupported('set.' + n)
    if v is None:
        raise PyRaise('AttributeError', '', n)
    if isinstance(v, Bound):
        return it.getattr(v.f, n)
    if isinstance(v, Native):
        if n == '__name__':
            return v.name
        raise PyRaise('AttributeError', '', n)
    if isinstance(v, SymSeq):
        raise Unsupported('attribute of a sequence: ' + n)
    if isinstance(v, Sparse):
        if n == 'T':
            return Sparse(A.transpose(it, v.dense))
        if n in ('toarray',):
            return Native(n, lambda it2, a, k: A.copy_arr(v.dense))
        if n == 'shape':
            return tuple(x.simp() for x in v.dense.shape)
    if isinstance(v, Poison):
        raise Unsupported('value carried between iterations')
    raise Unsupported('attribute %s of %s' % (n, type(v).__name__))


# ---------------------------------------------------------------- modules
def build(it):
    la = Mod('numpy.linalg', dict(LA.LA))
    la.ns['LinAlgError'] = TypeVal('LinAlgError', lambda it, a, k: Opaque('exception'))
    np = Mod('numpy', dict(NP))
    np.ns['linalg'] = la
    np.ns['pi'] = S(X.r_fn('pi'))
    np.ns['inf'] = np.ns['Inf'] = np.ns['infty'] = s_of(float('inf'))
    np.ns['nan'] = np.ns['NaN'] = np.ns['NAN'] = s_of(float('nan'))
    np.ns['newaxis'] = None
    np.ns['e'] = S(X.r_fn('exp', 1))
    ml = Mod('numpy.matlib', {'repmat': NP['repmat']})
    np.ns['matlib'] = ml
    fact = Native('factorial', lambda it, a, k: m_factorial(it, a[0]))
    gam = Native('gamma', lambda it, a, k: m_gamma(it, a[0]))
    math_ = Mod('math', {'factorial': fact, 'gamma': gam, 'pi': np.ns['pi'], 'inf': np.ns['inf'], 'nan': np.ns['nan'],
                         'sqrt': Native('sqrt', lambda it, a, k: m_sqrt(it, a[0])),
                         'floor': Native('floor', lambda it, a, k: m_floor(it, a[0])),
                         'isclose': Native('isclose', lambda it, a, k: bad('isclose')),
                         'isnan': NP['isnan'], 'isinf': NP['isinf'], 'isfinite': NP['isfinite'],
                         'cos': NP['cos'], 'sin': NP['sin'], 'exp': NP['exp'], 'fabs': NP['abs']})
    np.ns['math'] = math_
    ops = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mult', 'truediv': 'Div', 'matmul': 'MatMult'}
    mods = {'numpy': np, 'numpy.linalg': la, 'numpy.matlib': ml, 'math': math_,
            'operator': Mod('operator', {k: Native(k, lambda it, a, kw, o=o: binop(it, o, a[0], a[1])) for k, o in ops.items()}),
            'functools': Mod('functools', {'reduce': Native('reduce', m_reduce)}),
            'itertools': Mod('itertools', {}), 'copy': Mod('copy', {}),
            'scipy': Mod('scipy', {}), 'scipy.special': Mod('scipy.special', {'gamma': gam, 'factorial': fact}),
            'scipy.linalg': Mod('scipy.linalg', dict(LA.LA)), 'scipy.sparse': Mod('scipy.sparse', {k: Native(k, csc_matrix) for k in ('csc_matrix', 'csr_matrix')}),
            'scipy.spatial': Mod('scipy.spatial', {'ConvexHull': Native('ConvexHull', lambda it, a, k: bad('ConvexHull'))}),
            'inspect': Mod('inspect', {}), 'warnings': Mod('warnings', {'warn': Native('warn', lambda it, a, k: None)}),
            'logging': Mod('logging', {}), 'collections': Mod('collections', {
                'abc': Mod('collections.abc', {'Iterable': Opaque('Iterable'), 'Callable': Opaque('Callable')}),
                'Iterable': Opaque('Iterable'), 'OrderedDict': T['dict']}),
            'typing': Mod('typing', {}), 'abc': Mod('abc', {}), 'time': Mod('time', {}), 'os': Mod('os', {}), 'sys': Mod('sys', {}),
            'types': Mod('types', {}), 're': Mod('re', {}), 'string': Mod('string', {}), '__future__': Mod('__future__', {}),
            'collections.abc': Mod('collections.abc', {'Iterable': Opaque('Iterable'), 'Callable': Opaque('Callable')})}
    return mods


def m_factorial(it, v):
    v = F2.unit(v)
    if isinstance(v, int):
        if v < 0:
            raise PyRaise('ValueError')
        return math.factorial(v)
    s = s_of(v)
    if s.v.is_const():
        c = s.v.const()
        if c.denominator != 1 or c < 0:
            raise PyRaise('ValueError')
        return math.factorial(int(c))
    return S(X.r_fn('fact', s.v))


def m_gamma(it, v):
    s = s_of(F2.unit(v))
    if s.v.is_const():
        c = s.v.const()
        if c.denominator == 1 and c > 0:
            return S(real(math.factorial(int(c) - 1)))
    return S(X.r_fn('gamma', s.v))


def m_sqrt(it, v):
    s = s_of(F2.unit(v))
    if not X.r_nonneg(s.v) and it.truth(s_cmp('<', s, S(X.ZERO))):
        raise PyRaise('ValueError')
    return s_sqrt(s)


def m_floor(it, v):
    v = F2.unit(v)
    if isinstance(v, (int, IntE)):
        return v
    s = s_of(v)
    if s.v.is_const():
        c = s.v.const()
        return c.numerator // c.denominator
    return S(X.r_fn('floor', s.v), ty='int')


def m_reduce(it, args, kw):
    f, seq = args[0], unlist(it, args[1])
    r = args[2] if len(args) > 2 else seq.pop(0)
    for v in seq:
        r = it.call(f, [r, v])
    return r
