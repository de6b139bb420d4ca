"""Values of the symbolic interpreter: scalars with finiteness flags, arrays as functions of indices, objects."""
import expr as X
import os
DBG = bool(os.environ.get("DED_DEBUG"))
from expr import (IntE, R, ie, I0, I1, REG, Unsupported, TRUE, FALSE, c_and, c_or, c_not, c_icmp, c_lt, c_le, c_eq,
                  real, r_ite, r_sum, r_inv, fresh_ix, forall, exists, cond_subst)


class PyRaise(Exception):
    """an exception of the interpreted program"""
    def __init__(self, etype, tag='', msg=''):
        Exception.__init__(self, etype, tag)
        self.etype, self.tag, self.msg = etype, tag, msg

    def text(self):
        return '%s %s' % (self.etype, self.tag)


class B:
    """symbolic truth value"""
    __slots__ = ('c',)

    def __init__(self, c):
        self.c = c

    def subst(self, mp):
        return B(cond_subst(self.c, mp))


def b_of(x):
    if isinstance(x, B):
        return x
    if isinstance(x, bool):
        return B(TRUE if x else FALSE)
    if isinstance(x, S):
        return B(c_not(c_eq(x.v, 0)))
    if isinstance(x, (int, IntE)):
        return B(c_not(c_icmp('==', ie(x))))
    if isinstance(x, float):
        return B(TRUE if x else FALSE)
    if isinstance(x, Arr) and all(d == 1 for d in x.shape):
        return b_of(x.get((I0,) * x.ndim))
    raise Unsupported('truth value of %r' % type(x).__name__)


def bsimp(b):
    if b.c == TRUE:
        return True
    if b.c == FALSE:
        return False
    return b


class S:
    """real number (mathematical) with a condition under which it is not finite"""
    __slots__ = ('v', 'bad', 'pinf', 'ninf', 'ty')

    def __init__(self, v, bad=FALSE, pinf=FALSE, ninf=FALSE, ty='float'):
        self.v, self.bad, self.pinf, self.ninf, self.ty = v, bad, pinf, ninf, ty

    def subst(self, mp):
        return S(self.v.subst(mp), cond_subst(self.bad, mp), cond_subst(self.pinf, mp) if self.pinf else self.pinf,
                 cond_subst(self.ninf, mp) if self.ninf else self.ninf, self.ty)

    def __repr__(self):
        return 'S(%s%s)' % (self.v, '' if self.bad == FALSE else ' bad:' + X.cond_key(self.bad))


def s_of(x):
    if isinstance(x, S):
        return x
    if isinstance(x, float):
        if x != x:
            return S(X.ZERO, TRUE)
        if x == float('inf'):
            return S(X.ZERO, TRUE, TRUE)
        if x == float('-inf'):
            return S(X.ZERO, TRUE, FALSE, TRUE)
        return S(real(x))
    if isinstance(x, (bool, int, IntE, R)):
        return S(real(x), ty='int' if not isinstance(x, R) else 'float')
    if isinstance(x, B):
        return S(r_ite(x.c, X.ONE, X.ZERO), ty='int')
    if isinstance(x, Arr) and all(d == 1 for d in x.shape):
        return s_of(x.get((I0,) * x.ndim))
    raise Unsupported('not a number: %s' % type(x).__name__)


def is_num(x):
    return isinstance(x, (S, int, float, IntE, B)) and True


def ty2(a, b):
    return 'int' if a.ty == 'int' and b.ty == 'int' else 'float'


def bad2(a, b):
    """finiteness of a sum or product; the kind of infinity is not tracked"""
    if a.bad == FALSE and b.bad == FALSE:
        return FALSE, FALSE, FALSE
    if a.bad == FALSE:
        return b.bad, None, None
    if b.bad == FALSE:
        return a.bad, None, None
    return c_or(a.bad, b.bad), None, None


def s_add(a, b):
    return S(a.v + b.v, *bad2(a, b), ty2(a, b))


def s_sub(a, b):
    return S(a.v - b.v, *bad2(a, b), ty2(a, b))


def s_mul(a, b):
    return S(a.v * b.v, *bad2(a, b), ty2(a, b))


def s_div(a, b, prover=None):
    if b.v.is_zero():
        return S(X.ZERO, TRUE, None, None)
    z = FALSE if known_nonzero(b.v) else c_eq(b.v, 0)
    bad = c_or(a.bad, b.bad, z)
    return S(a.v * r_inv(b.v), bad, FALSE if bad == FALSE else None, FALSE if bad == FALSE else None, 'float')


def known_nonzero(r):
    if r.is_const():
        return r.const() != 0
    s = X.single(r)
    if s and not s[0][1]:
        return all(factor_positive(f) for f, p in s[0][0])
    # positive constant plus non-negative terms
    c = r.const()
    if c > 0 and X.r_nonneg(r - c):
        return True
    if any(co > 0 and not m[1] and m != ((), ()) and all(factor_positive(f) for f, _ in m[0]) for m, co in r.t.items()) \
            and X.r_nonneg(r):
        return True
    q = X.below(r)
    return q is not None and X.r_nonneg(q) and known_nonzero(q)


def factor_positive(f):
    k = f[0]
    if k == 'el':
        return bool(REG.atoms.get(f[1], {}).get('positive'))
    if k == 'int':
        return f[1] in REG.dims and REG.dims[f[1]] >= 1
    if k == 'fn':
        return f[1] in ('pi', 'gamma', 'fact', 'pow', 'exp')
    if k in ('sqrt', 'inv'):
        return known_nonzero(f[1])
    return False


def s_neg(a):
    return S(-a.v, a.bad, a.ninf, a.pinf, a.ty)


def s_abs(a):
    pinf = None if a.pinf is None or a.ninf is None else c_or(a.pinf, a.ninf)
    return S(X.r_abs(a.v), a.bad, pinf, FALSE if pinf is not None else None, a.ty)


def s_sqrt(a):
    neg = FALSE if X.r_nonneg(a.v) else c_lt(a.v, 0)
    return S(X.r_sqrt(a.v), c_or(a.bad, neg), None if (a.bad, neg) != (FALSE, FALSE) else FALSE,
             None if (a.bad, neg) != (FALSE, FALSE) else FALSE)


def s_cmp(op, a, b):
    """comparison; NaN compares false, infinities only against infinite constants"""
    for x, y, o in ((a, b, op), (b, a, {'<': '>', '<=': '>=', '>': '<', '>=': '<=', '==': '==', '!=': '!='}[op])):
        if y.bad == TRUE and y.pinf is not None and (y.pinf == TRUE or y.ninf == TRUE):
            inf, ninf = x.pinf, x.ninf
            if (inf is None or ninf is None) and HOOK.not_bad and HOOK.not_bad(x.bad):
                x = S(x.v, FALSE, FALSE, FALSE, x.ty)
                inf = ninf = FALSE
            if inf is None or ninf is None:
                raise Unsupported('comparison of an untracked infinity')
            same, other = (inf, ninf) if y.pinf == TRUE else (ninf, inf)
            if o == '==':
                return B(same)
            if o == '!=':
                return B(c_not(same))
            nan = c_and(x.bad, c_not(inf), c_not(ninf))
            if y.pinf == TRUE:
                return B({'<': c_and(c_not(inf), c_not(nan)), '<=': c_not(nan), '>': FALSE, '>=': inf}[o])
            return B({'>': c_and(c_not(ninf), c_not(nan)), '>=': c_not(nan), '<': FALSE, '<=': ninf}[o])
    d = {'<': lambda: c_lt(a.v, b.v), '<=': lambda: c_le(a.v, b.v), '>': lambda: c_lt(b.v, a.v),
         '>=': lambda: c_le(b.v, a.v), '==': lambda: c_eq(a.v, b.v), '!=': lambda: c_not(c_eq(a.v, b.v))}[op]()
    if a.bad == FALSE and b.bad == FALSE:
        return B(d)
    if HOOK.not_bad and HOOK.not_bad(c_or(a.bad, b.bad)):
        return B(d)
    tracked = all(x.pinf is not None and x.ninf is not None for x in (a, b))
    if tracked:
        # NaN compares false (true for !=); a finite number against an infinity of known sign
        na, nb = c_not(a.bad), c_not(b.bad)
        if op in ('==', '!='):
            e = c_or(c_and(na, nb, d if op == '==' else c_not(d)), c_and(a.pinf, b.pinf), c_and(a.ninf, b.ninf))
            return B(e if op == '==' else c_not(e))
        if op in ('<', '<='):
            e = c_or(c_and(na, nb, d), c_and(na, b.pinf), c_and(a.ninf, nb), c_and(a.ninf, b.pinf))
            if op == '<=':
                e = c_or(e, c_and(a.pinf, b.pinf), c_and(a.ninf, b.ninf))
            return B(e)
        e = c_or(c_and(na, nb, d), c_and(nb, a.pinf), c_and(b.ninf, na), c_and(b.ninf, a.pinf))
        if op == '>=':
            e = c_or(e, c_and(a.pinf, b.pinf), c_and(a.ninf, b.ninf))
        return B(e)
    raise Unsupported('comparison of a possibly non-finite number' + (' %s %s' % (a, b) if DBG else ''))


class Hook:
    not_bad = None
    log = None          # undo log
    decide = None


HOOK = Hook()


# ---------------------------------------------------------------- generic values
def v_subst(v, mp):
    if isinstance(v, (S, B)):
        return v.subst(mp)
    if isinstance(v, IntE):
        return v.subst(mp).simp()
    if isinstance(v, Arr):
        return v.subst(mp)
    if isinstance(v, Obj):
        return v.subst(mp)
    if isinstance(v, SymSeq):
        fn = v.fn
        return SymSeq(v.n.subst(mp), lambda k: v_subst(fn(IntE.sym('~k')), {**mp, '~k': ie(k)}))
    if isinstance(v, tuple):
        return tuple(v_subst(x, mp) for x in v)
    if isinstance(v, list):
        return [v_subst(x, mp) for x in v]
    if isinstance(v, dict):
        return {k: v_subst(x, mp) for k, x in v.items()}
    return v


def v_ite(c, a, b):
    """value that is a under c and b otherwise"""
    if c == TRUE:
        return a
    if c == FALSE:
        return b
    if a is b:
        return a
    if isinstance(a, Poison) or isinstance(b, Poison):
        return Poison()
    if isinstance(a, (B, bool)) and isinstance(b, (B, bool)):
        x, y = b_of(a).c, b_of(b).c
        return bsimp(B(c_or(c_and(c, x), c_and(c_not(c), y))))
    if isinstance(a, (S, int, float, IntE, B)) and isinstance(b, (S, int, float, IntE, B)):
        if isinstance(a, (int, IntE)) and isinstance(b, (int, IntE)) and ie(a) == ie(b):
            return a
        x, y = s_of(a), s_of(b)

        def cc(p, q):
            if p is None or q is None:
                if (p is None and y.bad == FALSE) or (q is None and x.bad == FALSE):
                    return None
                return None
            return c_or(c_and(c, p), c_and(c_not(c), q))
        return S(r_ite(c, x.v, y.v), cc(x.bad, y.bad), cc(x.pinf, y.pinf), cc(x.ninf, y.ninf), ty2(x, y))
    if isinstance(a, Arr) and isinstance(b, Arr) and a.ndim == b.ndim and all(p == q for p, q in zip(a.shape, b.shape)):
        fa, fb = a.snap(), b.snap()
        return mk(a.shape, lambda *i: v_ite(c, fa(*i), fb(*i)), a.kind)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(v_ite(c, x, y) for x, y in zip(a, b))
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        return [v_ite(c, x, y) for x, y in zip(a, b)]
    if isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b):
        return {k: v_ite(c, a[k], b[k]) for k in a}
    if isinstance(a, Obj) and isinstance(b, Obj) and a.cls is b.cls and set(a.attrs) == set(b.attrs):
        return Obj(a.cls, {k: v_ite(c, a.attrs[k], b.attrs[k]) for k in a.attrs})
    if a is None and b is None:
        return None
    if isinstance(a, str) and isinstance(b, str):
        return a if a == b else CondStr(c, a, b)
    if isinstance(a, (str, CondStr)) and isinstance(b, (str, CondStr)):
        return CondStr(c, a, b)
    raise Unsupported('merging %s and %s' % (type(a).__name__, type(b).__name__))


class CondStr:
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class Poison:
    """value carried from one iteration of a loop to the next (outside the loop rule)"""


class Nid:
    n = 0

    @staticmethod
    def new():
        Nid.n += 1
        return Nid.n


class Obj:
    """instance of an interpreted class; an element of a symbolic family when fam is set"""
    __slots__ = ('cls', 'attrs', 'fam', 'ix', 'nid')

    def __init__(self, cls, attrs=None, fam=None, ix=None):
        self.cls, self.attrs, self.fam, self.ix = cls, {} if attrs is None else attrs, fam, ix
        self.nid = Nid.new()

    def subst(self, mp):
        if self.fam is not None:
            return self.fam.at(self.ix.subst(mp))
        return Obj(self.cls, {k: v_subst(v, mp) for k, v in self.attrs.items()})

    def getattr(self, k):
        if self.fam is not None:
            return self.fam.attr(k, self.ix)
        return self.attrs[k]

    def hasattr(self, k):
        if self.fam is not None:
            return k in self.fam.attrs
        return k in self.attrs

    def setattr(self, k, v):
        if self.fam is not None:
            self.fam.setattr(k, self.ix, v)
            return
        if HOOK.log is not None:
            had, old, at = k in self.attrs, self.attrs.get(k), self.attrs

            def undo():
                if had:
                    at[k] = old
                else:
                    at.pop(k, None)
            HOOK.log.append((undo, 'attr', self, k))
        self.attrs[k] = v


class Fam:
    """family of objects indexed by 0..n-1: every attribute is a function of the index"""
    def __init__(self, n, cls, attrs):
        self.n, self.cls, self.attrs = ie(n), cls, attrs        # attrs: name -> fn(IntE) -> value
        self.cache = {}
        self.nid = Nid.new()

    def at(self, i):
        i = ie(i)
        if i not in self.cache:
            self.cache[i] = Obj(self.cls, None, self, i)
        return self.cache[i]

    def attr(self, k, i):
        return self.attrs[k](ie(i))

    def setfn(self, k, fn):
        old = self.attrs.get(k)
        self.attrs[k] = fn
        if HOOK.log is not None:
            def undo():
                if old is None:
                    self.attrs.pop(k, None)
                else:
                    self.attrs[k] = old
            HOOK.log.append((undo, 'fam', self, k))

    def setattr(self, k, i, v):
        old = self.attrs.get(k)

        def fn(j):
            j = ie(j)
            if j == i:
                return v
            c = c_icmp('==', j - i)
            if c == FALSE:
                return old(j)
            return v if c == TRUE else v_ite(c, v, old(j))
        self.setfn(k, fn)
        if HOOK.log is not None:
            HOOK.log[-1] = HOOK.log[-1] + (i,)


class SymSeq:
    """sequence of symbolic length"""
    def __init__(self, n, fn):
        self.n, self.fn = ie(n), fn
        self.cache = {}

    def at(self, k):
        k = ie(k)
        if k not in self.cache:
            self.cache[k] = self.fn(k)
        return self.cache[k]


# ---------------------------------------------------------------- arrays
class Store:
    __slots__ = ('fn', 'tag', 'nid')

    def __init__(self, fn, tag=None):
        self.fn, self.tag = fn, tag
        self.nid = Nid.new()


def cached(fn):
    memo = {}

    def g(*idx):
        k = (idx, REG.tok)
        if k not in memo:
            memo[k] = fn(*idx)
        return memo[k]
    return g


class Arr:
    """n-dimensional array: a view of a store.  vmap: for each axis of the store ('f', IntE) or ('a', axis, offset, sign)
    store index = offset + sign*index.  mask: (key, fn) for a selection by a boolean array of the same shape"""
    __slots__ = ('shape', 'kind', 'store', 'vmap', 'ro', 'mask')

    def __init__(self, shape, kind, store, vmap, ro=False, mask=None):
        self.shape = tuple(ie(d) for d in shape)
        self.kind, self.store, self.vmap, self.ro, self.mask = kind, store, vmap, ro, mask

    @property
    def ndim(self):
        return len(self.shape)

    def vm(self):
        return self.vmap if self.vmap is not None else tuple(('a', k, I0, 1) for k in range(self.ndim))

    def get(self, idx):
        return self.snap()(*idx)

    def snap(self):
        """the current contents as a pure function of the indices"""
        fn, vm = self.store.fn, self.vmap
        if vm is None:
            return lambda *idx: fn(*[ie(i) for i in idx])
        return lambda *idx: fn(*[m[1] if m[0] == 'f' else m[2] + ie(idx[m[1]]) * m[3] for m in vm])

    def view(self, shape, axmap):
        """axmap[k] for each own axis: ('f', e) or ('a', newaxis, off, sign)"""
        out = []
        for m in self.vm():
            if m[0] == 'f':
                out.append(m)
            else:
                a = axmap[m[1]]
                if a[0] == 'f':
                    out.append(('f', m[2] + a[1] * m[3]))
                else:
                    out.append(('a', a[1], m[2] + a[2] * m[3], a[3] * m[3]))
        return Arr(shape, self.kind, self.store, tuple(out), self.ro)

    def subst(self, mp):
        f = self.snap()
        nd = self.ndim

        def g2(*idx):
            used = set()
            for i in idx:
                used |= ie(i).syms()
            if not (used & set(mp)):
                return v_subst(f(*idx), mp)
            names = [REG.fresh('~a') for _ in range(nd)]
            return v_subst(v_subst(f(*[IntE.sym(q) for q in names]), mp), {q: ie(i) for q, i in zip(names, idx)})
        return mk([d.subst(mp) for d in self.shape], g2, self.kind)

    def ix(self):
        return tuple(fresh_ix(d) for d in self.shape)

    def write(self, region, val):
        """region: per own axis ('pt', e) | ('rng', off, len, sign) | ('all',); val(*idx) with the indices of the region's
        non-point axes; cond(*own idx) extra condition"""
        self.write_if(region, None, val)

    def write_if(self, region, cond, val):
        if self.ro:
            raise Unsupported('write into an array that may or may not share memory')
        st, old, vm = self.store, self.store.fn, self.vm()

        def newfn(*sidx):
            own = {}
            c = TRUE
            for k, m in enumerate(vm):
                if m[0] == 'f':
                    c = c_and(c, c_icmp('==', sidx[k] - m[1]))
                else:
                    loc = (sidx[k] - m[2]) * m[3]
                    if m[1] in own:
                        c = c_and(c, c_icmp('==', own[m[1]] - loc))
                    else:
                        own[m[1]] = loc
                        d = self.shape[m[1]]
                        if not (m[2] == 0 and m[3] == 1):
                            c = c_and(c, c_icmp('<=', -loc), c_icmp('<', loc - d))
                        # view shorter than the store axis
                        elif self.vmap is not None and not X.int_holds(None, '<', loc - d):
                            c = c_and(c, c_icmp('<', loc - d))
                if c == FALSE:
                    return old(*sidx)
            args = []
            for a in range(self.ndim):
                r = region[a]
                x = own.get(a, I0)
                if r[0] == 'pt':
                    c = c_and(c, c_icmp('==', x - r[1]))
                elif r[0] == 'rng':
                    y = (x - r[1]) * r[3]
                    c = c_and(c, c_icmp('<=', -y), c_icmp('<', y - r[2]))
                    args.append(y)
                else:
                    args.append(x)
                if c == FALSE:
                    return old(*sidx)
            if cond is not None:
                c = c_and(c, cond(*[own.get(a, I0) for a in range(self.ndim)]))
            if c == FALSE:
                return old(*sidx)
            v = val(*args)
            if c == TRUE:
                return v
            return v_ite(c, v, old(*sidx))
        st.fn = cached(newfn)
        # the points of the store's axes that every written element has
        pts = {}
        for k, m in enumerate(vm):
            if m[0] == 'f':
                pts[k] = m[1]
            elif region[m[1]][0] == 'pt':
                pts[k] = m[2] + region[m[1]][1] * m[3]
        if HOOK.log is not None:
            def undo():
                st.fn = old
            HOOK.log.append((undo, 'arr', st, pts))

    def __repr__(self):
        return 'Arr%s' % (self.shape,)


def mk(shape, fn, kind='f', ro=False, tag=None):
    return Arr(shape, kind, Store(cached(fn), tag), None, ro)


class OArr:
    """array of objects (or of other values without arithmetic): items is a list (flat, C order) or a SymSeq"""
    __slots__ = ('shape', 'items', 'nid')

    def __init__(self, shape, items):
        self.shape, self.items = tuple(ie(d) for d in shape), items
        self.nid = Nid.new()

    @property
    def ndim(self):
        return len(self.shape)

    def size(self):
        r = I1
        for d in self.shape:
            r = r * d
        return r
