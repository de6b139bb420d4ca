"""Terms of the verifier: integer polynomials (dimensions, indices), real tensor expressions in index notation
and conditions.  All values are immutable and kept in a normal form.

Real numbers are mathematical reals (machine arithmetic is treated as mathematical: a listed assumption).
"""
from fractions import Fraction
import itertools


class Unsupported(Exception):
    """The code or contract uses something outside the verifier's reach: the obligation stays undecided."""


# ---------------------------------------------------------------- integers
class IntE:
    __slots__ = ('t', '_h')

    def __init__(self, d):
        self.t = tuple(sorted((m, c) for m, c in d.items() if c))
        self._h = hash(self.t)

    @staticmethod
    def of(x):
        if isinstance(x, IntE):
            return x
        if isinstance(x, bool):
            return IntE({(): int(x)}) if x else IntE({})
        if isinstance(x, int):
            return IntE({(): x})
        raise Unsupported('not an integer: %r' % (x,))

    @staticmethod
    def sym(name):
        return IntE({(name,): 1})

    def is_const(self):
        return not self.t or (len(self.t) == 1 and self.t[0][0] == ())

    def const(self):
        return self.t[0][1] if self.t else 0

    def simp(self):
        return self.const() if self.is_const() else self

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        if isinstance(o, int):
            return self.is_const() and self.const() == o
        return isinstance(o, IntE) and self.t == o.t

    def __ne__(self, o):
        return not self == o

    def __add__(self, o):
        o = IntE.of(o)
        d = dict(self.t)
        for m, c in o.t:
            d[m] = d.get(m, 0) + c
        return IntE(d)

    __radd__ = __add__

    def __neg__(self):
        return IntE({m: -c for m, c in self.t})

    def __sub__(self, o):
        return self + (-IntE.of(o))

    def __rsub__(self, o):
        return IntE.of(o) - self

    def __mul__(self, o):
        o = IntE.of(o)
        d = {}
        for m, c in self.t:
            for m2, c2 in o.t:
                mm = tuple(sorted(m + m2))
                d[mm] = d.get(mm, 0) + c * c2
        return IntE(d)

    __rmul__ = __mul__

    def syms(self):
        return {s for m, _ in self.t for s in m}

    def subst(self, mp):
        if not (self.syms() & set(mp)):
            return self
        r = IntE({})
        for m, c in self.t:
            p = IntE({(): c})
            for s in m:
                p = p * (mp[s] if s in mp else IntE.sym(s))
            r = r + p
        return r

    def pure(self):
        """name if this is exactly one symbol"""
        if len(self.t) == 1 and self.t[0][1] == 1 and len(self.t[0][0]) == 1:
            return self.t[0][0][0]
        return None

    def split_sym(self, name):
        """(coef, rest) with self = coef*name + rest, coef constant; None when not linear"""
        coef, rest = 0, {}
        for m, c in self.t:
            if name in m:
                if m != (name,):
                    return None
                coef += c
            else:
                rest[m] = c
        return coef, IntE(rest)

    def key(self):
        return '+'.join('%d*%s' % (c, '.'.join(m)) if m else str(c) for m, c in self.t) or '0'

    def __repr__(self):
        return self.key()


I0, I1 = IntE.of(0), IntE.of(1)


def ie(x):
    return IntE.of(x)


class Registry:
    """Symbols of one proof: dimensions, index variables, array atoms."""

    def __init__(self):
        self.dims = {}        # name -> lower bound
        self.ix = {}          # free index name -> dim IntE
        self.atoms = {}       # name -> dict of properties
        self.fact = {}        # dim IntE (product) -> tuple of factor IntE (minor first)
        self.n = 0
        self.ranks = {}       # integer symbols that are ranks of matrices
        self.keyed = {}       # canonical key of derived atoms
        self.int_facts = []   # Cond over integers only
        self.toks = {(): 0}
        self.tok = 0          # identifies the current integer facts (for caches)
        self.nn = set()       # keys of terms known to be non-negative (built as squares)
        self.scope = []       # bound variables of the terms being normalised
        self.depth = 0

    def set_facts(self, facts):
        self.int_facts = list(facts)
        k = tuple(facts)
        if k not in self.toks:
            self.toks[k] = len(self.toks)
        self.tok = self.toks[k]

    def fresh(self, p='k'):
        self.n += 1
        return '%s%d' % (p, self.n)


REG = Registry()


def new_registry():
    global REG
    REG.__init__()
    _range_cache.clear()
    _norm_cache.clear()
    return REG


def dim(name, lo=1):
    REG.dims[name] = lo
    return IntE.sym(name)


def fresh_ix(d, p='i'):
    """A fresh index into a dimension (compound for product dimensions): IntE"""
    d = ie(d)
    if d == 1:
        return I0
    if d in REG.fact:
        r, st = I0, I1
        for f in REG.fact[d]:
            r = r + st * fresh_ix(f, p)
            st = st * f
        return r
    nm = REG.fresh(p)
    REG.ix[nm] = d
    return IntE.sym(nm)


def prod_dim(fs):
    """Product of dimensions, minor first; remembers the factorisation when it is symbolic."""
    fs = [ie(f) for f in fs]
    fl = []
    for f in fs:
        fl.extend(REG.fact.get(f, (f,)))
    fl = [f for f in fl if not f == 1]
    r = I1
    for f in fl:
        r = r * f
    if len(fl) > 1 and not r.is_const():
        REG.fact[r] = tuple(fl)
    return r


_range_cache = {}


def scope_for(e):
    out = {}
    todo = list(e.syms())
    while todo:
        q = todo.pop()
        if q in out:
            continue
        for sm in reversed(REG.scope):
            for nm, dd in sm:
                if nm == q:
                    out[q] = dd
                    todo += list(dd.syms())
                    break
            else:
                continue
            break
    return out


def int_holds(cond_list, goal_op, e, extra=None):
    """Is  e op 0  (op in <=,<,==,!=) valid from the ranges of its symbols (z3, linear integers)?"""
    e = ie(e)
    if e.is_const():
        c = e.const()
        return {'<=': c <= 0, '<': c < 0, '==': c == 0, '!=': c != 0}[goal_op]
    sc = scope_for(e)
    key = (e, goal_op, REG.tok, tuple(sorted(sc.items())))
    if key in _range_cache:
        return _range_cache[key]
    import z3
    s = z3.Solver()
    s.set('timeout', 500)
    syms = set(e.syms())
    done, todo = set(), list(syms)
    V = {}

    def tr(x):
        r = z3.IntVal(0)
        for m, c in x.t:
            p = z3.IntVal(c)
            for q in m:
                if q not in V:
                    V[q] = z3.Int(q)
                    todo.append(q)
                p = p * V[q]
            r = r + p
        return r
    goal = tr(e)
    while todo:
        q = todo.pop()
        if q in done:
            continue
        done.add(q)
        if q in sc:
            s.add(z3.Int(q) >= 0, z3.Int(q) < tr(sc[q]))
            continue
        if q in REG.dims:
            s.add(z3.Int(q) >= REG.dims[q])
        if q in REG.ix:
            s.add(z3.Int(q) >= 0, z3.Int(q) < tr(REG.ix[q]))
    for f in REG.int_facts:
        if f[0] == 'icmp':
            g = tr(f[2])
            s.add({'<=': g <= 0, '<': g < 0, '==': g == 0, '!=': g != 0}[f[1]])
    s.add(z3.Not({'<=': goal <= 0, '<': goal < 0, '==': goal == 0, '!=': goal != 0}[goal_op]))
    r = s.check() == z3.unsat
    _range_cache[key] = r
    return r


# ---------------------------------------------------------------- conditions
# ('true',) ('false',) ('not',c) ('and',(..)) ('or',(..)) ('cmp',op,R) op in '<','<=','==' : R op 0
# ('icmp',op,IntE) op in '<','<=','==' ; ('all',ix,dim,c) ('ex',ix,dim,c) ; ('b',name,args)
TRUE, FALSE = ('true',), ('false',)


def c_not(c):
    if c == TRUE:
        return FALSE
    if c == FALSE:
        return TRUE
    k = c[0]
    if k == 'not':
        return c[1]
    if k == 'and':
        return c_or(*[c_not(x) for x in c[1]])
    if k == 'or':
        return c_and(*[c_not(x) for x in c[1]])
    if k == 'all':
        return ('ex', c[1], c[2], c_not(c[3]))
    if k == 'ex':
        return ('all', c[1], c[2], c_not(c[3]))
    if k == 'cmp':
        if c[1] == '<':
            return c_cmp('<=', -c[2])
        if c[1] == '<=':
            return c_cmp('<', -c[2])
    if k == 'icmp':
        if c[1] == '<':
            return c_icmp('<=', -c[2])
        if c[1] == '<=':
            return c_icmp('<', -c[2])
    return ('not', c)


def c_and(*cs):
    out = []
    for c in cs:
        if c == FALSE:
            return FALSE
        if c == TRUE:
            continue
        for x in (c[1] if c[0] == 'and' else (c,)):
            if x not in out:
                out.append(x)
    for x in out:
        if c_not(x) in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return ('and', tuple(out))


def c_or(*cs):
    out = []
    for c in cs:
        if c == TRUE:
            return TRUE
        if c == FALSE:
            continue
        for x in (c[1] if c[0] == 'or' else (c,)):
            if x not in out:
                out.append(x)
    for x in out:
        if c_not(x) in out:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return ('or', tuple(out))


def c_iff(a, b):
    return c_and(c_or(c_not(a), b), c_or(c_not(b), a))


def c_imp(a, b):
    return c_or(c_not(a), b)


def c_cmp(op, r):
    if r.is_const():
        v = r.const()
        return TRUE if {'<': v < 0, '<=': v <= 0, '==': v == 0}[op] else FALSE
    lead = r.lead_coef()
    if op == '==':
        r = r.scale(1 / lead)
    else:
        r = r.scale(1 / abs(lead))
    return ('cmp', op, r)


def c_icmp(op, e):
    e = ie(e)
    if e.is_const():
        v = e.const()
        return TRUE if {'<': v < 0, '<=': v <= 0, '==': v == 0}[op] else FALSE
    if op == '==' and e.t[0][1] < 0:
        e = -e
    if int_holds(None, op, e):
        return TRUE
    if op == '==':
        if int_holds(None, '!=', e):
            return FALSE
    elif op == '<':
        if int_holds(None, '<=', -e):
            return FALSE
    elif op == '<=':
        if int_holds(None, '<', -e):
            return FALSE
    return ('icmp', op, e)


def c_lt(a, b):
    return c_cmp('<', real(a) - real(b))


def c_le(a, b):
    return c_cmp('<=', real(a) - real(b))


def c_eq(a, b):
    return c_cmp('==', real(a) - real(b))


def c_all(ix, d, c):
    if c in (TRUE, FALSE):
        return c if c == TRUE or int_holds(None, '<', -ie(d)) else ('all', ix, ie(d), c)
    if c[0] == 'and':
        return c_and(*[c_all(ix, d, x) for x in c[1]])
    if ix not in cond_syms(c):
        return c_or(c, FALSE if int_holds(None, '<', -ie(d)) else c_icmp('<=', ie(d)))
    return ('all', ix, ie(d), c)


def c_ex(ix, d, c):
    return c_not(c_all(ix, d, c_not(c)))


def forall(e, c):
    """quantify over the index variables of the (compound) index expression e"""
    e = ie(e)
    for s in sorted(e.syms()):
        if s in REG.ix:
            c = c_all(s, REG.ix[s], c)
    return c


def exists(e, c):
    return c_not(forall(e, c_not(c)))


def cond_syms(c):
    k = c[0]
    if k in ('true', 'false'):
        return set()
    if k == 'not':
        return cond_syms(c[1])
    if k in ('and', 'or'):
        r = set()
        for x in c[1]:
            r |= cond_syms(x)
        return r
    if k == 'cmp':
        return c[2].syms()
    if k == 'icmp':
        return c[2].syms()
    if k in ('all', 'ex'):
        return (cond_syms(c[3]) - {c[1]}) | c[2].syms()
    if k == 'b':
        r = set()
        for a in c[2]:
            r |= a.syms()
        return r
    raise AssertionError(k)


def cond_subst(c, mp):
    k = c[0]
    if k in ('true', 'false'):
        return c
    if not (cond_syms(c) & set(mp)):
        return c
    if k == 'not':
        return c_not(cond_subst(c[1], mp))
    if k == 'and':
        return c_and(*[cond_subst(x, mp) for x in c[1]])
    if k == 'or':
        return c_or(*[cond_subst(x, mp) for x in c[1]])
    if k == 'cmp':
        return c_cmp(c[1], c[2].subst(mp))
    if k == 'icmp':
        return c_icmp(c[1], c[2].subst(mp))
    if k in ('all', 'ex'):
        bad = set()
        for v in mp.values():
            bad |= v.syms()
        ix, body = c[1], c[3]
        mp = {a: b for a, b in mp.items() if a != ix}
        if ix in bad:
            nm = REG.fresh('q')
            REG.ix[nm] = c[2]
            body = cond_subst(body, {ix: IntE.sym(nm)})
            ix = nm
        return (c_all if k == 'all' else c_ex)(ix, c[2].subst(mp), cond_subst(body, mp))
    if k == 'b':
        return ('b', c[1], tuple(a.subst(mp) for a in c[2]))
    raise AssertionError(k)


def cond_key(c):
    k = c[0]
    if k in ('true', 'false'):
        return k
    if k == 'not':
        return '!(%s)' % cond_key(c[1])
    if k in ('and', 'or'):
        return '(' + (' & ' if k == 'and' else ' | ').join(sorted(cond_key(x) for x in c[1])) + ')'
    if k == 'cmp':
        return '[%s %s 0]' % (c[2].key(), c[1])
    if k == 'icmp':
        return '[%s %s 0]' % (c[2].key(), c[1])
    if k in ('all', 'ex'):
        # quantified variable renamed for a stable key
        b = cond_subst_raw(c[3], {c[1]: IntE.sym('%' + str(quant_depth(c[3])))})
        return '%s<%s.(%s)' % (k, c[2].key(), cond_key(b))
    if k == 'b':
        return '%s(%s)' % (c[1], ','.join(a.key() for a in c[2]))
    raise AssertionError(k)


def quant_depth(c):
    k = c[0]
    if k == 'not':
        return quant_depth(c[1])
    if k in ('and', 'or'):
        return max([0] + [quant_depth(x) for x in c[1]])
    if k in ('all', 'ex'):
        return 1 + quant_depth(c[3])
    return 0


def cond_subst_raw(c, mp):
    return cond_subst(c, mp)


# ---------------------------------------------------------------- reals
# factor: ('el', atom, (IntE..)) ('sqrt', R) ('inv', R) ('pos', R) ('ite', Cond, R, R) ('fn', name, (R|IntE..))
#         ('int', symname) ('dl', IntE)   [Kronecker: 1 if IntE == 0]
def fkey(f):
    k = f[0]
    if k == 'el':
        return '%s[%s]' % (f[1], ','.join(i.key() for i in f[2]))
    if k in ('sqrt', 'inv', 'pos'):
        return '%s(%s)' % (k, f[1].key())
    if k == 'ite':
        return 'ite(%s;%s;%s)' % (cond_key(f[1]), f[2].key(), f[3].key())
    if k == 'fn':
        return '%s{%s}' % (f[1], ','.join(a.key() for a in f[2]))
    if k == 'int':
        return '#' + f[1]
    if k == 'dl':
        return 'dl(%s)' % f[1].key()
    raise AssertionError(k)


def fsyms(f):
    k = f[0]
    if k == 'el':
        r = set()
        for i in f[2]:
            r |= i.syms()
        return r
    if k in ('sqrt', 'inv', 'pos'):
        return f[1].syms()
    if k == 'ite':
        return cond_syms(f[1]) | f[2].syms() | f[3].syms()
    if k == 'fn':
        r = set()
        for a in f[2]:
            r |= a.syms()
        return r
    if k == 'int':
        return {f[1]}
    if k == 'dl':
        return f[1].syms()
    raise AssertionError(k)


def fsubst(f, mp):
    """substituted factor as R"""
    k = f[0]
    if not (fsyms(f) & set(mp)):
        return R.factor(f)
    if k == 'el':
        return r_el(f[1], tuple(i.subst(mp) for i in f[2]))
    if k == 'sqrt':
        return r_sqrt(f[1].subst(mp))
    if k == 'inv':
        return r_inv(f[1].subst(mp))
    if k == 'pos':
        return r_pos(f[1].subst(mp))
    if k == 'ite':
        return r_ite(cond_subst(f[1], mp), f[2].subst(mp), f[3].subst(mp))
    if k == 'fn':
        return r_fn(f[1], *[a.subst(mp) for a in f[2]])
    if k == 'int':
        return r_int(mp[f[1]])
    if k == 'dl':
        return r_delta(f[1].subst(mp))
    raise AssertionError(k)


class R:
    __slots__ = ('t', '_k', '_s', '_hh')

    def __init__(self, t):
        self.t = t
        self._k = None
        self._s = None
        self._hh = None

    # -- constructors
    @staticmethod
    def const_(v):
        v = Fraction(v)
        return R({((), ()): v}) if v else R({})

    @staticmethod
    def factor(f, p=1):
        return R({(((f, p),), ()): Fraction(1)})

    # -- queries
    def is_const(self):
        return not self.t or (len(self.t) == 1 and ((), ()) in self.t)

    def const(self):
        return self.t.get(((), ()), Fraction(0))

    def is_zero(self):
        return not self.t

    def lead_coef(self):
        k = min((x for x in self.t if x != ((), ())), key=mono_key, default=((), ()))
        return self.t[k]

    def key(self):
        if self._k is None:
            self._k = ' + '.join(sorted('%s*%s' % (c, mono_key(m)) for m, c in self.t.items())) or '0'
        return self._k

    def __repr__(self):
        return self.key()

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        return isinstance(o, R) and self.key() == o.key()

    def syms(self):
        if self._s is None:
            r = set()
            for (fs, sm), _ in self.t.items():
                b = {n for n, _ in sm}
                x = set()
                for f, _p in fs:
                    x |= fsyms(f)
                for _, d in sm:
                    x |= d.syms()
                r |= x - b
            self._s = frozenset(r)
        return set(self._s)

    # -- arithmetic
    def __add__(self, o):
        o = real(o)
        d = dict(self.t)
        for m, c in o.t.items():
            v = d.get(m, 0) + c
            if v:
                d[m] = v
            else:
                d.pop(m, None)
        return R(d)

    __radd__ = __add__

    def scale(self, c):
        c = Fraction(c)
        if not c:
            return R({})
        return R({m: v * c for m, v in self.t.items()})

    def __neg__(self):
        return self.scale(-1)

    def __sub__(self, o):
        return self + (-real(o))

    def __rsub__(self, o):
        return real(o) - self

    def __mul__(self, o):
        o = real(o)
        if self.is_const():
            return o.scale(self.const())
        if o.is_const():
            return self.scale(o.const())
        if len(self.t) * len(o.t) > 60000:
            raise Unsupported('expression too large')
        acc = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                for m, c in mono_mul(m1, m2).t.items():
                    v = acc.get(m, 0) + c * c1 * c2
                    if v:
                        acc[m] = v
                    else:
                        acc.pop(m, None)
        r = R(acc)
        if (len(self.t) > 1 or len(o.t) > 1) and (self.t == o.t or (nn_marked(self) and (nn_marked(o) or r_nonneg(o)))
                                                  or (nn_marked(o) and r_nonneg(self))):
            nn_mark(r)
        return r

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self * r_inv(real(o))

    def __rtruediv__(self, o):
        return real(o) * r_inv(self)

    def __pow__(self, n):
        if n < 0:
            return r_inv(self) ** (-n)
        r = ONE
        for _ in range(n):
            r = r * self
        return r

    def subst(self, mp):
        if not (self.syms() & set(mp)):
            return self
        tot = ZERO
        REG.depth += 1
        try:
            for (fs, sm), c in self.t.items():
                ren, sm2 = {}, []
                for i, (n, d) in enumerate(sm):
                    nn = '^%d_%d' % (REG.depth, i)
                    ren[n] = IntE.sym(nn)
                bnd = {n for n, _ in sm}
                m2 = {k: v for k, v in mp.items() if k not in bnd}
                m2.update(ren)
                sm2 = tuple((ren[n].pure(), d.subst(m2)) for n, d in sm)
                p = R.const_(c)
                REG.scope.append(sm2)
                try:
                    for f, e in fs:
                        g = fsubst(f, m2)
                        p = p * (g ** e if e > 0 else r_inv(g) ** (-e))
                finally:
                    REG.scope.pop()
                tot = tot + times_sums(p, sm2)
        finally:
            REG.depth -= 1
        return tot

    def map_factors(self, fn):
        """rebuild with fn(factor) -> R or None (keep)"""
        tot = ZERO
        for (fs, sm), c in self.t.items():
            p = None
            for f, e in fs:
                g = fn(f)
                if g is not None:
                    p = True
            if p is None:
                tot = tot + R({(fs, sm): c})
                continue
            q = R.const_(c)
            REG.depth += 1
            ren = {n: '^%d_%d' % (REG.depth, i) for i, (n, _) in enumerate(sm)}
            mp = {n: IntE.sym(v) for n, v in ren.items()}
            sm2 = tuple((ren[n], d.subst(mp)) for n, d in sm)
            REG.scope.append(sm2)
            try:
                for f, e in fs:
                    g = fsubst(f, mp) if mp else R.factor(f)
                    sg = single(g)
                    if sg and sg[1] == 1 and not sg[0][1] and len(sg[0][0]) == 1 and sg[0][0][0][1] == 1:
                        h = fn(sg[0][0][0][0])
                        g = g if h is None else h
                    q = q * (g ** e if e > 0 else r_inv(g) ** (-e))
            finally:
                REG.scope.pop()
                REG.depth -= 1
            tot = tot + times_sums(q, sm2)
        return tot


def mono_key(m):
    fs, sm = m
    s = '.'.join(fkey(f) if p == 1 else '%s^%d' % (fkey(f), p) for f, p in fs) or '1'
    if sm:
        s = 'S{%s}(%s)' % (','.join('%s<%s' % (n, d.key()) for n, d in sm), s)
    return s


ZERO = R({})
ONE = R({((), ()): Fraction(1)})


def real(x):
    if isinstance(x, R):
        return x
    if isinstance(x, bool):
        return ONE if x else ZERO
    if isinstance(x, (int, Fraction)):
        return R.const_(x)
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            raise Unsupported('non-finite constant')
        return R.const_(Fraction(repr(x)))
    if isinstance(x, IntE):
        return r_int(x)
    if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] in (
            'true', 'false', 'not', 'and', 'or', 'cmp', 'icmp', 'all', 'ex', 'b'):
        return r_ite(x, ONE, ZERO)
    raise Unsupported('not a real: %r' % (x,))


def r_int(e):
    e = ie(e)
    r = ZERO
    for m, c in e.t:
        p = R.const_(c)
        for s in m:
            p = p * R.factor(('int', s))
        r = r + p
    return r


def r_el(atom, idx):
    idx = tuple(ie(i) for i in idx)
    a = REG.atoms.get(atom, {})
    if a.get('sym') and len(idx) >= 2 and idx[1].key() < idx[0].key():
        idx = (idx[1], idx[0]) + idx[2:]
    if a.get('upper') and int_holds(None, '<', idx[1] - idx[0]):
        return ZERO
    return R.factor(('el', atom, idx))


def r_delta(e):
    e = ie(e)
    if e.is_const():
        return ONE if e.const() == 0 else ZERO
    if e.t[0][1] < 0:
        e = -e
    if int_holds(None, '!=', e):
        return ZERO
    if int_holds(None, '==', e):
        return ONE
    # positional notation: r + d*q = 0 with |r| < d means r = 0 and q = 0
    for d in sorted({s for m, c in e.t if len(m) >= 2 for s in m}):
        q, r = {}, {}
        for m, c in e.t:
            if d in m:
                mm = list(m)
                mm.remove(d)
                q[tuple(mm)] = c
            else:
                r[m] = c
        if not q or not r:
            continue
        r, dd = IntE(r), IntE.sym(d)
        if int_holds(None, '<', r - dd) and int_holds(None, '<', -r - dd):
            return r_delta(r) * r_delta(IntE(q))
    return R.factor(('dl', e))


def single(r):
    """(mono, coef) when r has exactly one term"""
    if len(r.t) == 1:
        return next(iter(r.t.items()))
    return None


def cancel_common(r):
    """inv(E)*a + inv(E)*b with a + b = c*E becomes c"""
    if len(r.t) < 2:
        return r
    common = None
    for fs, sm in r.t:
        c = {f: p for f, p in fs if f[0] == 'inv' and not (fsyms(f) & {n for n, _ in sm})}
        common = c if common is None else {f: min(p, c[f]) for f, p in common.items() if f in c}
        if not common:
            return r
    for f in sorted(common, key=fkey):
        try:
            q = R({(tuple((g, p) if g != f else (g, p - 1) for g, p in fs if g != f or p > 1), sm): c for (fs, sm), c in r.t.items()})
        except Exception:
            continue
        k = proportional(q, f[1])
        if k is not None:
            return R.const_(k)
    return r


def r_inv(r):
    if len(r.t) > 1:
        r = cancel_common(r)
    if r.is_zero():
        raise Unsupported('division by the constant zero')
    if r.is_const():
        return R.const_(1 / r.const())
    s = single(r)
    if s and not s[0][1]:
        (fs, _), c = s
        p = R.const_(1 / c)
        for f, e in fs:
            if f[0] == 'dl':
                break
            if f[0] == 'inv':
                p = p * f[1] ** e
            elif f[0] == 'ite':
                p = p * r_ite(f[1], _inv_or_none(f[2]), _inv_or_none(f[3])) ** e
            else:
                p = p * R({(((f, -e),), ()): Fraction(1)})
        else:
            return p
    if s:
        (fs, sm), c = s
        free, comps = components(fs, sm)
        if (free or len(comps) > 1) and not any(f[0] == 'dl' for f, _ in free):
            p = r_inv(build_raw(free)) * R.const_(1 / c)
            for k in comps:
                p = p * R.factor(('inv', comp_r(k)))
            return p
    c = r.lead_coef()
    return R.factor(('inv', r.scale(1 / c))).scale(1 / c)


def _inv_or_none(r):
    if r.is_zero():
        raise Unsupported('division by a conditional zero')
    return r_inv(r)


def isqrt_frac(c):
    from math import isqrt
    if c < 0:
        return None
    a, b = isqrt(c.numerator), isqrt(c.denominator)
    return Fraction(a, b) if a * a == c.numerator and b * b == c.denominator else None


def r_sqrt(r):
    """Non-negative root; the caller is responsible for the sign of r."""
    if r.is_const():
        q = isqrt_frac(r.const())
        if q is not None:
            return R.const_(q)
        return R.factor(('sqrt', r))
    s = single(r)
    if s:
        (fs, sm), c = s
        q = isqrt_frac(c)
        if q is not None:
            out = R.const_(q)
            rest = []
            if not sm:
                for f, e in fs:
                    if e % 2 == 0:
                        out = out * r_abs(R.factor(f)) ** (e // 2) if e > 0 else out * r_inv(r_abs(R.factor(f))) ** (-e // 2)
                    else:
                        rest.append((f, e))
                if not rest:
                    return out
                if len(rest) == 1 and rest[0][0][0] in ('inv',) and rest[0][1] == 1:
                    return out * r_inv(r_sqrt(rest[0][0][1]))
                if len(rest) == 1 and rest[0][1] == -1:
                    return out * r_inv(R.factor(('sqrt', R.factor(rest[0][0]))))
                rr = R({(tuple(rest), ()): Fraction(1)})
                return out * R.factor(('sqrt', rr))
            free, comps = components(fs, sm)
            parts = ([build_raw(free)] if free else []) + [comp_r(k) for k in comps]
            if len(parts) > 1 and all(r_nonneg(x) for x in parts):
                for x in parts:
                    out = out * r_sqrt(x)
                return out
            return out * R.factor(('sqrt', R({(fs, sm): Fraction(1)})))
    lead = r.lead_coef()
    q = isqrt_frac(abs(lead))
    if q is not None and q != 1:
        return R.factor(('sqrt', r.scale(1 / abs(lead)))).scale(q)
    return R.factor(('sqrt', r))


NONNEG_HOOK = [None]


def components(fs, sm):
    """independent parts of a monomial: (factors outside every sum, [(factors, sums)])"""
    bound = {n for n, _ in sm}
    free = [(f, p) for f, p in fs if not fsyms(f) & bound]
    pool = [(f, p) for f, p in fs if fsyms(f) & bound]
    out = []
    while pool:
        c = component([pool[0]], pool, bound)
        names = set()
        for f, _ in c:
            names |= fsyms(f) & bound
        out.append((tuple(x for x in fs if x in c), tuple((n, d) for n, d in sm if n in names)))
        pool = [x for x in pool if x not in c]
    return free, out


def comp_r(k):
    return R({canon_mono(k): Fraction(1)})


def cancel_inv(fs, sm):
    """sum * inv(sum) = 1, sum / sqrt(sum) = sqrt(sum) (inverses are only used where they are defined)"""
    bound = {n for n, _ in sm}
    invs = [(f, p) for f, p in fs if (f[0] == 'inv' and p > 0 or f[0] == 'sqrt' and p < 0) and len(f[1].t) == 1
            and next(iter(f[1].t))[1]]
    if not invs:
        return None
    cache = {}
    for f, p in invs:
        shared = fsyms(f) & bound
        own = bound - shared
        if not own:
            continue
        kk = tuple(sorted(shared)) + (f if shared else None,)
        if kk not in cache:
            pool = [x for x in fs if x[0] is not f and fsyms(x[0]) & own] if shared else [x for x in fs if fsyms(x[0]) & own]
            comps = []
            while pool:
                c = component([pool[0]], pool, own)
                names = set()
                for g, _ in c:
                    names |= fsyms(g) & own
                comps.append((tuple(x for x in fs if x in c), tuple((n, d) for n, d in sm if n in names)))
                pool = [x for x in pool if x not in c]
            cache[kk] = [(k, comp_r(k)) for k in comps]
        (mu, cu), = f[1].t.items()
        want = R({canon_mono(mu): Fraction(1)})
        for k, r in cache[kk]:
            if r == want:
                others = [x for x in fs if x not in k[0] and x[0] is not f]
                if f[0] == 'inv':
                    if p > 1:
                        others.append((f, p - 1))
                elif p + 2:
                    others.append((f, p + 2))
                names = {n for n, _ in k[1]}
                rest = tuple(x for x in sm if x[0] not in names)
                return times_sums(build_raw(others) * R.const_(1 / cu), rest)
    return None


def is_known_nonneg(f):
    """syntactically non-negative factor"""
    if f[0] in ('sqrt', 'pos', 'dl'):
        return True
    if f[0] == 'int':
        return f[1] in REG.dims or f[1] in REG.ix
    if f[0] == 'el':
        a = REG.atoms.get(f[1], {})
        return bool(a.get('nonneg') or a.get('positive'))
    if f[0] == 'inv':
        return r_nonneg(f[1])
    if f[0] == 'ite':
        return r_nonneg(f[2]) and r_nonneg(f[3])
    return False


def mono_nonneg(m):
    """is the monomial (with sums) syntactically non-negative?"""
    fs, sm = m
    bound = {n for n, _ in sm}
    units = []
    rest = []
    for f, p in fs:
        if p % 2 == 0 and not (fsyms(f) & set()):
            continue
        if is_known_nonneg(f):
            continue
        rest.append(f)
    if not rest:
        return True
    # x'Px with P positive semidefinite
    for f in rest:
        if f[0] == 'el' and (REG.atoms.get(f[1], {}).get('psd')) and len(f[2]) >= 2:
            i, j = f[2][0].pure(), f[2][1].pure()
            if i in bound and j in bound and i != j:
                others = [(g, p) for g, p in fs if g is not f]
                gi = [(g, p) for g, p in others if i in fsyms(g)]
                gj = [(g, p) for g, p in others if j in fsyms(g)]
                if any(x in gj for x in gi):
                    continue
                comp_i = component(gi, others, bound - {i, j})
                comp_j = component(gj, others, bound - {i, j})
                if comp_i is None or comp_j is None or (set(map(id, comp_i)) & set(map(id, comp_j))):
                    continue
                bi = {x for g, _ in comp_i for x in fsyms(g) & bound}
                bj = {x for g, _ in comp_j for x in fsyms(g) & bound}
                ri = R({(tuple(sorted(comp_i, key=lambda q: fkey(q[0]))), tuple((n, d) for n, d in sm if n in bi - {i})): Fraction(1)})
                rj = R({(tuple(sorted(comp_j, key=lambda q: fkey(q[0]))), tuple((n, d) for n, d in sm if n in bj - {j})): Fraction(1)})
                try:
                    same = canon(ri).subst({i: IntE.sym('%w')}) == canon(rj).subst({j: IntE.sym('%w')})
                except Unsupported:
                    same = False
                if same:
                    left = [(g, p) for g, p in others if (g, p) not in comp_i and (g, p) not in comp_j]
                    used = bi | bj | {i, j}
                    if mono_nonneg((tuple(left), tuple((n, d) for n, d in sm if n not in used))):
                        return True
    # (sum_k u_k v..)^2 = two isomorphic components
    comps = []
    pool = [(f, p) for f, p in fs if not (p % 2 == 0) and not is_known_nonneg(f)]
    allf = list(fs)
    while pool:
        c = component([pool[0]], allf, bound)
        comps.append(c)
        pool = [x for x in pool if x not in c]
    keys = []
    for c in comps:
        b = {x for g, _ in c for x in fsyms(g) & bound}
        r = canon(R({(tuple(sorted(c, key=lambda q: fkey(q[0]))), tuple((n, d) for n, d in sm if n in b)): Fraction(1)}))
        keys.append(r.key())
    from collections import Counter
    bad = [k for k, v in Counter(keys).items() if v % 2]
    if not bad:
        return True
    # for every value of one of the summation indices on its own
    if 3 <= len(sm) <= 7:
        occ = {n: sum(1 for f in rest if n in fsyms(f)) for n, _ in sm}
        for n, _ in sm:
            if occ[n] >= 2 and mono_nonneg((fs, tuple(x for x in sm if x[0] != n))):
                return True
    return False


def component(start, pool, bound):
    cur = list(start)
    names = {x for g, _ in cur for x in fsyms(g) & bound}
    while True:
        add = [x for x in pool if x not in cur and fsyms(x[0]) & names]
        if not add:
            return cur
        cur += add
        names |= {x for g, _ in add for x in fsyms(g) & bound}


def r_nonneg(r):
    if r.is_const():
        return r.const() >= 0
    if nn_marked(r):
        return True
    if all(c > 0 and mono_nonneg(m) for m, c in r.t.items()):
        return True
    if len(r.t) >= 3 and gram_nonneg(r):
        return True
    q = below(r)
    return q is not None and r_nonneg(q)


def below(r):
    """a smaller expression: one term  c * pos(w), c > 0, replaced by  c * w"""
    for m, c in r.t.items():
        if c > 0 and not m[1] and len(m[0]) == 1 and m[0][0][1] == 1 and m[0][0][0][0] == 'pos':
            return R({k: v for k, v in r.t.items() if k != m}) + m[0][0][0][1].scale(c)
    return None


def part_key(fs, sm, i):
    """key of a vector given by factors over the index i"""
    names = {n for n, _ in sm}
    b = {x for g, _ in fs for x in fsyms(g) & names}
    r = canon(R({(tuple(sorted(fs, key=lambda q: fkey(q[0]))), tuple((n, d) for n, d in sm if n in b and n != i)): Fraction(1)}))
    return r.subst({i: IntE.sym('%w')}).key() if i is not None else r.key()


def bilinear(m):
    """the monomial as  outer * u'Kv  with a positive semidefinite kernel: alternatives (key of outer and kernel, key of u, key of v)"""
    fs, sm = m
    res = []
    bound = {n for n, _ in sm}
    dims = dict(sm)
    for f, p in fs:
        if p == 1 and f[0] == 'el' and REG.atoms.get(f[1], {}).get('psd') and len(f[2]) >= 2:
            i, j = f[2][0].pure(), f[2][1].pure()
            if i in bound and j in bound and i != j and not any(fsyms(x) & bound for x in ()) \
                    and not any(x.syms() & bound for x in f[2][2:]):
                others = [(g, q) for g, q in fs if g is not f]
                gi = [x for x in others if i in fsyms(x[0])]
                gj = [x for x in others if j in fsyms(x[0])]
                if not gi or not gj or any(x in gj for x in gi):
                    continue
                ci, cj = component(gi, others, bound - {i, j}), component(gj, others, bound - {i, j})
                if any(x in cj for x in ci) or any(j in fsyms(x[0]) for x in ci) or any(i in fsyms(x[0]) for x in cj):
                    continue
                left = [x for x in others if x not in ci and x not in cj]
                out = outer_key(left, sm)
                if out is None:
                    continue
                res.append((('K', f[1], tuple(x.key() for x in f[2][2:]), dims[i].key(), out), part_key(ci, sm, i), part_key(cj, sm, j)))
    if sm:
        for n, d in sm:
            has = [x for x in fs if n in fsyms(x[0])]
            comps = []
            for x in has:
                c = component([x], list(fs), bound - {n})
                if not any(set(map(repr, c)) & set(map(repr, q)) for q in comps):
                    comps.append(c)
            left = [x for x in fs if not any(x in c for c in comps)]
            wt = [c for c in comps if len(c) == 1 and is_known_nonneg(c[0][0]) and c[0][0][0] != 'dl' and not fsyms(c[0][0]) & (bound - {n})]
            if len(comps) > 2:
                comps = [c for c in comps if c not in wt]
                wk = ' '.join(sorted(part_key(c, sm, n) for c in wt))
            else:
                wk = ''
            if len(comps) == 2 and all(p == 1 for c in comps for _, p in c):
                k1, k2 = part_key(comps[0], sm, n), part_key(comps[1], sm, n)
            elif len(comps) == 1 and all(p == 2 for _, p in comps[0]) and not any(
                    fsyms(g) & (bound - {n}) for g, _ in comps[0]):
                k1 = k2 = part_key([(g, 1) for g, _ in comps[0]], sm, n)
            else:
                continue
            out = outer_key(left, sm)
            if out is not None:
                res.append((('D', d.key(), out, wk), k1, k2))
        return res
    us = [f for f, p in fs for _ in range(p) if not is_known_nonneg(f)] if all(p > 0 for _, p in fs) else []
    if len(us) == 2:
        left = [(f, p) for f, p in fs if is_known_nonneg(f)]
        out = outer_key(left, sm)
        if out is not None:
            res.append((('P', out), fkey(us[0]), fkey(us[1])))
    return res


def outer_key(left, sm):
    if not left:
        return ''
    names = {x for g, _ in left for x in fsyms(g)}
    m = (tuple(left), tuple((n, d) for n, d in sm if n in names))
    if not mono_nonneg(m):
        return None
    return canon(R({(tuple(sorted(left, key=lambda q: fkey(q[0]))), m[1]): Fraction(1)})).key()


def gram_nonneg(r):
    """sum over kernels of quadratic forms in several vectors with a positive semidefinite coefficient matrix"""
    groups, alts, diag = {}, [], set()
    for m, c in r.t.items():
        try:
            alts.append((m, c, bilinear(m)))
        except Unsupported:
            alts.append((m, c, []))
        diag |= {(k, u) for k, u, v in alts[-1][2] if u == v and c > 0}
    for m, c, al in alts:
        b = next((x for x in al if (x[0], x[1]) in diag and (x[0], x[2]) in diag), None)
        if b is None:
            if c > 0 and mono_nonneg(m):
                continue
            return False
        groups.setdefault(b[0], []).append((b[1], b[2], c))
    for g in groups.values():
        vs = sorted({x for u, v, _ in g for x in (u, v)})
        a = [[Fraction(0)] * len(vs) for _ in vs]
        for u, v, c in g:
            i, j = vs.index(u), vs.index(v)
            a[i][j] += Fraction(c) / 2
            a[j][i] += Fraction(c) / 2
        if not frac_psd(a):
            return False
    return True


def frac_psd(a):
    """exact test of positive semidefiniteness"""
    a = [list(x) for x in a]
    n = len(a)
    for k in range(n):
        if a[k][k] < 0:
            return False
        if a[k][k] == 0:
            if any(a[k][j] for j in range(k, n)):
                return False
            continue
        for i in range(k + 1, n):
            f = a[i][k] / a[k][k]
            for j in range(k, n):
                a[i][j] -= f * a[k][j]
            # symmetric elimination keeps the trailing block symmetric
    return True


def r_pos(d):
    """max(d, 0)"""
    if d.is_const():
        return R.const_(max(d.const(), 0))
    if r_nonneg(d):
        return d
    if r_nonneg(-d):
        return ZERO
    c = d.lead_coef()
    u = d.scale(1 / abs(c))
    if c < 0:
        u = -u            # u has leading coefficient 1 ; pos(-u) = pos(u) - u
        return (R.factor(('pos', u)) - u).scale(abs(c))
    return R.factor(('pos', u)).scale(c)


def r_abs(d):
    if d.is_const():
        return R.const_(abs(d.const()))
    s = single(d)
    if s and not s[0][1]:
        (fs, _), c = s
        if all(is_known_nonneg(f) or p % 2 == 0 for f, p in fs):
            return d.scale(-1) if c < 0 else d
    return r_pos(d) * 2 - d


def r_max(a, b):
    return real(b) + r_pos(real(a) - real(b))


def r_min(a, b):
    return real(a) - r_pos(real(a) - real(b))


def r_ite(c, x, y):
    x, y = real(x), real(y)
    if c == TRUE:
        return x
    if c == FALSE:
        return y
    if x == y:
        return x
    if c[0] == 'not' or (c[0] == 'cmp' and c[1] == '<=' and False):
        return r_ite(c[1], y, x)
    if c[0] == 'icmp' and c[1] == '==':
        # Kronecker form
        d = r_delta(c[2])
        sp = subst_eq(c[2])
        if sp:
            x = x.subst(sp)
        return d * (x - y) + y
    if c[0] == 'cmp' and c[1] in ('<', '<='):
        d = c[2]                     # condition d < 0 (or <=)
        diff = x - y                 # x if d<0 else y
        ratio = proportional(diff, d)
        if ratio is not None:        # diff = ratio*d :  y + ratio*min(d,0)
            return y + (d - r_pos(d)).scale(ratio)
        if c[1] == '<=':
            return r_ite(c_not(c), y, x)
    d = x - y
    if d.is_const() and d.const() == 1:
        return R.factor(('ite', c, ONE, ZERO)) + y
    return R.factor(('ite', c, ONE, ZERO)) * d + y


def subst_eq(e):
    """e == 0 solved for a symbol with coefficient +-1 (an index, preferably the most recent)"""
    best = None
    for s in e.syms():
        sp = e.split_sym(s)
        if sp and abs(sp[0]) == 1 and s in REG.ix:
            val = -sp[1] if sp[0] == 1 else sp[1]
            best = (s, val) if best is None or s > best[0] else best
    return {best[0]: best[1]} if best else None


def proportional(a, b):
    if a.is_zero() or b.is_zero() or set(a.t) != set(b.t):
        return None
    it = iter(a.t)
    m = next(it)
    q = a.t[m] / b.t[m]
    return q if all(a.t[k] == q * b.t[k] for k in a.t) else None


def r_fn(name, *args):
    args = tuple(real(a) if not isinstance(a, (IntE, R)) else a for a in args)
    if name == 'sign' and args[0].is_const():
        v = args[0].const()
        return R.const_((v > 0) - (v < 0))
    if name == 'cos' and args[0].is_zero():
        return ONE
    if name == 'sin' and args[0].is_zero():
        return ZERO
    if name == 'floor' and integral(args[0]):
        return args[0]
    return R.factor(('fn', name, args))


def integral(r):
    """integer combination of integer symbols and integer atoms"""
    for (fs, sm), c in r.t.items():
        if sm or c.denominator != 1:
            return False
        for f, p in fs:
            if p < 0 or not (f[0] == 'int' or f[0] == 'el' and REG.atoms.get(f[1], {}).get('int')):
                return False
    return True


def nn_norm(r):
    return r.scale(1 / abs(r.lead_coef())).key()


def nn_mark(r):
    if not r.is_const() and not all(c > 0 and mono_nonneg(m) for m, c in r.t.items()):
        REG.nn.add(nn_norm(r))


def nn_marked(r):
    return bool(REG.nn) and not r.is_const() and len(r.t) > 1 and nn_norm(r) in REG.nn


def r_sum_sym(name, d, body):
    r = r_sum_sym_(name, d, body)
    if nn_marked(body):
        nn_mark(r)
    return r


def r_sum_sym_(name, d, body):
    """sum over the index variable `name` in [0, d)"""
    d = ie(d)
    if d == 1:
        return body.subst({name: I0})
    if d.is_const() and d.const() <= 6:
        tot = ZERO
        for v in range(d.const()):
            tot = tot + body.subst({name: ie(v)})
        return tot
    tot = {}
    for (fs, sm), c in body.t.items():
        if name in {n for n, _ in sm}:
            fs, sm = raw_rename(fs, sm, avoid([n for n, _ in sm], mono_syms(fs, sm) | {name} | d.syms()))
        m = ((fs), tuple(sm) + ((name, d),))
        for m2, c2 in norm_mono(m).t.items():
            v = tot.get(m2, 0) + c * c2
            if v:
                tot[m2] = v
            else:
                tot.pop(m2, None)
    return R(tot)


def r_sum(d, fn):
    """sum_{k in [0,d)} fn(k)"""
    d = ie(d)
    if d.is_const() and d.const() <= 8:
        tot = ZERO
        for v in range(d.const()):
            tot = tot + real(fn(ie(v)))
        return tot
    e = fresh_ix(d, 'k')
    body = real(fn(e))
    for s in sorted(e.syms()):
        if s in REG.ix:
            body = r_sum_sym(s, REG.ix[s], body)
    return body


def mono_mul(m1, m2):
    f1, s1 = m1
    f2, s2 = m2
    if s2:
        n1 = {n for n, _ in s1}
        free1 = set()
        for f, _ in f1:
            free1 |= fsyms(f)
        if (n1 | free1) & {n for n, _ in s2}:
            f2, s2 = raw_rename(f2, s2, avoid([n for n, _ in s2], n1 | free1))
    if s1:
        free2 = set()
        for f, _ in f2:
            free2 |= fsyms(f)
        n2 = {n for n, _ in s2}
        clash = {n for n, _ in s1} & (free2 - n2)
        if clash:
            f1, s1 = raw_rename(f1, s1, avoid(sorted(clash), free2 | n2 | {n for n, _ in s1}))
    d = {}
    order = []
    for f, p in tuple(f1) + tuple(f2):
        if f in d:
            d[f] += p
        else:
            d[f] = p
            order.append(f)
    fs = tuple(sorted(((f, d[f]) for f in order if d[f]), key=lambda q: fkey(q[0])))
    return norm_mono((fs, s1 + s2))


def mono_syms(fs, sm):
    r = {n for n, _ in sm}
    for f, _ in fs:
        r |= fsyms(f)
    for _, d in sm:
        r |= d.syms()
    return r


def avoid(names, taken):
    ren, i = {}, 0
    for n in names:
        while '&%d' % i in taken:
            i += 1
        ren[n] = IntE.sym('&%d' % i)
        i += 1
    return ren


def raw_rename(fs, sm, ren):
    out = []
    for f, p in fs:
        g = fsubst(f, ren)
        s = single(g)
        if s is None or s[1] != 1 or s[0][1] or len(s[0][0]) != 1:
            # renaming made it non-atomic (should not happen for injective renamings)
            raise Unsupported('renaming')
        (ff, pp), = s[0][0]
        out.append((ff, pp * p))
    sm2 = tuple((ren[n].pure() if n in ren else n, d.subst(ren)) for n, d in sm)
    return tuple(out), sm2


_norm_cache = {}


def norm_mono(m):
    k = (tuple((fkey(f), p) for f, p in m[0]), tuple((n, d.key()) for n, d in m[1]))
    sy = set()
    for f, _ in m[0]:
        sy |= fsyms(f)
    sy -= {n for n, _ in m[1]}
    k = (k, REG.tok, tuple((n, d.key()) for sm in REG.scope for n, d in sm if n in sy))
    r = _norm_cache.get(k)
    if r is None:
        REG.scope.append(m[1])
        try:
            r = _norm_mono(m)
        finally:
            REG.scope.pop()
        if len(_norm_cache) > 300000:
            _norm_cache.clear()
        _norm_cache[k] = r
    return r


def build(fs, sm, c=1):
    r = R.const_(c)
    for f, p in fs:
        if p:
            d = R({(((f, p),), ()): Fraction(1)})
            r = r * d
    for n, d in sm:
        r = r_sum_sym(n, d, r)
    return r


def times_sums(r, sm):
    if not sm:
        return r
    tot = {}
    for (fs, sm1), c in r.t.items():
        names = {n for n, _ in sm}
        if names & {n for n, _ in sm1}:
            fs, sm1 = raw_rename(fs, sm1, avoid([n for n, _ in sm1], mono_syms(fs, sm1) | names))
        for m2, c2 in norm_mono((fs, tuple(sm1) + tuple(sm))).t.items():
            v = tot.get(m2, 0) + c * c2
            if v:
                tot[m2] = v
            else:
                tot.pop(m2, None)
    return R(tot)


def _norm_mono(m):
    fs, sm = m
    # merge equal factors, powers of roots, Kronecker idempotence
    d, order = {}, []
    for f, p in fs:
        if f not in d:
            order.append(f)
        d[f] = d.get(f, 0) + p
    extra = None
    fl = []
    for f in order:
        p = d[f]
        if not p:
            continue
        if f[0] == 'sqrt' and (p >= 2 or p <= -1 and p % 2 == 0):
            extra = (extra or ONE)
            half = p // 2 if p > 0 else -((-p) // 2)
            extra = extra * (f[1] ** half if half > 0 else r_inv(f[1]) ** (-half))
            if p % 2:
                fl.append((f, 1 if p > 0 else -1))
            continue
        if f[0] == 'dl' and p > 1:
            p = 1
        if f[0] == 'ite' and p > 1:
            extra = (extra or ONE) * r_ite(f[1], f[2] ** p, f[3] ** p)
            continue
        if f[0] == 'pos' and p < 0:
            pass
        fl.append((f, p))
    if extra is not None:
        r = build_raw(fl) * extra
        return times_sums(r, sm)
    for f, p in fl:
        # E / sqrt(E) = sqrt(E) for a plain product E
        if f[0] == 'sqrt' and p == -1 and len(f[1].t) == 1:
            ((efs, esm), c), = f[1].t.items()
            pw = dict(fl)
            if efs and not esm and all(e > 0 and pw.get(g, 0) >= e for g, e in efs):
                for g, e in efs:
                    pw[g] -= e
                pw[f] = 1
                return times_sums(build_raw([(g, e) for g, e in pw.items() if e]) * R.const_(1 / c), sm)
    fs = tuple(sorted(fl, key=lambda q: fkey(q[0])))
    bound = [n for n, _ in sm]
    if bound:
        bs = dict(sm)
        # unused bound index
        used = set()
        for f, _ in fs:
            used |= fsyms(f)
        for _, dd in sm:
            used |= dd.syms()
        for n in bound:
            if n not in used:
                rest = tuple(x for x in sm if x[0] != n)
                return times_sums(build_raw(fs) * r_int(bs[n]), rest)
        # concrete dims / one-point dims
        for n in bound:
            if bs[n].is_const() and bs[n].const() <= 6:
                rest = tuple(x for x in sm if x[0] != n)
                tot = ZERO
                for v in range(bs[n].const()):
                    tot = tot + build_raw(fs).subst({n: ie(v)})
                return times_sums(tot, rest)
        # Kronecker elimination
        for f, p in fs:
            if f[0] != 'dl':
                continue
            for n in bound:
                sp = f[1].split_sym(n) if n in f[1].syms() else None
                if sp and abs(sp[0]) == 1:
                    val = -sp[1] if sp[0] == 1 else sp[1]
                    others = tuple(x for x in fs if x[0] is not f)
                    ext = tuple((a, b) for a, b in sm if a != n)
                    rest = ext
                    lo = int_holds(None, '<=', -val)
                    hi = int_holds(None, '<', val - bs[n])
                    r = build_raw(others).subst({n: val})
                    cnd = TRUE
                    if not lo:
                        cnd = c_and(cnd, ('icmp', '<=', -val))
                    if not hi:
                        cnd = c_and(cnd, ('icmp', '<', val - bs[n]))
                    if cnd != TRUE:
                        r = r * r_ite(cnd, ONE, ZERO)
                    return times_sums(r, rest)
        # conditionals on integers inside sums: split the range when possible (i < m etc.) is left to the prover
        r = contract(fs, sm)
        if r is not None:
            return r
        r = cancel_inv(fs, sm)
        if r is not None:
            return r
        # distribute: nothing applies -> canonical names
        return R({canon_mono((fs, sm)): Fraction(1)})
    # free-index contraction rules do not apply; Kronecker with free index: rewrite the larger symbol
    for f, p in fs:
        if f[0] == 'dl':
            sp = subst_eq(f[1])
            if sp:
                (s, v), = sp.items()
                others = tuple(x for x in fs if x[0] is not f)
                if any(s in fsyms(g) for g, _ in others):
                    return build_raw(others).subst(sp) * R({(((f, 1),), ()): Fraction(1)})
    return R({(fs, ()): Fraction(1)})


def build_raw(fs):
    if not fs:
        return ONE
    return R({(tuple(fs), ()): Fraction(1)})


def contract(fs, sm):
    """one rewriting step by the algebraic facts of the atoms (orthogonality, inverses, spectral forms, roots)"""
    bs = dict(sm)
    units = []
    for f, p in fs:
        if f[0] == 'el' and 0 < p <= 4:
            units += [f] * p
        else:
            units.append((f, p))
    occ = {n: [] for n in bs}
    for u, f in enumerate(units):
        ff = f if f[0] == 'el' else f[0]
        for n in fsyms(ff):
            if n in occ:
                occ[n].append(u)
    for n in bs:
        us = occ[n]
        els = [u for u in us if units[u][0] == 'el']
        if len(els) < 2 or any(n in dd.syms() for _, dd in sm):
            continue
        if len(us) > 4:
            continue
        for a, b in itertools.permutations(els, 2):
            fa, fb = units[a], units[b]
            A, B = REG.atoms.get(fa[1], {}), REG.atoms.get(fb[1], {})
            rest_n = [u for u in us if u not in (a, b)]
            res = None
            fam = fa[2][2:], fb[2][2:]
            if fa[1] == fb[1] and a < b and fam[0] == fam[1] and not any(n in q.syms() for q in fam[0]):
                # columns / rows of an orthogonal matrix
                for slot, prop in ((0, 'colorth'), (1, 'roworth')):
                    if len(fa[2]) < 2:
                        continue
                    ia, ib = fa[2][slot], fb[2][slot]
                    oa, ob = fa[2][1 - slot], fb[2][1 - slot]
                    if ia != ib or n not in ia.syms() or n in oa.syms() | ob.syms():
                        continue
                    sp = ia.split_sym(n)
                    if not sp or sp[0] != 1 or not sp[1].is_const():
                        continue
                    sh = sp[1].const()
                    full = A['dims'][slot]
                    if not (sh >= 0 and (bs[n] + sh) == full):
                        continue
                    if slot == 1 and A.get('spec') and sh == 0 and len(rest_n) == 1:
                        lam = A['spec'][0]
                        g = units[rest_n[0]]
                        gf, gp = (g, 1) if g[0] == 'el' else g
                        if gf[0] == 'el' and gf[1] == lam and gp == 1 and gf[2] == (ia,) + fam[0] and \
                                (g[0] != 'el' or units.count(g) == 1):
                            res = (A['spec'][1](oa, ob, *fam[0]), {a, b, rest_n[0]}, {n})
                            break
                    if not rest_n and A.get(prop):
                        if sh == 0:
                            res = (r_delta(oa - ob), {a, b}, {n})
                        else:
                            q = r_delta(oa - ob)
                            for v in range(sh):
                                i1 = (ie(v), oa) if slot == 0 else (oa, ie(v))
                                i2 = (ie(v), ob) if slot == 0 else (ob, ie(v))
                                q = q - r_el(fa[1], i1 + fam[0]) * r_el(fa[1], i2 + fam[0])
                            res = (q, {a, b}, {n})
                        break
            if res is None and not rest_n and A.get('inv_of') == fb[1] and len(fa[2]) >= 2 and len(fb[2]) >= 2 \
                    and fam[0] == fam[1] and not any(n in q.syms() for q in fam[0]):
                res = adj(fa, fb, n, bs, A, lambda x, y: r_delta(x - y), a, b, A.get('sym'), B.get('sym'))
            if res is None and not rest_n and fa[1] == fb[1] and A.get('sqrt_of') and a < b and fam[0] == fam[1]:
                res = adj(fa, fb, n, bs, A, lambda x, y: A['sqrt_of'](x, y, *fam[0]), a, b, True, True)
            if res is None and not rest_n and A.get('prod_rules'):
                for (x, y), fnr in A['prod_rules'].items():
                    # factor a times factor b (matrix product through n)
                    if fb[1] == y and fa[1] == x and (fam[0] == fam[1] or not fam[1] and not any(n in q.syms() for q in fam[0])):
                        res = adj(fa, fb, n, bs, A, lambda p, q: fnr(p, q, *fam[0]), a, b, A.get('sym'), B.get('sym'))
                        if res:
                            break
            if res is not None:
                rr, used, names = res
                left = []
                for u, f in enumerate(units):
                    if u not in used:
                        left.append((f, 1) if f[0] == 'el' else f)
                return times_sums(build_left(left) * rr, tuple(x for x in sm if x[0] not in names))
    return None


def build_left(left):
    r = ONE
    for f, p in left:
        r = r * R({(((f, p),), ()): Fraction(1)})
    return r


def adj(fa, fb, n, bs, A, fn, a, b, syma, symb):
    """fa[.., n] fb[n, ..]: matrix product through n; symmetric atoms may be flipped"""
    def orient(f, sym, slot):
        i = f[2]
        if i[slot].pure() == n and n not in i[1 - slot].syms():
            return i[1 - slot]
        if sym and i[1 - slot].pure() == n and n not in i[slot].syms():
            return i[slot]
        return None
    x = orient(fa, syma, 1)
    y = orient(fb, symb, 0)
    if x is None or y is None:
        return None
    full = A['dims'][1]
    if not (bs[n] == full):
        return None
    return fn(x, y), {a, b}, {n}


def rheight(r):
    if r._hh is None:
        h = 0
        for (fs, sm), _ in r.t.items():
            h = max(h, max([fheight(f) for f, _p in fs], default=0) + (1 if sm else 0))
        r._hh = h
    return r._hh


def fheight(f):
    k = f[0]
    if k in ('sqrt', 'inv', 'pos'):
        return rheight(f[1])
    if k == 'ite':
        return max(cheight(f[1]), rheight(f[2]), rheight(f[3]))
    if k == 'fn':
        return max([rheight(a) for a in f[2] if isinstance(a, R)], default=0)
    return 0


def cheight(c):
    k = c[0]
    if k == 'not':
        return cheight(c[1])
    if k in ('and', 'or'):
        return max(cheight(x) for x in c[1])
    if k == 'cmp':
        return rheight(c[2])
    if k in ('all', 'ex'):
        return cheight(c[3]) + 1
    if k == 'b':
        return max([rheight(a) for a in c[2] if isinstance(a, R)], default=0)
    return 0


def canon_mono(m):
    """rename the bound indices canonically"""
    fs, sm = m
    if not sm:
        return m
    names = [n for n, _ in sm]
    dims = dict(sm)
    pre = '$%d_' % (1 + max([fheight(f) for f, _ in fs], default=0))
    free = mono_syms(fs, sm) - set(names)
    while any(x.startswith(pre) for x in free):
        pre += '_'                # canonical names of an enclosing sum that is being rebuilt
    if len(names) == 1:
        best = _ren(fs, sm, {names[0]: pre + '0'})
        return best
    # colour refinement
    col = {n: dims[n].key() if not (dims[n].syms() & set(names)) else '?' for n in names}
    for _ in range(3):
        new = {}
        for n in names:
            sig = []
            for f, p in fs:
                if n in fsyms(f):
                    mp = {x: IntE.sym('!' + ('@' if x == n else col[x][:40])) for x in names}
                    sig.append((skey(f, mp), p))
            new[n] = str(sorted(sig)) + col[n][:20]
        vals = sorted(set(new.values()))
        col = {n: 'c%03d' % vals.index(new[n]) for n in names}
    groups = {}
    for n in names:
        groups.setdefault(col[n], []).append(n)
    gl = [groups[c] for c in sorted(groups)]
    total = 1
    for g in gl:
        for q in range(2, len(g) + 1):
            total *= q
    best, bk = None, None
    if total > 5040:
        raise Unsupported('too many bound indices')
    for perm in itertools.product(*[itertools.permutations(g) for g in gl]):
        seq = [x for g in perm for x in g]
        mm = _ren(fs, sm, {n: pre + str(i) for i, n in enumerate(seq)})
        k = mono_key(mm)
        if bk is None or k < bk:
            best, bk = mm, k
    return best


def skey(f, mp):
    """a key of the factor with index names replaced (no normalisation)"""
    if f[0] == 'el':
        ks = [i.subst(mp).key() for i in f[2]]
        if REG.atoms.get(f[1], {}).get('sym') and len(ks) >= 2:
            ks[:2] = sorted(ks[:2])
        return f[1] + str(ks)
    if f[0] in ('sqrt', 'inv', 'pos'):
        return f[0] + str(sorted(str(sorted((skey(g, mp), p) for g, p in m[0])) + str(c) for m, c in f[1].t.items()))
    if f[0] == 'dl':
        return 'dl' + f[1].subst(mp).key()
    if f[0] == 'int':
        return mp[f[1]].key() if f[1] in mp else f[1]
    if f[0] == 'fn':
        return f[1] + str(len(f[2])) + str([a.subst(mp).key() if isinstance(a, IntE) else str(sorted(
            str(sorted((skey(g, mp), p) for g, p in m[0])) for m in a.t)) for a in f[2]])
    return f[0]


def _ren(fs, sm, ren):
    mp = {a: IntE.sym(b) for a, b in ren.items()}
    tmp = {}
    # two-phase to avoid capture
    ph = {a: IntE.sym('~' + b) for a, b in ren.items()}
    out = []
    for f, p in fs:
        out.append((fren(f, ph), p))
    back = {'~' + b: IntE.sym(b) for b in ren.values()}
    out = [(fren(f, back), p) for f, p in out]
    d = {}
    for f, p in out:
        d[f] = d.get(f, 0) + p
    sm2 = tuple(sorted(((ren[n], dd.subst(ph).subst(back)) for n, dd in sm), key=lambda q: q[0]))
    return tuple(sorted(d.items(), key=lambda q: fkey(q[0]))), sm2


def fren(f, mp):
    """injective renaming of index names in a factor, without renormalising sums"""
    k = f[0]
    if not (fsyms(f) & set(mp)):
        return f
    if k == 'el':
        idx = tuple(i.subst(mp) for i in f[2])
        if REG.atoms.get(f[1], {}).get('sym') and len(idx) >= 2 and idx[1].key() < idx[0].key():
            idx = (idx[1], idx[0]) + idx[2:]
        return ('el', f[1], idx)
    if k == 'dl':
        e = f[1].subst(mp)
        if e.t and e.t[0][1] < 0:
            e = -e
        return ('dl', e)
    if k == 'int':
        return ('int', mp[f[1]].pure())
    if k == 'fn':
        return ('fn', f[1], tuple(a.subst(mp) if isinstance(a, IntE) else rren(a, mp) for a in f[2]))
    if k in ('sqrt', 'inv', 'pos'):
        return (k, rren(f[1], mp))
    if k == 'ite':
        return ('ite', cren(f[1], mp), rren(f[2], mp), rren(f[3], mp))
    raise AssertionError(k)


def rren(r, mp):
    out = {}
    for (fs, sm), c in r.t.items():
        b = {n for n, _ in sm}
        m2 = {a: v for a, v in mp.items() if a not in b}
        d = {}
        for f, p in fs:
            g = fren(f, m2)
            d[g] = d.get(g, 0) + p
        mm = (tuple(sorted(d.items(), key=lambda q: fkey(q[0]))), tuple((n, dd.subst(m2)) for n, dd in sm))
        if sm:
            mm = canon_mono(mm)
        out[mm] = out.get(mm, 0) + c
    return R({m: c for m, c in out.items() if c})


def cren(c, mp):
    k = c[0]
    if k in ('true', 'false'):
        return c
    if k == 'not':
        return ('not', cren(c[1], mp))
    if k in ('and', 'or'):
        return (k, tuple(cren(x, mp) for x in c[1]))
    if k == 'cmp':
        return (k, c[1], rren(c[2], mp))
    if k == 'icmp':
        e = c[2].subst(mp)
        if c[1] == '==' and e.t and e.t[0][1] < 0:
            e = -e
        return (k, c[1], e)
    if k in ('all', 'ex'):
        m2 = {a: b for a, b in mp.items() if a != c[1]}
        return (k, c[1], c[2].subst(m2), cren(c[3], m2))
    if k == 'b':
        return (k, c[1], tuple(a.subst(mp) if isinstance(a, IntE) else rren(a, mp) for a in c[2]))
    raise AssertionError(k)


def canon(r):
    out = {}
    for m, c in r.t.items():
        mm = canon_mono(m)
        out[mm] = out.get(mm, 0) + c
    return R({m: c for m, c in out.items() if c})
