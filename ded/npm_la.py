"""Assumed contracts of numpy.linalg / scipy.linalg: results are characterised, not computed."""
import expr as X
from expr import (IntE, R, ie, I0, I1, REG, Unsupported, TRUE, FALSE, c_and, c_or, c_not, c_icmp, c_eq, c_le, c_lt, real,
                  r_ite, r_sum, r_el, r_delta, r_inv, r_sqrt, fresh_ix, forall, exists)
from vals import (PyRaise, B, b_of, bsimp, S, s_of, s_mul, s_add, s_sub, s_sqrt, s_abs, v_ite, Obj, SymSeq, Arr, OArr, mk,
                  known_nonzero, HOOK)
import interp as I
import npm_arr as A
import npm_fn2 as F2
from npm_arr import to_arr, out, ufunc, sum_over, np_sum
from npm_fn import num, nf, NP
from npm_fn2 import abstract, own_ix, expand_dims_, extreme, sub_own

LA = {}


def lf(*names):
    def deco(f):
        import inspect
        sig = inspect.signature(f)

        def call(it, args, kw):
            try:
                sig.bind(it, *args, **kw)
            except TypeError:
                raise Unsupported('arguments of linalg.' + names[0])
            return f(it, *args, **kw)
        for n in names:
            LA[n] = I.Native('linalg.' + n, call)
        return f
    return deco


def is_one(d):
    return d == 1


def val(it, s):
    """the value of a number known to be finite"""
    s = num(s)
    if s.bad != FALSE and not it.implied(c_not(s.bad)):
        raise Unsupported('linear algebra on possibly non-finite numbers')
    return s.v


class M:
    """square or rectangular matrix as an expression over own indices"""
    def __init__(self, it, a):
        a = to_arr(it, a)
        if isinstance(a, OArr) or a.mask is not None:
            raise Unsupported('linear algebra on this array')
        if a.ndim != 2:
            if a.ndim > 2:
                raise Unsupported('stacked linear algebra')
            raise PyRaise('LinAlgError', '', '2-dimensional array expected')
        self.arr = a
        self.m, self.n = a.shape
        self.f = a.snap()
        self.it = it

    def square(self):
        if not self.it.same(self.m, self.n):
            if not self.it.decide(c_icmp('==', self.m - self.n)):
                raise PyRaise('LinAlgError', '', 'square array expected')

    def at(self, i, j):
        return val(self.it, self.f(ie(i), ie(j)))


def sym_expr(it, mt, lower=True):
    """the exactly symmetric matrix that the symmetric eigenvalue routines work on, over own indices"""
    d = mt.n
    a, b = own_ix('a', d), own_ix('b', d)
    e1, e2 = mt.at(a, b), mt.at(b, a)
    if e1 == e2 or X.canon(e1) == X.canon(e2):
        return a, b, e1
    c = forall(a, forall(b, c_eq(e1, e2)))
    if it.implied(c):
        return a, b, (e1 + e2) * real(0.5)
    if lower:
        return a, b, r_ite(c_icmp('<=', b - a), e1, e2)
    return a, b, r_ite(c_icmp('<=', a - b), e1, e2)


def names_of(*own):
    r = set()
    for o in own:
        r |= {s for s in o.syms() if s.startswith('%') and s in REG.ix}
    return r


def quad_form(e, a, b, d):
    """x' M x for a generic vector x"""
    nm = 'xgen:' + d.key()
    REG.atoms.setdefault(nm, {'dims': (d,)})
    t = e * r_el(nm, (a,)) * r_el(nm, (b,))
    for o in (a, b):
        for s in sorted(names_of(o)):
            t = X.r_sum_sym(s, REG.ix[s], t)
    return t, nm


def psd(it, e, a, b, d):
    if any(e == f(a, b) for f in getattr(it, 'pd_facts', ())):
        return True
    t, _ = quad_form(e, a, b, d)
    return X.r_nonneg(t) or X.r_nonneg(signed(it, t))


def signed(it, t):
    """scalar factors 1/E with E > 0 on this path are named by positive atoms"""
    mp = {}
    for (fs, sm), c in t.t.items():
        bound = {n for n, _ in sm}
        for f, p in fs:
            if f[0] == 'inv' and not X.fsyms(f) & bound and f not in mp and not X.r_nonneg(f[1]) and \
                    not names_of(*[IntE.sym(s) for s in X.fsyms(f)]):
                for sg in (1, -1):
                    if it.implied(c_lt(0, f[1].scale(sg))):
                        nm = 'pos:' + f[1].key()
                        REG.atoms[nm] = {'dims': (), 'positive': True, 'nonneg': True}
                        mp[f] = r_el(nm, ()).scale(sg)
    if not mp:
        return t
    return t.map_factors(lambda f: mp.get(f))


def pd(it, e, a, b, d):
    """is the matrix positive definite (structurally)?"""
    if d == 1:
        return X.r_nonneg(e) and known_nonzero(e) or it.implied(c_lt(0, e))
    if any(e == f(a, b) for f in getattr(it, 'pd_facts', ())):
        return True
    t, nm = quad_form(e, a, b, d)
    if not X.r_nonneg(t):
        return False
    x0 = ('el', nm)
    for (fs, sm), c in t.t.items():
        if c <= 0:
            continue
        xs = [(f, p) for f, p in fs if f[0] == 'el' and f[1] == nm]
        rest = [(f, p) for f, p in fs if not (f[0] == 'el' and f[1] == nm)]
        if len(xs) == 1 and xs[0][1] == 2 and all(posf(f) for f, p in rest):
            return True                      # sum of positive weights times squares
        if len(xs) == 2:
            # Q(a,b) x_a x_b with Q positive definite
            i, j = xs[0][0][2][0], xs[1][0][2][0]
            q = [f for f, p in rest if f[0] == 'el' and len(f[2]) >= 2 and
                 {f[2][0], f[2][1]} == {i, j} and REG.atoms.get(f[1], {}).get('pd')]
            if q and all(posf(f) for f, p in rest if f is not q[0]) and not any(
                    X.fsyms(f) & (i.syms() | j.syms()) for f, p in rest if f is not q[0]):
                return True
            # V(a,k) V(b,k) g(k) with V orthogonal and g positive
            v = [f for f, p in rest if f[0] == 'el' and len(f[2]) >= 2 and REG.atoms.get(f[1], {}).get('roworth') and
                 f[2][0] in (i, j) and p == 1]
            if len(v) == 2 and v[0][1] == v[1][1] and v[0][2][1] == v[1][2][1] and {v[0][2][0], v[1][2][0]} == {i, j}:
                others = [f for f, p in rest if f not in v]
                if all(posf(f) for f in others):
                    return True
    return False


def posf(f):
    from vals import factor_positive
    return factor_positive(f)


def upgrade(it):
    """facts of the path about spectra become properties of the atoms"""
    for nm, a in list(REG.atoms.items()):
        if a.get('lam') and not a.get('positive') and len(a['dims']) == 1 and not a.get('npar'):
            k = fresh_ix(a['dims'][0])
            if it.hyps() and it.implied(forall(k, c_lt(0, r_el(nm, (k,))))):
                a['positive'] = a['nonneg'] = True
                REG.toks[('up', nm)] = len(REG.toks)
                REG.tok = REG.toks[('up', nm)]


def eig_atoms(it, a, b, e, d):
    key, pars, q = abstract(e, names_of(a, b))
    k2 = ('eigh', key, d.key())
    if k2 not in REG.keyed:
        n = len(REG.keyed)
        vn, ln = 'V#%d' % n, 'lam#%d' % n
        REG.keyed[k2] = (vn, ln)

        def qf(i, j, *ps):
            r = sub_own(q.subst({'%%p%d' % k: v for k, v in enumerate(ps)}), (a, b), (i, j))
            return r
        is_psd = psd(it, q, a, b, d)
        is_pd = pd(it, q, a, b, d)
        REG.atoms[vn] = {'dims': (d, d), 'colorth': True, 'roworth': True, 'spec': (ln, qf), 'npar': len(pars),
                         'num': ('eigh', q, (a, b), d, 1)}
        REG.atoms[ln] = {'dims': (d,), 'lam': True, 'nonneg': is_psd or is_pd, 'positive': is_pd, 'sorted': True,
                         'npar': len(pars), 'num': ('eigh', q, (a, b), d, 0), 'of': (vn, qf)}
        # eigenvector rule when the matrix is a single atom
        s = X.single(q)
        if s and s[1] == 1 and not s[0][1] and len(s[0][0]) == 1 and s[0][0][0][1] == 1 and s[0][0][0][0][0] == 'el':
            f = s[0][0][0][0]
            if f[2][2:] == tuple(IntE.sym('%%p%d' % k) for k in range(len(pars))) and {f[2][0], f[2][1]} == {a, b}:
                REG.atoms[f[1]].setdefault('prod_rules', {})[(f[1], vn)] = \
                    lambda p, r, *fam: r_el(vn, (p, r) + fam) * r_el(ln, (r,) + fam)
    vn, ln = REG.keyed[k2]
    return vn, ln, tuple(pars)


def eigh_vals(it, m, lower=True):
    mt = M(it, m)
    mt.square()
    d = mt.n
    if d == 1:
        e = mt.at(0, 0)
        return d, (lambda i: e), (lambda i, j: X.ONE)
    a, b, e = sym_expr(it, mt, lower)
    vn, ln, pars = eig_atoms(it, a, b, e, d)
    return d, (lambda i: r_el(ln, (i,) + pars)), (lambda i, j: r_el(vn, (i, j) + pars))


@lf('eigh')
def eigh(it, a, UPLO='L'):
    d, lam, v = eigh_vals(it, a, UPLO != 'U')
    return (mk((d,), lambda i: S(lam(i)), 'f'), mk((d, d), lambda i, j: S(v(i, j)), 'f'))


@lf('eigvalsh')
def eigvalsh(it, a, UPLO='L'):
    d, lam, v = eigh_vals(it, a, UPLO != 'U')
    return mk((d,), lambda i: S(lam(i)), 'f')


@lf('eigvals', 'eig')
def eig(it, a):
    raise Unsupported('eig of a general matrix')


# ---------------------------------------------------------------- inverse
def spectral(it, a, b, e, d):
    """(V, g) with the matrix equal to V diag(g) V' for an orthogonal atom V already known, else None"""
    cands = []
    for (fs, sm), c in e.t.items():
        for f, p in fs:
            if f[0] == 'el' and REG.atoms.get(f[1], {}).get('colorth') and REG.atoms[f[1]].get('spec') and \
                    len(f[2]) >= 2 and (f[1], f[2][2:]) not in cands:
                cands.append((f[1], f[2][2:]))
    # the matrix itself may be an atom with a known spectral decomposition
    key, pars, q = abstract(e, names_of(a, b))
    k2 = ('eigh', key, d.key())
    if k2 in REG.keyed:
        cands.append((REG.keyed[k2][0], tuple(pars)))
    for vn, fam in cands:
        if any(x.syms() & names_of(a, b) for x in fam) or any(s[0] in '$^&' for x in fam for s in x.syms()):
            continue
        i, j = own_ix('i', d), own_ix('j', d)
        t = e * r_el(vn, (a, i) + fam) * r_el(vn, (b, j) + fam)
        for o in (a, b):
            for s in sorted(names_of(o)):
                t = X.r_sum_sym(s, REG.ix[s], t)
        g = diag_part(t, i, j)
        if g is not None:
            g = X.cancel_common(g)
            return vn, fam, (lambda k, g=g: sub_own(g, (i,), (k,)))
    return None


def diag_part(t, i, j):
    """g(i) when t(i,j) = delta(i-j) g(i)"""
    dl = [('dl', (i - j)), ('dl', (j - i))]
    res = X.ZERO
    for (fs, sm), c in t.t.items():
        if not any(f in dl and p == 1 for f, p in fs):
            return None
    mp = {}
    for s1, s2 in zip(sorted(names_of(j)), sorted(names_of(i))):
        mp[s1] = IntE.sym(s2)
    return t.subst(mp)


def inv_fn(it, mt):
    """entries of the inverse: fn(i, j) -> R; raises LinAlgError on the paths where the matrix is singular"""
    mt.square()
    upgrade(it)
    d = mt.n
    if d == 1:
        e = mt.at(0, 0)
        if not (known_nonzero(e) or it.implied(c_not(c_eq(e, 0)))) and it.decide(c_eq(e, 0)):
            raise PyRaise('LinAlgError', '', 'Singular matrix')
        return lambda i, j: r_inv(e)
    if d == 2:
        e = [[mt.at(i, j) for j in range(2)] for i in range(2)]
        dt = e[0][0] * e[1][1] - e[0][1] * e[1][0]
        a, b = own_ix('a', d), own_ix('b', d)
        if not known_nonzero(dt) and it.decide(c_eq(dt, 0)):
            raise PyRaise('LinAlgError', '', 'Singular matrix')
        adj = [[e[1][1], -e[0][1]], [-e[1][0], e[0][0]]]
        iv = r_inv(dt)

        def fn2(i, j):
            i, j = ie(i), ie(j)
            r = X.ZERO
            for p in range(2):
                for q in range(2):
                    r = r + adj[p][q] * iv * r_delta(i - p) * r_delta(j - q)
            return r
        return fn2
    a, b = own_ix('a', d), own_ix('b', d)
    e = mt.at(a, b)
    sym = e == mt.at(b, a) or X.canon(e) == X.canon(mt.at(b, a))
    if sym:
        sp = spectral(it, a, b, e, d)
        if sp is not None:
            vn, fam, g = sp
            k = fresh_ix(d)
            gk = g(k)
            if not known_nonzero(gk):
                c = exists(k, c_eq(gk, 0))
                if it.decide(c):
                    raise PyRaise('LinAlgError', '', 'Singular matrix')

            def fn(i, j):
                return r_sum(d, lambda q: r_el(vn, (i, q) + fam) * r_el(vn, (j, q) + fam) * r_inv(g(q)))
            return fn
    g = diag_part(e, a, b)
    if g is not None and not g.is_zero():
        gk = sub_own(g, (a,), (fresh_ix(d),))
        if not known_nonzero(gk):
            raise Unsupported('inverse of a diagonal matrix of unknown sign')
        return lambda i, j: r_inv(sub_own(g, (a,), (i,))) * r_delta(ie(i) - ie(j))
    # double inverse
    s = X.single(e)
    if s and s[1] == 1 and not s[0][1] and len(s[0][0]) == 1 and s[0][0][0][1] == 1 and s[0][0][0][0][0] == 'el':
        f = s[0][0][0][0]
        at = REG.atoms.get(f[1], {})
        if at.get('inv_expr') and f[2][0] == a and f[2][1] == b:
            qf, fam = at['inv_expr'], f[2][2:]
            return lambda i, j: qf(i, j, *fam)
    key, pars, q = abstract(e, names_of(a, b))
    is_pd = sym and pd(it, q, a, b, d)
    if not is_pd and not (s and s[1] == 1 and len(s[0][0]) == 1 and s[0][0][0][0][0] == 'el' and
                          REG.atoms.get(s[0][0][0][0][1], {}).get('nonsing')):
        c = ('b', 'singular', (real(0) + q_inst(q, pars, a, b, d),))
        if it.decide(c):
            raise PyRaise('LinAlgError', '', 'Singular matrix')
    pars = tuple(pars)
    k2 = ('inv', key, d.key())
    if k2 not in REG.keyed:
        nm = 'inv#%d' % len(REG.keyed)
        REG.keyed[k2] = nm

        def qf(i, j, *ps):
            return sub_own(q.subst({'%%p%d' % k: v for k, v in enumerate(ps)}), (a, b), (i, j))
        at = {'dims': (d, d), 'sym': sym, 'psd': is_pd, 'pd': is_pd, 'npar': len(pars), 'inv_expr': qf,
              'num': ('inv', q, (a, b), d)}
        REG.atoms[nm] = at
        add_inv_rules(nm, at, q, a, b, d, len(pars), sym)
    nm = REG.keyed[k2]
    return lambda i, j: r_el(nm, (i, j) + pars)


def q_inst(q, pars, a, b, d):
    """a scalar naming the matrix in an opaque condition"""
    i, j = own_ix('a', d), own_ix('b', d)
    t = q.subst({'%%p%d' % k: v for k, v in enumerate(pars)})
    nm = 'xgen2:' + d.key()
    REG.atoms.setdefault(nm, {'dims': (d, d)})
    t = t * r_el(nm, (i, j))
    for o in (i, j):
        for s in sorted(names_of(o)):
            t = X.r_sum_sym(s, REG.ix[s], t)
    return t


def add_inv_rules(nm, at, q, a, b, d, npar, sym):
    """N M = M N = I, oriented as rewriting of the product with one atom of M"""
    pv = tuple(IntE.sym('%%p%d' % k) for k in range(npar))
    for (fs, sm), c in sorted(q.t.items(), key=lambda x: X.mono_key(x[0])):
        if sm or not fs:
            continue
        cand = [(f, p) for f, p in fs if f[0] == 'el' and len(f[2]) >= 2 and p == 1 and f[2][2:] == pv and
                {f[2][0], f[2][1]} == {a, b}]
        if len(cand) != 1:
            continue
        others = [(f, p) for f, p in fs if f is not cand[0][0]]
        if any(X.fsyms(f) & (names_of(a, b) | {s for v in pv for s in v.syms()}) for f, p in others):
            continue
        f = cand[0][0]
        co = real(c)
        for g, p in others:
            co = co * (R.factor(g) ** p)
        if not known_nonzero(co):
            continue
        rest = q - co * R.factor(f)
        trans = f[2][0] == b
        if trans and not REG.atoms.get(f[1], {}).get('sym'):
            continue
        if rest.is_zero() and co == X.ONE:
            at['inv_of'] = f[1]
            REG.atoms[f[1]].setdefault('inv_of_l', nm)
        ico = r_inv(co)

        def right(p, r, *fam):
            # sum_k N(p,k) Q(k,r)
            k = fresh_ix(d)
            rr = sub_own(rest.subst({'%%p%d' % z: v for z, v in enumerate(fam)}), (a, b), (k, r))
            t = r_el(nm, (p, k) + fam) * rr
            for s in sorted(k.syms()):
                if s in REG.ix:
                    t = X.r_sum_sym(s, REG.ix[s], t)
            return (r_delta(p - r) - t) * ico

        def left(p, r, *fam):
            k = fresh_ix(d)
            rr = sub_own(rest.subst({'%%p%d' % z: v for z, v in enumerate(fam)}), (a, b), (p, k))
            t = r_el(nm, (k, r) + fam) * rr
            for s in sorted(k.syms()):
                if s in REG.ix:
                    t = X.r_sum_sym(s, REG.ix[s], t)
            return (r_delta(p - r) - t) * ico
        at.setdefault('prod_rules', {})[(nm, f[1])] = right
        REG.atoms[f[1]].setdefault('prod_rules', {})[(f[1], nm)] = left
        return


@lf('inv')
def inv(it, a):
    mt = M(it, a)
    f = inv_fn(it, mt)
    return mk((mt.n, mt.n), lambda i, j: S(f(i, j)), 'f')


@lf('pinv')
def pinv(it, a):
    mt = M(it, a)
    if mt.m == 1 and mt.n == 1:
        e = mt.at(0, 0)
        return mk((1, 1), lambda i, j: S(r_ite(c_eq(e, 0), X.ZERO, r_inv(e))), 'f')
    d = mt.n
    if it.same(mt.m, mt.n):
        x, y = own_ix('a', d), own_ix('b', d)
        e = mt.at(x, y)
        if e == mt.at(y, x) and pd(it, e, x, y, d):
            return inv(it, a)
    # general case: the matrix is only named
    x, y = own_ix('a', mt.m), own_ix('b', mt.n)
    key, pars, q = abstract(mt.at(x, y), names_of(x, y))
    k2 = ('pinv', key, mt.m.key(), mt.n.key())
    if k2 not in REG.keyed:
        nm = 'pinv#%d' % len(REG.keyed)
        REG.keyed[k2] = nm
        REG.atoms[nm] = {'dims': (mt.n, mt.m), 'npar': len(pars), 'num': ('pinv', q, (x, y), (mt.m, mt.n))}
    nm = REG.keyed[k2]
    return mk((mt.n, mt.m), lambda i, j: S(r_el(nm, (i, j) + tuple(pars))), 'f')


def times_vec(it, f, d, b):
    b = to_arr(it, b)
    if isinstance(b, OArr):
        raise Unsupported('solve with objects')
    g = b.snap()
    it.require_same(b.shape[0], d)
    if b.ndim == 1:
        return mk((d,), lambda i: S(r_sum(d, lambda k: f(i, k) * val(it, g(k)))), 'f')
    return mk((d, b.shape[1]), lambda i, j: S(r_sum(d, lambda k: f(i, k) * val(it, g(k, j)))), 'f')


@lf('solve')
def solve(it, a, b):
    mt = M(it, a)
    f = inv_fn(it, mt)
    return times_vec(it, f, mt.n, b)


@lf('lstsq')
def lstsq(it, a, b, rcond='warn'):
    mt = M(it, a)
    if not it.same(mt.m, mt.n):
        raise Unsupported('least squares with a rectangular matrix')
    try:
        f = inv_fn(it, mt)
    except PyRaise:
        raise Unsupported('least squares with a singular matrix')
    return (times_vec(it, f, mt.n, b), I.Opaque('residuals'), I.Opaque('rank'), I.Opaque('singular values'))


# ---------------------------------------------------------------- determinants, norms, rank
def atomic_pd(mt, d):
    s = X.single(mt.at(own_ix('a', d), own_ix('b', d)))
    return bool(s and s[1] == 1 and len(s[0][0]) == 1 and s[0][0][0][0][0] == 'el' and
                REG.atoms.get(s[0][0][0][0][1], {}).get('pd'))


@lf('det')
def det(it, a):
    mt = M(it, a)
    mt.square()
    d = mt.n
    if d.is_const() and d.const() <= 3 and not (d.const() > 1 and atomic_pd(mt, d)):
        n = d.const()
        e = [[mt.at(i, j) for j in range(n)] for i in range(n)]
        if n == 1:
            return S(e[0][0])
        if n == 2:
            return S(e[0][0] * e[1][1] - e[0][1] * e[1][0])
        r = X.ZERO
        for p, sg in (((0, 1, 2), 1), ((1, 2, 0), 1), ((2, 0, 1), 1), ((0, 2, 1), -1), ((2, 1, 0), -1), ((1, 0, 2), -1)):
            r = r + e[0][p[0]] * e[1][p[1]] * e[2][p[2]] * real(sg)
        return S(r)
    x, y = own_ix('a', d), own_ix('b', d)
    e = mt.at(x, y)
    sym = e == mt.at(y, x)
    if sym:
        sp = spectral(it, x, y, e, d)
        if sp is not None:
            vn, fam, g = sp
            return F2.prod_over(it, d, lambda k: S(g(k)))
    key, pars, q = abstract(e, names_of(x, y))
    k2 = ('det', key, d.key())
    if k2 not in REG.keyed:
        nm = 'det#%d' % len(REG.keyed)
        REG.keyed[k2] = nm
        p = sym and pd(it, q, x, y, d)
        REG.atoms[nm] = {'dims': (), 'positive': p, 'nonneg': p or (sym and psd(it, q, x, y, d)), 'num': ('det', q, (x, y), d)}
    return S(r_el(REG.keyed[k2], pars))


@lf('norm')
def norm(it, a, ord=None, axis=None, keepdims=False):
    a = to_arr(it, a)
    if isinstance(ord, S) and ord.bad == TRUE and ord.pinf == TRUE:
        ord = float('inf')
    if ord in (None, 2, 'fro') and (a.ndim == 1 or axis is not None or ord in (None, 'fro')):
        if isinstance(axis, (tuple, list)) and ord == 2:
            raise Unsupported('matrix norm')
        sq = ufunc(it, lambda x: s_mul(num(x), num(x)), [a], 'f')
        s = np_sum(it, to_arr(it, sq), axis, keepdims)
        return ufunc(it, lambda x: s_sqrt(num(x)), [s], 'f')
    if ord == float('inf') and a.ndim == 1 and axis is None:
        return F2.np_extreme(it, to_arr(it, ufunc(it, lambda x: s_abs(num(x)), [a])), None, False, 'amax')
    if ord == 1 and a.ndim == 1 and axis is None:
        return np_sum(it, to_arr(it, ufunc(it, lambda x: s_abs(num(x)), [a])))
    if ord == 2 and a.ndim == 2:
        r = svd(it, a, compute_uv=False)
        return A.getitem_arr(it, r, 0)
    raise Unsupported('norm of this order')


@lf('matrix_rank')
def matrix_rank(it, a, tol=None, hermitian=False):
    mt = M(it, a)
    d = mt.n
    if tol is not None:
        raise Unsupported('rank with a tolerance')
    upgrade(it)
    x, y = own_ix('a', mt.m), own_ix('b', mt.n)
    e = mt.at(x, y)
    if d == 1 and mt.m == 1:
        return v_ite(c_eq(e, 0), 0, 1)
    if it.same(mt.m, mt.n) and e == mt.at(y, x) and pd(it, e, x, y, d):
        return d.simp()
    # an integer between zero and both sizes (exact rank)
    key, pars, q = abstract(e, names_of(x, y))
    if pars:
        raise Unsupported('rank of a family of matrices')
    k2 = ('rank', key, mt.m.key(), mt.n.key())
    if k2 not in REG.keyed:
        nm = 'rank#%d' % len(REG.keyed)
        REG.keyed[k2] = nm
        REG.dims[nm] = 0
        REG.ranks[nm] = (q, (x, y), mt.m, mt.n)
    r = IntE.sym(REG.keyed[k2])
    it.assume(c_icmp('<=', r - mt.m))
    if not mt.m == mt.n:
        it.assume(c_icmp('<=', r - mt.n))
    return r


# ---------------------------------------------------------------- singular values, QR
@lf('svd')
def svd(it, a, full_matrices=True, compute_uv=True, hermitian=False):
    mt = M(it, a)
    upgrade(it)
    m, n = mt.m, mt.n
    if m == 1 and n == 1:
        e = mt.at(0, 0)
        s = mk((1,), lambda i: S(X.r_abs(e)), 'f')
        if not compute_uv:
            return s
        sg = r_ite(c_lt(e, 0), real(-1), X.ONE)
        return (mk((1, 1), lambda i, j: S(sg), 'f'), s, mk((1, 1), lambda i, j: S(X.ONE), 'f'))
    sq = it.same(m, n)
    x, y = own_ix('a', m), own_ix('b', n)
    e = mt.at(x, y)
    if sq:
        key, pars, q = abstract(e, names_of(x, y))
        if (e == mt.at(y, x) or X.canon(e) == X.canon(mt.at(y, x))) and psd(it, q, x, y, n):
            # singular values of a positive semidefinite matrix are its eigenvalues; U = V when it is definite
            k2 = ('svdsym', key, n.key())
            is_pd = pd(it, q, x, y, n)
            if k2 not in REG.keyed:
                z = len(REG.keyed)
                un, sn = 'U#%d' % z, 'sv#%d' % z
                REG.keyed[k2] = (un, sn)

                def qf(i, j, *ps):
                    return sub_own(q.subst({'%%p%d' % k: v for k, v in enumerate(ps)}), (x, y), (i, j))
                REG.atoms[un] = {'dims': (n, n), 'colorth': True, 'roworth': True, 'spec': (sn, qf), 'npar': len(pars),
                                 'num': ('svd', q, (x, y), (m, n), 0)}
                REG.atoms[sn] = {'dims': (n,), 'lam': True, 'nonneg': True, 'positive': is_pd, 'npar': len(pars),
                                 'rsorted': True, 'num': ('svd', q, (x, y), (m, n), 1)}
                s0 = X.single(q)
                if s0 and s0[1] == 1 and not s0[0][1] and len(s0[0][0]) == 1 and s0[0][0][0][1] == 1 and \
                        s0[0][0][0][0][0] == 'el':
                    f = s0[0][0][0][0]
                    if f[2][2:] == tuple(IntE.sym('%%p%d' % k) for k in range(len(pars))):
                        REG.atoms[f[1]].setdefault('prod_rules', {})[(f[1], un)] = \
                            lambda p, r, *fam: r_el(un, (p, r) + fam) * r_el(sn, (r,) + fam)
            un, sn = REG.keyed[k2]
            pars = tuple(pars)
            s = mk((n,), lambda i: S(r_el(sn, (i,) + pars)), 'f')
            if not compute_uv:
                return s
            if is_pd:
                return (mk((n, n), lambda i, j: S(r_el(un, (i, j) + pars)), 'f'), s,
                        mk((n, n), lambda i, j: S(r_el(un, (j, i) + pars)), 'f'))
    if X.int_holds(None, '<=', m - n):
        d = m
    elif X.int_holds(None, '<=', n - m):
        d = n
    else:
        d = m if it.decide(c_icmp('<=', m - n)) else n
    key, pars, q = abstract(e, names_of(x, y))
    pars = tuple(pars)
    full = full_matrices and compute_uv
    um, vm = (m if full else d), (n if full else d)
    k2 = ('svd', key, m.key(), n.key(), bool(full))
    if k2 not in REG.keyed:
        z = len(REG.keyed)
        un, sn, wn = 'Us#%d' % z, 'sg#%d' % z, 'Ws#%d' % z
        REG.keyed[k2] = (un, sn, wn)
        fm = bool(full)
        REG.atoms[un] = {'dims': (m, um), 'colorth': True, 'roworth': um == m, 'npar': len(pars),
                         'num': ('svdg', q, (x, y), (m, n), fm, 0)}
        REG.atoms[sn] = {'dims': (d,), 'nonneg': True, 'npar': len(pars), 'rsorted': True,
                         'num': ('svdg', q, (x, y), (m, n), fm, 1)}
        REG.atoms[wn] = {'dims': (vm, n), 'colorth': vm == n, 'roworth': True, 'npar': len(pars),
                         'num': ('svdg', q, (x, y), (m, n), fm, 2)}
    un, sn, wn = REG.keyed[k2]
    s = mk((d,), lambda i: S(r_el(sn, (i,) + pars)), 'f')
    if not compute_uv:
        return s
    return (mk((m, um), lambda i, j: S(r_el(un, (i, j) + pars)), 'f'), s,
            mk((vm, n), lambda i, j: S(r_el(wn, (i, j) + pars)), 'f'))


@lf('qr')
def qr(it, a, mode='reduced'):
    mt = M(it, a)
    m, n = mt.m, mt.n
    if X.int_holds(None, '<=', m - n):
        d = m
    elif X.int_holds(None, '<=', n - m):
        d = n
    else:
        d = m if it.decide(c_icmp('<=', m - n)) else n
    if mode not in ('reduced', 'complete'):
        raise Unsupported('qr mode')
    k = m if mode == 'complete' else d
    x, y = own_ix('a', m), own_ix('b', n)
    e = mt.at(x, y)
    if m == 1:
        # a 1 x 1 orthogonal factor is 1 or -1
        nm = 'qrsign#%d' % len(REG.keyed)
        REG.keyed[('qrsign', nm)] = nm
        REG.atoms[nm] = {'dims': ()}
        sg = r_ite(c_lt(r_el(nm, ()), 0), real(-1), X.ONE)
        return mk((1, 1), lambda i, j: S(sg), 'f'), mk((1, n), lambda i, j: S(sg * mt.at(I0, j)), 'f')
    key, pars, q = abstract(e, names_of(x, y))
    pars = tuple(pars)
    k2 = ('qr', key, m.key(), n.key(), k.key())
    if k2 not in REG.keyed:
        z = len(REG.keyed)
        qn, rn = 'Qq#%d' % z, 'Rr#%d' % z
        REG.keyed[k2] = (qn, rn)
        cm = mode == 'complete'

        def qf(i, j, *ps):
            return sub_own(q.subst({'%%p%d' % c: v for c, v in enumerate(ps)}), (x, y), (i, j))
        REG.atoms[qn] = {'dims': (m, k), 'colorth': True, 'roworth': k == m, 'npar': len(pars),
                         'num': ('qr', q, (x, y), (m, n), cm, 0), 'prod_rules': {(qn, rn): qf}}
        REG.atoms[rn] = {'dims': (k, n), 'npar': len(pars), 'upper': True, 'num': ('qr', q, (x, y), (m, n), cm, 1)}
    qn, rn = REG.keyed[k2]
    return (mk((m, k), lambda i, j: S(r_el(qn, (i, j) + pars)), 'f'), mk((k, n), lambda i, j: S(r_el(rn, (i, j) + pars)), 'f'))


@lf('cholesky')
def cholesky(it, a):
    raise Unsupported('cholesky')


@lf('multi_dot')
def multi_dot(it, arrs):
    import npm_fn3
    s = it.as_seq(arrs)
    r = s[0]
    for b in s[1:]:
        r = npm_fn3.matmul(it, r, b)
    return r


@lf('matrix_power')
def matrix_power(it, a, n):
    import npm_fn3
    if n == 2:
        return npm_fn3.matmul(it, a, a)
    raise Unsupported('matrix_power')


@nf('cross')
def cross(it, a, b):
    a, b = to_arr(it, a), to_arr(it, b)
    if a.ndim != 1 or b.ndim != 1 or not (it.same(a.shape[0], 3) and it.same(b.shape[0], 3)):
        raise Unsupported('cross')
    f, g = a.snap(), b.snap()

    def c(p, q):
        return s_sub(s_mul(num(f(ie(p))), num(g(ie(q)))), s_mul(num(f(ie(q))), num(g(ie(p)))))
    return mk((3,), A.pick([c(1, 2), c(2, 0), c(0, 1)]), 'f')
