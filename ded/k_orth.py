"""Contracts of the orthogonal translations (ellipy.gras.la.la)"""
import numpy as np
from cc import *
from k_la import LA, mat, eq_mat, prod, tr, eye
import npm_la as L
from npm_fn2 import own_ix
from callee import transl_num


def vec(name, n, two_d=False, nonzero=None):
    a = arr(name, (n,))
    el = lambda i: r_el(name, () if n == 1 else (i,))
    if two_d:
        a = mk((n, I1), lambda i, j: S(el(i)), 'f')
    return a, el


def norm2(n, f):
    return r_sum(n, lambda k: f(k) * f(k))


def nonzero(it, n, f):
    it.assume(c_lt(0, norm2(n, f)))


def is_orth(it, n, f):
    return eq_mat(it, n, n, prod(n, tr(f), f), eye)


def maps(it, n, f, src, dst):
    """O (src / |src|) = dst / |dst|"""
    s2, d2 = norm2(n, src), norm2(n, dst)
    return guarded(lambda: all_ix((n,), lambda i: c_eq(
        r_sum(n, lambda k: f(i, k) * src(k)) * r_inv(r_sqrt(s2)), dst(i) * r_inv(r_sqrt(d2)))))


@contract('C17', 'orth_transl', LA + 'orth_transl', shape=('vec', 'col'))
def _(it, n, shape):
    s, sf = vec('s', n, shape == 'col')
    d, df = vec('d', n, shape == 'col')
    nonzero(it, n, sf)
    nonzero(it, n, df)
    out = call(it, LA + 'orth_transl', s, d)
    g = [('returns', returns(out))]
    if out[0] == 'ret':
        f = mat(it, out[1], n)
        g += [('shape', shape_is(it, out[1], n, n))]
        c = r_sum(n, lambda k: sf(k) * df(k)) * r_inv(r_sqrt(norm2(n, sf))) * r_inv(r_sqrt(norm2(n, df)))
        res = lambda i: sf(i) * r_inv(r_sqrt(norm2(n, sf))) - c * df(i) * r_inv(r_sqrt(norm2(n, df)))
        s2 = r_sum(n, lambda i: res(i) * res(i))
        tol = real(1e-7)
        # the routine treats directions closer than 1e-7 as parallel
        g += [('orthogonal', guarded(lambda: c_or(c_le(r_sqrt(s2), tol), is_orth(it, n, f)))),
              ('maps', guarded(lambda: c_or(c_le(r_sqrt(s2), tol), maps(it, n, f, sf, df))))]
    return g


@contract('C17', 'orth_transl.zero', LA + 'orth_transl', which=('src', 'dst'), fn=('orth_transl', 'orth_transl_qr'))
def _(it, n, which, fn):
    s, sf = vec('s', n)
    d, df = vec('d', n)
    it.assume(c_eq(norm2(n, sf if which == 'src' else df), 0))
    if which == 'src':
        nonzero(it, n, df)
    out = call(it, LA + fn, s, d)
    return [('rejected', raised(out, 'wrongInput:%s_zero' % which))]


@contract('C17', 'orth_transl_haus', LA + 'orth_transl_haus')
def _(it, n):
    s, sf = vec('s', n)
    d, df = vec('d', n)
    nonzero(it, n, sf)
    nonzero(it, n, df)
    out = call(it, LA + 'orth_transl_haus', s, d)
    g = [('returns', returns(out))]
    if out[0] == 'ret':
        f = mat(it, out[1], n)
        w = lambda i: sf(i) * r_inv(r_sqrt(norm2(n, sf))) - df(i) * r_inv(r_sqrt(norm2(n, df)))
        g += [('shape', shape_is(it, out[1], n, n)),
              ('orthogonal', is_orth(it, n, f)),
              ('maps', guarded(lambda: c_or(c_lt(norm2(n, w), real(1e-14)), maps(it, n, f, sf, df))))]
    return g


def keyed(kind):
    """atoms introduced by the calls of a factorisation routine on this path, in order"""
    return [v for k, v in REG.keyed.items() if isinstance(k, tuple) and k and k[0] == kind]


def qr_sub(it, n, names):
    """contract of numpy.linalg.qr as equations for the vectors: column j of the factorised matrix is Q R[:, j]"""
    sub = {}
    for qn, rn in keyed('qr'):
        qf = REG.atoms[qn]['prod_rules'][(qn, rn)]
        i = fresh_ix(n)
        k = REG.atoms[qn]['dims'][1]
        for j in (0, 1):
            if not X.int_holds(None, '<', ie(j) - REG.atoms[rn]['dims'][1]):
                continue
            src = qf(i, ie(j))
            for nm in names:
                if nm not in sub and src == r_el(nm, (i,)):
                    sub[nm] = lambda i, j=j, qn=qn, rn=rn: r_sum(ie(j + 1), lambda c: r_el(qn, (i, c)) * r_el(rn, (c, ie(j))))
    return sub or None


@contract('C17', 'orth_transl_qr', LA + 'orth_transl_qr')
def _(it, n):
    s, sf = vec('s', n)
    d, df = vec('d', n)
    nonzero(it, n, sf)
    nonzero(it, n, df)
    out = call(it, LA + 'orth_transl_qr', s, d)
    g = [('returns', returns(out))]
    if out[0] == 'ret':
        f = mat(it, out[1], n)
        sub = None if n == 1 else qr_sub(it, n, ('s', 'd'))
        g += [('shape', shape_is(it, out[1], n, n)), ('orthogonal', Goal(is_orth(it, n, f), sub)),
              ('maps', Goal(maps(it, n, f, sf, df), sub))]
    return g


# ------------------------------------------------------------------ optimal translations
def transl_summary(it, n):
    """contract of orth_transl used by its callers: for the first unit vector as source the result is orthogonal and its
    first column is the direction of the destination (directions closer than 1e-7 but not parallel are excluded)"""
    made = []

    def f(it, args, kw):
        if kw or len(args) != 2:
            return NotImplemented
        s, d = args
        i = fresh_ix(n)
        if not it.implied(c_eq(at(it, s, i), r_delta(i))) or d.ndim != 1:
            return NotImplemented
        nm = 'O#%d' % len(REG.atoms)
        src = d.snap()
        v = lambda i: src(i).v
        own = own_ix('a', n)

        def num(env, ps):
            dd = int(env.i(n, {}))
            return transl_num(np.eye(dd)[0], env.matrix(v(own), (own,), (dd,), ()))
        REG.atoms[nm] = {'dims': (n, n), 'colorth': True, 'roworth': True, 'num': ('py', num)}
        made.append((nm, v))
        return mk((n, n), lambda i, j: S(r_el(nm, (i, j))), 'f')
    it.summaries['ellipy.gras.la.la.orth_transl'] = f
    return made


def first_columns(n, made, names):
    """d = |d| O[:, 0]"""
    sub = {}
    i = fresh_ix(n)
    for nm, v in made:
        for x in names:
            if x not in sub and v(i) == r_el(x, (i,)):
                scalar('len_' + x, pos=True)
                sub[x] = lambda i, nm=nm, x=x: r_el(nm, (i, I0)) * r_el('len_' + x, ())
    return sub


def block(n, os_, od, alpha, row, col, core):
    """Os [[alpha, row], [col, core]] Od' with the first index split off"""
    n1 = n - 1
    return lambda i, j: (r_el(os_, (i, I0)) * alpha * r_el(od, (j, I0))
                         + r_sum(n1, lambda b: r_el(os_, (i, I0)) * row(b) * r_el(od, (j, b + 1)))
                         + r_sum(n1, lambda a: r_el(os_, (i, a + 1)) * col(a) * r_el(od, (j, I0)))
                         + r_sum(n1, lambda a: r_sum(n1, lambda b: r_el(os_, (i, a + 1)) * core(a, b) * r_el(od, (j, b + 1)))))


@contract(('C17', 'C18'), 'orth_transl_max_tr', LA + 'orth_transl_max_tr')
def _(it, n):
    s, sf = vec('s', n)
    d, df = vec('d', n)
    nonzero(it, n, sf)
    nonzero(it, n, df)
    m = arr('M', (n, n))
    made = transl_summary(it, n) if not n == 1 else []
    out = call(it, LA + 'orth_transl_max_tr', s, d, m)
    g = [('returns', returns(out))]
    if out[0] != 'ret':
        return g
    f = mat(it, out[1], n)
    sub = first_columns(n, made, ('s', 'd')) if not n == 1 else None
    g += [('shape', shape_is(it, out[1], n, n)), ('orthogonal', Goal(is_orth(it, n, f), sub)),
          ('maps', Goal(maps(it, n, f, sf, df), sub))]
    if n == 1:
        return g
    # attained maximum: trace(O M) = sum of the singular values of V0' M U0 + <d^, M' s^> ; no admissible O exceeds it
    # (von Neumann's trace inequality, lemma)
    if not keyed('svd') or len(made) != 2:
        return g + [('attains the maximum', Unsupported('no singular value decomposition was taken'))]
    os_, od = made[0][0], made[1][0]
    un, sn, wn = keyed('svd')[0]
    q, own = REG.atoms[un]['num'][1], REG.atoms[un]['num'][2]
    a, b = fresh_ix(n - 1), fresh_ix(n - 1)
    from npm_fn2 import sub_own
    want = r_sum(n, lambda i: r_sum(n, lambda j: r_el(os_, (i, a + 1)) * r_el('M', (i, j)) * r_el(od, (j, b + 1))))
    if not prove_eq(it, sub_own(q, own, (a, b)), want):
        return g + [('attains the maximum', Unsupported('decomposition of an unexpected matrix'))]
    for nm in ('rowM', 'colM'):
        atom(nm, (n - 1,))
    scalar('alphaM')
    sub = dict(sub)
    sub['M'] = block(n, os_, od, r_el('alphaM', ()), lambda b: r_el('rowM', (b,)), lambda a: r_el('colM', (a,)),
                     lambda a, b: r_sum(n - 1, lambda k: r_el(un, (a, k)) * r_el(sn, (k,)) * r_el(wn, (k, b))))
    dn = lambda i: df(i) * r_inv(r_sqrt(norm2(n, df)))
    sn_ = lambda i: sf(i) * r_inv(r_sqrt(norm2(n, sf)))
    tr_ = guarded(lambda: c_eq(r_sum(n, lambda i: r_sum(n, lambda j: f(i, j) * r_el('M', (j, i)))),
                               r_sum(n - 1, lambda k: r_el(sn, (k,)))
                               + r_sum(n, lambda i: r_sum(n, lambda j: dn(i) * sn_(j) * r_el('M', (j, i))))))
    return g + [('attains the maximum', Goal(tr_, sub))]


def prove_eq(it, x, y):
    import prove
    return prove.prove(c_eq(x, y), it.hyps()) is True


@contract(('C17', 'C18'), 'orth_transl_max_dir', LA + 'orth_transl_max_dir')
def _(it, n):
    s, sf = vec('s', n)
    d, df = vec('d', n)
    nonzero(it, n, sf)
    nonzero(it, n, df)
    sm, smf = vec('sm', n)
    dm, dmf = vec('dm', n)
    made = transl_summary(it, n) if not n == 1 else []
    out = call(it, LA + 'orth_transl_max_dir', s, d, sm, dm)
    g = [('returns', returns(out))]
    if out[0] != 'ret':
        return g
    if n == 1:
        v = at(it, out[1], I0)
        return g + [('orthogonal', c_eq(v * v, 1)),
                    ('maps', c_eq(v * sf(I0) * r_inv(X.r_abs(sf(I0))), df(I0) * r_inv(X.r_abs(df(I0)))))]
    f = mat(it, out[1], n)
    sub = first_columns(n, made, ('s', 'd'))
    g += [('shape', shape_is(it, out[1], n, n)), ('orthogonal', Goal(is_orth(it, n, f), sub)),
          ('maps', Goal(maps(it, n, f, sf, df), sub))]
    if len(keyed('qr')) != 2 or len(made) != 2:
        return g + [('attains the maximum', Unsupported('unexpected factorisations'))]
    (os_, _), (od, _) = made
    (q1, r1), (q2, r2) = keyed('qr')
    n1 = n - 1
    a = fresh_ix(n1)
    for qn, rn, on, x in ((q1, r1, os_, 'sm'), (q2, r2, od, 'dm')):
        qf = REG.atoms[qn]['prod_rules'][(qn, rn)]
        if not prove_eq(it, qf(a, I0), r_sum(n, lambda i: r_el(on, (i, a + 1)) * r_el(x, (i,)))):
            return g + [('attains the maximum', Unsupported('unexpected factorisations'))]
        scalar('first_' + x)
        sub[x] = lambda i, qn=qn, rn=rn, on=on, x=x: r_el(on, (i, I0)) * r_el('first_' + x, ()) + r_sum(
            n1, lambda a: r_el(on, (i, a + 1)) * r_el(qn, (a, I0)) * r_el(rn, (I0, I0)))
    dn = lambda i: df(i) * r_inv(r_sqrt(norm2(n, df)))
    sn_ = lambda i: sf(i) * r_inv(r_sqrt(norm2(n, sf)))

    def value():
        # <O sm, dm> = |part of sm orthogonal to s| |part of dm orthogonal to d| + <s^, sm> <d^, dm>: by the
        # Cauchy-Schwarz inequality no admissible O gives more
        p = r_sum(n, lambda i: sn_(i) * smf(i))
        t = r_sum(n, lambda i: dn(i) * dmf(i))
        s_part = norm2(n, lambda i: smf(i) - p * sn_(i))
        d_part = norm2(n, lambda i: dmf(i) - t * dn(i))
        return c_eq(r_sum(n, lambda i: r_sum(n, lambda j: dmf(i) * f(i, j) * smf(j))),
                    r_sqrt(s_part) * r_sqrt(d_part) + p * t)
    return g + [('attains the maximum', Goal(guarded(value), sub))]


# ------------------------------------------------------------------ orthogonalisation
@contract('C19', 'mat_orth', LA + 'mat_orth', cols=('square', 'wide', 'tall'),
          skip=lambda n, cols: n == 1 and cols == 'tall')
def _(it, n, cols):
    m = dim('m', 1)
    if cols == 'square':
        m = n
    else:
        it.assume(c_icmp('<', n - m) if cols == 'wide' else c_icmp('<', m - n))
    a = arr('A', (n, m))
    out = call(it, LA + 'mat_orth', a)
    g = [('returns', returns(out))]
    if out[0] != 'ret':
        return g
    f = mat(it, out[1], n)
    g += [('shape', shape_is(it, out[1], n, n)), ('orthogonal', is_orth(it, n, f))]
    sub, drop = None, ()
    if keyed('qr'):
        qn, rn = keyed('qr')[0][:2]
        drop = (qn,)
        k = REG.atoms[qn]['dims'][1]
        sub = {'A': lambda i, *j: r_sum(k, lambda c: r_el(qn, (i, c)) * r_el(rn, (c,) + (j or (I0,))))}
    p = lambda i, j: r_sum(n, lambda k: f(k, i) * at(it, a, k, j))
    g += [('spans', Goal(guarded(lambda: all_ix((n, m), lambda i, j: c_imp(c_icmp('<', j - i), c_eq(p(i, j), 0)))), sub, drop=drop)),
          ('non-negative products', Goal(guarded(lambda: all_ix((n, m), lambda i, j: c_imp(
              c_icmp('==', j - i), c_le(0, p(i, j))))), sub, drop=drop))]
    return g


@contract('C19', 'math_orth_col', LA + 'math_orth_col', cols=('square', 'tall'), skip=lambda n, cols: n == 1 and cols == 'tall')
def _(it, n, cols):
    m = dim('m', 1)
    if cols == 'square':
        m = n
    else:
        it.assume(c_icmp('<', m - n))
    a = arr('A', (n, m))
    out = call(it, LA + 'math_orth_col', a)
    g = [('returns', returns(out))]
    if out[0] == 'ret':
        f = mat(it, out[1], n)
        g += [('shape', shape_is(it, out[1], n, m)),
              ('orthonormal columns', guarded(lambda: all_ix((m, m), lambda i, j: c_eq(
                  r_sum(n, lambda k: f(k, i) * f(k, j)), r_delta(i - j)))))]
    return g


@contract('C17', 'ml_orth_transl', LA + 'ml_orth_transl', form=('3d', '2d', '1d'))
def _(it, n, form):
    t = dim('T', 1) if form != '1d' else I1
    e = dim('E', 1) if form == '3d' else I1
    src = arr('s', (n, t) if form != '1d' else (n,))
    dst = arr('d', {'3d': (n, t, e), '2d': (n, t), '1d': (n,)}[form])
    s2 = mk((n, t), lambda i, j: S(at(it, src, *((i, j)[:src.ndim]))), 'f')
    d3 = mk((n, t, e), lambda i, j, k: S(at(it, dst, *((i, j, k)[:dst.ndim]))), 'f')
    if form == '1d':
        s2 = mk((n, I1), lambda i, j: S(at(it, src, i)), 'f')
    # contract of orth_transl: an uninterpreted function of the two directions (its own contract is proved separately)
    seen = []

    def f(it, args, kw):
        if kw or len(args) != 2:
            return NotImplemented
        a, b = args
        if not (a.ndim == 2 and b.ndim == 2 and it.same(a.shape[0], n) and it.same(b.shape[0], n)
                and it.same(a.shape[1], 1) and it.same(b.shape[1], 1)):
            return NotImplemented
        fa, fb = a.snap(), b.snap()
        return mk((n, n), lambda i, j: S(page(it, n, lambda k: fa(k, I0).v, lambda k: fb(k, I0).v, i, j)), 'f')
    it.summaries[LA + 'orth_transl'] = f
    out = call(it, LA + 'ml_orth_transl', src, dst)
    g = [('returns', returns(out))]
    if out[0] == 'ret':
        g += [('shape', shape_is(it, out[1], n, n, e, t)),
              ('pages', guarded(lambda: all_ix((n, n, e, t), lambda i, j, k, l: c_eq(
                  at(it, out[1], i, j, k, l),
                  page(it, n, lambda q: at(it, s2, q, l), lambda q: at(it, d3, q, l, k), i, j)))))]
    return g


def page(it, n, a, b, i, j):
    """an arbitrary function of two vectors, entry (i, j): distinguishes every entry of both"""
    if 'wS' not in REG.atoms:
        atom('wS', () if n == 1 else (n,))
        atom('wD', () if n == 1 else (n,))
        atom('wI', () if n == 1 else (n, n))
    w = lambda x, *k: r_el(x, () if n == 1 else k)
    return r_sum(n, lambda k: w('wS', k) * a(k)) + r_sum(n, lambda k: w('wD', k) * b(k)) + w('wI', i, j)
