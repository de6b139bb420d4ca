"""C20 family products, C21 page-wise operations, C26 (row sorting): run-time contracts."""
import numpy as np

from base import clause, close, need, rejects, Fail, Skip
from ellipy.gras.gen.gen import MatVector, SquareMatVector, SymmetricMatVector, sort_rows_tol


def fam(g, m, n, t):
    a = np.zeros((m, n, t))
    for i in range(t):
        a[:, :, i] = g.mat(m, n)
    if t > 1 and g.b(0.2):
        a[:, :, t - 1] = a[:, :, 0]
    return a


def symfam(g, n, t, f):
    a = np.zeros((n, n, t))
    for i in range(t):
        a[:, :, i] = f(n)
    return a


def page(a, i):
    return a if a.ndim == 2 else a[:, :, i if a.shape[2] > 1 else 0]


def mul(a, b):
    return a * b if a.size == 1 or b.size == 1 else a @ b


def dims(g):
    return g.i(1, 4), g.i(1, 4), g.i(1, 4), g.i(1, 4), g.i(1, 5)


# ------------------------------------------------------------------ C20
@clause('C20', 2)
def product_two(g):
    m, n, p, _, t = dims(g)
    k = g.i(0, 5)
    sparse = g.b()
    ak, bk = (m, n), (n, p)
    if k == 0:
        ak = (1, 1)
        bk = (n, p)
    elif k == 1:
        bk = (1, 1)
    elif k == 2:
        n = p = m
        ak = bk = (m, m)
    a = fam(g, ak[0], ak[1], t)
    kind = g.i(0, 2)
    if kind == 0:
        b = g.mat(*bk)
    elif kind == 1 and not sparse:
        b = fam(g, bk[0], bk[1], 1)
    else:
        b = fam(g, bk[0], bk[1], t)
    g.use(a, b, sparse)
    r = MatVector.r_multiply(g.layout(a.copy()), g.layout(b.copy()), use_sparse_matrix=sparse)
    e = np.stack([mul(a[:, :, i], page(b, i)) for i in range(t)], 2)
    close(r, e, 1e-9, 'two-factor product')


@clause('C20', 2)
def product_three(g):
    m, n, p, q, t = dims(g)
    if g.b(0.3):
        n = p = q = m
    sparse = g.b()
    sh = [(m, n), (n, p), (p, q)]
    k = g.i(0, 6)
    if k == 0:
        sh = [(1, 1), (n, p), (p, q)]
    elif k == 1:
        sh = [(m, n), (1, 1), (n, q)]
    elif k == 2:
        sh = [(m, n), (n, p), (1, 1)]
    elif k == 3:
        sh = [(1, 1), (1, 1), (p, q)]
    elif k == 4:
        sh = [(m, n), (1, 1), (1, 1)]
    a = fam(g, sh[0][0], sh[0][1], t)
    f = []
    for s in sh[1:]:
        f.append(g.mat(*s) if g.b(0.3) else fam(g, s[0], s[1], 1 if (g.b(0.15) and not sparse) else t))
    g.use(a, f[0], f[1], sparse)
    e = np.stack([mul(mul(a[:, :, i], page(f[0], i)), page(f[1], i)) for i in range(t)], 2)
    r = MatVector.r_multiply(a.copy(), f[0].copy(), f[1].copy(), use_sparse_matrix=sparse)
    close(r, e, 1e-9, 'three-factor product')


@clause('C20', 1)
def product_routes(g):
    m, n, p, q, t = dims(g)
    a, b = fam(g, m, n, t), (g.mat(n, p) if g.b(0.3) else fam(g, n, p, t))
    three = g.b()
    c = (g.mat(p, q) if g.b(0.3) else fam(g, p, q, t)) if three else None
    g.use(a, b, c)
    r1 = MatVector.r_multiply(a.copy(), b.copy(), c, use_sparse_matrix=False)
    r2 = MatVector.r_multiply(a.copy(), b.copy(), c, use_sparse_matrix=True)
    close(r1, r2, 1e-9, 'dense and sparse routes')


@clause('C20', 1)
def product_pages_reject(g):
    m, n, p, _, t = dims(g)
    a, b = fam(g, m, n, t + 1), fam(g, n, p, t + 2)
    g.use(a, b)
    rejects(MatVector.r_multiply, a, b)


@clause('C20', 2)
def product_vec(g):
    m, n, _, _, t = dims(g)
    a, v = fam(g, m, n, t), g.mat(n, t)
    sparse = g.b()
    g.use(a, v, sparse)
    if g.b(0.15):
        rejects(MatVector.r_multiply_by_vec, a, g.pick([v[:, 0], v[:, :, None]]), sparse)
        return
    r = MatVector.r_multiply_by_vec(g.layout(a.copy()), g.layout(v.copy()), sparse)
    e = np.stack([a[:, :, i] @ v[:, i] for i in range(t)], 1)
    close(np.asarray(r), e, 1e-9, 'product with vectors')


def congr(b, a, flag):
    return a.T @ b @ a if flag == 'R' else a @ b @ a.T


@clause('C20', 2)
def congruence(g):
    n, k, _, _, t = dims(g)
    flag = g.pick(['R', 'L'])
    ac = g.b(0.3)
    bc = ac and g.b(0.3)    # a constant middle factor goes with a constant outer one
    b = g.mat(n, n) if bc else fam(g, n, n, t)
    s = (n, k) if flag == 'R' else (k, n)
    a = g.mat(*s) if ac else fam(g, s[0], s[1], t)
    g.use(b, a, flag)
    r = SquareMatVector.lr_multiply(b.copy(), a.copy(), *(() if flag == 'R' and g.b() else (flag,)))
    tt = 1 if (bc and ac) else t
    e = np.stack([congr(page(b, i), page(a, i), flag) for i in range(tt)], 2)
    r = np.asarray(r)
    if r.ndim == 2:
        need(tt == 1, '2-dimensional result for %d pages' % tt)
        r = r[:, :, None]
    close(r, e, 1e-9, 'congruence %s' % flag)


@clause('C20', 1)
def congruence_spectral(g):
    n, k, _, _, t = dims(g)
    flag = g.pick(['R', 'L'])
    bc = g.b(0.3)
    b = g.sym(n) if bc else symfam(g, n, t, g.sym)
    s = (n, k) if flag == 'R' else (k, n)
    if bc:
        t = 1
    a = g.mat(*s) if g.b(0.3) else fam(g, s[0], s[1], t)
    g.use(b, a, flag)
    r = SymmetricMatVector.lr_svd_multiply(b.copy(), a.copy(), flag)
    e = np.stack([congr(page(b, i), page(a, i), flag) for i in range(t)], 2)
    r = np.asarray(r)
    if r.ndim == 2:
        need(t == 1, '2-dimensional result for %d pages' % t)
        r = r[:, :, None]
    close(r, e, 1e-8, 'spectral congruence %s' % flag)


@clause('C20', 2)
def quadratic_values(g):
    n, _, _, _, t = dims(g)
    kind = g.i(0, 3)
    if kind == 0:
        b, a = g.mat(n, n), g.mat(n, t)
    elif kind == 1:
        b, a = fam(g, n, n, t), g.mat(n, t)
    elif kind == 2:
        b, a = fam(g, n, n, t), g.vec(n)
    else:
        b, a = g.mat(n, n), g.vec(n)
        t = 1
    g.use(b, a)
    r = SquareMatVector.lr_multiply_by_vec(b.copy(), a.copy())
    aa = a.reshape(-1, 1) if a.ndim == 1 else a
    e = [aa[:, i if aa.shape[1] > 1 else 0] @ page(b, i) @ aa[:, i if aa.shape[1] > 1 else 0] for i in range(t)]
    close(np.reshape(r, (-1,)), e, 1e-9, 'quadratic values')


@clause('C20', 1)
def quadratic_values_spectral(g):
    n, _, _, _, t = dims(g)
    if g.b(0.2):
        t = 1
        b = g.sym(n)
    else:
        b = symfam(g, n, t, g.sym)
    a = g.mat(n, t)
    g.use(b, a)
    r = SymmetricMatVector.lr_svd_multiply_by_vec(b.copy(), a.copy())
    close(np.reshape(r, (-1,)), [a[:, i] @ page(b, i) @ a[:, i] for i in range(t)], 1e-8, 'spectral quadratic values')
    r = SymmetricMatVector.r_svd_multiply_by_vec(b.copy(), a.copy())
    close(np.asarray(r), np.stack([page(b, i) @ a[:, i] for i in range(t)], 1), 1e-8, 'spectral product with vectors')


def nonsym_ok(g, n):
    return g.nonsing(n) if g.b() else g.spd(n)


@clause('C20', 2)
def inverse_values(g):
    n, _, _, _, t = dims(g)
    kind = g.i(0, 3)
    if kind == 0:
        b, a = nonsym_ok(g, n), g.mat(n, t)
    elif kind == 1:
        b, a = symfam(g, n, t, lambda m: nonsym_ok(g, m)), g.mat(n, t)
    elif kind == 2:
        b, a = symfam(g, n, t, lambda m: nonsym_ok(g, m)), g.vec(n)
    else:
        b, a = nonsym_ok(g, n), g.vec(n)
        t = 1
    g.use(b, a)
    r = SquareMatVector.lr_divide_vec(b.copy(), a.copy())
    aa = a.reshape(-1, 1) if a.ndim == 1 else a
    if kind == 1 and t > 1 and aa.shape[1] == 1:
        raise Skip()
    e = [aa[:, i if aa.shape[1] > 1 else 0] @ np.linalg.solve(page(b, i), aa[:, i if aa.shape[1] > 1 else 0]) for i in range(t)]
    close(np.reshape(r, (-1,)), e, 1e-8, 'inverse quadratic values')


@clause('C20', 1)
def inverse_values_spectral(g):
    n, _, _, _, t = dims(g)
    k = g.i(0, 2)

    def f(m):
        lam = g.rng.uniform(0.3, 3, m) * g.rng.choice([-1, 1], m)
        u = g.orth(m)
        return 0.5 * (u @ np.diag(lam) @ u.T + (u @ np.diag(lam) @ u.T).T)
    b = f(n) if k == 0 else symfam(g, n, t, f)
    a = g.mat(n, t)
    g.use(b, a)
    r = SymmetricMatVector.lr_svd_divide_vec(b.copy(), a.copy())
    close(np.reshape(r, (-1,)), [a[:, i] @ np.linalg.solve(page(b, i), a[:, i]) for i in range(t)], 1e-8, 'spectral inverse values')


@clause('C20', 0.7)
def modes_reject(g):
    n, _, _, _, t = dims(g)
    flag = g.pick(['r', 'l', 'X', '', 'LR', 'RR', None, 1])
    b = g.sym(n) if g.b() else symfam(g, n, t, g.sym)
    a = g.mat(n, n) if g.b() else fam(g, n, n, t)
    g.use(b, a, flag)
    rejects(SquareMatVector.lr_multiply, b, a, flag)
    if b.ndim == 3 or a.ndim == 2:
        if not isinstance(flag, (str, type(None), int)):
            raise Skip()
        rejects(SymmetricMatVector.lr_svd_multiply, b, a, flag)


# ------------------------------------------------------------------ C21
def as_pages(r, t, what):
    r = np.asarray(r)
    if r.ndim == 2:
        need(t == 1, what + ': 2-dimensional result for %d pages' % t)
        r = r[:, :, None]
    need(r.ndim == 3 and r.shape[2] == t, what + ': shape %s, expected %d pages' % (r.shape, t))
    return r


def family_or_page(g, make):
    if g.b(0.25):
        a = make()
        return a, [a]
    t = g.i(1, 5)
    a = np.stack([make() for _ in range(t)], 2)
    return a, [a[:, :, i] for i in range(t)]


def pagewise(g, f, op, make, tol, what):
    a, pages = family_or_page(g, make)
    g.use(a)
    r = as_pages(f(g.layout(a.copy())), len(pages), what)
    for i, p in enumerate(pages):
        close(r[:, :, i], op(p), tol, '%s, page %d' % (what, i))


@clause('C21', 1)
def transposition(g):
    m, n = g.i(1, 4), g.i(1, 4)
    pagewise(g, MatVector.transpose, lambda p: p.T, lambda: g.mat(m, n), 1e-15, 'transpose')


@clause('C21', 1)
def upper(g):
    m, n = g.i(1, 4), g.i(1, 4)
    pagewise(g, MatVector.triu, np.triu, lambda: g.mat(m, n), 1e-15, 'triu')


@clause('C21', 1)
def symmetrisation(g):
    n = g.i(1, 4)
    pagewise(g, MatVector.make_symmetric, lambda p: 0.5 * (p + p.T), lambda: g.mat(n, n), 1e-14, 'make_symmetric')


@clause('C21', 1)
def pseudo_inverse(g):
    m, n = g.i(1, 4), g.i(1, 4)

    def make():
        a = g.mat(m, n)
        s = np.linalg.svd(a, compute_uv=False)
        return a if np.all((s > 0.05) | (s < 1e-12)) else np.eye(m, n) * 2
    pagewise(g, MatVector.pinv, np.linalg.pinv, make, 1e-9, 'pinv')


@clause('C21', 1)
def inverse_pages(g):
    n = g.i(1, 4)
    pagewise(g, SquareMatVector.inv, np.linalg.inv, lambda: g.nonsing(n), 1e-9, 'inv')


@clause('C21', 1)
def root_pages(g):
    n = g.i(1, 4)
    two = []

    def make():
        if g.b(0.15) and two:
            return np.full((n, n), np.nan)
        two.append(1)
        return g.spd(n) if g.b(0.8) else np.diag(np.round(g.rng.uniform(0, 3, n)))

    def op(p):
        if np.isnan(p).any():
            return np.full((n, n), np.nan)
        w, v = np.linalg.eigh(p)
        return v @ np.diag(np.sqrt(np.maximum(w, 0))) @ v.T
    pagewise(g, SquareMatVector.sqrtm_pos, op, make, 1e-8, 'sqrtm_pos')


@clause('C21', 1)
def definite_or_nan(g):
    n, t = g.i(1, 4), g.i(1, 5)
    mats, ok = [], []
    for _ in range(t):
        k = g.i(0, 3)
        if k == 0:
            d = np.round(g.rng.uniform(0, 3, n))
            d[0] = g.pick([0., -0.25, -2. ** -20, 1.])
            mats.append(np.diag(d))
            ok.append(np.min(d) >= 0)
        else:
            lam = g.rng.uniform(0.1, 3, n)
            if k == 1:
                lam[0] = -lam[0]
            u = g.orth(n)
            q = u @ np.diag(lam) @ u.T
            mats.append(0.5 * (q + q.T))
            ok.append(k != 1)
    a = np.stack(mats, 2) if t > 1 or g.b() else mats[0]
    g.use(a)
    r = as_pages(SquareMatVector.make_pos_definite_or_nan(a.copy()), t, 'make_pos_definite_or_nan')
    for i in range(t):
        close(r[:, :, i], mats[i] if ok[i] else np.full((n, n), np.nan), 1e-14, 'page %d' % i)


@clause('C21', 1)
def clip_eigenvalues(g):
    n = g.i(1, 4)
    val = g.pick([None, 0.5, 1e-3, 2.])

    def make():
        lam = g.rng.uniform(0.1, 3, n) * g.rng.choice([-1, 1, 1], n)
        u = g.orth(n) if g.b(0.7) else np.eye(n)
        q = u @ np.diag(lam) @ u.T
        return 0.5 * (q + q.T)

    def op(p):
        w, v = np.linalg.eigh(p)
        return v @ np.diag(np.where(w < 0, 1e-12 if val is None else val, w)) @ v.T
    f = SquareMatVector.make_pos_definite_by_eig
    g.use(val)
    pagewise(g, (lambda a: f(a)) if val is None else (lambda a: f(a, val)), op, make, 1e-9, 'make_pos_definite_by_eig')
    if n > 1 and g.b(0.3):
        q = np.round(g.sym(n) * 16) / 16
        q[0, 1] += 0.5
        rejects(f, q)
        rejects(f, np.stack([q + q.T, q], 2))


@clause('C21', 1)
def functions_of_time(g):
    m, n, t = g.i(1, 3), g.i(1, 3), g.i(1, 6)
    c0, c1, c2 = g.mat(m, n), g.mat(m, n), g.mat(m, n)
    ts = g.rng.uniform(-2, 2, t)
    calls = []
    kind = g.i(0, 3)
    if kind == 0:
        n = 1
        c0, c1, c2 = c0[:, :1], c1[:, :1], c2[:, :1]

        def f(x):
            calls.append(x)
            return (c0 + c1 * x + c2 * np.sin(x))[:, 0]
    elif kind == 1:
        m = n = 1
        c0, c1, c2 = c0[:1, :1], c1[:1, :1], c2[:1, :1]

        def f(x):
            calls.append(x)
            return float((c0 + c1 * x + c2 * np.sin(x))[0, 0])
    else:
        def f(x):
            calls.append(x)
            return c0 + c1 * x + c2 * np.sin(x)
    g.use(c0, c1, c2, ts, kind)
    arg = ts if t > 1 or g.b() else float(ts[0])
    if g.b(0.2):
        arg = ts.reshape(1, -1)
    r = MatVector.from_func(f, arg)
    need(r.shape == (m, n, t), 'shape %s, expected %s' % (r.shape, (m, n, t)))
    for i in range(t):
        close(r[:, :, i], c0 + c1 * ts[i] + c2 * np.sin(ts[i]), 1e-12, 'value at time %d' % i)
    need(len(calls) == t and np.array_equal(np.ravel(calls), ts), 'the function was called at other points')


EXPRS = [('t', lambda t: t), ('t*t', lambda t: t * t), ('cos(t)', np.cos), ('2*t+1', lambda t: 2 * t + 1),
         ('exp(-t)', lambda t: np.exp(-t)), ('3', lambda t: 3.), ('sin(t)*t', lambda t: np.sin(t) * t), ('-1.5', lambda t: -1.5)]


@clause('C21', 1)
def formulas(g):
    t = g.i(1, 5)
    ts = g.rng.uniform(-2, 2, t)
    m, n = g.i(1, 3), g.i(1, 3)
    kind = g.i(0, 3)
    if kind == 0:
        m = n = 1
    elif kind == 1:
        m = 1
    cells = [[g.pick(EXPRS) for _ in range(n)] for _ in range(m)]
    if kind == 0:
        ex = cells[0][0][0]
    elif kind == 1:
        ex = '[' + ','.join(c[0] for c in cells[0]) + ']'
    else:
        ex = '[' + ','.join('[' + ','.join(c[0] for c in row) + ']' for row in cells) + ']'
    g.use(ex, ts)
    r = np.asarray(MatVector.from_expression(ex, ts if t > 1 or g.b() else float(ts[0])), dtype=float)
    if r.ndim == 4:
        r = r.reshape((m, n, t))
    need(r.shape == (m, n, t), 'shape %s, expected %s' % (r.shape, (m, n, t)))
    for i in range(m):
        for j in range(n):
            close(r[i, j, :], [cells[i][j][1](x) for x in ts], 1e-12, 'entry %d,%d' % (i, j))
    rejects(MatVector.from_expression, '', ts)


@clause('C21', 1)
def formula_matrices(g):
    t = g.i(1, 5)
    ts = g.rng.uniform(-2, 2, t)
    m, n = g.i(1, 3), g.i(1, 3)
    cells = [[g.pick(EXPRS) for _ in range(n)] for _ in range(m)]
    x = np.array([[c[0] for c in row] for row in cells])
    if n == 1 and g.b():
        x = x[:, 0]
    g.use(str(x), ts)
    r = MatVector.from_formula_mat(x, ts)
    need(r.shape == (m, n, t), 'shape %s, expected %s' % (r.shape, (m, n, t)))
    for i in range(m):
        for j in range(n):
            close(r[i, j, :], [cells[i][j][1](v) for v in ts], 1e-12, 'entry %d,%d' % (i, j))


@clause('C21', 1)
def evaluation(g):
    m, n = g.i(1, 4), g.i(1, 4)
    a, pages = family_or_page(g, lambda: g.mat(m, n))
    t = len(pages)
    kind = g.i(0, 2)
    got = []
    g.use(a, kind)
    w = g.mat(m, n)
    if kind == 0:
        def f(p):
            got.append(np.array(p))
            return np.sum(p * w)
        r = MatVector.eval_func(f, a.copy())
        need(np.shape(r) == (t,), 'shape %s' % (np.shape(r),))
        close(r, [np.sum(p * w) for p in pages], 1e-12, 'values')
    elif kind == 1:
        def f(p):
            got.append(np.array(p))
            return p * 2 + w
        r = as_pages(MatVector.eval_func(f, a.copy(), keep_size=True), t, 'eval_func')
        for i in range(t):
            close(r[:, :, i], pages[i] * 2 + w, 1e-12, 'page %d' % i)
    else:
        def f(p):
            got.append(np.array(p))
            return [np.array(p) + 1, 'x']
        r = MatVector.eval_func(f, a.copy(), uniform_output=False)
        need(type(r) == list and len(r) == t, 'list of %d values expected' % t)
        for i in range(t):
            close(r[i][0], pages[i] + 1, 1e-14, 'page %d' % i)
    need(len(got) == t, 'function called %d times for %d pages' % (len(got), t))
    for i in range(t):
        close(got[i], pages[i], 1e-15, 'page passed to the function')


# ------------------------------------------------------------------ C26
@clause('C26', 2)
def row_sort(g):
    m, n = g.i(0, 9), g.i(1, 4)
    tol = g.pick([0., 2. ** -10, 2. ** -4, 0.5])
    a = g.rng.randint(-3, 4, (m, n)).astype(float) * g.pick([1., 0.25])
    if tol > 0:
        a = a + g.rng.choice([0, 0, 1, -1, 0.5, 2], (m, n)) * tol
    if g.b(0.1):
        a = g.rng.randn(m, n)
    if g.b(0.1):
        a = g.rng.randint(-3, 4, (m, n))
    if m > 1 and g.b(0.3):
        a[g.i(0, m - 1)] = a[0]
    g.use(a, tol)
    r, ind, rev = sort_rows_tol(g.layout(a.copy()), tol)
    need(np.shape(r) == (m, n), 'shape %s' % (np.shape(r),))
    need(np.size(ind) == m and np.size(rev) == m, 'sizes of the permutations')
    if m == 0:
        return
    need(np.array_equal(np.sort(ind), np.arange(m)), 'not a permutation: %s' % ind)
    need(np.array_equal(r, a[ind]), 'rows are not the permuted input rows')
    need(np.array_equal(np.asarray(rev)[ind], np.arange(m)), 'inverse permutation: %s of %s' % (rev, ind))
    rank = np.zeros((m, n), dtype=int)
    for j in range(n):
        o = np.argsort(a[:, j], kind='stable')
        c = 0
        for x, y in zip(o[:-1], o[1:]):
            if a[y, j] - a[x, j] > tol:
                c += 1
            rank[y, j] = c
    rows = [tuple(x) for x in rank[ind]]
    need(all(x <= y for x, y in zip(rows[:-1], rows[1:])), 'rows out of order: class tuples %s' % rows)


@clause('C26', 0.4)
def row_sort_reject(g):
    a = g.mat(3, 2)
    g.use(a)
    rejects(sort_rows_tol, a, -0.5)
    rejects(sort_rows_tol, a[0], 0.5)
    rejects(sort_rows_tol, np.array([['a', 'b']]), 0.5)
    rejects(sort_rows_tol, a[:, :, None], 0.5)
