"""Contracts of the Minkowski sum approximations (C09, C10)"""
from cc import *
from k_la import LA, mat, eq_mat, prod, tr, eye, eig
from k_core import new_ell, new_ells, el1, el2, cen, shp, EC, meth
from k_rho import quad
import numpy as np
import npm_la as L
from callee import sqrtm_contract, transl_contract


def nondegenerate(it, m, n, q, tf):
    """assume that every shape matrix is positive definite beyond its tolerance"""
    k = fresh_ix(m)
    a = snippet(it, 'q[:, :, k]', q=q, k=k)
    lam, v = eig(it, a)
    it.assume(forall(k, all_ix((n,), lambda i: c_lt(tf(k), lam(i)))))
    lam0, v = eig(it, snippet(it, 'q[:, :, 0]', q=q))
    it.assume(all_ix((n,), lambda i: c_lt(tf(I0), lam0(i))))


def direction(n, p, dirs, sign):
    """direction matrix; for n == 1 numbers of a given sign"""
    one = n == 1
    atom('l', tuple(d for d in (n, p) if not d == 1), **({'positive': True, 'nonneg': True,
         'gen': lambda env, d: env.positive(d) if d else env.positive()} if one else {}))
    sg = real(-1 if sign == '-' else 1)
    el = lambda i, s: sg * r_el('l', tuple(ie(k) for k, d in ((i, n), (s, p)) if not ie(d) == 1))
    if dirs == 'vector':
        return mk((n,), lambda i: S(el(i, I0)), 'f'), el
    return mk((n, p), lambda i, s: S(el(i, s)), 'f'), el


DIRS = dict(dirs=('one', 'many', 'vector'), sign=('+', '-'), skip=lambda n, dirs, sign, **k: n == SYM and sign == '-')


def setting(it, n, dirs, sign, kind='pd'):
    m = dim('m', 2)
    lst, cf, qf, tf = new_ells(it, '', m, n, kind=kind)
    nondegenerate(it, m, n, sym('Q', n, fam=(m,), kind=kind), tf)
    p = dim('p', 2) if dirs == 'many' else I1
    d, el = direction(n, p, dirs, sign)
    s = fresh_ix(p)
    lf = lambda i: el(i, s)
    kk = fresh_ix(m)
    # positive definiteness at the (nonzero) direction
    it.assume(forall(s, forall(kk, c_lt(0, quad(n, lambda i, j: qf(kk, i, j), lf)))))
    return m, lst, cf, qf, tf, p, d, s, lf


def result(it, r, p, s):
    return snippet(it, 'r[s]', r=r, s=s), c_icmp('==', r.shape[0] - p) if isinstance(r, OArr) and r.ndim == 1 else FALSE


@contract('C09', 'minksum_ea', EC + '.minksum_ea', **DIRS)
def _(it, n, dirs, sign):
    m, lst, cf, qf, tf, p, d, s, lf = setting(it, n, dirs, sign)
    out = call(it, EC + '.minksum_ea', lst, d)
    g = [('returns', returns(out))]
    if out[0] != 'ret':
        return g
    o, count = result(it, out[1], p, s)
    h = lambda k: r_sqrt(quad(n, lambda i, j: qf(k, i, j), lf))
    tot = r_sum(m, h)
    g += [('count', count),
          ('centre', guarded(lambda: all_ix((n,), lambda i: c_eq(cen(it, o)[1](i), r_sum(m, lambda k: cf(k, i)))))),
          ('shape', guarded(lambda: all_ix((n, n), lambda i, j: c_eq(
              shp(it, o)[1](i, j), tot * r_sum(m, lambda k: qf(k, i, j) * r_inv(h(k)))))))]
    # touching: the support function in the direction is the sum of the support functions
    g += [('touches', guarded(lambda: c_eq(quad(n, shp(it, o)[1], lf), tot * tot)))]

    # external: P(x) = (sum h) (sum Q_k(x) / h_k), which by the lemma below is (sum r_k)^2 plus squares for r_k^2 = Q_k(x)
    def external():
        atom('x', () if n == 1 else (n,))
        xf = el1('x', n)
        return c_eq(quad(n, shp(it, o)[1], xf), tot * r_sum(m, lambda k: quad(n, lambda i, j: qf(k, i, j), xf) * r_inv(h(k))))

    def lemma():
        atom('h', (m,), positive=True, nonneg=True, gen=lambda env, d: env.positive(d))
        atom('r', (m,))
        hk, rk = (lambda k: r_el('h', (ie(k),))), (lambda k: r_el('r', (ie(k),)))
        lhs = r_sum(m, hk) * r_sum(m, lambda k: rk(k) ** 2 * r_inv(hk(k))) - r_sum(m, rk) ** 2
        sq = r_sum(m, lambda k: r_sum(m, lambda q: hk(k) * hk(q) * (rk(k) * r_inv(hk(k)) - rk(q) * r_inv(hk(q))) ** 2))
        return c_eq(lhs, sq * real(0.5))
    return g + [('quadratic form', guarded(external)), ('contains the sum', guarded(lemma))]


@contract('C10', 'minksum_ia', EC + '.minksum_ia', **DIRS)
def _(it, n, dirs, sign):
    m, lst, cf, qf, tf, p, d, s, lf = setting(it, n, dirs, sign)
    roots, made = sqrtm_contract(it), transl_contract(it)
    out = call(it, EC + '.minksum_ia', lst, d)
    g = [('returns', returns(out))]
    if out[0] != 'ret':
        return g
    o, count = result(it, out[1], p, s)
    h = lambda k: r_sqrt(quad(n, lambda i, j: qf(k, i, j), lf))
    tot = r_sum(m, h)
    g += [('count', count),
          ('centre', guarded(lambda: all_ix((n,), lambda i: c_eq(cen(it, o)[1](i), r_sum(m, lambda k: cf(k, i))))))]
    if n == 1:
        return g + [('touches', guarded(lambda: c_eq(quad(n, shp(it, o)[1], lf), tot * tot)))]
    # shape (sum O_k S_k)' (sum O_k S_k) with S_k S_k = Q_k and orthogonal O_k, O_k S_k l = |S_k l| / |S_0 l| S_0 l
    k, q = fresh_ix(m), fresh_ix(m)
    fit = [x for x in roots if len(x[1]) == 1]
    rot = [x for x in made if k_in(x[1])]
    if not fit or not rot:
        return g + [('touches', Unsupported('square roots or rotations were not taken'))]
    sn = fit[-1][0]
    on, pars, sf, df = rot[-1]
    sl = lambda k, i: r_sum(n, lambda j: r_el(sn, (i, j, k)) * lf(j))
    kp = [x for x in pars if REG.ix[x.pure()] == m][0]
    op = lambda k: tuple(k if x == kp else ie(s) for x in pars)
    other = [x for x in pars if not x == kp]
    fix = {x.pure(): ie(s) for x in other}
    i, j = fresh_ix(n), fresh_ix(n)
    sub_mat = lambda b, i: r_sum(m, lambda k: r_sum(n, lambda a: r_el(on, (b, a) + op(k)) * r_el(sn, (a, i, k))))
    total = lambda i, j: r_sum(n, lambda b: sub_mat(b, i) * sub_mat(b, j))
    g += [('roots', step(all_ix((m, n, n), lambda k, i, j: c_eq(
              r_sum(n, lambda a: r_el(sn, (i, a, k)) * r_el(sn, (a, j, k))), qf(k, i, j))))),
          ('rotated', step(guarded(lambda: all_ix((n,), lambda i: c_eq(sf(i).subst(fix), sl(kp, i)))))),
          ('common direction', step(FALSE if kp.pure() in df(i).syms() else
           guarded(lambda: c_eq(norm2_(n, lambda i: df(i).subst(fix)), quad(n, lambda i, j: qf(I0, i, j), lf))))),
          ('rotated shape', step(guarded(lambda: all_ix((n, n), lambda i, j: c_eq(shp(it, o)[1](i, j), total(i, j)))))),
          ('lengths', step(all_ix((m,), lambda k: c_eq(norm2_(n, lambda i: sl(k, i)), quad(n, lambda i, j: qf(k, i, j), lf)))))]

    # coordinates: l = |l| v, S_0 l = |S_0 l| u, S_k = T_k + |S_k l| / |l| (O_k' u) v' with T_k v = 0
    unit = dict(colorth=True, gen=gen_unit)
    atom('v', (n, I1), **unit)
    atom('u', (n, I1), **unit)
    atom('h', (m,), positive=True, nonneg=True)
    atom('len', (), positive=True, nonneg=True)
    atom('T', (n, n, m), prod_rules={('T', 'v'): lambda i, j, *f: X.ZERO})
    sub = {'l': (lambda i, *r: r_el('len', ()) * r_el('v', (i, I0))),
           sn: lambda i, j, k: r_el('T', (i, j, k)) + r_el('h', (k,)) * r_inv(r_el('len', ())) * r_sum(
               n, lambda a: r_el(on, (a, i) + op(k)) * r_el('u', (a, I0))) * r_el('v', (j, I0))}
    return g + [('touches', Goal(guarded(lambda: c_eq(quad(n, shp(it, o)[1], lf), r_sum(
        m, lambda k: r_el('h', (k,))) ** 2)), sub, refute=guarded(lambda: c_eq(
            quad(n, shp(it, o)[1], lf), tot * tot))))]


def gen_unit(env, d):
    v = env.rng.normal(size=d)
    return v / np.linalg.norm(v)


def k_in(pars):
    return any(REG.ix[x.pure()].syms() == {'m'} for x in pars)
