"""Contracts of callees: a caller is checked against the contract of sqrtm_pos (C19) and orth_transl (C17), not their bodies.
Each summary applies only when the precondition is proved at the call; otherwise the body is executed."""
import numpy as np
from cc import *
import npm_la as L
from npm_fn2 import abstract, own_ix, sub_own

LAQ = 'ellipy.gras.la.la.'


def pyatom(f):
    return ('py', f)


def key_of(it, kind, e, own, d):
    key, pars, q = abstract(e, L.names_of(*own))
    k2 = (kind, key, d.key())
    return k2, pars, (lambda idx, ps: sub_own(q.subst({'%%p%d' % k: v for k, v in enumerate(ps)}), own, idx)), q


def sqrtm_contract(it):
    """sqrtm_pos(Q, tol) for a symmetric positive definite Q: the symmetric positive semidefinite S with S S = Q"""
    made = []

    def f(it, args, kw):
        if kw or not 1 <= len(args) <= 2 or not isinstance(args[0], Arr) or args[0].ndim != 2:
            return NotImplemented
        mt = L.M(it, args[0])
        if not (mt.m == mt.n) or mt.n == 1:
            return NotImplemented
        d = mt.n
        a, b = own_ix('a', d), own_ix('b', d)
        e1, e2 = mt.at(a, b), mt.at(b, a)
        if not (e1 == e2 or X.canon(e1) == X.canon(e2)):
            return NotImplemented
        g = L.diag_part(e1, a, b)
        if g is not None and X.r_nonneg(g):
            # the positive semidefinite root is unique: the root of a diagonal matrix is diagonal
            made.append(('diagonal', ()))
            return mk((d, d), lambda i, j: S(X.r_sqrt(sub_own(g, (a,), (i,))) * r_delta(ie(i) - ie(j))), 'f')
        k2, pars, qf, q = key_of(it, 'sqrtm', e1, (a, b), d)
        if not L.pd(it, q, a, b, d):
            return NotImplemented
        if k2 not in REG.keyed:
            nm = 'S#%d' % len(REG.keyed)
            REG.keyed[k2] = nm

            def num(env, ps, q=q):
                dd = int(env.i(d, {}))
                w, v = np.linalg.eigh(env.matrix(q, (a, b), (dd, dd), ps))
                return (v * np.sqrt(np.maximum(w, 0))) @ v.T
            REG.atoms[nm] = {'dims': (d, d), 'sym': True, 'psd': True, 'npar': len(pars), 'num': pyatom(num),
                             'sqrt_of': lambda i, j, *ps: qf((i, j), ps)}
        nm = REG.keyed[k2]
        made.append((nm, tuple(pars)))
        return mk((d, d), lambda i, j: S(r_el(nm, (i, j) + tuple(pars))), 'f')
    it.summaries[LAQ + 'sqrtm_pos'] = f
    return made


def transl_num(s, d):
    """one orthogonal translation of s to d"""
    n = len(s)
    u, w = s / np.linalg.norm(s), d / np.linalg.norm(d)
    q1 = np.linalg.qr(np.column_stack([u, np.eye(n)]))[0]
    q2 = np.linalg.qr(np.column_stack([w, np.eye(n)]))[0]
    q1[:, 0], q2[:, 0] = u, w
    return q2 @ q1.T


def transl_contract(it):
    """orth_transl(s, d) for nonzero s, d: an orthogonal O with O s/|s| = d/|d| (directions closer than 1e-7 but not
    parallel are excluded); returns the list of (atom, parameters, source, destination)"""
    made = []

    def f(it, args, kw):
        if kw or len(args) != 2 or not all(isinstance(a, Arr) for a in args):
            return NotImplemented
        fs = []
        for x in args:
            g = x.snap()
            if x.ndim == 2 and x.shape[1] == 1:
                fs.append(lambda i, g=g: g(i, I0))
            elif x.ndim == 1:
                fs.append(lambda i, g=g: g(i))
            else:
                return NotImplemented
        d = args[0].shape[0]
        if not (d == args[1].shape[0]) or d == 1:
            return NotImplemented
        sf, df = (lambda i: L.val(it, fs[0](i))), (lambda i: L.val(it, fs[1](i)))
        for g in (sf, df):
            if not it.implied(c_lt(0, r_sum(d, lambda k: g(k) * g(k)))):
                return NotImplemented
        a, b = own_ix('a', d), own_ix('b', I1 + 1)
        e = sf(a) * r_delta(b) + df(a) * r_delta(b - 1)
        k2, pars, qf, q = key_of(it, 'transl', e, (a, b), d)
        if k2 not in REG.keyed:
            nm = 'O#%d' % len(REG.keyed)
            REG.keyed[k2] = nm

            def num(env, ps, q=q):
                dd = int(env.i(d, {}))
                v = env.matrix(q, (a, b), (dd, 2), ps)
                return transl_num(v[:, 0], v[:, 1])
            REG.atoms[nm] = {'dims': (d, d), 'colorth': True, 'roworth': True, 'npar': len(pars), 'num': pyatom(num)}
        nm = REG.keyed[k2]
        made.append((nm, tuple(pars), sf, df))
        return mk((d, d), lambda i, j: S(r_el(nm, (i, j) + tuple(pars))), 'f')
    it.summaries[LAQ + 'orth_transl'] = f
    return made


def single(e):
    if len(e.t) != 1:
        return None
    (m, c), = e.t.items()
    return m[0][0][0] if c == 1 and not m[1] and len(m[0]) == 1 and m[0][0][1] == 1 else None


def simdiag_num(a, b):
    w, v = np.linalg.eigh(a)
    r = v / np.sqrt(np.maximum(w, 1e-300))
    u = np.linalg.eigh(r.T @ b @ r)[1]
    return u.T @ r.T


def simdiag_contract(it, coq='ellipy.elltool.core.core.'):
    """ell_sim_diag(A, B, tol), A symmetric with eigenvalues above tol > 0, B symmetric: T with T A T' = I and T B T' =
    diag(D); D >= 0 when B is positive semidefinite (T B T' is a congruence)"""
    made = []

    def f(it, args, kw):
        if kw or len(args) != 3 or not all(isinstance(x, Arr) and x.ndim == 2 for x in args[:2]):
            return NotImplemented
        a, b = own_ix('a', args[0].shape[0]), own_ix('b', args[0].shape[0])
        ms = [L.M(it, x) for x in args[:2]]
        d = ms[0].m
        if d == 1 or not all(x == d for m in ms for x in (m.m, m.n)):
            return NotImplemented
        nms = []
        for m in ms:
            e = m.at(a, b)
            u = single(e)
            if u is None or u[0] != 'el' or len(u[2]) != 2 or not REG.atoms[u[1]].get('sym'):
                return NotImplemented
            nms.append(u[1])
        an, bn = nms
        if not REG.atoms[an].get('pd'):
            return NotImplemented
        tol = L.val(it, args[2])
        from k_la import eig
        lam, v = eig(it, args[0])
        if not it.implied(all_ix((d,), lambda k: c_lt(tol, lam(k)))):
            return NotImplemented
        key = ('simdiag', an, bn, d.key())
        if key not in REG.keyed:
            k = len(REG.keyed)
            tn, wn, dn = 'T#%d' % k, 'Ti#%d' % k, 'D#%d' % k
            REG.keyed[key] = (tn, wn, dn)
            x, y = own_ix('a', d), own_ix('b', d)

            def num(which):
                def g(env, ps):
                    dd = int(env.i(d, {}))
                    qa = env.matrix(r_el(an, (x, y)), (x, y), (dd, dd), ps)
                    qb = env.matrix(r_el(bn, (x, y)), (x, y), (dd, dd), ps)
                    t = simdiag_num(qa, qb)
                    return (t, np.linalg.inv(t), np.diag(t @ qb @ t.T))[which]
                return pyatom(g)
            REG.atoms[wn] = {'dims': (d, d), 'num': num(1), 'prod_rules': {(wn, tn): lambda p, r: r_delta(p - r)}}
            REG.atoms[dn] = {'dims': (d,), 'nonneg': bool(REG.atoms[bn].get('psd') or REG.atoms[bn].get('pd')),
                             'positive': bool(REG.atoms[bn].get('pd')), 'num': num(2)}
            REG.atoms[tn] = {'dims': (d, d), 'num': num(0), 'prod_rules': {
                (tn, wn): lambda p, r: r_delta(p - r),
                (tn, an): lambda p, r: r_el(wn, (r, p)),
                (tn, bn): lambda p, r: r_el(dn, (p,)) * r_el(wn, (r, p))}}
        tn, wn, dn = REG.keyed[key]
        made.append((tn, wn, dn))
        return mk((d, d), lambda i, j: S(r_el(tn, (i, j))), 'f')
    it.summaries[coq + 'ell_sim_diag'] = f
    return made


def compare_contract(it, q='ellipy.gen.common.common.abs_rel_compare'):
    """abs_rel_compare on finite arrays of one shape with the absolute value as the norm (C05): the answer is the
    elementwise closeness, the report is empty exactly for the positive answer; the other results are not described"""
    from k_arc import close

    def f(it_, args, kw):
        if kw or len(args) != 5 or not all(isinstance(x, Arr) and x.mask is None for x in args[:2]):
            return NotImplemented
        x, y, a, r, op = args
        if x.ndim != y.ndim or not all(p == q_ for p, q_ in zip(x.shape, y.shape)) or x.ndim == 0:
            return NotImplemented
        if not it.implied(finite(it, x)) or not it.implied(finite(it, y)):
            return NotImplemented
        nm = '%probe'
        if nm not in REG.atoms:
            atom(nm, (IntE.sym('%pd'),))
        z = mk((I1 + 1,), lambda k: S(r_el(nm, (ie(k),))), 'f')
        w = it.call(op, [z], {})
        k = fresh_ix(I1 + 1)
        if not isinstance(w, Arr) or not (rv(it, w.get((k,))) - X.r_abs(r_el(nm, (k,)))).is_zero():
            return NotImplemented
        a = L.val(it, a)
        r = None if r is None else L.val(it, r)
        if not it.implied(c_le(X.ZERO, a)) or r is not None and not it.implied(c_le(X.ZERO, r)):
            return NotImplemented
        if any(it.implied(c_icmp('==', d)) for d in x.shape):
            return NotImplemented
        c = all_ix(x.shape, lambda *i: close(at(it, x, *i), at(it, y, *i), a, r))
        eq = it.decide(c)
        return (B(TRUE if eq else FALSE), S(X.ZERO), B(FALSE), S(X.ZERO), S(X.ZERO), '' if eq else 'differs')
    it.summaries[q] = f
