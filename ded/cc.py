"""Vocabulary of the contracts: symbolic inputs and conditions about results."""
import numpy as np
import expr as X
from expr import (IntE, R, ie, I0, I1, REG, Unsupported, TRUE, FALSE, c_and, c_or, c_not, c_icmp, c_eq, c_le, c_lt, c_iff,
                  c_imp, real, r_ite, r_sum, r_el, r_delta, r_inv, r_sqrt, r_int, fresh_ix, forall, exists, dim)
from vals import PyRaise, B, S, Obj, Fam, SymSeq, Arr, OArr, mk
import npm_arr as A
import interp as I
from explore import Case, Goal


# ------------------------------------------------------------------ inputs
def scalar(name, ty='float', **props):
    p = {'dims': ()}
    p.update(props)
    if p.pop('pos', None):
        p['positive'] = p['nonneg'] = True
        p.setdefault('gen', lambda env, d: env.positive())
    if p.get('nonneg'):
        p.setdefault('gen', lambda env, d: env.nonneg())
    if ty == 'int':
        p['int'] = True
        p['gen'] = lambda env, d: float(env.rng.integers(1 if p.get('positive') else 0 if p.get('nonneg') else -4, 5))
    REG.atoms[name] = p
    return S(r_el(name, ()), ty=ty)


def atom(name, dims, **props):
    p = {'dims': tuple(ie(d) for d in dims)}
    p.update(props)
    REG.atoms[name] = p
    return name


def arr(name, dims, **props):
    """array input whose entries are arbitrary reals (or as the properties say)"""
    dims = tuple(ie(d) for d in dims)
    own = tuple(d for d in dims if not d == 1)
    atom(name, own, **props)

    def el(*idx):
        return S(r_el(name, tuple(ie(k) for k, d in zip(idx, dims) if not d == 1)))
    return mk(dims, el, 'f')


def gen_sym(env, d):
    a = env.normal(d)
    return a + np.swapaxes(a, 0, 1)


def gen_psd(env, d):
    a = env.normal(d)
    if d and env.rng.random() < 0.4:
        a[:, -1] = 0
    q = np.einsum('ik...,jk...->ij...', a, a)
    return (q + np.swapaxes(q, 0, 1)) / 2


def gen_pd(env, d):
    q = gen_psd(env, d)
    return q + 0.3 * np.eye(d[0]).reshape((d[0], d[0]) + (1,) * (len(d) - 2))


def sym(name, n, fam=(), kind='sym'):
    """symmetric / psd / pd matrix; for n == 1 a number"""
    n = ie(n)
    gen = {'sym': gen_sym, 'psd': gen_psd, 'pd': gen_pd}[kind]
    if n == 1:
        p = {}
        if kind != 'sym':
            p['nonneg'] = True
        if kind == 'pd':
            p['positive'] = True

        def g1(env, d):
            return np.asarray(gen(env, [1, 1] + list(d))).reshape(d)
        atom(name, fam, gen=g1, **p)
        return mk((n, n) + tuple(fam), lambda i, j, *f: S(r_el(name, f)), 'f')
    p = {'sym': True, 'gen': gen}
    if kind in ('psd', 'pd'):
        p['psd'] = True
    if kind == 'pd':
        p['pd'] = True
    atom(name, (n, n) + tuple(fam), **p)
    return mk((n, n) + tuple(fam), lambda i, j, *f: S(r_el(name, (i, j) + f)), 'f')


# ------------------------------------------------------------------ values
def rv(it, s):
    """real value of a result number; undefined results are refused"""
    if isinstance(s, S):
        if s.bad != FALSE and not it.implied(c_not(s.bad)):
            raise Unsupported('result may be undefined (nan or infinite)')
        return s.v
    if isinstance(s, B):
        return r_ite(s.c, X.ONE, X.ZERO)
    return real(s)


def at(it, a, *idx):
    if isinstance(a, Arr):
        return rv(it, a.get(tuple(ie(k) for k in idx)))
    return rv(it, a)


def finite(it, a):
    """condition: every entry is a well defined finite number"""
    if isinstance(a, Arr):
        ix = tuple(fresh_ix(d) for d in a.shape)
        s = a.get(ix)
        c = c_not(s.bad) if isinstance(s, S) else TRUE
        return A.forall_all(ix, c)
    if isinstance(a, S):
        return c_not(a.bad)
    return TRUE


def shape_is(it, a, *dims):
    if not isinstance(a, (Arr, OArr)) or len(a.shape) != len(dims):
        return FALSE
    return c_and(*[c_icmp('==', x - ie(y)) for x, y in zip(a.shape, dims)])


def all_ix(dims, f):
    ix = tuple(fresh_ix(ie(d)) for d in dims)
    return A.forall_all(ix, f(*ix))


def is_true(v):
    """condition of a Python / numpy truth value"""
    from vals import b_of
    return b_of(v).c


def dot(n, f, g=None):
    return r_sum(n, f if g is None else (lambda k: f(k) * g(k)))


def guarded(f):
    """build a goal; goals that cannot be built are undecided"""
    try:
        return f()
    except Unsupported as ex:
        return ex
    except PyRaise as ex:
        return FALSE
    except Exception as ex:
        return Unsupported('engine: %s %s' % (type(ex).__name__, str(ex)[:200]))


def step(c):
    """step of the argument: must be proved, but its failure alone shows nothing"""
    return Goal(c, refute=False)


def returns(out):
    return TRUE if out[0] == 'ret' else FALSE


def raised(out, tag, etype='ValueError'):
    return TRUE if out[0] == 'raise' and out[1].tag == tag and out[1].etype == etype else FALSE


# ------------------------------------------------------------------ contracts
ALL = []
SYM = 'sym'


def contract(prop, name, func, n=(SYM, 1), dims=None, tier='quick', search=True, skip=None, **alts):
    """register one contract; n ranges over 'sym' (every dimension >= 2) and the listed concrete dimensions"""
    import itertools

    def deco(fn):
        keys = list(alts)
        for nn in (n if n is not None else (None,)):
            for vals in itertools.product(*[alts[k] for k in keys]):
                p = dict(zip(keys, vals))
                lab = [str(v) for v in vals]
                if nn is not None:
                    p['n'] = nn
                    lab.insert(0, 'n>=2' if nn == SYM else 'n=%s' % nn)
                if skip and skip(**p):
                    continue
                nm = name + ('[%s]' % ','.join(lab) if lab else '')

                def wrapped(it, _p=p, **kw):
                    q = dict(_p)
                    if 'n' in q:
                        q['n'] = dim('n', 2) if q['n'] == SYM else ie(q['n'])
                    return fn(it, **q)
                d = dict(dims or {})
                if nn == SYM:
                    d.setdefault('n', (2, 4))
                for pr in ([prop] if isinstance(prop, str) else prop):
                    ALL.append(Case(pr, nm, func, wrapped, dims=d, tier=tier, search=search))
        return fn
    return deco


def call(it, qual, *args, **kw):
    try:
        out = ('ret', it.call(it.get(qual) if isinstance(qual, str) else qual, list(args), kw))
    except PyRaise as ex:
        out = ('raise', ex)
    it.outcome = out
    return out


def iff(nm, got, want):
    """got <=> want as two obligations"""
    if isinstance(want, Unsupported):
        return [(nm, want)]
    return [(nm + ': true only if', c_imp(got, want)), (nm + ': true if', c_imp(want, got))]


def norm2_(n, f):
    return r_sum(n, lambda k: f(k) * f(k))


def snippet(it, text, **vars):
    """evaluate an expression of the interpreted language"""
    import ast
    m = I.Mod('snippet', {})
    sc = I.Scope(None, m)
    sc.vars = m.ns
    m.ns.update(vars)
    return it.ev(ast.parse(text, mode='eval').body, sc)
