"""Discharging conditions: normal forms, case splits, z3 (cvc5 as a second opinion on request)."""
import time
from fractions import Fraction
import z3
import expr as X
from expr import (IntE, R, ie, I0, REG, Unsupported, TRUE, FALSE, c_and, c_or, c_not, c_icmp, c_cmp, c_all, cond_subst,
                  cond_syms, cond_key, fkey, mono_key, mono_nonneg, r_nonneg)

STATS = {'z3': 0, 'z3_s': 0.0, 'norm': 0, 'cvc5': 0, 'cvc5_s': 0.0}
CROSS = [False]       # thorough: every z3 answer is re-checked by cvc5


class Enc:
    def __init__(self):
        self.facts, self.vars, self.done = [], {}, set()
        self.nq = 0

    def ivar(self, n):
        k = ('i', n)
        if k not in self.vars:
            v = z3.Int(n)
            self.vars[k] = v
            d = REG.ix.get(n)
            if d is not None:
                self.facts.append(v >= 0)
                self.facts.append(v < self.ie(d))
            elif n in REG.dims:
                self.facts.append(v >= REG.dims[n])
        return self.vars[k]

    def ie(self, e):
        r = z3.IntVal(0)
        for m, c in e.t:
            p = z3.IntVal(c)
            for s in m:
                p = p * self.ivar(s)
            r = r + p
        return r

    def opaque(self, key, nonneg=False, pos=False):
        k = ('r', key)
        if k not in self.vars:
            v = z3.Real('r%d' % len(self.vars))
            self.vars[k] = v
            if pos:
                self.facts.append(v > 0)
            elif nonneg:
                self.facts.append(v >= 0)
        return self.vars[k]

    def factor(self, f):
        key = fkey(f)
        k = ('r', key)
        if k in self.vars:
            return self.vars[k]
        kind = f[0]
        if kind == 'int':
            v = z3.ToReal(self.ivar(f[1]))
            self.vars[k] = v
            return v
        v = z3.Real('r%d' % len(self.vars))
        self.vars[k] = v
        if kind == 'el':
            a = REG.atoms.get(f[1], {})
            if a.get('positive'):
                self.facts.append(v > 0)
            elif a.get('nonneg'):
                self.facts.append(v >= 0)
            # diagonal entries of positive semidefinite matrices
            if a.get('psd') and len(f[2]) >= 2 and f[2][0] == f[2][1]:
                self.facts.append(v >= 0)
        elif kind == 'sqrt':
            self.facts.append(v >= 0)
            u = self.r(f[1])
            if r_nonneg(f[1]):
                self.facts.append(u >= 0)
            self.facts.append(z3.Implies(u >= 0, v * v == u))
        elif kind == 'inv':
            u = self.r(f[1])
            self.facts.append(z3.Implies(u != 0, v * u == 1))
        elif kind == 'pos':
            u = self.r(f[1])
            self.facts.append(z3.If(u >= 0, v == u, v == 0))
        elif kind == 'ite':
            self.facts.append(z3.If(self.c(f[1]), v == self.r(f[2]), v == self.r(f[3])))
        elif kind == 'dl':
            e = self.ie(f[1])
            self.facts.append(z3.If(e == 0, v == 1, v == 0))
        elif kind == 'fn':
            if f[1] in ('pi', 'gamma', 'fact', 'pow', 'exp'):
                self.facts.append(v > 0)
            if f[1] == 'sign':
                u = self.r(f[2][0])
                self.facts.append(z3.If(u > 0, v == 1, z3.If(u < 0, v == -1, v == 0)))
            if f[1] == 'floor':
                u = self.r(f[2][0])
                self.facts += [v <= u, u < v + 1, z3.IsInt(v)]
            if f[1] in ('cos', 'sin'):
                o = self.factor(('fn', 'sin' if f[1] == 'cos' else 'cos', f[2])) if f[1] == 'cos' else None
                if o is not None:
                    self.facts.append(v * v + o * o == 1)
        return v

    def mono(self, m):
        fs, sm = m
        if sm:
            return self.opaque(mono_key(m), nonneg=mono_nonneg(m))
        r = z3.RealVal(1)
        for f, p in fs:
            v = self.factor(f)
            if p > 0:
                for _ in range(p):
                    r = r * v
            else:
                w = self.factor(('inv', R.factor(f)))
                for _ in range(-p):
                    r = r * w
        return r

    def r(self, r):
        tot = z3.RealVal(0)
        for m, c in r.t.items():
            tot = tot + z3.RealVal(str(c)) * self.mono(m)
        return tot

    def c(self, c):
        k = c[0]
        if k == 'true':
            return z3.BoolVal(True)
        if k == 'false':
            return z3.BoolVal(False)
        if k == 'not':
            return z3.Not(self.c(c[1]))
        if k == 'and':
            return z3.And(*[self.c(x) for x in c[1]])
        if k == 'or':
            return z3.Or(*[self.c(x) for x in c[1]])
        if k == 'cmp':
            e = self.r(c[2])
            return {'<': e < 0, '<=': e <= 0, '==': e == 0}[c[1]]
        if k == 'icmp':
            e = self.ie(c[2])
            return {'<': e < 0, '<=': e <= 0, '==': e == 0}[c[1]]
        if k in ('all', 'ex'):
            # opaque up to renaming of the bound variable; instances are added by the caller
            b = z3.Bool('q:' + cond_key(c if k == 'all' else c_not(c)))
            return b if k == 'all' else z3.Not(b)
        if k == 'b':
            return z3.Bool('b:' + cond_key(c))
        raise AssertionError(k)


def flatten(h):
    if h[0] == 'and':
        for x in h[1]:
            yield from flatten(x)
    else:
        yield h


def sub_alls(c, out):
    if c[0] in ('and', 'or'):
        for x in c[1]:
            sub_alls(x, out)
    elif c[0] == 'not':
        sub_alls(c[1], out)
    elif c[0] == 'all':
        out.append(c)
    elif c[0] == 'ex':
        out.append(c_not(c))


def skolem(c):
    """c positive hypothesis: existentials become fresh constants"""
    if c[0] == 'ex':
        e = fresh_dim_ix(c[2])
        return skolem(cond_subst(c[3], {c[1]: e}))
    if c[0] == 'and':
        return c_and(*[skolem(x) for x in c[1]])
    if c[0] == 'or':
        return c_or(*[skolem(x) for x in c[1]])
    return c


def fresh_dim_ix(d):
    nm = REG.fresh('sk')
    REG.ix[nm] = d
    return IntE.sym(nm)


def index_terms(cs):
    """index expressions occurring in conditions, by dimension of the position: candidates for instantiation"""
    out = set()

    def rr(r):
        for (fs, sm), _ in r.t.items():
            b = {n for n, _ in sm}
            for f, _p in fs:
                ff(f, b)

    def ff(f, b):
        if f[0] == 'el':
            for i in f[2]:
                if not (i.syms() & b) and not any(s[0] in '$^&~' for s in i.syms()):
                    out.add(i)
        elif f[0] in ('sqrt', 'inv', 'pos'):
            rr(f[1])
        elif f[0] == 'ite':
            cc(f[1])
            rr(f[2])
            rr(f[3])
        elif f[0] == 'fn':
            for a in f[2]:
                if isinstance(a, R):
                    rr(a)
        elif f[0] == 'dl':
            for s in f[1].syms():
                if s in REG.ix:
                    out.add(IntE.sym(s))

    def cc(c):
        k = c[0]
        if k == 'not':
            cc(c[1])
        elif k in ('and', 'or'):
            for x in c[1]:
                cc(x)
        elif k == 'cmp':
            rr(c[2])
        elif k == 'icmp':
            for s in c[2].syms():
                if s in REG.ix:
                    out.add(IntE.sym(s))
        elif k == 'b':
            for a in c[2]:
                if isinstance(a, IntE):
                    out.add(a)
                else:
                    rr(a)
        elif k in ('all', 'ex'):
            sub = set(out)
            cc(c[3])
            for x in list(out - sub):
                if c[1] in x.syms():
                    out.discard(x)
    for c in cs:
        cc(c)
    return out


def atoms_with_defs(cs):
    """occurrences (atom, indices) of atoms characterised by conditions, outside of quantifiers"""
    out = set()

    def rr(r, b):
        for (fs, sm), _ in r.t.items():
            b2 = b | {n for n, _ in sm}
            for f, _p in fs:
                ff(f, b2)

    def ff(f, b):
        if f[0] == 'el':
            if REG.atoms.get(f[1], {}).get('defs') and not any(i.syms() & b for i in f[2]):
                out.add((f[1], f[2]))
        elif f[0] in ('sqrt', 'inv', 'pos'):
            rr(f[1], b)
        elif f[0] == 'ite':
            cc(f[1], b)
            rr(f[2], b)
            rr(f[3], b)
        elif f[0] == 'fn':
            for a in f[2]:
                if isinstance(a, R):
                    rr(a, b)

    def cc(c, b):
        k = c[0]
        if k == 'not':
            cc(c[1], b)
        elif k in ('and', 'or'):
            for x in c[1]:
                cc(x, b)
        elif k == 'cmp':
            rr(c[2], b)
        elif k == 'b':
            for a in c[2]:
                if isinstance(a, R):
                    rr(a, b)
        elif k in ('all', 'ex'):
            cc(c[3], b | {c[1]})
    for c in cs:
        cc(c, set())
    return out


def in_range(i, d):
    return X.int_holds(None, '<=', -i) and X.int_holds(None, '<', i - d)


_cache = {}


def smt(goal, hyps, timeout=3000):
    """hyps |= goal ?  True when valid"""
    key = (cond_key(goal), tuple(sorted(cond_key(h) for h in hyps)), REG.tok)
    if key in _cache:
        return _cache[key]
    t0 = time.time()
    try:
        r = _smt(goal, hyps, timeout)
    except z3.Z3Exception:
        r = False
    STATS['z3'] += 1
    STATS['z3_s'] += time.time() - t0
    _cache[key] = r
    return r


def _smt(goal, hyps, timeout):
    s = z3.Solver()
    s.set('timeout', timeout)
    enc = Enc()
    hs = [skolem(h) for h in hyps]
    ng = skolem(c_not(goal))
    for f in REG.int_facts:
        hs.append(f)
    seen_defs = set()
    for _ in range(2):
        new = atoms_with_defs(hs + [ng]) - seen_defs
        if not new:
            break
        seen_defs |= new
        for nm, idx in sorted(new, key=lambda q: (q[0], [x.key() for x in q[1]])):
            for d in REG.atoms[nm]['defs'](idx):
                hs.append(skolem(d))
    alls = []
    for h in hs + [ng]:
        sub_alls(h, alls)
    terms = index_terms(hs + [ng])
    for rnd in range(2):
        new = []
        for a in alls:
            n = 0
            for t in sorted(terms, key=lambda q: q.key()):
                if in_range(t, a[2]) and n < 12:
                    n += 1
                    inst = cond_subst(a[3], {a[1]: t})
                    k = (cond_key(a), t)
                    if k in enc.done:
                        continue
                    enc.done.add(k)
                    inst = skolem(inst)
                    s.add(z3.Implies(enc.c(a), enc.c(inst)))
                    sub_alls(inst, new)
        if not new:
            break
        alls = new
    for h in hs:
        s.add(enc.c(h))
    s.add(enc.c(ng))
    i = 0
    while i < len(enc.facts):
        s.add(enc.facts[i])
        i += 1
    r = s.check()
    if r == z3.unsat and CROSS[0]:
        cross(s)
    return r == z3.unsat


def cross(s):
    """ask cvc5 the same question; a disagreement is an error, an unknown is recorded"""
    import subprocess
    import tempfile
    t0 = time.time()
    with tempfile.NamedTemporaryFile('w', suffix='.smt2') as f:
        f.write('(set-logic ALL)\n' + s.to_smt2())
        f.flush()
        p = subprocess.run(['cvc5', '--tlimit=3000', f.name], capture_output=True, text=True)
    out = p.stdout.strip().split('\n')[0]
    STATS['cvc5_s'] += time.time() - t0
    if out == 'unsat':
        STATS['cvc5'] += 1
    elif out == 'sat':
        raise RuntimeError('z3 and cvc5 disagree')


# ---------------------------------------------------------------- rewriting under hypotheses
def conditions_in(r, out):
    """conditions of the free (unsummed) ite / pos factors of r"""
    for (fs, sm), _ in r.t.items():
        for f, _p in fs:
            cond_of_factor(f, {n for n, _ in sm}, out)


def cond_of_factor(f, bound, out):
    if f[0] == 'ite':
        if not (cond_syms(f[1]) & bound):
            out.append(f[1])
        conditions_in(f[2], out)
        conditions_in(f[3], out)
    elif f[0] == 'pos':
        if not (f[1].syms() & bound):
            out.append(c_cmp('<', f[1]))
        conditions_in(f[1], out)
    elif f[0] in ('sqrt', 'inv'):
        conditions_in(f[1], out)
    elif f[0] == 'fn':
        for a in f[2]:
            if isinstance(a, R):
                conditions_in(a, out)
    elif f[0] == 'dl':
        if not (f[1].syms() & bound):
            out.append(c_icmp('==', f[1]))


def resolve(r, c, val):
    """r with the condition c replaced by its truth value"""
    nc = c_not(c)

    def fn(f):
        if f[0] == 'ite':
            if f[1] == c:
                return resolve(f[2] if val else f[3], c, val)
            if f[1] == nc:
                return resolve(f[3] if val else f[2], c, val)
            a, b = resolve(f[2], c, val), resolve(f[3], c, val)
            cc = cond_resolve(f[1], c, val)
            if a == f[2] and b == f[3] and cc == f[1]:
                return None
            return X.r_ite(cc, a, b)
        if f[0] == 'pos':
            a = resolve(f[1], c, val)
            k = c_cmp('<', f[1])
            if k == c:
                return X.ZERO if val else a
            if c_not(k) == c:
                return a if val else X.ZERO
            # pos(u) with c about the same u scaled differently
            return X.r_pos(a) if a != f[1] else None
        if f[0] in ('sqrt', 'inv'):
            a = resolve(f[1], c, val)
            return None if a == f[1] else (X.r_sqrt(a) if f[0] == 'sqrt' else X.r_inv(a))
        if f[0] == 'dl':
            k = c_icmp('==', f[1])
            if k == c:
                return X.ONE if val else X.ZERO
            if k == nc:
                return X.ZERO if val else X.ONE
        if f[0] == 'fn':
            args = tuple(resolve(a, c, val) if isinstance(a, R) else a for a in f[2])
            return None if args == f[2] else X.r_fn(f[1], *args)
        return None
    return r.map_factors(fn)


def cond_resolve(k, c, val):
    if k == c:
        return TRUE if val else FALSE
    if k == c_not(c):
        return FALSE if val else TRUE
    if k[0] == 'and':
        return c_and(*[cond_resolve(x, c, val) for x in k[1]])
    if k[0] == 'or':
        return c_or(*[cond_resolve(x, c, val) for x in k[1]])
    if k[0] == 'cmp':
        return c_cmp(k[1], resolve(k[2], c, val))
    return k


def clear_inv(r, limit=6):
    """multiply by the denominators of a sum of terms (valid for r == 0 when they are non-zero)"""
    for _ in range(limit):
        den = {}
        for (fs, sm), _c in r.t.items():
            for f, p in fs:
                if f[0] == 'inv':
                    den[f] = max(den.get(f, 0), p)
                elif p < 0:
                    den[(f, 'neg')] = max(den.get((f, 'neg'), 0), -p)
        if not den:
            return r
        bound = False
        tot = X.ONE
        pick = sorted(den.items(), key=lambda q: -len(fkey(q[0]) if q[0][0] == 'inv' else fkey(q[0][0])))
        f, p = pick[0]
        if f[0] == 'inv':
            u = f[1]
            out = X.ZERO
            for (fs, sm), c in r.t.items():
                e = dict(fs).get(f, 0)
                rest = tuple((g, q) for g, q in fs if g != f)
                m = R({(rest, sm): c}) if not sm else mono_free(rest, sm, c, f)
                if m is None:
                    return r
                out = out + m * u ** (p - e)
            r = out
        else:
            g0 = f[0]
            r = r * R.factor(g0) ** p
    return r


def mono_free(rest, sm, c, f):
    if X.fsyms(f) & {n for n, _ in sm}:
        return None
    return X.times_sums(X.build_raw(rest).scale(c), sm)


def square_facts(hyps):
    """from  sum of squares <= 0 (or == 0): every square is zero.  Returns rewriting (atom, checker)"""
    out = []
    for h in hyps:
        if h[0] == 'cmp' and h[1] in ('==', '<='):
            r = h[2] if r_nonneg(h[2]) else (-h[2] if h[1] == '==' and r_nonneg(-h[2]) else None)
            if r is None:
                continue
            for (fs, sm), c in r.t.items():
                if len(fs) == 1 and fs[0][1] % 2 == 0 and fs[0][0][0] == 'el':
                    f = fs[0][0]
                    if not sm:
                        out.append((f[1], [('c', i) for i in f[2]]))
                    else:
                        names = {n: d for n, d in sm}
                        pat, ok = [], True
                        for q, i in enumerate(f[2]):
                            pu = i.pure()
                            if pu in names:
                                dm = REG.atoms.get(f[1], {}).get('dims')
                                pat.append(('v', names[pu]))
                                if dm and not (dm[q] == names[pu]):
                                    ok = False
                            elif not (i.syms() & set(names)):
                                pat.append(('c', i))
                            else:
                                ok = False
                        if ok:
                            out.append((f[1], pat))
    return out


def apply_zero(r, zs):
    def fn(f):
        if f[0] == 'el':
            for a, pat in zs:
                if f[1] == a and all(p[0] == 'v' or p[1] == i for p, i in zip(pat, f[2])):
                    return X.ZERO
        elif f[0] in ('sqrt', 'pos'):
            a = apply_zero(f[1], zs)
            if a != f[1]:
                return X.r_sqrt(a) if f[0] == 'sqrt' else X.r_pos(a)
        return None
    return r.map_factors(fn)


def unit_indices(c):
    """indices known to range over a single value"""
    out = {}
    for s in cond_syms(c):
        d = REG.ix.get(s)
        if d is not None and not d == 1 and X.int_holds(None, '==', d - 1):
            out[s] = I0
    return out


def eq_rewrites(hyps):
    """hypotheses  factor == const  usable as substitutions for single element/sqrt factors"""
    out = {}
    for h in hyps:
        if h[0] == 'cmp' and h[1] == '==':
            r = h[2]
            ms = [m for m in r.t if m != ((), ())]
            if len(ms) == 1 and not ms[0][1] and len(ms[0][0]) == 1 and ms[0][0][0][1] == 1:
                out[ms[0][0][0][0]] = R.const_(-r.const() / r.t[ms[0]])
    return out


def prove(goal, hyps=(), depth=0, budget=None):
    """True when hyps imply goal (validity established), False when not established"""
    if budget is None:
        budget = [400]
    budget[0] -= 1
    if budget[0] < 0:
        return False
    if goal == TRUE:
        STATS['norm'] += 1
        return True
    if FALSE in hyps:
        return True
    hyps = [x for h in hyps for x in flatten(h)]
    if goal in hyps:
        return True
    if depth == 0:
        sp = unit_indices(goal)
        if sp:
            goal = cond_subst(goal, sp)
            hyps = [cond_subst(h, sp) for h in hyps]
            if goal == TRUE or goal in hyps:
                return True
    k = goal[0]
    if k in ('all', 'ex', 'or') and hyps:
        ks = cond_key(goal)
        hk = {cond_key(h) for h in hyps if h[0] in ('all', 'ex', 'or')}
        if ks in hk or k == 'or' and any(cond_key(x) in hk for x in goal[1] if x[0] in ('all', 'ex')):
            STATS['norm'] += 1
            return True
    if k == 'and':
        return all(prove(x, hyps, depth, budget) for x in goal[1])
    if k == 'all':
        e = fresh_dim_ix(goal[2])
        return prove(cond_subst(goal[3], {goal[1]: e}), hyps, depth, budget)
    if k == 'or':
        # assume the negation of all but one disjunct (prefer an equality or a quantified goal last)
        xs = list(goal[1])
        xs.sort(key=lambda c: {'cmp': 2 if c[0] == 'cmp' and c[1] == '==' else 1, 'all': 3, 'and': 3}.get(c[0], 0))
        main = xs[-1]
        if main[0] in ('cmp', 'all', 'and'):
            neg = [skolem(c_not(x)) for x in xs[:-1]]
            neg = [y for x in neg for y in flatten(x)]
            old = list(REG.int_facts)
            try:
                hy, mn, ints = hyps + neg, main, []
                for x in neg:
                    if x[0] == 'icmp':
                        sp = X.subst_eq(x[2]) if x[1] == '==' else None
                        if sp:
                            mn = cond_subst(mn, sp)
                            hy = [cond_subst(h, sp) for h in hy]
                        ints.append(x)
                if ints:
                    REG.set_facts(old + ints)
                    mn = atoms_c(mn, {})
                if prove(mn, hy, depth + 1, budget):
                    return True
            finally:
                REG.set_facts(old)
        return smt(goal, hyps)
    if k == 'cmp':
        r = goal[2]
        if goal[1] != '==':
            # signs by form
            if goal[1] == '<=' and r_nonneg(-r):
                STATS['norm'] += 1
                return True
        # hypotheses of the form  sum of squares = 0, factor = constant
        zs = square_facts(hyps)
        if zs:
            r2 = apply_zero(r, zs)
            if r2 != r:
                g2 = c_cmp(goal[1], r2)
                if g2 == TRUE:
                    return True
                r, goal = r2, g2
        eqs = eq_rewrites(hyps)
        if eqs:
            r2 = r.map_factors(lambda f: eqs.get(f))
            if r2 != r:
                try:
                    g2 = c_cmp(goal[1], r2)
                    if g2 == TRUE:
                        return True
                    r, goal = r2, g2
                except Unsupported:
                    pass
        cs = []
        conditions_in(r, cs)
        seen = []
        for c in cs:
            if c in (TRUE, FALSE) or c in seen or c_not(c) in seen:
                continue
            seen.append(c)
        if seen and depth < 12:
            # innermost / simplest first
            c = min(seen, key=lambda q: len(cond_key(q)))
            for val, cc in ((True, c), (False, c_not(c))):
                if smt_quick(c_not(cc), hyps):
                    continue
                g2 = cond_under(goal, c, val)
                if not prove(g2, hyps + [cc], depth + 1, budget):
                    return False
            return True
        if goal[1] == '==':
            try:
                r3 = clear_inv(r)
            except Unsupported:
                r3 = r
            if r3.is_zero():
                STATS['norm'] += 1
                return True
            if r3 != r:
                if smt(c_cmp('==', r3), hyps):
                    return True
        return smt(goal, hyps)
    if k == 'ex':
        return smt(goal, hyps)
    return smt(goal, hyps)


def cond_under(goal, c, val):
    g = c_cmp(goal[1], resolve(goal[2], c, val)) if goal[0] == 'cmp' else cond_resolve(goal, c, val)
    # integer equality chosen: use it as a substitution
    if c[0] == 'icmp' and c[1] == '==' and val:
        sp = X.subst_eq(c[2])
        if sp:
            g = cond_subst(g, sp)
    return g


def smt_quick(goal, hyps):
    if goal in hyps or goal == TRUE:
        return True
    return smt(goal, hyps, 800)


def implied(c, hyps):
    """quick test used for branch decisions"""
    if c == TRUE:
        return True
    if c == FALSE:
        return False
    hs = [x for h in hyps for x in flatten(h)]
    if c in hs:
        return True
    if c[0] == 'cmp' and c[1] == '<=' and r_nonneg(-c[2]):
        return True
    return smt(c, hs, 1000)


# ---------------------------------------------------------------- replacing input atoms by an equal expression
def atoms_r(r, mp):
    """r with every element of an atom named in mp replaced: mp[name](*indices) -> R"""
    def fn(f):
        if f[0] == 'el' and f[1] in mp:
            return mp[f[1]](*f[2])
        if f[0] == 'el' and REG.atoms.get(f[1], {}).get('upper'):
            g = X.r_el(f[1], f[2])
            return g if g.is_zero() else None
        if f[0] == 'ite':
            a, b, cc = atoms_r(f[2], mp), atoms_r(f[3], mp), atoms_c(f[1], mp)
            return None if a == f[2] and b == f[3] and cc == f[1] else X.r_ite(cc, a, b)
        if f[0] in ('pos', 'sqrt', 'inv'):
            a = atoms_r(f[1], mp)
            return None if a == f[1] else {'pos': X.r_pos, 'sqrt': X.r_sqrt, 'inv': X.r_inv}[f[0]](a)
        if f[0] == 'fn':
            args = tuple(atoms_r(a, mp) if isinstance(a, R) else a for a in f[2])
            return None if args == f[2] else X.r_fn(f[1], *args)
        return None
    return r.map_factors(fn)


def atoms_c(k, mp):
    if k[0] in ('and', 'or'):
        return (c_and if k[0] == 'and' else X.c_or)(*[atoms_c(x, mp) for x in k[1]])
    if k[0] == 'not':
        return c_not(atoms_c(k[1], mp))
    if k[0] == 'cmp':
        return c_cmp(k[1], atoms_r(k[2], mp))
    if k[0] in ('all', 'ex'):
        e = X.fresh_ix(k[2])
        b = atoms_c(cond_subst(k[3], {k[1]: e}), mp)
        return (X.forall if k[0] == 'all' else X.exists)(e, b)
    return k
