"""Symbolic interpreter of the repository's own Python source: the AST of every function is executed on symbolic values
(arrays of symbolic size, real entries); paths are enumerated by re-execution; loops over a symbolic range are closed by
the disjoint-iteration rule (every iteration may write only its own slice of an array and may read only its own slice of
an array that is written)."""
import ast
import os
import sys
from fractions import Fraction
import expr as X
from expr import IntE, R, ie, I0, I1, REG, Unsupported, TRUE, FALSE, c_and, c_or, c_not, c_icmp, cond_subst, cond_syms
from vals import (PyRaise, B, b_of, bsimp, S, s_of, s_add, s_sub, s_mul, s_div, s_neg, s_cmp, v_subst, v_ite, Poison, CondStr,
                  Obj, Fam, SymSeq, Arr, OArr, mk, HOOK, Nid)
import prove

sys.setrecursionlimit(20000)
REPO = os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'products')


class _Ret(Exception):
    def __init__(self, v):
        self.v = v


class _Brk(Exception):
    pass


class _Cont(Exception):
    pass


class Infeasible(Exception):
    pass


DEBUG = bool(os.environ.get('DED_DEBUG'))


class Scope:
    __slots__ = ('vars', 'parent', 'nonlocals', 'globals_', 'cls', 'mod')

    def __init__(self, parent, mod, cls=None):
        self.vars, self.parent, self.mod, self.cls = {}, parent, mod, cls
        self.nonlocals, self.globals_ = set(), set()


class PyFunc:
    def __init__(self, node, scope, defaults, kwd, mod, cls, name):
        self.node, self.scope, self.defaults, self.kwd, self.mod, self.cls, self.name = \
            node, scope, defaults, kwd, mod, cls, name
        self.attrs = {}

    def qual(self):
        return '%s.%s%s' % (self.mod.name, self.cls.name + '.' if self.cls else '', self.name)


class StaticM:
    def __init__(self, f):
        self.f = f


class ClassM:
    def __init__(self, f):
        self.f = f


class Prop:
    def __init__(self, fget, fset=None):
        self.fget, self.fset = fget, fset


class PyClass:
    def __init__(self, name, bases, ns, mod):
        self.name, self.bases, self.ns, self.mod = name, bases, ns, mod
        self.mro = self._mro()

    def _mro(self):
        seqs = [list(b.mro) for b in self.bases] + [list(self.bases)]
        out = [self]
        while any(seqs):
            for s in seqs:
                if s and not any(s[0] in t[1:] for t in seqs):
                    c = s[0]
                    break
            else:
                raise Unsupported('mro')
            out.append(c)
            for s in seqs:
                if s and s[0] is c:
                    s.pop(0)
        return out

    def lookup(self, n):
        for c in self.mro:
            if n in c.ns:
                return c.ns[n]
        return None

    def sub(self, o):
        return o in self.mro


class Bound:
    def __init__(self, f, self_):
        self.f, self.self_ = f, self_


class Native:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn


class TypeVal:
    def __init__(self, name, call=None):
        self.name, self.call = name, call


class Mod:
    def __init__(self, name, ns):
        self.name, self.ns = name, ns


class SymTail:
    """content of a list built by one append per iteration of a symbolic loop"""
    def __init__(self, seq):
        self.seq = seq


class Star:
    def __init__(self, seq):
        self.seq = seq


class Opaque:
    """text and other values that only serve as messages"""
    def __init__(self, name='opaque'):
        self.name = name


class Super:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


_AST = {}


def parse(path):
    key = (path, os.path.getmtime(path))
    if key not in _AST:
        _AST[key] = ast.parse(open(path, encoding='utf-8').read(), path)
    return _AST[key]


def assigned_names(stmts):
    out = set()

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)

        def visit_FunctionDef(self, n):
            out.add(n.name)

        visit_ClassDef = visit_FunctionDef

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            pass

        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

        def visit_Import(self, n):
            for a in n.names:
                out.add((a.asname or a.name).split('.')[0])

        visit_ImportFrom = visit_Import
    v = V()
    for s in stmts:
        v.visit(s)
    return out


class Level:
    """a (sub-)exploration: decisions about its own index variable are taken here"""
    def __init__(self, name, prefix):
        self.name, self.prefix, self.taken, self.hyps = name, prefix, [], []


class Interp:
    def __init__(self, prefix, npm):
        self.modules = {}
        self.levels = [Level(None, prefix)]
        self.npm = npm
        self.natives = npm.build(self)
        self.summaries = {}
        self.called = set()
        self.nsteps = 0
        HOOK.log = []
        HOOK.not_bad = lambda c: self.implied(c_not(c))
        REG.set_facts([])

    # ------------------------------------------------------------ decisions
    def hyps(self):
        return [h for lv in self.levels for h in lv.hyps]

    def implied(self, c):
        return prove.implied(c, self.hyps())

    def assume(self, c, level=None):
        lv = level or self.levels[0]
        for x in prove.flatten(c):
            if x == TRUE:
                continue
            lv.hyps.append(x)
        self.refresh()

    def refresh(self):
        REG.set_facts([h for h in self.hyps() if h[0] == 'icmp'])

    def where(self):
        return getattr(self, 'cur', None)

    def decide(self, c):
        c = self.simp(c)
        if c == TRUE:
            return True
        if c == FALSE:
            return False
        if self.implied(c):
            return True
        if self.implied(c_not(c)):
            return False
        sy = cond_syms(c)
        lv = self.levels[0]
        for l in self.levels[1:]:
            if l.name in sy:
                lv = l
        if DEBUG:
            import traceback
            print('decide', X.cond_key(c) if hasattr(X, 'cond_key') else c, self.where())
        k = len(lv.taken)
        d = lv.prefix[k] if k < len(lv.prefix) else True
        lv.taken.append(d)
        if len(lv.taken) > 60:
            raise Unsupported('too many decisions on one path')
        cc = c if d else c_not(c)
        self.assume(cc, lv)
        return d

    def simp(self, c):
        return c

    def truth(self, v):
        if isinstance(v, B):
            return self.decide(v.c)
        if isinstance(v, (bool, int, str)) or v is None:
            return bool(v)
        if isinstance(v, IntE):
            return self.decide(c_not(c_icmp('==', v)))
        if isinstance(v, S):
            return self.decide(b_of(v).c)
        if isinstance(v, (list, tuple, dict, set)):
            if isinstance(v, list) and len(v) == 1 and isinstance(v[0], SymTail):
                return self.truth(v[0].seq.n.simp())
            return bool(v)
        if isinstance(v, Arr):
            if all(self.same(d, 1) for d in v.shape):
                return self.truth(v.get((I0,) * v.ndim))
            raise Unsupported('truth value of an array')
        if isinstance(v, (Obj, PyFunc, Bound, Native, PyClass, Mod)):
            return True
        raise Unsupported('truth of %s' % type(v).__name__)

    def same(self, a, b):
        a, b = ie(a), ie(b)
        return a == b or X.int_holds(None, '==', a - b)

    def differ(self, a, b):
        return X.int_holds(None, '!=', ie(a) - ie(b))

    def require_same(self, a, b, what='dimensions'):
        """numpy raises when the sizes do not agree"""
        if not self.same(a, b):
            c = c_icmp('==', ie(a) - ie(b))
            if not self.decide(c):
                raise PyRaise('ValueError', '', 'size mismatch: ' + what)

    # ------------------------------------------------------------ generic iteration
    def frames(self, scope):
        out = []
        while scope is not None:
            out.append(scope)
            scope = scope.parent
        return out

    def generic(self, n, body, scope=None, lo=I0):
        """run body(i) for a generic i in [lo, lo+n); returns fn(j) -> value of iteration j"""
        n = ie(n)
        if X.int_holds(None, '<=', n):
            return lambda j: None
        if not X.int_holds(None, '<', -n):
            # the range may be empty: the rule is the same, every effect is conditional on the index being in range
            pass
        nm = REG.fresh('t')
        REG.ix[nm] = n
        e0 = IntE.sym(nm)
        e = e0 + lo
        start = Nid.new()
        for attempt in (0, 1):
            res = self.sub_explore(nm, lambda: body(e), scope, start)
            touched = {}
            for _c, _o, eff in res:
                for key, ent in eff.items():
                    touched.setdefault(key, []).append(ent)
            if not touched or attempt == 1:
                break
            # second run: reads of the written arrays must stay in the iteration's own slice
            undo = []
            for key, ents in touched.items():
                kind, obj = ents[0][0], ents[0][1]
                if kind == 'arr':
                    ax = self.loop_axis(ents, e0)
                    undo.append(self.guard_store(obj, ax, e0, ents))
                elif kind == 'fam':
                    undo.append(self.guard_fam(obj, ents[0][2], e))
            try:
                res = self.sub_explore(nm, lambda: body(e), scope, start)
            finally:
                for u in undo:
                    u()
            touched2 = {}
            for _c, _o, eff in res:
                for key, ent in eff.items():
                    touched2.setdefault(key, []).append(ent)
            if set(touched2) - set(touched):
                raise Unsupported('loop writes more on the second run')
            touched = touched2
            break
        # raising iterations
        normal = []
        for c, out, eff in res:
            if out[0] == 'raise':
                ex = X.c_ex(nm, n, c)
                if self.decide(ex):
                    raise out[1]
            else:
                normal.append((c, out, eff))
        if not normal:
            # every feasible iteration raises: the loop is passed only when it is empty
            self.assume(c_icmp('<=', n))
            return lambda j: None

        def merge(vals):
            v = vals[-1]
            for (c, _o, _e), w in list(zip(normal, vals))[-2::-1]:
                v = v_ite(c, w, v)
            return v
        value = merge([o[1] for _c, o, _e in normal])
        self.close_effects(normal, touched, e0, nm, n, lo)

        def at(j):
            j = ie(j)
            return v_subst(value, {nm: j - lo})
        return at

    def loop_axis(self, ents, e0):
        axes = None
        nm = e0.pure()
        for ent in ents:
            for pts in ent[3]:
                ok = {k for k, p in pts.items() if p.split_sym(nm) and p.split_sym(nm)[0] == 1
                      and p.split_sym(nm)[1].is_const()}
                axes = ok if axes is None else axes & ok
        if not axes:
            raise Unsupported('iterations of a loop write overlapping parts of an array')
        ax = min(axes)
        offs = {pts[ax] for ent in ents for pts in ent[3]}
        if len(offs) != 1:
            raise Unsupported('iterations of a loop write several slices of an array')
        return ax

    def guard_store(self, st, ax, e0, ents):
        old = st.fn
        at = ents[0][3][0][ax]

        def guarded(*idx):
            if idx[ax] != at and not self.same(idx[ax], at):
                if '~' in idx[ax].key():
                    pass
                raise Unsupported('an iteration reads what another iteration writes')
            return old(*idx)
        st.fn = guarded

        def undo():
            st.fn = old
        return undo

    def guard_fam(self, fam, k, e):
        old = fam.attrs.get(k)

        def guarded(j):
            if ie(j) != e:
                raise Unsupported('an iteration reads what another iteration writes')
            return old(j)
        fam.attrs[k] = guarded

        def undo():
            fam.attrs[k] = old
        return undo

    def close_effects(self, normal, touched, e0, nm, n, lo):
        for key, ents in touched.items():
            kind, obj = ents[0][0], ents[0][1]
            if kind == 'arr':
                ax = self.loop_axis(ents, e0)
                at = ents[0][3][0][ax]
                off = at - e0
                base = obj.fn
                fns = [eff[key][2] if key in eff else None for _c, _o, eff in normal]
                conds = [c for c, _o, _e in normal]

                def newfn(*idx, ax=ax, off=off, base=base, fns=fns, conds=conds):
                    j = idx[ax] - off
                    rng = c_and(c_icmp('<=', -j), c_icmp('<', j - n))
                    if rng == FALSE:
                        return base(*idx)
                    iidx = tuple(e0 + off if q == ax else idx[q] for q in range(len(idx)))
                    mp = {nm: j}
                    v = None
                    for c, f in reversed(list(zip(conds, fns))):
                        w = f(*iidx) if f is not None else base(*iidx)
                        v = w if v is None else v_ite(c, w, v)
                    v = v_subst(v, mp)
                    if rng == TRUE:
                        return v
                    return v_ite(rng, v, base(*idx))
                from vals import cached
                obj.fn = cached(newfn)
                if HOOK.log is not None:
                    pts = {}
                    # the points every write of the loop had besides the loop axis
                    common = None
                    for ent in ents:
                        for p in ent[3]:
                            q = {k: v for k, v in p.items() if k != ax and nm not in v.syms()}
                            common = q if common is None else {k: v for k, v in common.items() if q.get(k) == v}
                    pts = common or {}

                    def undo(obj=obj, base=base):
                        obj.fn = base
                    HOOK.log.append((undo, 'arr', obj, pts))
            elif kind == 'fam':
                k = ents[0][2]
                base = obj.attrs.get(k)
                vals = [eff[key][3] if key in eff else (base(e0 + lo) if base else None) for _c, _o, eff in normal]
                v = vals[-1]
                for (c, _o, _e), w in list(zip(normal, vals))[-2::-1]:
                    v = v_ite(c, w, v)
                full = lo == 0 and self.same(n, obj.n)

                def fn(j, v=v, base=base, full=full):
                    j = ie(j)
                    w = v_subst(v, {nm: j - lo})
                    if full:
                        return w
                    rng = c_and(c_icmp('<=', lo - j), c_icmp('<', j - lo - n))
                    return w if rng == TRUE else v_ite(rng, w, base(j))
                obj.setfn(k, fn)
            elif kind == 'append':
                if obj or any(key not in eff or len(eff[key][2]) != 1 for _c, _o, eff in normal):
                    raise Unsupported('appending to a list in a loop')
                vals = [eff[key][2][0] for _c, _o, eff in normal]
                v = vals[-1]
                for (c, _o, _e), w in list(zip(normal, vals))[-2::-1]:
                    v = v_ite(c, w, v)
                seq = self.make_seq(n, lambda j, v=v: v_subst(v, {nm: ie(j)}))
                obj.append(SymTail(seq))
            elif kind == 'oset':
                if any(key not in eff for _c, _o, eff in normal) or lo != 0 or not self.same(n, obj.size()):
                    raise Unsupported('partial update of an object array')
                vals = [eff[key][2] for _c, _o, eff in normal]
                v = vals[-1]
                for (c, _o, _e), w in list(zip(normal, vals))[-2::-1]:
                    v = v_ite(c, w, v)
                obj.items = self.make_seq(n, lambda j, v=v: v_subst(v, {nm: ie(j)}))
            else:
                raise Unsupported('loop effect ' + kind)

    def sub_explore(self, nm, body, scope, start):
        """all paths of body; decisions on nm are local.  [(condition, ('ret', value) | ('raise', exc), effects)]"""
        todo, res = [[]], []
        outer_log = HOOK.log
        frames = self.frames(scope) if scope is not None else []
        saved = [dict(f.vars) for f in frames]
        while todo:
            prefix = todo.pop()
            lv = Level(nm, prefix)
            self.levels.append(lv)
            HOOK.log = []
            try:
                try:
                    out = ('ret', body())
                except PyRaise as ex:
                    out = ('raise', ex)
                except _Cont:
                    out = ('ret', None)
            finally:
                self.levels.pop()
                log, HOOK.log = HOOK.log, outer_log
            eff = self.effects(log, start)
            for ent in reversed(log):
                if self.entry_nid(ent) < start:
                    ent[0]()
            for f, s in zip(frames, saved):
                f.vars.clear()
                f.vars.update(s)
            self.refresh()
            res.append((c_and(*lv.hyps), out, eff))
            for k in range(len(prefix), len(lv.taken)):
                todo.append(lv.taken[:k] + [not lv.taken[k]])
            if len(res) > 40:
                raise Unsupported('too many paths in a loop body')
        return res

    def entry_nid(self, ent):
        if ent[1] == 'append':
            return self.list_nid(ent[2])
        return ent[2].nid

    def list_nid(self, lst):
        return self.lists.get(id(lst), (0, None))[0]

    lists = {}

    def new_list(self, lst):
        self.lists[id(lst)] = (Nid.new(), lst)
        return lst

    def effects(self, log, start):
        out = {}
        for ent in log:
            if self.entry_nid(ent) >= start:
                continue
            kind, obj = ent[1], ent[2]
            if kind == 'arr':
                key = ('arr', id(obj))
                if key not in out:
                    out[key] = ['arr', obj, None, []]
                out[key][2] = obj.fn
                out[key][3].append(ent[3])
            elif kind == 'fam':
                key = ('fam', id(obj), ent[3])
                if len(ent) < 5:
                    raise Unsupported('nested update of a family')
                out[key] = ['fam', obj, ent[3], obj.attr(ent[3], ent[4])]
            elif kind == 'append':
                key = ('append', id(obj))
                out.setdefault(key, ['append', obj, []])[2].append(ent[3])
            elif kind == 'oset':
                key = ('oset', id(obj))
                if key in out:
                    raise Unsupported('object array written twice in an iteration')
                out[key] = ['oset', obj, ent[4]]
            elif kind == 'attr':
                if isinstance(obj, Obj) and obj.cls is not None:
                    raise Unsupported('attribute %s of an outer object written in a loop' % ent[3])
            else:
                raise Unsupported('effect %s in a loop' % kind)
        return out

    def make_seq(self, n, fn):
        n = ie(n)
        if n.is_const():
            return SymSeq(n, fn)
        nm = REG.fresh('f')
        REG.ix[nm] = n
        v = fn(IntE.sym(nm))
        if isinstance(v, Obj) and v.fam is None:
            fam = Fam(n, v.cls, {k: (lambda j, w=w: v_subst(w, {nm: ie(j)})) for k, w in v.attrs.items()})
            return SymSeq(n, fam.at)
        return SymSeq(n, fn)

    # ------------------------------------------------------------ modules
    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        if name in self.natives:
            self.modules[name] = self.natives[name]
            return self.modules[name]
        if not name.startswith('ellipy'):
            raise Unsupported('module ' + name)
        path = os.path.join(REPO, *name.split('.'))
        if os.path.isdir(path):
            m = Mod(name, {})
            self.modules[name] = m
            init = os.path.join(path, '__init__.py')
            if os.path.exists(init) and os.path.getsize(init):
                sc = Scope(None, m)
                sc.vars = m.ns
                self.block(parse(init).body, sc)
            return m
        m = Mod(name, {})
        self.modules[name] = m
        if '.' in name:
            par = self.load(name.rsplit('.', 1)[0])
            par.ns[name.rsplit('.', 1)[1]] = m
        if name in self.npm.REPLACED:
            m.ns.update(self.npm.replaced(self, name))
            return m
        tree = parse(path + '.py')
        sc = Scope(None, m)
        sc.vars = m.ns
        m.ns['__name__'] = name
        for st in tree.body:
            self.stmt(st, sc)
        over = self.npm.OVERRIDE.get(name)
        if over:
            for k, fn in over.items():
                if k in m.ns:
                    m.ns[k] = Native(name + '.' + k, fn)
        return m

    def get(self, qual):
        """object by dotted name: module.attr[.attr]"""
        parts = qual.split('.')
        for k in range(len(parts) - 1, 0, -1):
            path = os.path.join(REPO, *parts[:k]) + '.py'
            if os.path.exists(path):
                v = self.load('.'.join(parts[:k]))
                for p in parts[k:]:
                    v = self.getattr(v, p) if not isinstance(v, Mod) else v.ns[p]
                return v
        raise Unsupported('no such name ' + qual)

    def import_from(self, module, names, scope):
        m = self.load(module)
        for a in names:
            if a.name == '*':
                for k, v in m.ns.items():
                    if not k.startswith('_'):
                        scope.vars[k] = v
                continue
            if a.name in m.ns:
                v = m.ns[a.name]
            elif m.name.startswith('ellipy'):
                v = self.load(module + '.' + a.name)
            elif m.name in ('typing', 'abc'):
                v = Opaque(a.name)
            else:
                v = self.missing(m.name + '.' + a.name)
            self.assign_name(scope, a.asname or a.name, v)

    def missing(self, name):
        def f(it, args, kw):
            raise Unsupported(name)
        return Native(name, f)

    # ------------------------------------------------------------ statements
    def block(self, stmts, scope):
        for s in stmts:
            self.stmt(s, scope)

    def stmt(self, s, scope):
        if DEBUG:
            self.cur = '%s:%d' % (scope.mod.name, s.lineno)
        self.nsteps += 1
        if self.nsteps > 60000:
            raise Unsupported('too many steps')
        getattr(self, 's_' + type(s).__name__, self.s_unknown)(s, scope)

    def s_unknown(self, s, scope):
        raise Unsupported('statement ' + type(s).__name__)

    def s_Pass(self, s, scope):
        pass

    def s_Expr(self, s, scope):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, scope)

    def s_Return(self, s, scope):
        raise _Ret(self.ev(s.value, scope) if s.value is not None else None)

    def s_Break(self, s, scope):
        raise _Brk()

    def s_Continue(self, s, scope):
        raise _Cont()

    def s_Assign(self, s, scope):
        v = self.ev(s.value, scope)
        for t in s.targets:
            self.assign(t, v, scope)

    def s_AnnAssign(self, s, scope):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, scope), scope)

    def s_AugAssign(self, s, scope):
        import copy
        if isinstance(s.target, ast.Name):
            cur = self.name(s.target.id, scope)
        elif isinstance(s.target, ast.Attribute):
            cur = self.getattr(self.ev(s.target.value, scope), self.mangle(s.target.attr, scope))
        else:
            base = self.ev(s.target.value, scope)
            ix = self.ev_index(s.target.slice, scope)
            cur = self.npm.getitem(self, base, ix)
            v = self.npm.binop(self, type(s.op).__name__, cur, self.ev(s.value, scope))
            self.npm.setitem(self, base, ix, v)
            return
        rhs = self.ev(s.value, scope)
        if isinstance(cur, Arr) and cur.ndim > 0:
            v = self.npm.binop(self, type(s.op).__name__, cur, rhs)
            if not isinstance(v, Arr) or v.ndim != cur.ndim:
                raise Unsupported('in-place operation changes the shape')
            f = v.snap()
            cur.write([('all',)] * cur.ndim, f)
            return
        if isinstance(cur, list):
            if not isinstance(s.op, ast.Add):
                raise Unsupported('in-place operation on a list')
            self.npm.l_extend(self, cur, rhs)
            return
        v = self.npm.binop(self, type(s.op).__name__, cur, rhs)
        self.assign(s.target, v, scope)

    def s_If(self, s, scope):
        if self.truth(self.ev(s.test, scope)):
            self.block(s.body, scope)
        else:
            self.block(s.orelse, scope)

    def s_While(self, s, scope):
        n = 0
        while self.truth(self.ev(s.test, scope)):
            n += 1
            if n > 200:
                raise Unsupported('while loop')
            try:
                self.block(s.body, scope)
            except _Brk:
                return
            except _Cont:
                pass
        self.block(s.orelse, scope)

    def s_For(self, s, scope):
        it = self.as_seq(self.ev(s.iter, scope))
        if isinstance(it, SymSeq) and it.n.is_const():
            it = [it.at(k) for k in range(it.n.const())]
        if isinstance(it, list):
            for v in it:
                self.assign(s.target, v, scope)
                try:
                    self.block(s.body, scope)
                except _Brk:
                    return
                except _Cont:
                    pass
            self.block(s.orelse, scope)
            return
        names = assigned_names([s])
        before = dict(scope.vars)

        def body(i):
            for nm in names:
                if nm in scope.vars:
                    scope.vars[nm] = Poison()
            self.assign(s.target, it.at(i), scope)
            try:
                self.block(s.body, scope)
            except (_Brk, _Ret):
                raise Unsupported('leaving a loop over a symbolic range')
            outer = {k: v for f in self.frames(scope.parent) for k, v in f.vars.items()} if scope.parent else {}
            for k in set(before) | set(scope.vars):
                if k not in names and before.get(k) is not scope.vars.get(k):
                    raise Unsupported('variable %s changed in a loop' % k)
            return None
        saved_outer = [(f, dict(f.vars)) for f in self.frames(scope.parent)] if scope.parent else []

        def body2(i):
            r = body(i)
            for f, v in saved_outer:
                if f.mod is not None and f.vars is f.mod.ns:
                    continue
                for k in f.vars:
                    if f.vars[k] is not v.get(k):
                        raise Unsupported('outer variable %s changed in a loop' % k)
            return r
        self.generic(it.n, body2, scope)
        for nm in names:
            scope.vars[nm] = Poison()
        self.block(s.orelse, scope)

    def s_FunctionDef(self, s, scope):
        f = self.make_func(s, scope)
        for d in reversed(s.decorator_list):
            dv = d
            if isinstance(dv, ast.Name) and dv.id in ('staticmethod', 'classmethod', 'property', 'abstractmethod'):
                f = {'staticmethod': StaticM, 'classmethod': ClassM, 'property': Prop, 'abstractmethod': lambda q: q}[dv.id](f)
            elif isinstance(dv, ast.Attribute) and dv.attr == 'setter':
                p = scope.vars[dv.value.id]
                f = Prop(p.fget, f)
            elif isinstance(dv, ast.Attribute) and dv.attr == 'abstractmethod':
                pass
            else:
                raise Unsupported('decorator')
        self.assign_name(scope, s.name, f)

    def make_func(self, s, scope):
        a = s.args
        defaults = [self.ev(d, scope) for d in a.defaults]
        kwd = [self.ev(d, scope) if d is not None else Opaque('nodefault') for d in a.kw_defaults]
        cls_scope = scope if isinstance(scope.cls, list) else None
        name = s.name if isinstance(s, ast.FunctionDef) else '<lambda>'
        f = PyFunc(s, scope.parent if cls_scope else scope, defaults, kwd, scope.mod, None, name)
        f.clsbox = scope.cls
        return f

    def s_ClassDef(self, s, scope):
        bases = [self.ev(b, scope) for b in s.bases]
        bases = [b for b in bases if isinstance(b, PyClass)]
        sc = Scope(scope, scope.mod)
        sc.cls = [s.name, None]
        for st in s.body:
            if isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
                continue
            self.stmt(st, sc)
        c = PyClass(s.name, bases, sc.vars, scope.mod)
        sc.cls[1] = c
        self.assign_name(scope, s.name, c)

    def s_Import(self, s, scope):
        for a in s.names:
            m = self.load(a.name)
            if a.asname:
                self.assign_name(scope, a.asname, m)
            else:
                top = a.name.split('.')[0]
                if top == a.name:
                    self.assign_name(scope, top, m)
                else:
                    self.assign_name(scope, top, self.load(top))

    def s_ImportFrom(self, s, scope):
        if s.level:
            base = scope.mod.name.split('.')
            base = base[:len(base) - s.level]
            name = '.'.join(base + ([s.module] if s.module else []))
        else:
            name = s.module
        self.import_from(name, s.names, scope)

    def s_Nonlocal(self, s, scope):
        scope.nonlocals |= set(s.names)

    def s_Global(self, s, scope):
        scope.globals_ |= set(s.names)

    def s_Raise(self, s, scope):
        if s.exc is None:
            raise PyRaise('Exception')
        e = s.exc
        nm = None
        if isinstance(e, ast.Call):
            e = e.func
        if isinstance(e, ast.Name):
            nm = e.id
        elif isinstance(e, ast.Attribute):
            nm = e.attr
        raise PyRaise(nm or 'Exception')

    def s_Assert(self, s, scope):
        if not self.truth(self.ev(s.test, scope)):
            raise PyRaise('AssertionError')

    def s_Delete(self, s, scope):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                d = self.ev(t.value, scope)
                k = self.ev_index(t.slice, scope)
                if isinstance(d, dict):
                    self.dict_mut(d)
                    if k not in d:
                        raise PyRaise('KeyError')
                    del d[k]
                    continue
            elif isinstance(t, ast.Name):
                scope.vars.pop(t.id, None)
                continue
            raise Unsupported('del')

    def dict_mut(self, d):
        if len(self.levels) > 1:
            nid = self.dicts.get(id(d), (0, None))[0]
            if nid < 1:
                raise Unsupported('dictionary changed in a loop')

    dicts = {}

    def new_dict(self, d):
        self.dicts[id(d)] = (Nid.new(), d)
        return d

    def s_Try(self, s, scope):
        try:
            self.block(s.body, scope)
        except PyRaise as ex:
            for h in s.handlers:
                nm = None
                if h.type is not None:
                    t = h.type
                    nm = [t.id] if isinstance(t, ast.Name) else [q.id for q in t.elts] if isinstance(t, ast.Tuple) else [t.attr]
                if nm is None or ex.etype in nm or 'Exception' in nm:
                    if h.name:
                        self.assign_name(scope, h.name, Opaque('exception'))
                    self.block(h.body, scope)
                    break
            else:
                self.block(s.finalbody, scope)
                raise
        else:
            self.block(s.orelse, scope)
        self.block(s.finalbody, scope)

    # ------------------------------------------------------------ assignment
    def assign_name(self, scope, n, v):
        n = self.mangle(n, scope)
        if n in scope.nonlocals:
            p = scope.parent
            while p is not None:
                if n in p.vars:
                    p.vars[n] = v
                    return
                p = p.parent
            raise Unsupported('nonlocal')
        if n in scope.globals_:
            scope.mod.ns[n] = v
            return
        scope.vars[n] = v

    def assign(self, t, v, scope):
        if isinstance(t, ast.Name):
            self.assign_name(scope, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [k for k, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            vs = self.unpack(v, len(t.elts) if not star else None)
            if star:
                k = star[0]
                m = len(t.elts) - k - 1
                for x, w in zip(t.elts[:k], vs[:k]):
                    self.assign(x, w, scope)
                self.assign(t.elts[k].value, self.new_list(vs[k:len(vs) - m]), scope)
                for x, w in zip(t.elts[k + 1:], vs[len(vs) - m:]):
                    self.assign(x, w, scope)
            else:
                for x, w in zip(t.elts, vs):
                    self.assign(x, w, scope)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, scope), self.mangle(t.attr, scope), v)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, scope)
            self.npm.setitem(self, base, self.ev_index(t.slice, scope), v)
        else:
            raise Unsupported('assignment target')

    def unpack(self, v, n):
        s = self.as_seq(v)
        if isinstance(s, SymSeq):
            if s.n.is_const():
                s = [s.at(k) for k in range(s.n.const())]
            elif n is not None and self.decide(c_icmp('==', s.n - n)):
                s = [s.at(k) for k in range(n)]
            else:
                if n is not None:
                    raise PyRaise('ValueError', '', 'unpacking')
                raise Unsupported('unpacking a sequence of symbolic length')
        if n is not None and len(s) != n:
            raise PyRaise('ValueError', '', 'unpacking')
        return s

    def as_seq(self, v):
        """list of values or SymSeq"""
        if isinstance(v, list):
            if len(v) == 1 and isinstance(v[0], SymTail):
                return v[0].seq
            return list(v)
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, SymSeq):
            return v
        if isinstance(v, dict):
            return list(v)
        if isinstance(v, (set, frozenset)):
            return sorted(v, key=str)
        if isinstance(v, str):
            return list(v)
        if isinstance(v, range):
            return list(v)
        if isinstance(v, Arr):
            if v.ndim == 0:
                raise PyRaise('TypeError')
            d = v.shape[0]
            f = lambda k: self.npm.getitem(self, v, ie(k).simp())
            return [f(k) for k in range(d.const())] if d.is_const() else SymSeq(d, f)
        if isinstance(v, OArr):
            if v.ndim == 0:
                raise PyRaise('TypeError')
            if v.ndim == 1:
                return list(v.items) if isinstance(v.items, list) else v.items
            raise Unsupported('iterating a multidimensional object array')
        raise PyRaise('TypeError', '', 'not iterable: %s' % type(v).__name__)

    # ------------------------------------------------------------ expressions
    def ev(self, e, scope):
        return getattr(self, 'e_' + type(e).__name__, self.e_unknown)(e, scope)

    def e_unknown(self, e, scope):
        raise Unsupported('expression ' + type(e).__name__)

    def e_Constant(self, e, scope):
        v = e.value
        if isinstance(v, float):
            return s_of(v)
        if isinstance(v, complex):
            raise Unsupported('complex literal')
        return v

    def e_Name(self, e, scope):
        return self.name(e.id, scope)

    def mangle(self, n, scope):
        if n.startswith('__') and not n.endswith('__'):
            s = scope
            while s is not None:
                if s.cls is not None:
                    return '_%s%s' % (s.cls[0].lstrip('_'), n)
                s = s.parent
        return n

    def name(self, n, scope):
        n = self.mangle(n, scope)
        s = scope
        while s is not None:
            if n in s.vars:
                v = s.vars[n]
                if isinstance(v, Poison):
                    raise Unsupported('loop-carried variable ' + n)
                return v
            s = s.parent
        if n in scope.mod.ns:
            return scope.mod.ns[n]
        if n in self.npm.BUILTINS:
            return self.npm.BUILTINS[n]
        raise PyRaise('NameError', '', n)

    def e_Attribute(self, e, scope):
        return self.getattr(self.ev(e.value, scope), self.mangle(e.attr, scope))

    def e_List(self, e, scope):
        return self.new_list(self.elts(e.elts, scope))

    def e_Tuple(self, e, scope):
        return tuple(self.elts(e.elts, scope))

    def e_Set(self, e, scope):
        return set(self.elts(e.elts, scope))

    def elts(self, es, scope):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                s = self.as_seq(self.ev(x.value, scope))
                if isinstance(s, SymSeq):
                    raise Unsupported('unpacking a symbolic sequence')
                out += s
            else:
                out.append(self.ev(x, scope))
        return out

    def e_Dict(self, e, scope):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.ev(v, scope))
            else:
                d[self.ev(k, scope)] = self.ev(v, scope)
        return self.new_dict(d)

    def e_Lambda(self, e, scope):
        return self.make_func(e, scope)

    def e_IfExp(self, e, scope):
        c = self.ev(e.test, scope)
        return self.ev(e.body if self.truth(c) else e.orelse, scope)

    def e_BoolOp(self, e, scope):
        is_and = isinstance(e.op, ast.And)
        for k, x in enumerate(e.values):
            v = self.ev(x, scope)
            if k == len(e.values) - 1:
                return v
            t = self.truth(v)
            if t != is_and:
                return t if isinstance(v, (B, Arr)) else v
        return v

    def e_UnaryOp(self, e, scope):
        v = self.ev(e.operand, scope)
        if isinstance(e.op, ast.Not):
            if isinstance(v, B):
                return bsimp(B(c_not(v.c)))
            return not self.truth(v)
        if isinstance(e.op, ast.Invert) and isinstance(v, bool) and isinstance(e.operand, ast.Call) and \
                isinstance(e.operand.func, ast.Attribute) and isinstance(e.operand.func.value, ast.Name) and \
                e.operand.func.value.id == 'np':
            return not v                 # numpy.bool_
        return self.npm.unop(self, type(e.op).__name__, v)

    def e_BinOp(self, e, scope):
        return self.npm.binop(self, type(e.op).__name__, self.ev(e.left, scope), self.ev(e.right, scope))

    def e_Compare(self, e, scope):
        left = self.ev(e.left, scope)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, scope)
            v = self.npm.compare(self, type(op).__name__, left, right)
            if res is None:
                res = v
            else:
                if not self.truth(res):
                    return False
                res = v
            left = right
        return res

    def ev_index(self, s, scope):
        if isinstance(s, ast.Tuple):
            return tuple(self.ev_slice(x, scope) for x in s.elts)
        return self.ev_slice(s, scope)

    def ev_slice(self, s, scope):
        if isinstance(s, ast.Slice):
            return slice(self.ev(s.lower, scope) if s.lower else None, self.ev(s.upper, scope) if s.upper else None,
                         self.ev(s.step, scope) if s.step else None)
        if isinstance(s, ast.Index):
            return self.ev_index(s.value, scope)
        return self.ev(s, scope)

    def e_Subscript(self, e, scope):
        base = self.ev(e.value, scope)
        if isinstance(base, (Opaque, TypeVal)):
            return base
        return self.npm.getitem(self, base, self.ev_index(e.slice, scope))

    def e_JoinedStr(self, e, scope):
        return Opaque('text')

    def e_NamedExpr(self, e, scope):
        v = self.ev(e.value, scope)
        self.assign(e.target, v, scope)
        return v

    def e_Starred(self, e, scope):
        raise Unsupported('starred')

    def comp(self, e, scope, mkval):
        if len(e.generators) == 1:
            g = e.generators[0]
            it = self.as_seq(self.ev(g.iter, scope))
            sc = Scope(scope, scope.mod)
            if isinstance(it, SymSeq) and it.n.is_const():
                it = [it.at(k) for k in range(it.n.const())]
            if isinstance(it, list):
                out = []
                for v in it:
                    self.assign(g.target, v, sc)
                    if all(self.truth(self.ev(c, sc)) for c in g.ifs):
                        out.append(mkval(sc))
                return out
            if g.ifs:
                raise Unsupported('filtered comprehension over a symbolic sequence')

            def body(i):
                sc2 = Scope(scope, scope.mod)
                self.assign(g.target, it.at(i), sc2)
                return mkval(sc2)
            at = self.generic(it.n, body, scope)
            return self.make_seq(it.n, at)
        out = []

        def rec(k, sc):
            if k == len(e.generators):
                out.append(mkval(sc))
                return
            g = e.generators[k]
            it = self.as_seq(self.ev(g.iter, sc))
            if isinstance(it, SymSeq):
                raise Unsupported('nested comprehension over a symbolic sequence')
            for v in it:
                sc2 = Scope(sc, scope.mod)
                self.assign(g.target, v, sc2)
                if all(self.truth(self.ev(c, sc2)) for c in g.ifs):
                    rec(k + 1, sc2)
        rec(0, scope)
        return out

    def wrap_seq(self, s):
        return self.new_list(s) if isinstance(s, list) else self.new_list([SymTail(s)])

    def e_ListComp(self, e, scope):
        return self.wrap_seq(self.comp(e, scope, lambda sc: self.ev(e.elt, sc)))

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, scope):
        return set(self.comp(e, scope, lambda sc: self.ev(e.elt, sc)))

    def e_DictComp(self, e, scope):
        s = self.comp(e, scope, lambda sc: (self.ev(e.key, sc), self.ev(e.value, sc)))
        if not isinstance(s, list):
            raise Unsupported('dictionary over a symbolic sequence')
        return self.new_dict(dict(s))

    # ------------------------------------------------------------ calls
    def e_Call(self, e, scope):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            s = scope
            while s is not None and s.cls is None:
                s = s.parent
            first = next(iter(scope.vars.values()))
            return Super(s.cls[1], first)
        f = self.ev(e.func, scope)
        if isinstance(f, Native) and f.name in ('exec', 'eval', 'locals', 'globals'):
            return self.npm.special(self, f.name, [self.ev(a, scope) for a in e.args], scope)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.as_seq(self.ev(a.value, scope))
                if isinstance(v, SymSeq):
                    if v.n.is_const():
                        args += [v.at(k) for k in range(v.n.const())]
                    else:
                        args.append(Star(v))
                else:
                    args += v
            else:
                args.append(self.ev(a, scope))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                kw.update(self.ev(k.value, scope))
            else:
                kw[k.arg] = self.ev(k.value, scope)
        return self.call(f, args, kw)

    def call(self, f, args, kw=None):
        kw = kw or {}
        if isinstance(f, Native):
            return f.fn(self, args, kw)
        if any(isinstance(a, Star) for a in args):
            raise Unsupported('symbolic number of arguments')
        if isinstance(f, Bound):
            return self.call(f.f, [f.self_] + list(args), kw)
        if isinstance(f, StaticM):
            return self.call(f.f, args, kw)
        if isinstance(f, PyFunc):
            return self.call_func(f, args, kw)
        if isinstance(f, PyClass):
            return self.instantiate(f, args, kw)
        if isinstance(f, TypeVal):
            if f.call is None:
                raise Unsupported('calling ' + f.name)
            return f.call(self, args, kw)
        if isinstance(f, Obj):
            return self.call(self.getattr(f, '__call__'), args, kw)
        raise PyRaise('TypeError', '', 'not callable %r' % (f,))

    def call_func(self, f, args, kw):
        q = f.qual() if f.clsbox is None else '%s.%s.%s' % (f.mod.name, f.clsbox[0], f.name)
        if q in self.summaries:
            r = self.summaries[q](self, args, kw)
            if r is not NotImplemented:
                return r
        self.called.add(q)
        sc = Scope(f.scope, f.mod)
        sc.cls = None
        if f.clsbox is not None:
            sc.cls = (f.clsbox[0], f.clsbox[1])
        a = f.node.args
        pos = [x.arg for x in getattr(a, 'posonlyargs', [])] + [x.arg for x in a.args]
        if len(args) > len(pos) and a.vararg is None:
            raise PyRaise('TypeError', '', 'too many arguments')
        for n, v in zip(pos, args):
            sc.vars[n] = v
        if a.vararg is not None:
            sc.vars[a.vararg.arg] = tuple(args[len(pos):])
        rest = {}
        for k, v in kw.items():
            if k in pos or k in [x.arg for x in a.kwonlyargs]:
                if k in sc.vars:
                    raise PyRaise('TypeError', '', 'multiple values')
                sc.vars[k] = v
            elif a.kwarg is not None:
                rest[k] = v
            else:
                raise PyRaise('TypeError', '', 'unexpected argument ' + k)
        if a.kwarg is not None:
            sc.vars[a.kwarg.arg] = self.new_dict(rest)
        nd = len(f.defaults)
        for n, v in zip(pos[len(pos) - nd:], f.defaults):
            if n not in sc.vars:
                sc.vars[n] = v
        for x, v in zip(a.kwonlyargs, f.kwd):
            if x.arg not in sc.vars:
                sc.vars[x.arg] = v
        for n in pos:
            if n not in sc.vars:
                raise PyRaise('TypeError', '', 'missing argument ' + n)
        if isinstance(f.node, ast.Lambda):
            return self.ev(f.node.body, sc)
        try:
            self.block(f.node.body, sc)
        except _Ret as r:
            return r.v
        return None

    def instantiate(self, c, args, kw):
        o = Obj(c)
        init = c.lookup('__init__')
        if init is not None:
            self.call(init, [o] + list(args), kw)
        return o

    # ------------------------------------------------------------ attributes
    def getattr(self, v, n):
        if isinstance(v, Mod):
            if n in v.ns:
                return v.ns[n]
            if v.name.startswith('ellipy'):
                return self.load(v.name + '.' + n)
            return self.missing(v.name + '.' + n)
        if isinstance(v, Obj):
            if n == '__class__':
                return v.cls
            if n == '__dict__':
                raise Unsupported('__dict__')
            if n == '__getattribute__':
                return Native('getattribute', lambda it, a, k: it.getattr(v, a[0]))
            c = v.cls.lookup(n)
            if isinstance(c, Prop):
                return self.call(c.fget, [v])
            if v.hasattr(n):
                return v.getattr(n)
            if c is None:
                if n.startswith('__'):
                    raise Unsupported('attribute %s of an object' % n)
                raise PyRaise('AttributeError', '', n)
            return self.bind(c, v, v.cls)
        if isinstance(v, PyClass):
            if n == '__name__':
                return v.name
            if n == '__class__':
                return TypeVal('type')
            c = v.lookup(n)
            if c is None:
                if n == '__init__':
                    return Native('object.__init__', lambda it, a, k: None)
                if n.startswith('__'):
                    raise Unsupported('attribute %s of a class' % n)
                raise PyRaise('AttributeError', '', n)
            return self.bind(c, None, v)
        if isinstance(v, Super):
            obj = v.obj
            cls = obj.cls if isinstance(obj, Obj) else obj
            mro = cls.mro
            for c in mro[mro.index(v.cls) + 1:]:
                if n in c.ns:
                    m = c.ns[n]
                    if isinstance(m, Prop):
                        return self.call(m.fget, [obj])
                    return self.bind(m, obj if isinstance(obj, Obj) else None, cls)
            if n == '__init__':
                return Native('object.__init__', lambda it, a, k: None)
            raise PyRaise('AttributeError', '', n)
        return self.npm.attr(self, v, n)

    def bind(self, c, obj, cls):
        if isinstance(c, StaticM):
            return c.f
        if isinstance(c, ClassM):
            return Bound(c.f, cls)
        if isinstance(c, PyFunc) and obj is not None:
            return Bound(c, obj)
        return c

    def setattr(self, o, n, v):
        if isinstance(o, Obj):
            c = o.cls.lookup(n)
            if isinstance(c, Prop):
                if c.fset is None:
                    raise PyRaise('AttributeError', '', n)
                self.call(c.fset, [o, v])
                return
            o.setattr(n, v)
            return
        if isinstance(o, PyClass):
            if len(self.levels) > 1:
                raise Unsupported('class attribute changed in a loop')
            o.ns[n] = v
            return
        if isinstance(o, Mod):
            o.ns[n] = v
            return
        if isinstance(o, Arr) and n == 'shape':
            raise Unsupported('assigning to shape')
        raise Unsupported('setting an attribute of %s' % type(o).__name__)

