"""Path exploration and discharge of the obligations of one contract case."""
import os
import time
import numpy as np
import expr as X, prove, numev
import interp as I, npm
from expr import (Unsupported, TRUE, FALSE, c_not, c_and, REG)
from vals import PyRaise, HOOK

MAXPATHS = 200


class Case:
    """One contract case of one function.

    fn(it, **params) -> [(obligation name, condition)]: builds symbolic inputs satisfying the precondition, executes the
    real function symbolically and states the postcondition of the path that was taken.
    dims: {dimension: (lo, hi)} ranges for the numeric counterexample search
    """
    def __init__(self, prop, name, func, fn, params=None, dims=None, tier='quick', search=True, note=''):
        self.prop, self.name, self.func, self.fn, self.params = prop, name, func, fn, params or {}
        self.dims, self.tier, self.search, self.note = dims or {}, tier, search, note


class Goal:
    """goal proved after replacing input atoms by equal expressions (sub), with extra facts (lemmas); a counterexample is
    searched for the condition `refute` about the inputs themselves (False: a step of the argument, never refuted)"""
    def __init__(self, cond, sub=None, lemmas=(), drop=(), refute=None):
        self.cond, self.sub, self.lemmas, self.drop = cond, sub, list(lemmas), drop
        self.refute = cond if refute is None else refute

    def build(self, hyps):
        if isinstance(self.cond, Unsupported):
            raise self.cond
        hs, c = list(hyps), self.cond
        for a in self.drop:
            # the factorisation is used from right to left here
            if REG.atoms.get(a, {}).pop('prod_rules', None):
                X._norm_cache.clear()
        if self.sub:
            c = prove.atoms_c(c, self.sub)
            hs = [prove.atoms_c(h, self.sub) for h in hs]
        return c, hs + self.lemmas


class Ob:
    def __init__(self, name, func):
        self.name, self.func = name, func
        self.status, self.detail, self.paths, self.time, self.cex = 'discharged', '', 0, 0.0, None

    def worsen(self, st, detail, cex=None):
        order = ['discharged', 'undecided', 'refuted']
        if order.index(st) > order.index(self.status):
            self.status, self.detail = st, detail
            if cex is not None:
                self.cex = cex

    def json(self):
        d = {'name': self.name, 'status': self.status, 'function': self.func, 'paths': self.paths,
             'seconds': round(self.time, 3), 'detail': self.detail}
        if self.cex is not None:
            d['counterexample'] = self.cex
        return d


# self check of the counterexample search: it must find nothing against obligations that are discharged
FALSIFY = bool(os.environ.get('DED_FALSIFY'))


def smt_false(hyps):
    """the path condition is contradictory"""
    try:
        return bool(hyps) and prove.smt(FALSE, hyps, 500) is True
    except Exception:
        return False


def run_case(case, deadline=None, seed=1, verbose=False):
    obs, called, todo, npaths, feas = {}, set(), [[]], 0, 0
    t00 = time.time()
    err = None
    reached = []
    while todo:
        if deadline and time.time() > deadline:
            err = 'time budget used up'
            break
        prefix = todo.pop()
        X.new_registry()
        prove._cache.clear()
        it = I.Interp(list(prefix), npm)
        lv = it.levels[0]
        npaths += 1
        if npaths > MAXPATHS:
            err = 'too many paths'
            break
        it.deadline, it.outcome = deadline, ('none', None)
        try:
            goals = case.fn(it, **case.params)
            out = it.outcome
        except I.Infeasible:
            goals = []
            out = ('infeasible', None)
        except Unsupported as ex:
            err = 'outside reach: %s' % ex
            if verbose:
                import traceback
                traceback.print_exc(limit=-6)
            goals, out = None, ('unsupported', str(ex))
        except Exception as ex:
            err = 'engine: %s %s' % (type(ex).__name__, str(ex)[:200])
            if verbose:
                import traceback
                traceback.print_exc(limit=-6)
            goals, out = None, ('unsupported', err)
        called |= it.called
        for k in range(len(prefix), len(lv.taken)):
            todo.append(lv.taken[:k] + [not lv.taken[k]])
        hyps = it.hyps()
        if verbose:
            print('  path', lv.taken, out[0], getattr(out[1], 'tag', ''), str(getattr(out[1], 'msg', ''))[:100],
                  '%.1fs' % (time.time() - t00))
        if goals is None:
            break
        if smt_false(hyps):
            continue
        # an error the interpreter itself made up for an operation it does not know: never counted as a refutation
        soft = out[0] == 'raise' and not out[1].tag and out[1].etype in ('TypeError', 'AttributeError', 'NameError')
        reached.append(out[0] if out[0] != 'raise' else 'raise:' + (out[1].tag or out[1].etype))
        for nm, g in goals:
            t0 = time.time()
            ob = obs.setdefault(nm, Ob('%s/%s' % (case.name, nm), case.func))
            ob.paths += 1
            if ob.status == 'refuted':
                continue
            hy, tgt = hyps, None
            if isinstance(g, Goal):
                tgt = g.refute
                try:
                    g, hy = g.build(hyps)
                except Unsupported as ex:
                    g = ex
            if isinstance(g, Unsupported):
                ob.worsen('undecided', 'outside reach: %s' % g)
                continue
            if tgt is None:
                tgt = g
            try:
                r = prove.prove(g, hy)
            except Unsupported as ex:
                r = None
                ob.detail = str(ex)
            except Exception as ex:
                r = None
                if verbose:
                    import traceback
                    traceback.print_exc(limit=-6)
            if r is True and not FALSIFY:
                pass
            else:
                cex = None
                if case.search and not soft and tgt is not False and not isinstance(tgt, Unsupported):
                    try:
                        env, nv = numev.find_counterexample(tgt, hyps, dict({k: (v, v + 2) for k, v in REG.dims.items() if isinstance(v, int) and k not in REG.ranks}, **case.dims), np.random.default_rng(seed))
                        if env is not None:
                            cex = env.dump() if hasattr(env, 'dump') else str(env.dims)
                    except numev.CannotEval as ex:
                        if verbose:
                            print('    cannot evaluate', ex)
                    except Exception as ex:
                        if verbose:
                            import traceback
                            traceback.print_exc(limit=-4)
                if cex is not None:
                    ob.worsen('refuted', 'path %s: goal %s fails' % (lv.taken, str(tgt)[:1500]), cex)
                else:
                    ob.worsen('undecided', 'path %s: not proved: %s' % (lv.taken, str(g)[:600]))
                if verbose:
                    print('    NOT PROVED', nm, 'CEX' if cex else '', str(g)[:900])
                    print('      hyps', [str(h)[:200] for h in hyps])
            ob.time += time.time() - t0
    res = list(obs.values())
    if err:
        for ob in res:
            ob.worsen('undecided', err)
        if not res:
            ob = Ob(case.name + '/all', case.func)
            ob.status, ob.detail = 'undecided', err
            res = [ob]
    elif not res:
        ob = Ob(case.name + '/all', case.func)
        ob.status, ob.detail = 'undecided', 'no obligation generated: the precondition is not satisfiable'
        res = [ob]
    return {'obs': res, 'called': called, 'paths': npaths, 'reached': reached, 'err': err,
            'seconds': time.time() - t00}
