"""Numerical self check of the rewriting: every (sampled) normalisation step of the proofs is evaluated with random numbers
before and after.  Usage: python3-vt selfcheck.py RATE MODULE [case substrings]"""
import importlib
import os
import sys
import numpy as np
import expr as X
import numev
import explore
import cc

rate = float(sys.argv[1])
rng = np.random.default_rng(int(os.environ.get('SEED', '1')))
stat = {'checked': 0, 'skipped': 0, 'bad': 0}
orig = X._norm_mono
busy = [False]


def check(m, r):
    for t in range(2):
        env = numev.Env(rng, {k: int(rng.integers(v, v + 2)) for k, v in X.REG.dims.items() if isinstance(v, int)})
        env.free = {}
        fs, sm = m
        bound = {n for n, _ in sm}
        bind = {}
        free = set()
        for f, _ in fs:
            free |= X.fsyms(f)
        free |= r.syms()
        sc = {n: d for q in X.REG.scope for n, d in q}
        for s in free - bound:
            if s in X.REG.dims:
                continue
            d = X.REG.ix.get(s, sc.get(s))
            if d is None:
                raise numev.CannotEval(s)
            dv = int(env.i(d, {}))
            bind[s] = int(rng.integers(0, dv))
        with np.errstate(all='ignore'):
            a = float(np.asarray(env.r(X.R({m: X.Fraction(1)}), bind)).reshape(-1)[0])
            b = float(np.asarray(env.r(r, bind)).reshape(-1)[0])
        if not np.isfinite(a) or not np.isfinite(b):
            continue
        stat['checked'] += 1
        if abs(a - b) > 1e-6 * (1 + abs(a) + abs(b)):
            stat['bad'] += 1
            if stat['bad'] < 6:
                print('MISMATCH', a, b, str(X.R({m: X.Fraction(1)}))[:800], '=>', str(r)[:800], bind, env.dims)


def patched(m):
    r = orig(m)
    if busy[0] or rng.random() > rate:
        return r
    busy[0] = True
    try:
        check(m, r)
    except Exception as ex:
        stat['skipped'] += 1
        stat[type(ex).__name__ + str(ex)[:30]] = stat.get(type(ex).__name__ + str(ex)[:30], 0) + 1
    finally:
        busy[0] = False
    return r


X._norm_mono = patched
importlib.import_module(sys.argv[2])
for c in cc.ALL:
    if len(sys.argv) > 3 and not any(s in c.name for s in sys.argv[3:]):
        continue
    explore.run_case(c)
print(stat)
