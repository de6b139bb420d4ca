"""verify.py PROP --tier quick|thorough --out FILE : discharge every obligation of one property against the current source."""
import argparse, glob, importlib, json, multiprocessing as mp, os, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)

TRUSTED = [
    'Python and numpy semantics as written in ded/npm*.py (array creation, indexing, broadcasting, reductions, matmul)',
    'numpy.linalg contracts (ded/npm_la.py): eigh, svd, qr, inv, pinv, solve, lstsq, det, norm return the factors their '
    'documentation promises, exactly',
    'floating-point arithmetic treated as exact real arithmetic; overflow and rounding are not modelled',
    'z3 4.x for linear/non-linear real and integer arithmetic; the polynomial/sum normal forms of ded/expr.py',
]
ASSUMED_LEMMAS = {
    'C07': ['Cauchy-Schwarz for positive semidefinite forms (the maximiser formula gives the supremum)'],
    'C18': ["von Neumann's trace inequality; Cauchy-Schwarz (the attained values are upper bounds)"],
    'C19': ['eigenvalue and singular-value decompositions exist (spectral theorem)'],
}


def load_cases(prop=None):
    import cc
    for f in sorted(glob.glob(os.path.join(HERE, 'k_*.py'))):
        importlib.import_module(os.path.basename(f)[:-3])
    return [c for c in cc.ALL if prop is None or c.prop == prop]


def one(args):
    prop, i, deadline, tier = args
    import explore, prove
    prove.STATS.update({'z3': 0, 'z3_s': 0.0, 'norm': 0, 'cvc5': 0, 'cvc5_s': 0.0})
    prove.CROSS[0] = tier == 'thorough'
    c = load_cases.cache[i]
    try:
        r = explore.run_case(c, deadline=deadline, seed=int(os.environ.get('VERIF_SEED', '1')))
        return {'case': c.name, 'func': c.func, 'obs': [o.json() for o in r['obs']], 'called': sorted(r['called']),
                'paths': r['paths'], 'reached': r['reached'], 'err': r['err'], 'seconds': r['seconds'],
                'stats': dict(prove.STATS)}
    except BaseException as ex:
        return {'case': c.name, 'func': c.func, 'obs': [{'name': c.name + '/all', 'status': 'undecided',
                'function': c.func, 'detail': 'engine: ' + traceback.format_exc()[-400:]}], 'called': [], 'paths': 0,
                'reached': [], 'err': str(ex), 'seconds': 0, 'stats': dict(prove.STATS)}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--out', required=True)
    ap.add_argument('--jobs', type=int, default=0)
    a = ap.parse_args()
    t0 = time.time()
    cases = load_cases(a.prop)
    load_cases.cache = cases
    budget = 220 if a.tier == 'quick' else 700
    jobs = a.jobs or (4 if a.tier == 'quick' else 4)
    todo = [(a.prop, i, t0 + budget, a.tier) for i, c in enumerate(cases) if a.tier == 'thorough' or c.tier == 'quick']
    with mp.get_context('fork').Pool(min(jobs, max(1, len(todo))), maxtasksperchild=8) as pool:
        res = list(pool.imap_unordered(one, todo, chunksize=1))
    res.sort(key=lambda r: r['case'])
    obs, called, st, vac = [], set(), {}, []
    for r in res:
        obs += r['obs']
        called |= set(r['called'])
        for k, v in r['stats'].items():
            st[k] = st.get(k, 0) + v
        vac.append({'case': r['case'], 'paths': r['paths'], 'outcomes': sorted(set(r['reached']))})
    import z3
    be = {'normal forms (ded/expr.py)': st.get('norm', 0), 'z3 %s' % z3.get_version_string(): st.get('z3', 0)}
    if st.get('cvc5'):
        be['cvc5 (second opinion)'] = st['cvc5']
    out = {'property': a.prop, 'tier': a.tier, 'obligations': obs, 'generated': len(obs),
           'discharged': sum(o['status'] == 'discharged' for o in obs),
           'functions': sorted(x for x in called if x.startswith('ellipy.')),
           'contracts': sorted({c.func for c in cases}), 'back_ends': be,
           'solver_s': round(st.get('z3_s', 0) + st.get('cvc5_s', 0), 3), 'trusted': TRUSTED,
           'assumptions': ASSUMED_LEMMAS.get(a.prop, []), 'vacuity': vac, 'bounded': [],
           'seconds': round(time.time() - t0, 2)}
    with open(a.out, 'w') as f:
        json.dump(out, f, indent=1)
    print('%s: %d obligations, %d discharged, %.1fs' % (a.prop, len(obs), out['discharged'], out['seconds']))


if __name__ == '__main__':
    main()
