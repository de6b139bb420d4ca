"""PyPy side:  run.py PROP --seed S --budget SEC --cases N --out FILE   |   run.py --replay FILE"""
import argparse
import importlib
import json
import os
import sys
import warnings

warnings.simplefilter('ignore')
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
repo = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, os.path.join(repo, 'products'))
sys.dont_write_bytecode = True
import base  # noqa: E402

MODULES = ['c_core', 'c_ops', 'c_la', 'c_gen', 'c_cmp', 'c_geo']


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--budget', type=float, default=30)
    ap.add_argument('--cases', type=int, default=1000)
    ap.add_argument('--out')
    ap.add_argument('--replay')
    ap.add_argument('--clause')
    ap.add_argument('--shard', default='0/1')
    a = ap.parse_args()
    import ellipy
    need = os.path.realpath(os.path.join(repo, 'products'))
    assert os.path.realpath(ellipy.__file__).startswith(need), ellipy.__file__
    for m in MODULES:
        if os.path.exists(os.path.join(here, m + '.py')):
            importlib.import_module(m)
    if a.replay:
        r = json.load(open(a.replay))
        if 'clause' not in r:
            print('no failing input in this replay file; it holds the failed obligation')
            print(json.dumps(r, indent=1)[:3000])
            return 0
        st, msg, g = base.run_one(r['property'], r['clause'], r['seed'], r['index'])
        print(st, msg)
        print(json.dumps([base.show(x) for x in g.inputs], indent=1)[:3000])
        return 1 if st == 'fail' else 0
    if a.clause:
        base.REGISTRY[a.prop] = {a.clause: base.REGISTRY[a.prop][a.clause]}
    res = base.run_prop(a.prop, a.seed, a.budget, a.cases, shard=tuple(map(int, a.shard.split('/'))))
    s = json.dumps(res)
    if a.out:
        with open(a.out, 'w') as f:
            f.write(s)
    else:
        print(json.dumps({k: v for k, v in res.items() if k != 'samples'}, indent=1)[:6000])
    return 0


if __name__ == '__main__':
    sys.exit(main())
