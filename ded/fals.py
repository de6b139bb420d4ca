"""self check of the counterexample search: no discharged obligation may be refuted.  fals.py MODULE"""
import sys, os, importlib
os.environ['DED_FALSIFY'] = '1'
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import cc, explore, time
importlib.import_module(sys.argv[1])
src = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), sys.argv[1] + '.py')).read()
n = bad = 0
for c in cc.ALL:
    if c.fn.__closure__ and not any(getattr(x.cell_contents, '__module__', None) == sys.argv[1] for x in c.fn.__closure__ if callable(x.cell_contents)):
        continue
    if sys.argv[2:] and not any(s in c.name for s in sys.argv[2:]):
        continue
    r = explore.run_case(c, deadline=time.time() + 300)
    n += len(r['obs'])
    for o in r['obs']:
        if o.status == 'refuted':
            bad += 1
            print('REFUTED', c.name, o.name, o.detail[:600], o.cex, flush=True)
print(sys.argv[1], 'obligations', n, 'falsely refuted', bad)
