"""developer's runner: dbg.py MODULE [substring] [-v]"""
import sys, importlib
sys.path.insert(0, '/verif/ded')
sys.setrecursionlimit(20000)
import cc, explore
importlib.import_module(sys.argv[1])
sub = [a for a in sys.argv[2:] if a != '-v']
import time
for c in cc.ALL:
    if sub and not any(s in c.name for s in sub):
        continue
    r = explore.run_case(c, deadline=time.time() + 60, verbose='-v' in sys.argv)
    bad = [o for o in r['obs'] if o.status != 'discharged']
    print('%-45s %-4s %2d obs %2d paths %5.1fs %s' % (c.name, 'OK' if not bad else 'BAD', len(r['obs']), r['paths'], r['seconds'], sorted(set(r['reached']))))
    for o in bad:
        print('     ', o.name.split('/')[-1], o.status, o.detail[:int(300)], o.cex or '')
