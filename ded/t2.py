import sys; sys.path.insert(0,'/verif/ded'); sys.setrecursionlimit(20000)
from cc import *
import explore
LA='ellipy.gras.la.la.'
def setup(n):
    def f(it):
        nn = dim('n',2) if n is None else ie(n)
        return {'n':nn,'q':sym('Q',nn,kind='psd')}
    return f
def run(it,st):
    return it.call(it.get(LA+'sqrtm_pos'),[st['q']])
def post(it,st,out):
    n,q=st['n'],st['q']
    g=[('returns',returns(out))]
    if out[0]!='ret': return g
    s=out[1]
    g.append(('shape',shape_is(it,s,n,n)))
    g.append(('finite',finite(it,s)))
    g.append(('symmetric',guarded(lambda: all_ix((n,n),lambda i,j:c_eq(at(it,s,i,j),at(it,s,j,i))))))
    g.append(('square',guarded(lambda: all_ix((n,n),lambda i,j:c_eq(r_sum(n,lambda k:at(it,s,i,k)*at(it,s,k,j)),at(it,q,i,j))))))
    return g
for n in (None,1):
    c=Case('sqrtm_pos',LA+'sqrtm_pos',setup(n),run,post,dims={'n':(2,4)})
    r=explore.run_case(c,verbose=True)
    for o in r['obs']: print(o.json())
    print(r['called'],r['seconds'])
