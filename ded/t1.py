import sys; sys.path.insert(0,'/verif/ded')
import expr as X, interp as I, npm
from vals import *
X.new_registry()
it=I.Interp([],npm)
n=X.dim('n',2)
for m in ('ellipy.gras.la.la','ellipy.gras.gen.gen','ellipy.gras.geom.ell.ell','ellipy.elltool.core.core','ellipy.gras.geom.sup.sup','ellipy.gras.geom.geom','ellipy.elltool.conf.properties.Properties','ellipy.gen.dict.dict','ellipy.gras.geom.tri.tri'):
    try:
        it.load(m); print('ok',m)
    except Exception as e:
        print(m,type(e).__name__,e)
        import traceback; traceback.print_exc(limit=-3)
