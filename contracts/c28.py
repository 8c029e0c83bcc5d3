"""C28: conversions between horizontal and vertical field of view and zoom"""
from contracts.common import *

META = {'level': 'proof'}
C0, C1, C2 = const(0), const(1), const(2)
INC = ['cml/util.h', 'cml/cml.h']


def c_fov(nm, t):
    """every conversion equals its definition; h is half of the field of view"""
    body = '''%s x = h + h; o[0] = xfov_to_yfov(x, a); o[1] = yfov_to_xfov(x, a); o[2] = xzoom_to_yzoom(z, a); o[3] = yzoom_to_xzoom(z, a); o[4] = zoom_to_fov(z); o[5] = fov_to_zoom(x);
  p[0] = yfov_to_xfov(xfov_to_yfov(x, a), a); p[1] = xfov_to_yfov(yfov_to_xfov(x, a), a); p[2] = yzoom_to_xzoom(xzoom_to_yzoom(z, a), a); p[3] = xzoom_to_yzoom(yzoom_to_xzoom(z, a), a);
  p[4] = zoom_to_fov(fov_to_zoom(x)); p[5] = fov_to_zoom(zoom_to_fov(z)); p[6] = fov_to_zoom(xfov_to_yfov(x, a)); p[7] = fov_to_zoom(yfov_to_xfov(x, a)); p[8] = xfov_to_yfov(zoom_to_fov(z), a); p[9] = fov_to_zoom(x);''' % CPP[t]
    ps = [P('h', t, lo=0.02, hi=1.45), P('a', t, lo=0.3, hi=4), P('z', t, lo=0.2, hi=5), P('o', t, 6, 'out'), P('p', t, 10, 'out')]

    def ens(I, O):
        th = tm.sin(I.h) / tm.cos(I.h)
        tan = lambda x: tm.sin(x / C2) / tm.cos(x / C2)
        inr = lambda n, x: (n + ' in the range of a field of view', and_(ge(x, -tm.PI), le(x, tm.PI)))
        pos = lambda n, x: (n + ' positive', gt(x, C0))
        r = [('tan(yfov/2) = tan(xfov/2)/aspect', eq(tan(O.o[0]), th / I.a)), ('tan(xfov/2) = tan(yfov/2)*aspect', eq(tan(O.o[1]), th * I.a)),
             ('yzoom', eq(O.o[2], I.z * I.a)), ('xzoom', eq(O.o[3], I.z / I.a)), ('tan(fov/2) = 1/zoom', eq(tan(O.o[4]), C1 / I.z)), ('zoom = 1/tan(fov/2)', eq(O.o[5], C1 / th))]
        r += [inr('fov %d' % i, O.o[i]) for i in (0, 1, 4)] + [pos('result %d' % i, O.o[i]) for i in range(6)]
        r += [('yfov and back', eq(tan(O.p[0]), th)), ('xfov and back', eq(tan(O.p[1]), th)), ('zooms and back', eq(O.p[2], I.z)), ('zooms back and forth', eq(O.p[3], I.z)),
              ('zoom and back', eq(tan(O.p[4]), th)), ('fov and back', eq(O.p[5], I.z)), ('fov to zoom commutes with x to y', eq(O.p[6], I.a / th)),
              ('fov to zoom commutes with y to x', eq(O.p[7], C1 / (th * I.a))), ('zoom to fov commutes with x to y', eq(tan(O.p[8]), C1 / (I.z * I.a)))]
        r += [inr('round trip %d' % i, O.p[i]) for i in (0, 1, 4, 8)]
        r += [('test:fov returns %d' % i, eq(O.p[i], I.h + I.h)) for i in (0, 1, 4)]
        return r
    return Case(nm, body, ps, ens, lambda I: [gt(tm.cos(I.h), C0), gt(tm.sin(I.h), C0), gt(I.a, C0), gt(I.z, C0)], label='fov and zoom <%s>' % CPP[t], opts={'float': True} if t == 'float' else {})


def units(tier):
    return [Unit('c28', [c_fov('fov_%s' % t, t) for t in ('double', 'float')], includes=INC)]
