"""C21: polar, cylindrical and spherical coordinates"""
from fractions import Fraction

from contracts.common import *

META = {'level': 'proof'}
C0, C1, C2 = const(0), const(1), const(2)
VSIZE = '@_ZTIN3cml17vector_size_errorE'
DECL = {'fix': 'vector<%s,fixed<%d>> %s;', 'dyn': 'vector<%s,dynamic<>> %s(%d);', 'ext': '%s %s_b[%d]; vector<%s,external<%d>> %s(%s_b);', 'dext': '%s %s_b[%d]; vector<%s,external<>> %s(%s_b, %d);'}


def dst(k, t, nm, n):
    return {'fix': DECL['fix'] % (t, n, nm), 'dyn': DECL['dyn'] % (t, nm, n), 'ext': DECL['ext'] % (t, nm, n, t, n, nm, nm), 'dext': DECL['dext'] % (t, nm, n, t, nm, nm, n)}[k]


def half_pi():
    return tm.PI / C2


def perm(a):
    return a, (a + 1) % 3, (a + 2) % 3


def by_axis(I, lab, f):
    """clauses of every axis value"""
    return [('axis %d: %s' % (a, lb), implies(is_val(I.ax, a), g)) for a in range(3) for lb, g in f(a)]


def polar(r, th):
    return [r * tm.cos(th), r * tm.sin(th)]


def cyl(a, r, th, h):
    i, j, k = perm(a)
    v = [None] * 3
    v[i], v[j], v[k] = h, r * tm.cos(th), r * tm.sin(th)
    return v


def sph(a, lat, r, th, ph):
    i, j, k = perm(a)
    sp, cp = (tm.cos(ph), tm.sin(ph)) if lat else (tm.sin(ph), tm.cos(ph))
    v = [None] * 3
    v[i], v[j], v[k] = r * cp, r * sp * tm.cos(th), r * sp * tm.sin(th)
    return v


def flt(*ts):
    return {'float': True} if 'float' in ts else {}


def c_to(nm, k, t, et):
    """to Cartesian: every form"""
    body = dst(k, t, 'P', 2) + dst(k, t, 'V', 3) + dst(k, t, 'W', 3) + '''
  polar_to_cartesian(P, r, th); out(p, P, 2); cylindrical_to_cartesian(V, ax, r, th, h); out(c, V, 3);
  spherical_to_cartesian(W, ax, latitude, r, th, ph); out(sl, W, 3); spherical_to_cartesian(W, ax, colatitude, r, th, ph); out(sc, W, 3);
  polar_to_cartesian(r, th, P); out(p2, P, 2); cylindrical_to_cartesian(r, th, h, ax, V); out(c2, V, 3);
  spherical_to_cartesian(r, th, ph, ax, latitude, W); out(sl2, W, 3); spherical_to_cartesian(r, th, ph, ax, colatitude, W); out(sc2, W, 3);'''
    ps = [P('ax', 'int', lo=0, hi=2), P('r', et), P('th', et, gen='angle'), P('ph', et, gen='angle'), P('h', et)] + [P(x, t, 2, 'out') for x in ('p', 'p2')] + [P(x, t, 3, 'out') for x in ('c', 'sl', 'sc', 'c2', 'sl2', 'sc2')]

    def ens(I, O):
        res = veq('polar', O.p, polar(I.r, I.th)) + veq('polar (CML1)', O.p2, polar(I.r, I.th))
        for s, lb in (('', ''), ('2', ' (CML1)')):
            res += by_axis(I, '', lambda a: veq('cylindrical' + lb, O['c' + s], cyl(a, I.r, I.th, I.h)) + veq('latitude' + lb, O['sl' + s], sph(a, True, I.r, I.th, I.ph)) +
                           veq('colatitude' + lb, O['sc' + s], sph(a, False, I.r, I.th, I.ph)))
        return res
    return Case(nm, body, ps, ens, lambda I: [in_range(I.ax, 0, 2)], label='to Cartesian, %s %s from %s' % (k, t, et), opts=flt(t, et))


def c_to_mixed(nm, t, e0, e1, e2):
    body = dst('fix', t, 'P', 2) + dst('fix', t, 'V', 3) + dst('fix', t, 'W', 3) + 'polar_to_cartesian(P, r, th); out(p, P, 2); cylindrical_to_cartesian(V, ax, r, th, h); out(c, V, 3); spherical_to_cartesian(W, ax, latitude, r, th, h); out(s, W, 3);'
    ps = [P('ax', 'int', lo=0, hi=2), P('r', e0, lo=-50, hi=50), P('th', e1, gen='angle'), P('h', e2, gen='angle'), P('p', t, 2, 'out'), P('c', t, 3, 'out'), P('s', t, 3, 'out')]
    rv = lambda x: as_real(x)

    def ens(I, O):
        r = rv(I.r)
        return veq('polar', O.p, polar(r, I.th)) + by_axis(I, '', lambda a: veq('cylindrical', O.c, cyl(a, r, I.th, I.h)) + veq('latitude', O.s, sph(a, True, r, I.th, I.h)))
    return Case(nm, body, ps, ens, lambda I: [in_range(I.ax, 0, 2)], label='to Cartesian, %s from %s %s %s' % (t, e0, e1, e2), opts=flt(t, e0, e1, e2))


def bound(t):
    """a value above the documented zero tolerance"""
    return const(Fraction(1, 1 << (25 if t == 'double' else 11)))


def near(lab, A, B, r, eps):
    """A reproduces B: exactly when the radius r reaches the tolerance, within twice the radius below it, exactly at radius zero"""
    res = []
    for i, (x, y) in enumerate(zip(A, B)):
        res += [('%s[%d]' % (lab, i), implies(le(eps, r), eq(x, y))), ('%s[%d] at zero radius' % (lab, i), implies(eq(r, C0), eq(x, y))),
                ('%s[%d] below the tolerance' % (lab, i), and_(le(x - y, C2 * r), le(y - x, C2 * r)))]
    return res


def c_from_polar(nm, k, t, et, tol):
    body = vec(k, t, 'V', 'v', 2) + '%s R = -1, T = -1; cartesian_to_polar(V, R, T%s); r[0] = R; th[0] = T; vector<%s,fixed<2>> B; polar_to_cartesian(B, R, T); out(b, B, 2); out(v1, V, 2);' % (et, ', tol' if tol else '', t)
    ps = [P('v', t, 2, mode(k))] + ([P('tol', et, lo=0, hi=1)] if tol else []) + [P('r', et, 1, 'out'), P('th', et, 1, 'out'), P('b', t, 2, 'out'), P('v1', t, 2, 'out')]

    def ens(I, O):
        rr = tm.sqrt(norm2(I.v))
        eps = I.tol if tol else bound(t if t == et else 'float')
        return [('radius', eq(O.r[0], rr)), ('radius sign', le(C0, O.r[0])), ('angle bounds', and_(le(-tm.PI, O.th[0]), le(O.th[0], tm.PI)))] + near('round trip', O.b, I.v, rr, eps) + \
            ([('zero angle below the tolerance', implies(lt(rr, I.tol), eq(O.th[0], C0)))] if tol else []) + veq('vector kept', O.v1, I.v)
    return Case(nm, body, ps, ens, lambda I: [lt(C0, I.tol)] if tol else [], label='polar from Cartesian, %s %s to %s%s' % (k, t, et, ' with tolerance' if tol else ''), opts=flt(t, et))


def c_from_cyl(nm, k, t, et, form):
    call = {'': 'cartesian_to_cylindrical(V, ax, R, T, H);', 'tol': 'cartesian_to_cylindrical(V, ax, R, T, H, tol);', 'old': 'cartesian_to_cylindrical(V, R, T, H, ax);', 'oldtol': 'cartesian_to_cylindrical(V, R, T, H, ax, tol);'}[form]
    tol = 'tol' in form
    body = vec(k, t, 'V', 'v', 3) + '%s R = -1, T = -1, H = -1; %s r[0] = R; th[0] = T; h[0] = H; vector<%s,fixed<3>> B; cylindrical_to_cartesian(B, ax, R, T, H); out(b, B, 3); out(v1, V, 3);' % (et, call, t)
    ps = [P('v', t, 3, mode(k)), P('ax', 'int', lo=0, hi=2)] + ([P('tol', et, lo=0, hi=1)] if tol else []) + [P('r', et, 1, 'out'), P('th', et, 1, 'out'), P('h', et, 1, 'out'), P('b', t, 3, 'out'), P('v1', t, 3, 'out')]

    def ens(I, O):
        eps = I.tol if tol else bound(t if t == et else 'float')
        res = [('radius sign', le(C0, O.r[0])), ('angle bounds', and_(le(-tm.PI, O.th[0]), le(O.th[0], tm.PI)))] + veq('vector kept', O.v1, I.v)

        def f(a):
            i, j, kk = perm(a)
            rr = tm.sqrt(I.v[j] * I.v[j] + I.v[kk] * I.v[kk])
            return [('radius', eq(O.r[0], rr)), ('height', eq(O.h[0], I.v[i]))] + near('round trip', O.b, I.v, rr, eps) + ([('zero angle below the tolerance', implies(lt(rr, I.tol), eq(O.th[0], C0)))] if tol else [])
        return res + by_axis(I, '', f)
    return Case(nm, body, ps, ens, lambda I: [in_range(I.ax, 0, 2)] + ([lt(C0, I.tol)] if tol else []), label='cylindrical from Cartesian, %s %s to %s %s' % (k, t, et, form), opts=flt(t, et))


def c_from_sph(nm, k, t, et, form, lat):
    L = 'latitude' if lat else 'colatitude'
    call = {'': 'cartesian_to_spherical(V, ax, %s, R, T, H);', 'tol': 'cartesian_to_spherical(V, ax, %s, R, T, H, tol);', 'old': 'cartesian_to_spherical(V, R, T, H, ax, %s);', 'oldtol': 'cartesian_to_spherical(V, R, T, H, ax, %s, tol);'}[form] % L
    tol = 'tol' in form
    body = vec(k, t, 'V', 'v', 3) + '%s R = -1, T = -1, H = -1; %s r[0] = R; th[0] = T; ph[0] = H; vector<%s,fixed<3>> B; spherical_to_cartesian(B, ax, %s, R, T, H); out(b, B, 3); out(v1, V, 3);' % (et, call, t, L)
    ps = [P('v', t, 3, mode(k)), P('ax', 'int', lo=0, hi=2)] + ([P('tol', et, lo=0, hi=1)] if tol else []) + [P('r', et, 1, 'out'), P('th', et, 1, 'out'), P('ph', et, 1, 'out'), P('b', t, 3, 'out'), P('v1', t, 3, 'out')]

    def ens(I, O):
        eps = I.tol if tol else bound(t if t == et else 'float')
        rr = tm.sqrt(norm2(I.v))
        ph = O.ph[0]
        res = [('radius', eq(O.r[0], rr)), ('radius sign', le(C0, O.r[0])), ('angle bounds', and_(le(-tm.PI, O.th[0]), le(O.th[0], tm.PI))),
               ('elevation bounds', and_(le(-tm.PI, C2 * ph), le(C2 * ph, tm.PI)) if lat else and_(le(C0, ph), le(ph, tm.PI)))] + veq('vector kept', O.v1, I.v)

        def f(a):
            i, j, kk = perm(a)
            ln = tm.sqrt(I.v[j] * I.v[j] + I.v[kk] * I.v[kk])
            out = []
            for q, (x, y) in enumerate(zip(O.b, I.v)):
                out += [('round trip[%d]' % q, implies(and_(le(eps, rr), or_(le(eps, ln), eq(ln, C0))), eq(x, y))),
                        ('round trip[%d] near the axis' % q, implies(le(eps, rr), and_(le(x - y, C2 * ln), le(y - x, C2 * ln)))),
                        ('round trip[%d] near the origin' % q, and_(le(x - y, C2 * rr), le(y - x, C2 * rr)))]
            if tol:
                out += [('zero angle on the axis', implies(lt(ln, I.tol), eq(O.th[0], C0))), ('zero elevation at the origin', implies(lt(rr, I.tol), eq(ph, C0)))]
            return out
        return res + by_axis(I, '', f)
    return Case(nm, body, ps, ens, lambda I: [in_range(I.ax, 0, 2)] + ([lt(C0, I.tol)] if tol else []), label='spherical (%s) from Cartesian, %s %s to %s %s' % (L, k, t, et, form), opts=flt(t, et))


BAD = {'cyl': 'vector<double,fixed<3>> V; cylindrical_to_cartesian(V, ax, 1., 2., 3.);', 'sph': 'vector<double,fixed<3>> V; spherical_to_cartesian(V, ax, latitude, 1., 2., 3.);',
       'fcyl': 'vector<double,fixed<3>> V(1,2,3); double a, b, c; cartesian_to_cylindrical(V, ax, a, b, c);', 'fsph': 'vector<double,fixed<3>> V(1,2,3); double a, b, c; cartesian_to_spherical(V, ax, colatitude, a, b, c);',
       'ocyl': 'vector<double,fixed<3>> V(1,2,3); double a, b, c; cartesian_to_cylindrical(V, a, b, c, ax);', 'osph': 'vector<double,fixed<3>> V(1,2,3); double a, b, c; cartesian_to_spherical(V, a, b, c, ax, colatitude);'}


def c_bad(nm, fn):
    return Case(nm, 'ok[0] = 0; %s ok[0] = 1;' % BAD[fn], [P('ax', 'int', lo=-2, hi=4), P('ok', 'int', 1, 'out')], lambda I, O: [('runs', is_val(O.ok[0], 1))], throws=lambda I: [('@_ZTISt16invalid_argument', not_(in_range(I.ax, 0, 2)))],
                label='axis argument of %s' % fn)


SIZED = {'polar': ('polar_to_cartesian(V, 1., 2.);', 2), 'cyl': ('cylindrical_to_cartesian(V, 1, 1., 2., 3.);', 3), 'sph': ('spherical_to_cartesian(V, 2, latitude, 1., 2., 3.);', 3),
         'fpolar': ('double a, b; cartesian_to_polar(V, a, b);', 2), 'fcyl': ('double a, b, c; cartesian_to_cylindrical(V, 0, a, b, c);', 3), 'fsph': ('double a, b, c; cartesian_to_spherical(V, 1, latitude, a, b, c);', 3)}


def c_size(nm, fn, k):
    call, n = SIZED[fn]
    decl = ('dynamic<>', '(n); V.zero()') if k == 'dyn' else ('external<>', '(vb, n)')
    body = 'double vb[5] = {}; vector<double,%s> V%s; ok[0] = 0; %s ok[0] = 1;' % (decl + (call,))
    return Case(nm, body, [P('n', 'int', lo=1, hi=5), P('ok', 'int', 1, 'out')], lambda I, O: [('runs', is_val(O.ok[0], 1))], lambda I: [in_range(I.n, 1, 5)], throws=lambda I: [(VSIZE, not_(is_val(I.n, n)))],
                label='size of the vector of %s, %s' % (fn, k))


def units(tier):
    cs = []
    n = [0]

    def add(f, *a):
        n[0] += 1
        cs.append(f('c21_%s_%d' % (f.__name__, n[0]), *a))
    K = ('fix', 'dyn', 'ext', 'dext')
    for k in K:
        for t in ('double', 'float'):
            add(c_to, k, t, t)
    add(c_to_mixed, 'double', 'float', 'double', 'float')
    add(c_to_mixed, 'double', 'int', 'double', 'double')
    add(c_to_mixed, 'float', 'int', 'float', 'double')
    KR = K + ('cext', 'cdext')
    for i, k in enumerate(KR):
        for t in ('double', 'float'):
            for tol in (False, True):
                add(c_from_polar, k, t, t, tol)
            for j, form in enumerate(('', 'tol', 'old', 'oldtol')):
                if tier == 'thorough' or (i + j) % 2 == 0 or k == 'fix':
                    add(c_from_cyl, k, t, t, form)
                if tier == 'thorough' or (i + j) % 2 == 1 or k == 'fix':
                    for lat in (True, False):
                        add(c_from_sph, k, t, t, form, lat)
    add(c_from_polar, 'fix', 'float', 'double', False)
    add(c_from_cyl, 'fix', 'float', 'double', '')
    add(c_from_sph, 'fix', 'double', 'float', '', True)
    for fn in BAD:
        add(c_bad, fn)
    for i, fn in enumerate(SIZED):
        for k in ('dyn', 'dext'):
            add(c_size, fn, k)
    return chunks('c21', cs, 6)
