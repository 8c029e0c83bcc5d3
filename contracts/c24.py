"""C24: arguments of square roots, inverse cosines and sines, and logarithms stay in their domain under every rounding.
The contract units are those of the geometric properties; here only the domain obligations are judged, for arbitrary
finite elements (no orthonormality or unit length is assumed) and with every floating-point operation rounded arbitrarily
(engine/fpdom.py).  Real comparisons are never decided from exact arithmetic."""
import importlib
import re

from contracts.common import *

META = {'level': 'proof', 'assumptions': [
    'no intermediate result overflows or underflows; rounding is monotone, leaves representable values unchanged, and '
    'sqrt(fl(y*y)) rounds to |y| (radix 2)',
    'the libm sine and cosine stay in [-1,1]',
    'division results are judged only through their effect on the domains above (a zero divisor is excluded by the exact-real '
    'contracts of the other properties)']}
SRC = ['c04', 'c14', 'c16', 'c17', 'c18', 'c19', 'c20', 'c21', 'c22', 'c25']
USE = re.compile(r'length|normaliz|unit|distance|\blog\(|\.log\b|axis_angle|rotation|align|aim|look_at|_angle|angle\(|orthonormal|polar|spherical|cylindrical|planes|quaternion|acos|asin|sqrt|viewport|linear|similarity|rigid|euler')


def derived():
    """(module, unit, case) of every contract unit in reach of a guarded function"""
    for m in SRC:
        mod = importlib.import_module('contracts.' + m)
        for u in mod.units('quick'):
            cs = []
            for c in u.cases:
                if isinstance(c, SizeCase) or c.level == 'tested' or 'logexp' in c.name or not USE.search(c.body):
                    continue
                o = {k: v for k, v in c.opts.items() if k in ('float', 'fptrunc', 'maxdraws', 'noinline', 'random')}
                o.update(fp=True, nonative=True, maxpaths=1500)
                if c.opts.get('soft'):
                    o['soft'] = True
                cs.append(Case(c.name, c.body, c.params, requires=c.requires, ret=c.ret, pre=c.pre, opts=o, level=c.level, label='domains under rounding: ' + c.label))
            if cs:
                yield Unit(m + '_' + u.name, cs, u.includes, u.pre, dict(u.opts))


def c_scalar(nm, t):
    """the guarded functions accept every finite argument"""
    body = 'o[0] = acos_safe(x); o[1] = asin_safe(x); o[2] = sqrt_safe(x); o[3] = length(x, y); o[4] = length(x, y, z);'
    ps = [P('x', t), P('y', t), P('z', t), P('o', t, 5, 'out')]
    return Case(nm, body, ps, opts=dict({'float': True} if t == 'float' else {}, fp=True), label='acos_safe, asin_safe, sqrt_safe, length <%s>' % CPP[t], pre='#include <cmath>\n')


NEAR = r'''
#include <cmath>
#include <cstdint>
struct Lcg { uint64_t s; double u() { s = s * 6364136223846793005ull + 1442695040888963407ull; return double(s >> 11) / 9007199254740992.0 * 2 - 1; } };
template <class T> static bool fin(const T& x) { return std::isfinite(x); }
template <class V> static bool finv(const V& v, int n) { for (int i = 0; i < n; ++i) if (!std::isfinite(v[i])) return false; return true; }
template <class E> static E nudge(E x, int k) { for (; k > 0; --k) x = std::nextafter(x, E(10)); for (; k < 0; ++k) x = std::nextafter(x, E(-10)); return x; }
template <class V> static bool bad1(V& v) { return !(v.length() > 1e-2); }
'''

LOOP = 'using E = %s; Lcg g{seed * 2654435761ull + 12345}; int w = 0; for (int it = 0; it < 300; ++it) { %s } ok[0] = !w;'

BODIES = {
    'scalar': 'E x = nudge(E(it % 2 ? 1 : -1), it % 9 - 4); if (!fin(acos_safe(x)) || !fin(asin_safe(x)) || !fin(sqrt_safe(nudge(E(0), it % 9 - 4))) || !fin(acos_safe(E(g.u() * 50)))) w = 1;',
    'parallel3': '''vector<E,fixed<3>> a(E(g.u()), E(g.u()), E(g.u())); if (bad1(a)) continue; E k = E(g.u() * 3); if (!(std::fabs(k) > 1e-2)) continue; vector<E,fixed<3>> b = a * k, r(E(g.u()), E(g.u()), E(g.u())); if (bad1(r)) continue;
  auto c = a, d = b; c.normalize(); d.normalize();
  if (!fin(unsigned_angle(a, b)) || !fin(unsigned_angle(c, d)) || !fin(signed_angle(a, b, r)) || !fin(signed_angle(c, d, r)) || !fin(acos_safe(dot(c, d))) || !fin(asin_safe(dot(c, d)))) w = 1;''',
    'parallel2': '''vector<E,fixed<2>> a(E(g.u()), E(g.u())); if (bad1(a)) continue; E k = E(g.u() * 3); if (!(std::fabs(k) > 1e-2)) continue; vector<E,fixed<2>> b = a * k; auto c = a, d = b; c.normalize(); d.normalize();
  if (!fin(unsigned_angle_2D(a, b)) || !fin(signed_angle_2D(c, d)) || !fin(unsigned_angle_2D(c, d))) w = 1;''',
    'qlog': '''quaternion<E> q(E(g.u() * 1e-6), E(it % 3 ? 0 : g.u() * 1e-6), E(0), nudge(E(it % 2 ? 1 : -1), it % 7 - 3)); if (it % 4 == 0) { q[0] = E(g.u()); q[1] = E(g.u()); q.normalize(); }
  quaternion<E> l = log(q), e = exp(q); for (int i = 0; i < 4; ++i) if (!fin(l[i]) || !fin(e[i])) w = 1;''',
    'm2a': '''vector<E,fixed<3>> a(E(g.u()), E(g.u()), E(g.u())), x; if (bad1(a)) continue; a.normalize(); E t[] = {E(1e-3), E(3.14159), E(3.1415926535897931), E(1e-7), E(2), E(1.5707963267948966), E(g.u() * 3.2)}; E th = t[it % 7], an;
  matrix<E,fixed<3,3>> M; matrix_rotation_axis_angle(M, a, th); matrix<E,fixed<3,3>> N = M; for (int i = 0; i < 9; ++i) N(i / 3, i % 3) = nudge(N(i / 3, i % 3), int(g.u() * 3));
  matrix_to_axis_angle(N, x, an); if (!finv(x, 3) || !fin(an)) w = 1; matrix_to_axis_angle(M, x, an); if (!finv(x, 3) || !fin(an)) w = 1;
  quaternion<E> q, p; quaternion_rotation_matrix(q, N); quaternion_rotation_axis_angle(p, a, th); for (int i = 0; i < 4; ++i) if (!fin(q[i])) w = 1;
  quaternion_to_axis_angle(q, x, an); if (!finv(x, 3) || !fin(an)) w = 1; quaternion_to_axis_angle(p, x, an); if (!finv(x, 3) || !fin(an)) w = 1;
  E e0, e1, e2; for (int o = 0; o < 2; ++o) { matrix_to_euler(N, e0, e1, e2, o ? euler_order_xyz : euler_order_zxz); if (!fin(e0) || !fin(e1) || !fin(e2)) w = 1; }''',
    'coords': '''E r, t, p, h; vector<E,fixed<3>> v(E(it % 3 ? 0 : g.u()), E(it % 5 ? 0 : g.u()), E(it % 7 ? g.u() : 0)); for (int ax = 0; ax < 3; ++ax) { cartesian_to_spherical(v, r, t, p, ax, it % 2 ? latitude : colatitude); if (!fin(r) || !fin(t) || !fin(p)) w = 1;
  cartesian_to_cylindrical(v, r, t, h, ax); if (!fin(r) || !fin(t) || !fin(h)) w = 1; }''',
    'cone': '''vector<E,fixed<3>> d, n; std::srand(seed + it); random_unit(d); std::srand(seed + it); random_unit(n, d, E(it % 2 ? 1e-3 : 1.5)); if (!finv(n, 3)) w = 1; d = -d; std::srand(seed + it); random_unit(n, d, E(0.5)); if (!finv(n, 3)) w = 1;''',
}


def c_near(nm, what, t):
    return Case(nm, LOOP % (CPP[t], BODIES[what]), [P('seed', 'uint'), P('ok', 'int', 1, 'out')], lambda I, O: [('no NaN near the edge of the domain', is_val(O.ok[0], 1))],
                level='tested', label='%s near the edge of the domain <%s>' % (what, CPP[t]), pre=NEAR)


def units(tier):
    sc = [c_scalar('scalar_%s' % t, t) for t in ('double', 'float')]
    near = [c_near('near_%s_%s' % (w, t), w, t) for w in BODIES for t in ('double', 'float')]
    return [Unit('c24s', sc, pre=PRE)] + chunks('c24n', near, 2) + list(derived())
