"""C17: conversions between rotation representations"""
import math
from contracts.common import *
from contracts.c13 import CONF, Q4
from contracts.c15 import TARGETS, target, emb, linear, proper, unit
from contracts.c16 import place

META = {'level': 'proof'}


def c_m2q(nm, t, T, o, x):
    """matrix -> quaternion -> matrix, every branch"""
    k, r, c, b, l = T
    body = target(t, T) + qtype(t, o, x) + ''' Q; quaternion_rotation_matrix(Q, M); outq(q, Q); outm(m1, M, %(r)d, %(c)d); %(B)s
  matrix_rotation_quaternion(N, Q); outm(n, N, %(r)d, %(c)d);''' % dict(r=r, c=c, B=target(t, T, 'N'))
    ps = [P('m', t, (r, c)), P('g', t, 4, gen='unit'), Q4('q', t), P('m1', t, (r, c), 'out'), P('n', t, (r, c), 'out')]

    def ens(I, O):
        R = qrot(I.g)
        # the same rotation: q = g or q = -g, i.e. all products agree
        res = [('same rotation up to sign (%d,%d)' % (i, j), eq(O.q[i] * O.q[j], I.g[i] * I.g[j])) for i in range(4) for j in range(i, 4)]
        return res + [('unit', eq(norm2(O.q), const(1)))] + meq('matrix of the quaternion', O.n, emb(R, T)) + meq('matrix kept', O.m1, I.m)
    return Case(nm, body, ps, ens, lambda I: [unit(I.g)] + [f for _, f in meq('', linear(I.m, b), qrot(I.g))],
                opts={'fill': lambda I: {'m': place(qrot(I.g), T)}}, label='matrix to quaternion, %s %s %s %s' % (t, T, o, x))


def c_m2a(nm, t, T, vk, zero):
    """matrix -> axis and angle; zero: 1 exact identity, -1 exact half turn, 0 everything whose axis exceeds the tolerance"""
    k, r, c, b, l = T
    A = {'fix': 'vector<%s,fixed<3>> A;', 'dyn': 'vector<%s,dynamic<>> A(2);', 'ext': '%s ab[3]; vector<%s,external<3>> A(ab);', 'dext': '%s ab[3]; vector<%s,external<>> A(ab, 3);'}[vk]
    body = target(t, T) + (A % ((t,) * A.count('%s'))) + ''' %(t)s an; matrix_to_axis_angle(M, A, an, tol); outn(a, A); w[0] = an; z[0] = A.size();
  auto p = matrix_to_axis_angle(M, tol); out(a2, std::get<0>(p), 3); w[1] = std::get<1>(p); outm(m1, M, %(r)d, %(c)d);''' % dict(t=t, r=r, c=c)
    ps = [P('m', t, (r, c)), P('u', t, 3, gen='unit'), P('g', t, 2, gen='unit'), P('tol', t, lo=1e-4, hi=1e-3), P('a', t, 3, 'out'), P('a2', t, 3, 'out'), P('w', t, 2, 'out'), P('z', 'int', 1, 'out'),
          P('m1', t, (r, c), 'out')]

    def R(I):
        return rot_axis(I.u, *((const(zero), const(0)) if zero else (I.g[0], I.g[1])))

    def ens(I, O):
        res = veq('tuple form axis', O.a2, O.a) + [('tuple form angle', eq(O.w[0], O.w[1])), ('size', is_val(O.z[0], 3))] + meq('matrix kept', O.m1, I.m)
        if zero == 1:
            return res + veq('zero axis', O.a, [const(0)] * 3) + [('zero angle', eq(O.w[0], const(0)))]
        cs, sn = tm.cos(O.w[0]), tm.sin(O.w[0])
        # the rotation by the result is the rotation that was given: cos, sin * axis and axis (x) axis determine it
        if zero == 0:
            res += [('cosine', eq(cs, I.g[0]))] + veq('sine * axis', vscale(sn, O.a), vscale(I.g[1], I.u))
        else:
            res += [('cosine', eq(cs, const(-1)))]
        res += [('axis products (%d,%d)' % (i, j), eq(O.a[i] * O.a[j], I.u[i] * I.u[j])) for i in range(3) for j in range(i, 3)]
        res += [('unit axis', eq(norm2(O.a), const(1))), ('angle >= 0', le(const(0), O.w[0])), ('angle <= pi', le(O.w[0], tm.PI if hasattr(tm, 'PI') else tm.app('pi')))]
        return res

    def req(I):
        q = [unit(I.u), ge(I.tol, const(0))] + [f for _, f in meq('', linear(I.m, b), R(I))]
        if not zero:
            q += [unit(I.g), gt(4 * I.g[1] * I.g[1], I.tol * I.tol)]
        return q
    return Case(nm, body, ps, ens, req, opts={'fill': lambda I: {'m': place(R(I), T)}}, label='matrix to axis angle%s, %s %s %s' % ({0: '', 1: ' of the identity', -1: ' of half turns'}[zero], t, T, vk))


def c_q2a(nm, t, o, x, vk, zero):
    A = {'fix': 'vector<%s,fixed<3>> A;', 'dyn': 'vector<%s,dynamic<>> A(2);', 'ext': '%s ab[3]; vector<%s,external<3>> A(ab);', 'dext': '%s ab[3]; vector<%s,external<>> A(ab, 3);'}[vk]
    body = quat('Q', 'q', t, o, x) + (A % ((t,) * A.count('%s'))) + ''' %(t)s an; quaternion_to_axis_angle(Q, A, an, tol); outn(a, A); w[0] = an; z[0] = A.size(); outq(q1, Q);
  auto p = quaternion_to_axis_angle(Q, tol); out(a2, std::get<0>(p), 3); w[1] = std::get<1>(p); %(Q)s B; quaternion_rotation_axis_angle(B, A, an); outq(b, B);''' % dict(t=t, Q=qtype(t, o, x))
    ps = [P('q', t, 4, gen='unit' if not zero else None), P('tol', t, lo=1e-4, hi=1e-3), P('a', t, 3, 'out'), P('a2', t, 3, 'out'), P('w', t, 2, 'out'), P('z', 'int', 1, 'out'), Q4('q1', t), Q4('b', t)]

    def ens(I, O):
        res = veq('tuple form axis', O.a2, O.a) + [('tuple form angle', eq(O.w[0], O.w[1])), ('size', is_val(O.z[0], 3))] + veq('quaternion kept', O.q1, I.q)
        if zero:
            return res + veq('zero axis', O.a, [const(0)] * 3) + [('zero angle', eq(O.w[0], const(0)))] + veq('identity', O.b, [const(1)] + [const(0)] * 3)
        cs, sn = tm.cos(O.w[0] / 2), tm.sin(O.w[0] / 2)
        res += [('half cosine', eq(cs, I.q[0]))] + veq('half sine * axis', vscale(sn, O.a), I.q[1:]) + [('unit axis', eq(norm2(O.a), const(1)))]
        res += [('angle > 0', lt(const(0), O.w[0])), ('angle < 2 pi', lt(O.w[0], 2 * tm.app('pi')))] + veq('round trip', O.b, I.q)
        return res

    def req(I):
        q = [unit(I.q), ge(I.tol, const(0))]
        l = tm.sqrt(norm2(I.q[1:]))
        return q + ([le(l, I.tol)] if zero else [gt(l, I.tol)])
    return Case(nm, body, ps, ens, req, opts={'fill': (lambda I: {'q': [tm.sqrt(const(1) - const(0.25) * I.tol * I.tol), I.tol / 2, const(0), const(0)]}) if zero else None},
                label='quaternion to axis angle%s, %s %s %s %s' % (' below the tolerance' if zero else '', t, o, x, vk))


def c_trip(nm, t, T, o, x):
    """quaternion -> matrix -> quaternion, and the basis vectors of a quaternion"""
    k, r, c, b, l = T
    body = target(t, T) + quat('Q', 'q', t, o, x) + qtype(t, o, x) + ''' R; matrix_rotation_quaternion(M, Q); quaternion_rotation_matrix(R, M); outq(p, R);
  vector<%(t)s,fixed<3>> X, Y, Z; quaternion_get_basis_vectors(Q, X, Y, Z); out(x, X, 3); out(y, Y, 3); out(z, Z, 3);
  auto B = quaternion_get_basis_vector(Q, ax); out(w, B, 3); auto X1 = quaternion_get_x_basis_vector(Q); auto Y1 = quaternion_get_y_basis_vector(Q); auto Z1 = quaternion_get_z_basis_vector(Q);
  out(x1, X1, 3); out(y1, Y1, 3); out(z1, Z1, 3); outq(q1, Q);''' % dict(t=t)
    ps = [P('m', t, (r, c)), P('q', t, 4, gen='unit'), P('ax', 'int', lo=0, hi=2), Q4('p', t), Q4('q1', t)] + [P(n, t, 3, 'out') for n in ('x', 'y', 'z', 'w', 'x1', 'y1', 'z1')]

    def ens(I, O):
        C = tr(qrot(I.q))
        res = [('same rotation up to sign (%d,%d)' % (i, j), eq(O.p[i] * O.p[j], I.q[i] * I.q[j])) for i in range(4) for j in range(i, 4)] + [('unit', eq(norm2(O.p), const(1)))]
        for i, n in enumerate('xyz'):
            res += veq(n + ' basis vector', O[n], C[i]) + veq(n + ' basis vector alone', O[n + '1'], C[i]) + [('by index %d %s' % (i, lb), implies(is_val(I.ax, i), f)) for lb, f in veq('', O.w, C[i])]
        return res + veq('quaternion kept', O.q1, I.q)
    return Case(nm, body, ps, ens, lambda I: [unit(I.q), in_range(I.ax, 0, 2)], label='quaternion to matrix and back, basis vectors, %s %s %s %s' % (t, T, o, x))


def c_basis_bad(nm, o, x):
    body = quat('Q', 'q', 'double', o, x) + 'auto B = quaternion_get_basis_vector(Q, ax); out(w, B, 3);'
    ps = [P('q', 'double', 4), P('ax', 'int', lo=-3, hi=5), P('w', 'double', 3, 'out')]
    return Case(nm, body, ps, None, throws=lambda I: [('@_ZTISt16invalid_argument', not_(in_range(I.ax, 0, 2)))], label='quaternion basis vector, wrong index, %s %s' % (o, x))


def c_round(nm, t, T, o, x):
    """with the default tolerance and machine rounding, every representation rebuilds the rotation, in particular at half turns and gimbal lock (native runs)"""
    k, r, c, b, l = T
    body = target(t, T) + target(t, T, 'N') + vec('fix', t, 'U', 'u', 3) + qtype(t, o, x) + ''' Q, R; vector<%(t)s,fixed<3>> A; %(t)s an, f, g, h;
  matrix_rotation_axis_angle(M, U, w); outm(m, M, %(r)d, %(c)d); matrix_to_axis_angle(M, A, an); matrix_rotation_axis_angle(N, A, an); outm(n0, N, %(r)d, %(c)d);
  quaternion_rotation_matrix(Q, M); matrix_rotation_quaternion(N, Q); outm(n1, N, %(r)d, %(c)d); quaternion_to_axis_angle(Q, A, an); matrix_rotation_axis_angle(N, A, an); outm(n2, N, %(r)d, %(c)d);
  quaternion_rotation_axis_angle(R, U, w); matrix_rotation_quaternion(N, R); outm(n3, N, %(r)d, %(c)d);
  matrix_to_euler(M, f, g, h, euler_order(ord)); matrix_rotation_euler(N, f, g, h, euler_order(ord)); outm(n4, N, %(r)d, %(c)d);
  quaternion_to_euler(R, f, g, h, euler_order(ord)); quaternion_rotation_euler(Q, f, g, h, euler_order(ord)); matrix_rotation_quaternion(N, Q); outm(n5, N, %(r)d, %(c)d);''' % dict(t=t, r=r, c=c)

    def gu(rng):
        v = [rng.choice((0.0, 0.0, 1.0, -1.0, 0.7071067811865476, rng.gauss(0, 1), 1e-9, 1e-17)) for _ in range(3)]
        s = math.sqrt(sum(y * y for y in v))
        return [y / s for y in v] if s > 1e-6 else [1.0, 0.0, 0.0]

    def ga(rng):
        return [rng.choice((0, 1, -1, 2, 0.5, -0.5, 1.0 / 3, rng.uniform(-1, 1))) * math.pi + rng.choice((0, 1, -1)) * rng.choice((0, 1e-16, 1e-15, 1e-12, 1e-9, 1e-5))]
    ps = [P('m0', t, (r, c)), P('u', t, 3, gen=gu), P('w', t, gen=ga), P('ord', 'int', lo=0, hi=11), P('m', t, (r, c), 'out')] + [P('n%d' % i, t, (r, c), 'out') for i in range(6)]
    body = body.replace('ldm(M,m,', 'ldm(M,m0,').replace('ldm(N,m,', 'ldm(N,m0,')
    tol = const(1e-9 if t == 'double' else 1e-5)
    names = ('axis angle of the matrix', 'quaternion of the matrix', 'axis angle of the quaternion', 'quaternion of axis angle', 'euler angles of the matrix', 'euler angles of the quaternion')

    def ens(I, O):
        flat = lambda M: sum(linear(M, b), [])
        return [('test: %s rebuilds' % n, le(norm2(vsub(flat(O['n%d' % i]), flat(O.m))), tol)) for i, n in enumerate(names)]
    return Case(nm, body, ps, ens, lambda I: [le(norm2(I.u), const(1.001)), le(const(0.999), norm2(I.u))], level='tested', label='conversions under rounding, %s %s %s %s' % (t, T, o, x))


def units(tier):
    cs = []
    n = [0]

    def add(f, *a):
        n[0] += 1
        cs.append(f('c17_%s_%d' % (f.__name__, n[0]), *a))
    VK = ('fix', 'dyn', 'ext', 'dext')
    for i, T in enumerate(TARGETS):
        o, x = CONF[i % 4]
        add(c_m2q, ('double', 'float')[i % 5 == 4], T, o, x)
        add(c_trip, ('double', 'float')[i % 5 == 3], T, *CONF[(i + 1) % 4])
        for z in (0, 1, -1):
            add(c_m2a, ('double', 'float')[i % 5 == 2], T, VK[i % 4], z)
        add(c_round, ('double', 'float')[i % 2], T, *CONF[(i + 2) % 4])
    for i, (o, x) in enumerate(CONF):
        for t in ('double', 'float'):
            for z in (0, 1):
                add(c_q2a, t, o, x, VK[(i + (t == 'float')) % 4], z)
        add(c_basis_bad, o, x)
    return chunks('c17', cs, 4)
