"""C16: Euler angle rotations, derivatives and extraction"""
from contracts.common import *
from contracts.c13 import CONF, Q4
from contracts.c15 import TARGETS, target, emb, linear, proper, unit

META = {'level': 'proof'}

ORDERS = ['xyz', 'xyx', 'xzy', 'xzx', 'yzx', 'yzy', 'yxz', 'yxy', 'zxy', 'zxz', 'zyx', 'zyz']
PROPER = [o for o in ORDERS if o[0] != o[2]]


def axes(o):
    return ['xyz'.index(ch) for ch in o]


def euler(o, cs):
    """composition in the order of the name (first axis applied first), acting on columns; cs = [(c,s)]*3"""
    R = ident(3)
    for ax, (c, s) in zip(axes(o), cs):
        R = mm(rot_world(ax, c, s), R)
    return R


def drot(ax, c, s):
    """derivative of rot_world by the angle"""
    j, k = (ax + 1) % 3, (ax + 2) % 3
    z = const(0)
    D = [[z] * 3 for _ in range(3)]
    D[j][j] = D[k][k] = -s
    D[j][k], D[k][j] = -c, c
    return D


def CS(an):
    return [(tm.cos(a), tm.sin(a)) for a in an]


def c_euler(nm, t, T, o, vk):
    k, r, c, b, l = T
    body = target(t, T) + vec(vk, t, 'E', 'a', 3) + '''
  matrix_rotation_euler(M, a[0], a[1], a[2], euler_order_%(o)s); outm(o, M, %(r)d, %(c)d); matrix_rotation_euler(M, E, euler_order_%(o)s); outm(p, M, %(r)d, %(c)d);
  matrix_rotation_euler(M, E + E, euler_order_%(o)s); outm(p2, M, %(r)d, %(c)d); out(a1, E, 3);''' % dict(o=o, r=r, c=c)
    ps = [P('m', t, (r, c)), P('a', t, 3, gen='angle'), P('o', t, (r, c), 'out'), P('p', t, (r, c), 'out'), P('p2', t, (r, c), 'out'), P('a1', t, 3, 'out')]

    def ens(I, O):
        R = emb(euler(o, CS(I.a)), T)
        return meq('rotation', O.o, R) + meq('rotation (vector)', O.p, R) + meq('rotation (expression)', O.p2, emb(euler(o, CS([x + x for x in I.a])), T)) + \
            veq('angles kept', O.a1, I.a) + proper('rotation', linear(O.o, b))
    return Case(nm, body, ps, ens, label='euler matrix %s, %s %s' % (o, t, T))


def c_deriv(nm, t, T, o, vk):
    k, r, c, b, l = T
    body = target(t, T) + vec(vk, t, 'E', 'a', 3) + '''
  matrix_rotation_euler_derivatives(M, ax, a[0], a[1], a[2], euler_order_%(o)s); outm(o, M, %(r)d, %(c)d); matrix_rotation_euler_derivatives(M, ax, E, euler_order_%(o)s); outm(p, M, %(r)d, %(c)d);
  ''' % dict(o=o, r=r, c=c)
    ps = [P('m', t, (r, c)), P('a', t, 3, gen='angle'), P('ax', 'int', lo=0, hi=2), P('o', t, (r, c), 'out'), P('p', t, (r, c), 'out')]

    def ens(I, O):
        cs = CS(I.a)
        res = []
        for d in range(3):
            R = ident(3)
            for n, ax in enumerate(axes(o)):
                R = mm(drot(ax, *cs[n]) if n == d else rot_world(ax, *cs[n]), R)
            for lab, X in (('derivative', O.o), ('derivative (vector)', O.p)):
                res += [('by angle %d: %s' % (d, lb), implies(is_val(I.ax, d), f)) for lb, f in meq(lab, linear(X, b), R)]
        return res
    return Case(nm, body, ps, ens, lambda I: [in_range(I.ax, 0, 2)], label='euler derivative %s, %s %s' % (o, t, T))


def c_deriv_bad(nm, T, o):
    body = target('double', T) + 'matrix_rotation_euler_derivatives(M, ax, a[0], a[1], a[2], euler_order_%s);' % o
    ps = [P('m', 'double', (T[1], T[2])), P('a', 'double', 3, gen='angle'), P('ax', 'int', lo=-2, hi=4)]
    rep = o[0] == o[2]
    return Case(nm, body, ps, None, throws=lambda I: [('@_ZTISt16invalid_argument', tm.TRUE if rep else not_(in_range(I.ax, 0, 2)))],
                label='euler derivative of %s with a wrong axis, %s' % (o, T))


def qeuler(o, cs):
    q = None
    for ax, (c, s) in zip(axes(o), cs):
        e = [c] + [s if j == ax else const(0) for j in range(3)]
        q = e if q is None else qmul(e, q)
    return q


def c_quat(nm, t, od, x, o, vk):
    body = quat('Q', 'q', t, od, x) + vec(vk, t, 'E', 'a', 3) + '''
  quaternion_rotation_euler(Q, a[0], a[1], a[2], euler_order_%(o)s); outq(o, Q); Q = Q + Q; quaternion_rotation_euler(Q, E, euler_order_%(o)s); outq(p, Q); out(a1, E, 3);''' % dict(o=o)
    ps = [P('q', t, 4), P('a', t, 3, gen='angle'), Q4('o', t), Q4('p', t), P('a1', t, 3, 'out')]

    def ens(I, O):
        q = qeuler(o, CS([a / 2 for a in I.a]))
        return veq('quaternion', O.o, q) + veq('quaternion (vector)', O.p, q) + veq('angles kept', O.a1, I.a) + [('lemma: unit length', eq(norm2(O.o), const(1)))]
    return Case(nm, body, ps, ens, label='euler quaternion %s, %s %s %s' % (o, t, od, x))


def lock(R, o):
    """quantity that vanishes at gimbal lock, squared (R acts on columns)"""
    i, j, k = axes(o)[0], axes(o)[1], 3 - axes(o)[0] - axes(o)[1]
    # basis_element(p, q) = component q of the image of axis p
    be = lambda p, q: R[q][p]
    return be(j, i) * be(j, i) + be(k, i) * be(k, i) if o[0] == o[2] else be(i, i) * be(i, i) + be(i, j) * be(i, j)


def place(R, T):
    """flat elements of a target matrix that holds the rotation R (None: unconstrained)"""
    k, r, c, b, l = T
    R = tr(R) if b == 'row' else R
    return [R[i][j] if i < len(R) and j < len(R) else None for i in range(r) for j in range(c)]


def c_extract(nm, t, T, o, zero, par):
    """angles taken from a rotation matrix rebuild it; zero: exactly at gimbal lock"""
    k, r, c, b, l = T
    body = target(t, T) + '''
  matrix_to_euler(M, a[0], a[1], a[2], euler_order_%(o)s, tol); outm(m1, M, %(r)d, %(c)d);
  auto v = matrix_to_euler(M, euler_order_%(o)s, tol); out(b, v, 3); auto w = matrix_to_euler<vector<%(t)s,dynamic<>>>(M, euler_order_%(o)s, tol); out(c, w, 3); c[3] = w.size();''' % dict(o=o, r=r, c=c, t=t)
    ps = [P('m', t, (r, c)), P('tol', t, lo=1e-4, hi=0.01), P('a', t, 3, 'out'), P('b', t, 3, 'out'), P('c', t, 4, 'out'), P('m1', t, (r, c), 'out')]
    ps[:0] = [P('g', t, 2, gen='unit')] if zero else [P('g%d' % d, t, 2, gen='unit') for d in range(3)] if par else [P('g', t, 4, gen='unit')]

    def ens(I, O):
        return meq('rebuilt', linear(I.m, b), euler(o, CS(O.a))) + veq('vector form', O.b, O.a) + veq('dynamic vector form', O.c[:3], O.a) + [('size', eq(O.c[3], const(3)))] + \
            meq('matrix kept', O.m1, I.m)

    def req(I):
        # every rotation matrix is that of a unit quaternion g; at gimbal lock the second angle is fixed and the outer two act about one axis
        if zero:
            e = const(zero)
            R = euler(o, [(const(1), const(0)), (e, const(0)) if o[0] == o[2] else (const(0), e), (I.g[0], I.g[1])])
            return [unit(I.g), ge(I.tol, const(0))] + [f for _, f in meq('', linear(I.m, b), R)], R
        if par:   # the same statement, for rotation matrices given by their (cosine, sine) pairs
            gs = [I.g0, I.g1, I.g2]
            R = euler(o, gs)
            return [unit(g) for g in gs] + [gt(I.g1[o[0] == o[2]], I.tol), ge(I.tol, const(0))] + [f for _, f in meq('', linear(I.m, b), R)], R
        R = qrot(I.g)
        return [unit(I.g), ge(I.tol, const(0)), gt(tm.sqrt(lock(linear(I.m, b), o)), I.tol)] + [f for _, f in meq('', linear(I.m, b), R)], R
    def fill(I):
        R = req(I)[1]
        return {'m': place(R, T)}
    return Case(nm, body, ps, ens, lambda I: req(I)[0], opts={'fill': fill}, label='euler angles of a matrix %s%s, %s %s' % (o, ' at gimbal lock' if zero else '', t, T))


def c_near(nm, t, T, o):
    """within the tolerance of gimbal lock the rebuilt rotation deviates by no more than a small multiple of it (native runs)"""
    k, r, c, b, l = T
    body = target(t, T) + "matrix_to_euler(M, a[0], a[1], a[2], euler_order_%s, tol);" % o
    ps = [P('m', t, (r, c)), P('tol', t, lo=1e-4, hi=0.01), P('a', t, 3, 'out'), P('g0', t, 2, gen='unit'), P('g2', t, 2, gen='unit'), P('e', t, lo=-1, hi=1), P('sg', 'int', lo=0, hi=1)]

    def R(I):
        z = I.e * I.tol
        h = tm.sqrt(const(1) - z * z)
        h = ite(is_val(I.sg, 1), h, -h)
        return euler(o, [I.g0, (h, z) if o[0] == o[2] else (z, h), I.g2])

    def ens(I, O):
        D = [x - y for p, q in zip(linear(I.m, b), euler(o, CS(O.a))) for x, y in zip(p, q)]
        return [('test: rebuilt within tolerance', le(norm2(D), const(40) * I.tol * I.tol))]
    return Case(nm, body, ps, ens, lambda I: [unit(I.g0), unit(I.g2), le(const(-1), I.e), le(I.e, const(1)), ge(I.tol, const(0)), le(I.tol, const(0.1))] +
                [f for _, f in meq('', linear(I.m, b), R(I))], opts={'fill': lambda I: {'m': place(R(I), T)}}, level='tested', label='euler angles near gimbal lock %s, %s %s' % (o, t, T))


def c_mixed(nm, T, o):
    """angles of different types"""
    k, r, c, b, l = T
    body = target('double', T) + """double x; float y; double z; matrix_to_euler(M, x, y, z, euler_order_%(o)s, tol); a[0] = x; a[1] = z;
  { float x; double y; double z; matrix_to_euler(M, x, y, z, euler_order_%(o)s, tol); b[0] = y; b[1] = z; } matrix_to_euler(M, c[0], c[1], c[2], euler_order_%(o)s, tol);""" % dict(o=o)
    ps = [P('m', 'double', (r, c)), P('g', 'double', 4, gen='unit'), P('tol', 'double', lo=1e-4, hi=0.01), P('a', 'double', 2, 'out'), P('b', 'double', 2, 'out'), P('c', 'double', 3, 'out')]
    return Case(nm, body, ps, lambda I, O: [('angles 0 and 2', and_(eq(O.a[0], O.c[0]), eq(O.a[1], O.c[2]))), ('angles 1 and 2', and_(eq(O.b[0], O.c[1]), eq(O.b[1], O.c[2])))],
                lambda I: [ge(I.tol, const(0))], opts={'fill': lambda I: {'m': place(qrot(I.g), T)}, 'float': True, 'eps': 1e-10}, label='euler angles of several types %s, %s' % (o, T))


def c_qextract(nm, t, od, x, o):
    """the angles of a unit quaternion are those of its matrix (whose extraction is proved above)"""
    body = quat('Q', 'q', t, od, x) + """
  quaternion_to_euler(Q, a[0], a[1], a[2], euler_order_%(o)s, tol); outq(q1, Q); matrix<%(t)s,fixed<3,3>> M; matrix_rotation_quaternion(M, Q); matrix_to_euler(M, d[0], d[1], d[2], euler_order_%(o)s, tol);
  auto v = quaternion_to_euler(Q, euler_order_%(o)s, tol); out(b, v, 3); auto w = quaternion_to_euler<vector<%(t)s,dynamic<>>>(Q, euler_order_%(o)s, tol); out(c, w, 3); c[3] = w.size();""" % dict(o=o, t=t)
    ps = [P('q', t, 4, gen='unit'), P('tol', t, lo=1e-3, hi=0.01)] + [P(n, t, 3, 'out') for n in 'abd'] + [P('c', t, 4, 'out'), Q4('q1', t)]

    def ens(I, O):
        D = [x - y for p, q in zip(qrot(I.q), euler(o, CS(O.a))) for x, y in zip(p, q)]
        return veq('angles of the matrix', O.a, O.d) + veq('vector form', O.b, O.a) + veq('dynamic vector form', O.c[:3], O.a) + [('size', eq(O.c[3], const(3)))] + \
            veq('quaternion kept', O.q1, I.q) + [('test: rebuilt', le(norm2(D), const(40) * I.tol * I.tol))]
    return Case(nm, body, ps, ens, lambda I: [unit(I.q), ge(I.tol, const(0))], label='euler angles of a quaternion %s, %s %s %s' % (o, t, od, x))


def units(tier):
    cs = []
    n = [0]

    def add(f, *a):
        n[0] += 1
        cs.append(f('c16_%s_%d' % (f.__name__, n[0]), *a))
    VK = ('fix', 'dyn', 'ext', 'dext', 'cext')
    for i, o in enumerate(ORDERS):
        for j, T in enumerate(TARGETS if tier == 'thorough' else [TARGETS[(i + d) % len(TARGETS)] for d in (0, 3, 7)]):
            add(c_euler, ('double', 'float')[j == 1], T, o, VK[(i + j) % 5])
            if o in PROPER:
                add(c_deriv, ('double', 'float')[j == 2], T, o, VK[(i + j) % 5])
        add(c_deriv_bad, TARGETS[i], o)
        for j, (od, x) in enumerate(CONF):
            add(c_quat, ('double', 'float')[j % 2], od, x, o, VK[(i + j) % 5])
        add(c_near, 'double', TARGETS[i], o)
        add(c_mixed, TARGETS[i], o)
        for j in range(4 if tier == 'thorough' else 2):
            add(c_qextract, ('double', 'float')[j % 2], *CONF[(i + j) % 4], o)
        for z in (0, 1, -1):
            add(c_extract, 'double', TARGETS[(i + z) % len(TARGETS)], o, z, True)
            if tier == 'thorough' and not z:
                add(c_extract, 'double', TARGETS[(i + z) % len(TARGETS)], o, z, False)
    return chunks('c16', cs, 6)
