"""C15: rotations from axis and angle, quaternion action"""
from contracts.common import *
from contracts.c13 import CONF, Q4

META = {'level': 'proof'}

# storage, shape, basis, layout of the target matrix
TARGETS = [('fix', 3, 3, 'col', 'row'), ('fix', 3, 3, 'row', 'row'), ('fix', 4, 4, 'col', 'col'), ('fix', 4, 4, 'row', 'col'), ('fix', 3, 4, 'col', 'row'),
           ('fix', 4, 3, 'row', 'col'), ('ext', 3, 3, 'row', 'col'), ('ext', 4, 4, 'col', 'row'), ('dyn', 3, 3, 'col', 'col'), ('dyn', 4, 4, 'row', 'row'),
           ('dext', 3, 3, 'row', 'row'), ('dext', 4, 4, 'col', 'col')]


def target(t, T, nm='M', src='m'):
    k, r, c, b, l = T
    return mat(k, t, nm, src, r, c, b, l)


def emb(R, T):
    """the matrix a builder must write: R in the basis orientation of the target, the rest as in the identity"""
    k, r, c, b, l = T
    R = tr(R) if b == 'row' else R
    n = len(R)
    return [[R[i][j] if i < n and j < n else const(1 if i == j else 0) for j in range(c)] for i in range(r)]


def linear(M, b, n=3):
    L = [[M[i][j] for j in range(n)] for i in range(n)]
    return tr(L) if b == 'row' else L


def proper(lab, L):
    n = len(L)
    return meq('lemma: %s orthonormal' % lab, mm(L, tr(L)), ident(n)) + [('lemma: %s determinant' % lab, eq(det(L), const(1)))]


def unit(u):
    return eq(norm2(u), const(1))


def c_world(nm, t, T):
    k, r, c, b, l = T
    body = target(t, T) + 'matrix_rotation_world_axis(M, ax, an); outm(o, M, %d, %d);' % (r, c)
    for i, x in enumerate('xyz'):
        body += '{ %s matrix_rotation_world_%s(M, an); outm(%s, M, %d, %d); }' % (target(t, T), x, x, r, c)
    ps = [P('m', t, (r, c)), P('ax', 'int', lo=0, hi=2), P('an', t, gen='angle'), P('o', t, (r, c), 'out')] + [P(x, t, (r, c), 'out') for x in 'xyz']

    def ens(I, O):
        cs, sn = tm.cos(I.an), tm.sin(I.an)
        res = []
        for i, x in enumerate('xyz'):
            E = emb(rot_world(i, cs, sn), T)
            res += meq('rotation about %s' % x, O[x], E)
            res += [('axis %d %s' % (i, lb), implies(is_val(I.ax, i), f)) for lb, f in meq('', O.o, E)]
            L = linear(O[x], b)
            res += proper('rotation about %s' % x, L)
        return res
    return Case(nm, body, ps, ens, lambda I: [in_range(I.ax, 0, 2)], label='matrix world axis rotation, %s %s' % (t, T))


def c_world_bad(nm, T):
    k, r, c, b, l = T
    body = target('double', T) + 'matrix_rotation_world_axis(M, ax, an);'
    ps = [P('m', 'double', (r, c)), P('ax', 'int', lo=-3, hi=5), P('an', 'double', gen='angle')]
    return Case(nm, body, ps, None, throws=lambda I: [('@_ZTISt16invalid_argument', not_(in_range(I.ax, 0, 2)))], label='matrix world axis rotation, wrong axis, %s' % (T,))


def c_axis(nm, t, T, vk):
    k, r, c, b, l = T
    body = target(t, T) + vec(vk, t, 'U', 'u', 3) + '''
  matrix_rotation_axis_angle(M, U, an); outm(o, M, %(r)d, %(c)d); out(u1, U, 3); M.zero(); matrix_rotation_axis_angle(M, U + Z, an); outm(o2, M, %(r)d, %(c)d);
  auto w = rotate_vector(V, U, an); for(int i = 0; i < 3; ++i) { w1[i] = w[i]; w2[i] = rotate_vector(V + Z, U + Z, an)[i]; }''' % dict(r=r, c=c)
    body = 'vector<%s,fixed<3>> V, Z; Z.zero(); ld(V, v, 3);' % t + body
    ps = [P('m', t, (r, c)), P('u', t, 3, 'inout' if vk == 'ext' else 'in', gen='unit'), P('an', t, gen='angle'), P('v', t, 3), P('o', t, (r, c), 'out'), P('o2', t, (r, c), 'out'),
          P('u1', t, 3, 'out'), P('w1', t, 3, 'out'), P('w2', t, 3, 'out')]

    def ens(I, O):
        cs, sn = tm.cos(I.an), tm.sin(I.an)
        R = rot_axis(I.u, cs, sn)
        L = linear(O.o, b)
        par = vscale(dot(I.u, I.v), I.u)
        rod = vadd(vadd(vscale(cs, vsub(I.v, par)), vscale(sn, cross(I.u, I.v))), par)
        res = meq('rotation', O.o, emb(R, T)) + meq('rotation (axis expression)', O.o2, emb(R, T)) + veq('rotate_vector', O.w1, rod) + veq('rotate_vector of expressions', O.w2, rod)
        res += veq('matrix agrees with rotate_vector', mv(L, I.v), O.w1) + veq('axis is fixed', mv(L, I.u), I.u) + veq('axis kept', O.u1, I.u)
        return res + proper('rotation', L)
    return Case(nm, body, ps, ens, lambda I: [unit(I.u)], label='matrix axis angle rotation, %s %s %s' % (t, T, vk), tol=1e-9)


def c_2d(nm, t, T):
    k, r, c, b, l = T
    body = target(t, T) + 'matrix_rotation_2D(M, an); outm(o, M, %d, %d);' % (r, c)
    ps = [P('m', t, (r, c)), P('an', t, gen='angle'), P('o', t, (r, c), 'out')]

    def ens(I, O):
        cs, sn = tm.cos(I.an), tm.sin(I.an)
        return meq('rotation', O.o, emb([[cs, -sn], [sn, cs]], T)) + proper('rotation', linear(O.o, b, 2))
    return Case(nm, body, ps, ens, label='2D rotation, %s %s' % (t, T))


def c_quat(nm, t, o, x, vk):
    """quaternion builders"""
    body = quat('Q', 'q', t, o, x) + vec(vk, t, 'U', 'u', 3) + '''
  quaternion_rotation_axis_angle(Q, U, an); outq(qa, Q); out(u1, U, 3); quaternion_rotation_world_axis(Q, ax, an); outq(qw, Q);
  quaternion_rotation_axis_angle(Q, U + U - U, an); outq(qe, Q);'''
    for a in 'xyz':
        body += 'ldq; quaternion_rotation_world_%s(Q, an); outq(q%s, Q);'.replace('ldq', 'Q = Q + Q') % (a, a)
    ps = [P('q', t, 4), P('u', t, 3, 'inout' if vk == 'ext' else 'in', gen='unit'), P('an', t, gen='angle'), P('ax', 'int', lo=0, hi=2), P('u1', t, 3, 'out')] + \
        [Q4('q' + s, t) for s in ('a', 'w', 'e', 'x', 'y', 'z')]

    def ens(I, O):
        h = I.an / 2
        cs, sn = tm.cos(h), tm.sin(h)
        res = veq('axis angle', O.qa, [cs] + vscale(sn, I.u)) + veq('axis angle (expression)', O.qe, [cs] + vscale(sn, I.u))
        res += [('lemma: unit length', eq(norm2(O.qa), const(1)))]
        for i, a in enumerate('xyz'):
            E = [cs] + [sn if j == i else const(0) for j in range(3)]
            res += veq('rotation about %s' % a, O['q' + a], E) + [('axis %d %s' % (i, lb), implies(is_val(I.ax, i), f)) for lb, f in veq('', O.qw, E)]
        return res + veq('axis kept', O.u1, I.u)
    return Case(nm, body, ps, ens, lambda I: [unit(I.u), in_range(I.ax, 0, 2)], label='quaternion axis angle rotation, %s %s %s %s' % (t, o, x, vk))


def c_quat_bad(nm, o, x):
    body = quat('Q', 'q', 'double', o, x) + 'quaternion_rotation_world_axis(Q, ax, an);'
    ps = [P('q', 'double', 4), P('ax', 'int', lo=-3, hi=5), P('an', 'double', gen='angle')]
    return Case(nm, body, ps, None, throws=lambda I: [('@_ZTISt16invalid_argument', not_(in_range(I.ax, 0, 2)))], label='quaternion world axis rotation, wrong axis, %s %s' % (o, x))


def c_qmat(nm, t, T, o, x):
    """matrix of a unit quaternion acts as conjugation"""
    k, r, c, b, l = T
    body = target(t, T) + quat('Q', 'q', t, o, x) + '''
  matrix_rotation_quaternion(M, Q); outm(o, M, %(r)d, %(c)d); outq(q1, Q); %(V)s P(%(PV)s);
  outq(p, %(conj)s); M.zero(); matrix_rotation_quaternion(M, conjugate(Q)); outm(oc, M, %(r)d, %(c)d);''' % dict(
        r=r, c=c, V=qtype(t, o, x), PV='%s(0), v[0], v[1], v[2]' % t if o == 'real_first' else 'v[0], v[1], v[2], %s(0)' % t,
        conj='Q * P * conjugate(Q)' if x == 'positive_cross' else 'conjugate(Q) * P * Q')
    ps = [P('m', t, (r, c)), P('q', t, 4, gen='unit'), P('v', t, 3), P('o', t, (r, c), 'out'), P('oc', t, (r, c), 'out'), Q4('q1', t), Q4('p', t)]

    def ens(I, O):
        L = linear(O.o, b)
        res = meq('matrix of the quaternion', O.o, emb(qrot(I.q), T)) + meq('matrix of the conjugate', O.oc, emb(tr(qrot(I.q)), T))
        res += veq('acts as conjugation', O.p[1:], mv(L, I.v)) + [('lemma: pure result', eq(O.p[0], const(0)))] + veq('quaternion kept', O.q1, I.q)
        return res + proper('matrix', L)
    return Case(nm, body, ps, ens, lambda I: [unit(I.q)], label='matrix of a quaternion, %s %s %s %s' % (t, T, o, x))


def c_agree(nm, t, T, o, x):
    """matrix and quaternion built from the same axis and angle are the same rotation"""
    k, r, c, b, l = T
    body = target(t, T) + vec('fix', t, 'U', 'u', 3) + qtype(t, o, x) + ''' Q; quaternion_rotation_axis_angle(Q, U, an); matrix_rotation_quaternion(M, Q); outm(o, M, %(r)d, %(c)d);
  matrix_rotation_axis_angle(M, U, an); outm(p, M, %(r)d, %(c)d);
  quaternion_rotation_world_axis(Q, ax, an); matrix_rotation_quaternion(M, Q); outm(ow, M, %(r)d, %(c)d); matrix_rotation_world_axis(M, ax, an); outm(pw, M, %(r)d, %(c)d);''' % dict(r=r, c=c)
    ps = [P('m', t, (r, c)), P('u', t, 3, gen='unit'), P('an', t, gen='angle'), P('ax', 'int', lo=0, hi=2)] + [P(n, t, (r, c), 'out') for n in ('o', 'p', 'ow', 'pw')]
    return Case(nm, body, ps, lambda I, O: meq('matrix of the axis angle quaternion', O.o, O.p) + meq('matrix of the world axis quaternion', O.ow, O.pw),
                lambda I: [unit(I.u), in_range(I.ax, 0, 2)], label='axis angle matrix and quaternion agree, %s %s %s %s' % (t, T, o, x))


T2 = [('fix', 2, 2, 'col', 'row'), ('fix', 2, 2, 'row', 'col'), ('fix', 3, 3, 'col', 'col'), ('fix', 3, 3, 'row', 'row'), ('fix', 2, 3, 'col', 'row'), ('fix', 3, 2, 'row', 'row'),
      ('dyn', 2, 2, 'row', 'row'), ('dyn', 3, 3, 'col', 'row'), ('ext', 2, 2, 'row', 'row'), ('dext', 3, 3, 'row', 'col')]


def units(tier):
    cs = []
    n = [0]

    def add(f, *a):
        n[0] += 1
        cs.append(f('c15_%s_%d' % (f.__name__, n[0]), *a))
    for i, T in enumerate(TARGETS):
        ts = ('double', 'float') if i < 4 or tier == 'thorough' else ('double',)
        for t in ts:
            add(c_world, t, T)
            add(c_axis, t, T, ('fix', 'ext', 'dyn', 'cext', 'dext')[i % 5])
        add(c_world_bad, T)
        o, x = CONF[i % 4]
        add(c_qmat, ts[i % len(ts)], T, o, x)
        add(c_agree, 'double', T, *CONF[(i + 1) % 4])
    for T in T2:
        for t in ('double', 'float'):
            add(c_2d, t, T)
    for i, (o, x) in enumerate(CONF):
        for t in ('double', 'float'):
            add(c_quat, t, o, x, ('fix', 'dyn', 'ext', 'dext')[i])
            if tier == 'thorough' or t == 'double':
                for T in TARGETS[:4]:
                    add(c_qmat, t, T, o, x)
        add(c_quat_bad, o, x)
    return chunks('c15', cs, 5)
