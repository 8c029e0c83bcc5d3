"""C18: orthonormal bases, aligning and aiming rotations, view matrices"""
from contracts.common import *
from contracts.c13 import CONF, Q4
from contracts.c15 import TARGETS, T2, target, emb, linear, proper, unit
from contracts.c16 import place

META = {'level': 'proof'}
ORD = ['xyz', 'xzy', 'yzx', 'yxz', 'zxy', 'zyx']
AFF = [T for T in TARGETS if T[1:3] == (4, 4) or T[1:4] in ((3, 4, 'col'), (4, 3, 'row'))]
DECL = {'fix': 'vector<%s,fixed<%d>> %s;', 'dyn': 'vector<%s,dynamic<>> %s(1);', 'ext': '%s %s_b[%d]; vector<%s,external<%d>> %s(%s_b);', 'dext': '%s %s_b[%d]; vector<%s,external<>> %s(%s_b, %d);'}


def dest(kind, t, nm, n):
    """declares a destination vector"""
    if kind == 'fix':
        return 'vector<%s,fixed<%d>> %s;' % (t, n, nm)
    if kind == 'dyn':
        return 'vector<%s,dynamic<>> %s;' % (t, nm)
    if kind == 'ext':
        return '%s %s_b[%d]; vector<%s,external<%d>> %s(%s_b);' % (t, nm, n, t, n, nm, nm)
    return '%s %s_b[%d]; vector<%s,external<>> %s(%s_b, %d);' % (t, nm, n, t, nm, nm, n)


def normalized(v):
    return vscale(const(1) / tm.sqrt(norm2(v)), v)


def axis_idx(o):
    return ['xyz'.index(ch) for ch in o]


def frame(a, ref, o):
    """basis vectors x, y, z for the unit vector a, the reference and the order named o"""
    i, j, k = axis_idx(o)
    n = normalized(cross(a, ref))
    ax = [None] * 3
    ax[i], ax[j] = a, cross(n, a)
    ax[k] = n if (j - i) % 3 == 1 else vscale(const(-1), n)
    return ax


def not_parallel(a, ref):
    return lt(const(0), norm2(cross(a, ref)))


def c_2d(nm, t, vk, dk, o):
    body = vec(vk, t, 'A', 'a', 2) + dest(dk[0], t, 'X', 2) + dest(dk[1], t, 'Y', 2) + '''
  orthonormal_basis_2D(A, X, Y, true, axis_order_%(o)s); out(x, X, 2); out(y, Y, 2); orthonormal_basis_2D(A + A - A, X, Y, nrm, axis_order_%(o)s); out(x2, X, 2); out(y2, Y, 2); out(a1, A, 2);
  ''' % dict(o=o)
    if o == 'xy':
        body += 'orthonormal_basis_2D(A, X, Y); out(xd, X, 2); out(yd, Y, 2); vector<%s,fixed<2>> B(A); orthonormal_basis_2D(B, B, Y); out(xa, B, 2); out(ya, Y, 2);' % t
    else:
        body += 'orthonormal_basis_2D(A, X, Y, true, axis_order_yx); out(xd, X, 2); out(yd, Y, 2); vector<%s,fixed<2>> B(A); orthonormal_basis_2D(B, X, B, true, axis_order_yx); out(xa, X, 2); out(ya, B, 2);' % t
    ps = [P('a', t, 2, 'inout' if vk in ('ext', 'dext') else 'in'), P('nrm', 'bool', lo=0, hi=1), P('a1', t, 2, 'out')] + [P(n, t, 2, 'out') for n in ('x', 'y', 'x2', 'y2', 'xd', 'yd', 'xa', 'ya')]

    def ens(I, O):
        u = normalized(I.a)

        def axes(u):
            p = [-u[1], u[0]]
            return (u, p) if o == 'xy' else (vscale(const(-1), p), u)
        ex, ey = axes(u)
        res = veq('x', O.x, ex) + veq('y', O.y, ey) + veq('x by default', O.xd, ex) + veq('y by default', O.yd, ey) + veq('x in place', O.xa, ex) + veq('y in place', O.ya, ey) + veq('direction kept', O.a1, I.a)
        rx, ry = axes(I.a)
        for lb, X, e, r in (('x', O.x2, ex, rx), ('y', O.y2, ey, ry)):
            res += [('%s of an expression, %s %s' % (lb, w, l2), implies(c, f)) for w, c, v in (('normalized', ne(I.nrm, const(0, 8)), e), ('as given', is_val(I.nrm, 0, 8), r)) for l2, f in veq('', X, v)]
        return res + proper('basis', tr([O.x, O.y]))
    return Case(nm, body, ps, ens, lambda I: [lt(const(0), norm2(I.a)), in_range(I.nrm, 0, 1, 8)], label='2D orthonormal basis %s, %s %s %s' % (o, t, vk, dk))


def c_3d(nm, t, vk, rk, dk, o, nrm):
    body = vec(vk, t, 'A', 'a', 3) + vec(rk, t, 'R', 'r', 3) + ''.join(dest(k, t, n, 3) for k, n in zip(dk, 'XYZ'))
    body += 'orthonormal_basis(A, R, X, Y, Z, %(n)s, axis_order_%(o)s);' if not (o == 'zyx' and nrm) else 'orthonormal_basis(A, R, X, Y, Z);'
    body += '''out(x, X, 3); out(y, Y, 3); out(z, Z, 3); out(a1, A, 3); out(r1, R, 3); vector<%(t)s,fixed<3>> B(A), C(R); orthonormal_basis(B + B - B, C + C - C, B, C, Z, %(n)s, axis_order_%(o)s); out(xa, B, 3); out(ya, C, 3); out(za, Z, 3);'''
    body %= dict(n='true' if nrm else 'false', o=o, t=t)
    ps = [P('a', t, 3, 'inout' if vk in ('ext', 'dext') else 'in', gen=None if nrm else 'unit'), P('r', t, 3, 'inout' if rk in ('ext', 'dext') else 'in')] + [P(n, t, 3, 'out') for n in ('x', 'y', 'z', 'a1', 'r1', 'xa', 'ya', 'za')]

    def ens(I, O):
        u = normalized(I.a) if nrm else I.a
        F = frame(u, I.r, o)
        res = []
        for i, n in enumerate('xyz'):
            res += veq(n, O[n], F[i]) + veq(n + ' of expressions in place', O[n + 'a'], F[i])
        res += veq('direction kept', O.a1, I.a) + veq('reference kept', O.r1, I.r) + proper('basis', tr([O.x, O.y, O.z]))
        i, j, k = axis_idx(o)
        B = [O.x, O.y, O.z]
        return res + [('lemma: third axis orthogonal to the reference', eq(dot(B[k], I.r), const(0))),
                      ('lemma: second axis on the side of the reference', eq(dot(B[j], I.r) * tm.sqrt(norm2(cross(u, I.r))), norm2(cross(u, I.r))))]

    def req(I):
        return [lt(const(0), norm2(I.a)) if nrm else unit(I.a), not_parallel(I.a, I.r)]
    return Case(nm, body, ps, ens, req, label='orthonormal basis %s%s, %s %s %s %s' % (o, '' if nrm else ' of a unit vector', t, vk, rk, dk), tol=1e-8)


def c_align(nm, t, T, vk, o, nrm, aim):
    """matrix aligning or aiming rotation"""
    k, r, c, b, l = T
    body = target(t, T) + vec(vk, t, 'A', 'a', 3) + vec('fix', t, 'R', 'r', 3) + (vec('fix', t, 'G', 'g', 3) if aim else '')
    call = 'matrix_rotation_aim_at(M, A, G, R, axis_order_%s)' % o if aim else 'matrix_rotation_align(M, A, R, %s, axis_order_%s)' % ('true' if nrm else 'false', o)
    if o == 'zyx' and nrm:
        call = 'matrix_rotation_aim_at(M, A, G, R)' if aim else 'matrix_rotation_align(M, A, R)'
    body += call + '; outm(o, M, %d, %d); out(a1, A, 3);' % (r, c)
    ps = [P('m', t, (r, c)), P('a', t, 3, 'inout' if vk in ('ext', 'dext') else 'in', gen=None if nrm else 'unit'), P('r', t, 3)] + ([P('g', t, 3)] if aim else []) + [P('o', t, (r, c), 'out'), P('a1', t, 3, 'out')]

    def ens(I, O):
        d = vsub(I.g, I.a) if aim else I.a
        F = frame(normalized(d) if nrm else d, I.r, o)
        return meq('rotation', O.o, emb(tr(F), T)) + veq('operand kept', O.a1, I.a) + proper('rotation', linear(O.o, b))

    def req(I):
        d = vsub(I.g, I.a) if aim else I.a
        return [lt(const(0), norm2(d)) if nrm else unit(d), not_parallel(d, I.r)]
    return Case(nm, body, ps, ens, req, label='%s %s, %s %s %s%s' % ('aiming rotation' if aim else 'aligning rotation', o, t, T, vk, '' if nrm else ' unit'), tol=1e-8)


def c_align_2d(nm, t, T, vk, o):
    k, r, c, b, l = T
    body = target(t, T) + vec(vk, t, 'A', 'a', 2) + ('matrix_rotation_align_2D(M, A);' if o == 'xy' else 'matrix_rotation_align_2D(M, A, true, axis_order_yx);') + '''
  outm(o, M, %(r)d, %(c)d); matrix_rotation_align_2D(M, A, false, axis_order_%(o)s); outm(p, M, %(r)d, %(c)d); out(a1, A, 2);''' % dict(r=r, c=c, o=o)
    ps = [P('m', t, (r, c)), P('a', t, 2, 'inout' if vk in ('ext', 'dext') else 'in'), P('o', t, (r, c), 'out'), P('p', t, (r, c), 'out'), P('a1', t, 2, 'out')]

    def ens(I, O):
        def R(u):
            p = [-u[1], u[0]]
            return tr([u, p] if o == 'xy' else [vscale(const(-1), p), u])
        return meq('rotation', O.o, emb(R(normalized(I.a)), T)) + meq('not normalized', O.p, emb(R(I.a), T)) + veq('direction kept', O.a1, I.a) + proper('rotation', linear(O.o, b, 2))
    return Case(nm, body, ps, ens, lambda I: [lt(const(0), norm2(I.a))], label='2D aligning rotation %s, %s %s %s' % (o, t, T, vk))


def c_qalign(nm, t, od, x, o, aim, nrm):
    """quaternion aligning or aiming rotation: the unit quaternion of the same rotation.  Every direction d and reference r that are not parallel are
    d = s * axis_i, r = p * axis_i + e * axis_j (s, e > 0) of a rotation, which is that of a unit quaternion g"""
    i, j, k = axis_idx(o)
    body = quat('Q', 'q', t, od, x) + vec('fix', t, 'A', 'a', 3) + vec('fix', t, 'R', 'r', 3) + (vec('fix', t, 'G', 'c', 3) if aim else '')
    call = 'quaternion_rotation_aim_at(Q, A, G, R, axis_order_%s)' % o if aim else 'quaternion_rotation_align(Q, A, R, %s, axis_order_%s)' % ('true' if nrm else 'false', o)
    if o == 'zyx' and nrm:
        call = 'quaternion_rotation_aim_at(Q, A, G, R)' if aim else 'quaternion_rotation_align(Q, A, R)'
    body += call + '; outq(p, Q);'
    ps = [P('q', t, 4), P('a', t, 3), P('r', t, 3)] + ([P('c', t, 3)] if aim else []) + [P('g', t, 4, gen='unit'), P('s', t, lo=0.1, hi=3), P('e', t, 2, lo=0.1, hi=3), Q4('p', t)]

    def dr(I):
        R = tr(qrot(I.g))
        s = I.s if nrm else const(1)
        d = vscale(s, R[i])
        r = vadd(vscale(I.e[0], R[i]), vscale(I.e[1], R[j]))
        return d, r

    def req(I):
        d, r = dr(I)
        dd = vadd(I.a, d) if aim else d
        return [unit(I.g), gt(I.s, const(0)), gt(I.e[1], const(0))] + [f for _, f in veq('', I.r, r) + veq('', I.c if aim else I.a, dd)]

    def fill(I):
        d, r = dr(I)
        return {'r': r, 'c': vadd(I.a, d)} if aim else {'r': r, 'a': d}

    def ens(I, O):
        return [('same rotation up to sign (%d,%d)' % (x_, y_), eq(O.p[x_] * O.p[y_], I.g[x_] * I.g[y_])) for x_ in range(4) for y_ in range(x_, 4)] + [('unit', eq(norm2(O.p), const(1)))]
    return Case(nm, body, ps, ens, req, opts={'fill': fill}, label='quaternion %s %s, %s %s %s' % ('aiming' if aim else 'aligning', o, t, od, x), tol=1e-7)


def c_look(nm, t, T, vk):
    k, r, c, b, l = T
    body = target(t, T) + vec(vk[0], t, 'E', 'e', 3) + vec(vk[1], t, 'G', 'g', 3) + vec(vk[2], t, 'U', 'u', 3) + '''
  matrix_look_at_LH(M, E, G, U); outm(lh, M, %(r)d, %(c)d); matrix_look_at_RH(M, E, G, U); outm(rh, M, %(r)d, %(c)d); matrix_look_at(M, E + E - E, G + G - G, U + U - U, h ? left_handed : right_handed); outm(o, M, %(r)d, %(c)d);
  out(e1, E, 3); out(g1, G, 3); out(u1, U, 3);''' % dict(r=r, c=c)
    ps = [P('m', t, (r, c))] + [P(n, t, 3, 'inout' if vv in ('ext', 'dext') else 'in') for n, vv in zip('egu', vk)] + [P('h', 'bool', lo=0, hi=1)] + \
        [P(n, t, (r, c), 'out') for n in ('lh', 'rh', 'o')] + [P(n, t, 3, 'out') for n in ('e1', 'g1', 'u1')]

    def view(I, s):
        z = vscale(const(s), normalized(vsub(I.g, I.e)))
        x = normalized(cross(I.u, z))
        y = cross(z, x)
        R = [x, y, z]
        M = emb(R, T)
        for a in range(3):
            tt = -dot(R[a], I.e)
            if b == 'col':
                M[a][3] = tt
            else:
                M[3][a] = tt
        return M

    def ens(I, O):
        res = []
        for nm_, s, h in (('lh', 1, 1), ('rh', -1, 0)):
            V = view(I, s)
            res += meq(nm_, O[nm_], V) + [('by handedness %s %s' % (nm_, lb), implies(ne(I.h, const(0, 8)) if h else is_val(I.h, 0, 8), f)) for lb, f in meq('', O.o, V)]
            L = linear(O[nm_], b)
            tv = [O[nm_][a][3] if b == 'col' else O[nm_][3][a] for a in range(3)]
            res += proper(nm_, L)
            res += veq('lemma: %s sends the eye to the origin' % nm_, vadd(mv(L, I.e), tv), [const(0)] * 3)
            d = tm.sqrt(norm2(vsub(I.g, I.e)))
            res += veq('lemma: %s sends the target along the view axis' % nm_, vadd(mv(L, I.g), tv), [const(0), const(0), const(s) * d])
            up = mv(L, I.u)
            n = cross(I.u, vsub(I.g, I.e))
            res += [('lemma: %s up has no x component' % nm_, eq(up[0], const(0))), ('lemma: %s up has a positive y component' % nm_, eq(up[1] * d, tm.sqrt(norm2(n))))]
        return res + veq('eye kept', O.e1, I.e) + veq('target kept', O.g1, I.g) + veq('up kept', O.u1, I.u)
    return Case(nm, body, ps, ens, lambda I: [lt(const(0), norm2(vsub(I.g, I.e))), not_parallel(I.u, vsub(I.g, I.e)), in_range(I.h, 0, 1, 8)], label='view matrix, %s %s %s' % (t, T, vk), tol=1e-8)


def units(tier):
    cs = []
    n = [0]

    def add(f, *a):
        n[0] += 1
        cs.append(f('c18_%s_%d' % (f.__name__, n[0]), *a))
    K = ('fix', 'dyn', 'ext', 'dext')
    for i, (vk, dk) in enumerate([('fix', ('fix', 'fix')), ('dyn', ('dyn', 'fix')), ('ext', ('fix', 'dext')), ('dext', ('ext', 'dyn')), ('cext', ('fix', 'fix'))]):
        for o in ('xy', 'yx'):
            add(c_2d, 'float' if i == 4 else 'double', vk, dk, o)
    for i, o in enumerate(ORD):
        for nrm in (True, False):
            j = 2 * i + nrm
            add(c_3d, ('double', 'double', 'float')[j % 3], K[j % 4], K[(j // 2) % 4], (K[j % 4], K[(j + 1) % 4], K[(j + 2) % 4]), o, nrm)
    for i, T in enumerate(TARGETS):
        for a in range(3):
            j = 3 * i + a
            add(c_align, ('double', 'float')[j % 5 == 2], T, K[j % 4], ORD[j % 6] if j % 7 else 'zyx', a != 0, a == 2)
    for i, T in enumerate(T2):
        for j, o in enumerate(('xy', 'yx')):
            add(c_align_2d, ('double', 'float')[(i + j) % 3 == 2], T, K[(i + j) % 4], o)
    for i, o in enumerate(ORD):
        for aim in (True, False):
            for jj in range(2 if tier == 'thorough' else 1):
                add(c_qalign, ('double', 'float')[i % 3 == 2], *CONF[(i + aim + jj) % 4], o, aim, aim or i % 2 == 0 or o == 'zyx')
    for i, T in enumerate(AFF):
        add(c_look, ('double', 'float')[i % 3 == 2], T, (K[i % 4], K[(i + 1) % 4], K[(i // 2) % 4]))
    return chunks('c18', cs, 4)
