"""C27: geometry functions accept exactly the run-time shapes they need, for every shape (engine/sizes.py)"""
import re

from contracts.common import *
from contracts.sized import *
from dsl import Prop

META = {'level': 'proof'}
ERRS = ''.join('catch (const %s&) { k[0] = 1; }' % e for e in (
    'incompatible_vector_size_error', 'minimum_vector_size_error', 'vector_size_error', 'vector_size_range_error',
    'incompatible_matrix_size_error', 'minimum_matrix_size_error', 'matrix_size_error', 'incompatible_matrix_row_size_error',
    'incompatible_matrix_col_size_error', 'incompatible_matrix_inner_size_error', 'non_square_matrix_error', 'affine_matrix_size_error')) + 'catch (const std::invalid_argument&) { k[0] = 2; }'


def ige(a, b):
    return not_(ilt(a, b))


def mini(a, b):
    return lambda r, c, bas: and_(ige(r, a), ige(c, b))


LIN2, LIN3, MIN44 = mini(2, 2), mini(3, 3), mini(4, 4)


def AFF(n):
    return lambda r, c, bas: mini(n + 1, n)(r, c, bas) if bas == 'row' else mini(n, n + 1)(r, c, bas)


AFF2, AFF3 = AFF(2), AFF(3)


def exact(a, b):
    return lambda r, c, bas: and_(ieq(r, a), ieq(c, b))


# name, statement, shape condition, order of the reference, kind ('build', 'set', 'read'), index parameter limit
def table():
    T = []

    def add(st, ok, n, kind, ax=None, outs=0, req=None):
        T.append((st, ok, n, kind, ax, outs, req))
    nz2, nz3 = (lambda I: [ne(I.u, const(0)), ne(I.v, const(0))]), (lambda I: [ne(I.u, const(0)), ne(I.v, const(0)), ne(I.w, const(0))])
    v2, v3 = 'vector<double,fixed<2>>(u, v)', 'vector<double,fixed<3>>(u, v, w)'
    w3 = 'vector<double,fixed<3>>(v, w, u)'
    z3 = 'vector<double,fixed<3>>(w, u, v)'
    for d in ('', 'transposed_'):
        add('matrix_set_%sbasis_vector_2D({M}, ax, %s);' % (d, v2), LIN2, 3, 'set', 1)
        add('matrix_set_%sbasis_vector({M}, ax, %s);' % (d, v3), LIN3, 4, 'set', 2)
        add('matrix_set_%sbasis_vectors_2D({M}, %s, vector<double,fixed<2>>(v, u));' % (d, v2), LIN2, 3, 'set')
        add('matrix_set_%sbasis_vectors({M}, %s, %s, %s);' % (d, v3, w3, z3), LIN3, 4, 'set')
        add('out({O}, matrix_get_%sbasis_vector_2D({M}, ax), 2);' % d, LIN2, 3, 'read', 1, 2)
        add('out({O}, matrix_get_%sbasis_vector({M}, ax), 3);' % d, LIN3, 4, 'read', 2, 3)
        add('vector<double,fixed<2>> x, y; matrix_get_%sbasis_vectors_2D({M}, x, y); out({O}, x, 2); out({O} + 2, y, 2);' % d, LIN2, 3, 'read', None, 4)
        add('vector<double,fixed<3>> x, y, z; matrix_get_%sbasis_vectors({M}, x, y, z); out({O}, x, 3); out({O} + 3, y, 3); out({O} + 6, z, 3);' % d, LIN3, 4, 'read', None, 9)
    add('matrix_rotation_2D({M}, u);', LIN2, 3, 'build')
    add('matrix_rotation_align_2D({M}, %s, false);' % v2, LIN2, 3, 'build')
    add('matrix_rotation_world_axis({M}, ax, u);', LIN3, 4, 'build', 2)
    add('matrix_rotation_world_x({M}, u); matrix_rotation_world_y({M}, u);', LIN3, 4, 'build')
    add('matrix_rotation_world_z({M}, u);', LIN3, 4, 'build')
    add('matrix_rotation_axis_angle({M}, %s, u);' % v3, LIN3, 4, 'build')
    add('matrix_rotation_euler({M}, u, v, w, euler_order_xyz);', LIN3, 4, 'build')
    add('matrix_rotation_euler({M}, %s, euler_order_zxz);' % v3, LIN3, 4, 'build')
    add('matrix_rotation_euler_derivatives({M}, ax, u, v, w, euler_order_yzx);', LIN3, 4, 'build', 2)
    add('matrix_rotation_quaternion({M}, quaternion<double>(u, v, w, u + v));', LIN3, 4, 'build')
    add('out({O}, matrix_to_euler({M}, euler_order_xyz), 3);', LIN3, 4, 'read', None, 3)
    add('{O}[0] = trace_2x2({M});', LIN2, 3, 'read', None, 1)
    add('{O}[0] = trace_3x3({M});', LIN3, 4, 'read', None, 1)
    add('matrix_skew_symmetric({M}, %s);' % v3, LIN3, 4, 'skew')
    add('matrix_skew_symmetric_2D({M}, u);', LIN2, 3, 'skew')
    add('matrix_invert_RT_only_2D({M});', AFF2, 3, 'set')
    add('matrix_invert_RT_only({M});', AFF3, 4, 'set')
    add('matrix_look_at({M}, %s, vector<double,fixed<3>>(u, v, w + 1), vector<double,fixed<3>>(0, 1, 0), left_handed);' % v3, AFF3, 4, 'build')
    add('matrix_linear_transform({M}, matrix<double,fixed<3,3>,{B}>(u, v, w, v, w, u, w, v, u));', LIN3, 4, 'build')
    add('matrix_affine_transform({M}, %s, w, %s);' % (v3, w3), AFF3, 4, 'build')
    add('matrix_affine_transform({M}, matrix<double,fixed<3,3>,{B}>(u, v, w, v, w, u, w, v, u), %s);' % v3, AFF3, 4, 'build')
    add('matrix_set_translation_2D({M}, u, v);', AFF2, 3, 'set')
    add('matrix_set_translation_2D({M}, %s);' % v2, AFF2, 3, 'set')
    add('matrix_get_translation_2D({M}, {O}[0], {O}[1]);', AFF2, 3, 'read', None, 2)
    add('out({O}, matrix_get_translation_2D({M}), 2);', AFF2, 3, 'read', None, 2)
    add('matrix_translation_2D({M}, u, v);', AFF2, 3, 'build')
    add('matrix_translation_2D({M}, %s);' % v2, AFF2, 3, 'build')
    add('matrix_set_translation({M}, u, v, w);', AFF3, 4, 'set')
    add('matrix_set_translation({M}, u, v);', AFF3, 4, 'set')
    add('matrix_set_translation({M}, %s);' % v3, AFF3, 4, 'set')
    add('matrix_set_translation({M}, %s);' % v2, AFF3, 4, 'set')
    add('matrix_get_translation({M}, {O}[0], {O}[1], {O}[2]);', AFF3, 4, 'read', None, 3)
    add('out({O}, matrix_get_translation({M}), 3);', AFF3, 4, 'read', None, 3)
    add('matrix_translation({M}, u, v, w);', AFF3, 4, 'build')
    add('matrix_translation({M}, u, v);', AFF3, 4, 'build')
    add('matrix_translation({M}, %s);' % v3, AFF3, 4, 'build')
    add('matrix_scale_2D({M}, u, v);', AFF2, 3, 'build')
    add('matrix_scale_2D({M}, %s);' % v2, AFF2, 3, 'build')
    add('matrix_uniform_scale_2D({M}, u);', AFF2, 3, 'build')
    add('matrix_inverse_scale_2D({M}, u, v);', AFF2, 3, 'build', req=nz2)
    add('matrix_inverse_scale_2D({M}, %s);' % v2, AFF2, 3, 'build', req=nz2)
    add('matrix_scale({M}, u, v, w);', AFF3, 4, 'build')
    add('matrix_scale({M}, %s);' % v3, AFF3, 4, 'build')
    add('matrix_uniform_scale({M}, u);', AFF3, 4, 'build')
    add('matrix_inverse_scale({M}, u, v, w);', AFF3, 4, 'build', req=nz3)
    add('matrix_inverse_scale({M}, %s);' % v3, AFF3, 4, 'build', req=nz3)
    add('matrix_orthographic({M}, -u, u, -v, v, w, w + 1, left_handed, z_clip_neg_one);', MIN44, 4, 'build', req=nz3)
    add('matrix_orthographic_RH({M}, u, v, w, w + 1, z_clip_zero);', MIN44, 4, 'build', req=nz3)
    add('matrix_perspective({M}, -u, u, -v, v, w, w + 1, right_handed, z_clip_zero);', MIN44, 4, 'build', req=nz3)
    add('matrix_perspective_LH({M}, u, v, w, w + 1, z_clip_neg_one);', MIN44, 4, 'build', req=nz3)
    add('quaternion<double> q; quaternion_rotation_matrix(q, {M}); for (int i = 0; i < 4; ++i) {O}[i] = q[i];', LIN3, 4, 'read', None, 4)
    add('out({O}, transform_vector_2D({M}, %s), 2);' % v2, LIN2, 3, 'read', None, 2)
    add('out({O}, transform_point_2D({M}, %s), 2);' % v2, AFF2, 3, 'read', None, 2)
    add('out({O}, transform_vector({M}, %s), 3);' % v3, LIN3, 4, 'read', None, 3)
    add('out({O}, transform_point({M}, %s), 3);' % v3, AFF3, 4, 'read', None, 3)
    add('out({O}, transform_vector_4D({M}, vector<double,fixed<4>>(u, v, w, u)), 4);', exact(4, 4), 4, 'read', None, 4)
    add('double h = F.basis_element(0, 3) * u + F.basis_element(1, 3) * v + F.basis_element(2, 3) * w + F.basis_element(3, 3); if (r == 4 && c == 4 && h == 0) { k[0] = 9; return; } '
        'out({O}, transform_point_4D({M}, %s), 3);' % v3, exact(4, 4), 4, 'read', None, 3)
    add('double pl[6][4]; extract_frustum_planes({M}, pl, z_clip_zero, false); for (int i = 0; i < 24; ++i) {O}[i] = pl[i / 4][i % 4];', MIN44, 4, 'read', None, 24)
    return T


def c_shape(nm, row, bas, lay):
    st, ok, n, kind, ax, outs, req = row
    bl = '%s_basis,%s_major' % (bas, lay)
    st = st.replace('{B}', bl)
    a = 'a[i * c + j]' if lay == 'row' else 'a[j * r + i]'
    body = 'k[0] = 0; matrix<double,fixed<%d,%d>,%s> F; F.identity(); ' % (n, n, bl)
    body += 'for (int i = 0; i < %d; ++i) for (int j = 0; j < %d; ++j) if (i < r && j < c) F(i, j) = %s;\n' % (n, n, a)
    body += dmat('dext', 'double', 'A', 'a', 'r', 'c', bas, lay)
    ref = st.replace('{M}', 'F').replace('{O}', 'p')
    if ax is not None:
        ref = 'for (int q = 0; q <= %d; ++q) if (ax == q) { %s }' % (ax, re.sub(r'\bax\b', 'q', ref))
    act = st.replace('{M}', 'A').replace('{O}', 'o')
    if ax is not None:
        act = 'if (ax < 0 || ax > %d) { %s } else for (int q = 0; q <= %d; ++q) if (ax == q) { %s }' % (ax, act, ax, re.sub(r'\bax\b', 'q', act))
    body += '\n try { { %s } { %s } } %s' % (act, ref, ERRS)
    ps = [P('a', 'double', mshape('dext', lay, 'r', 'c'), 'inout'), S_('r', hi=7), S_('c', hi=7), P('u', 'double', lo=0.4, hi=2), P('v', 'double', lo=0.6, hi=2), P('w', 'double', lo=0.8, hi=2), P('k', 'int', 1, 'out')]
    if ax is not None:
        ps.append(S_('ax', lo=-1, hi=ax + 1))
    if outs:
        ps += [P('o', 'double', outs, 'out'), P('p', 'double', outs, 'out')]
    else:
        body += 'outm(f, F, %d, %d);' % (n, n)
        ps.append(P('f', 'double', (n, n), 'out'))

    def ens(I, O):
        good = ok(I.r, I.c, bas)
        axok = tm.TRUE if ax is None else and_(ige(I.ax, 0), ile(I.ax, ax))
        fine = and_(good, axok)
        res = [('accepted', or_(implies(fine, ieq(O.k[0], 0)), ieq(O.k[0], 9))), ('rejected shape', implies(and_(not_(good), axok), ieq(O.k[0], 1)))]
        if ax is not None:
            res += [('rejected index', implies(and_(good, not_(axok)), ieq(O.k[0], 2))), ('rejected', implies(not_(fine), ine(O.k[0], 0)))]
        old, new = mget('dext', lay, I.a), mget('dext', lay, O.a)
        if kind == 'read':
            return res + [('unchanged', forall(I.r, lambda i: forall(I.c, lambda j: eq(new(i, j), old(i, j)))))] + [('as for the fixed size %d' % i, when(and_(fine, ine(O.k[0], 9)), eq(O.o[i], O.p[i]))) for i in range(outs)]
        res.append(('rejected: unchanged', when(not_(fine), forall(I.r, lambda i: forall(I.c, lambda j: eq(new(i, j), old(i, j)))))))
        for i in range(n):
            for j in range(n):
                inb = and_(fine, ilt(i, I.r), ilt(j, I.c))
                if inb is not tm.FALSE:
                    f = lambda i=i, j=j: eq(new(i, j), O.f[i][j])
                    res.append(('(%d,%d) as for the fixed size' % (i, j), f() if inb is tm.TRUE else when(inb, Prop('lazy', f))))

        def rest(i, j):
            if kind == 'set':
                return eq(new(i, j), old(i, j))
            if kind == 'skew':
                return eq(new(i, j), const(0))
            return pick(ieq(i, j), lambda: eq(new(i, j), const(1)), lambda: eq(new(i, j), const(0)))
        res.append(('other elements', when(fine, forall(I.r, lambda i: forall(I.c, lambda j: pick(and_(ilt(i, n), ilt(j, n)), lambda: tm.TRUE, lambda: rest(i, j)))))))
        return res
    return SizeCase(nm, body, ps, ens, req, label='every shape: %s [%s]' % (st, bl), opts=SOFT)


# ---- vectors of run-time size
def vtable():
    T = []

    def add(st, lo, hi=None, outs=0, gap=None):
        T.append((st, lo, hi or lo, outs, gap))

    def mat(st, n=4):
        return ('matrix<double,fixed<%d,%d>> M; M.identity(); %s outm({O}, M, %d, %d);' % (n, n, st, n, n), n * n)
    for st, lo, hi, n in (
            ('matrix_scale_2D(M, {V});', 2, 2, 3), ('matrix_inverse_scale_2D(M, {V});', 2, 2, 3), ('matrix_scale(M, {V});', 3, 3, 4), ('matrix_inverse_scale(M, {V});', 3, 3, 4),
            ('matrix_translation_2D(M, {V});', 2, 2, 3), ('matrix_set_translation_2D(M, {V});', 2, 2, 3),
            ('matrix_translation(M, {V});', 2, 3, 4), ('matrix_set_translation(M, {V});', 2, 3, 4),
            ('matrix_skew_symmetric(M, {V});', 3, 3, 4), ('matrix_rotation_axis_angle(M, {V}, 0.5);', 3, 3, 4),
            ('matrix_rotation_euler(M, {V}, euler_order_zyx);', 3, 3, 4), ('matrix_rotation_euler_derivatives(M, 1, {V}, euler_order_xyz);', 3, 3, 4),
            ('matrix_set_basis_vector_2D(M, 1, {V});', 2, 2, 3), ('matrix_set_transposed_basis_vector_2D(M, 0, {V});', 2, 2, 3),
            ('matrix_set_basis_vector(M, 2, {V});', 3, 3, 4), ('matrix_set_transposed_basis_vector(M, 1, {V});', 3, 3, 4),
            ('matrix_affine_transform(M, matrix<double,fixed<3,3>>(1, 2, 3, 4, 5, 6, 7, 8, 9), {V});', 2, 3, 4)):
        b, o = mat(st, n)
        add(b, lo, hi, o, 'inverse' in st and ' || '.join('a[%d] == 0' % i for i in range(lo)))
    quat = 'for (int i = 0; i < 4; ++i) {O}[i] = q[i];'
    add('quaternion<double> q; quaternion_rotation_axis_angle(q, {V}, 0.5); ' + quat, 3, 3, 4)
    add('quaternion<double> q; quaternion_rotation_euler(q, {V}, euler_order_xyz); ' + quat, 3, 3, 4)
    add('quaternion<double> q({V}, 2.0); ' + quat, 3, 3, 4)
    add('quaternion<double> q; q.set({V}, 2.0); ' + quat, 3, 3, 4)
    add('matrix<double,fixed<2,2>> M(1, 2, 3, 4); out({O}, transform_vector_2D(M, {V}), 2);', 2, 2, 2)
    add('matrix<double,fixed<2,3>> M(1, 2, 3, 4, 5, 6); out({O}, transform_point_2D(M, {V}), 2);', 2, 2, 2)
    add('matrix<double,fixed<3,3>> M(1, 2, 3, 4, 5, 6, 7, 8, 9); out({O}, transform_vector(M, {V}), 3);', 3, 3, 3)
    add('matrix<double,fixed<3,4>> M(1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12); out({O}, transform_point(M, {V}), 3);', 3, 3, 3)
    add('matrix<double,fixed<4,4>> M(1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 0, 0, 0, 2); out({O}, transform_point_4D(M, {V}), 3);', 3, 3, 3)
    add('matrix<double,fixed<4,4>> M(1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16); out({O}, transform_vector_4D(M, {V}), 4);', 4, 4, 4)
    add('out({O}, rotate_vector({V}, vector<double,fixed<3>>(0.6, 0.8, 0.0), 0.5), 3);', 3, 3, 3)
    add('out({O}, rotate_vector(vector<double,fixed<3>>(1, 2, 3), {V}, 0.5), 3);', 3, 3, 3)
    add('out({O}, perp({V}), 2);', 2, 2, 2)
    add('out({O}, cross({V}, vector<double,fixed<3>>(1, 2, 3)), 3);', 3, 3, 3)
    add('out({O}, cross(vector<double,fixed<3>>(1, 2, 3), {V}), 3);', 3, 3, 3)
    add('{O}[0] = perp_dot({V}, vector<double,fixed<2>>(1, 2));', 2, 2, 1)
    add('{O}[0] = perp_dot(vector<double,fixed<2>>(1, 2), {V});', 2, 2, 1)
    add('{O}[0] = triple_product({V}, vector<double,fixed<3>>(1, 2, 3), vector<double,fixed<3>>(3, 1, 2));', 3, 3, 1)
    add('{O}[0] = triple_product(vector<double,fixed<3>>(1, 2, 3), {V}, vector<double,fixed<3>>(3, 1, 2));', 3, 3, 1)
    add('{O}[0] = triple_product(vector<double,fixed<3>>(1, 2, 3), vector<double,fixed<3>>(3, 1, 2), {V});', 3, 3, 1)
    add('{O}[0] = manhattan_distance({V}, vector<double,fixed<3>>(1, 2, 3));', 3, 3, 1)
    for hgt in ('colatitude', 'latitude'):
        for i in (0, 2):
            add('double ra, th, ph; cartesian_to_spherical({V}, ra, th, ph, %d, %s); {O}[0] = ra; {O}[1] = th; {O}[2] = ph;' % (i, hgt), 3, 3, 3)
    add('double ra, th, h; cartesian_to_cylindrical({V}, ra, th, h, 1); {O}[0] = ra; {O}[1] = th; {O}[2] = h;', 3, 3, 3)
    add('double ra, th; cartesian_to_polar({V}, ra, th); {O}[0] = ra; {O}[1] = th;', 2, 2, 2)
    return T


def c_vshape(nm, row, src):
    st, lo, hi, outs, gap = row
    body = 'k[0] = 0; ' + vec(src, 'double', 'V', 'a', 0, size='n')
    if gap:
        body += 'if (n == %d && (%s)) { k[0] = 9; return; }' % (hi, gap)
    act = st.replace('{V}', 'V').replace('{O}', 'o')
    ref = ''
    for n in range(lo, hi + 1):
        ref += 'if (n == %d) { vector<double,fixed<%d>> F; for (int i = 0; i < %d; ++i) F[i] = a[i]; %s }\n' % (n, n, n, st.replace('{V}', 'F').replace('{O}', 'p'))
    body += '\n try { { %s }\n %s } %s' % (act, ref, ERRS)
    ps = [P('a', 'double', ('n',), 'inout'), S_('n', hi=7), P('k', 'int', 1, 'out'), P('o', 'double', outs, 'out'), P('p', 'double', outs, 'out')]

    def ens(I, O):
        good = and_(ige(I.n, lo), ile(I.n, hi))
        res = [('accepted', or_(implies(good, ieq(O.k[0], 0)), ieq(O.k[0], 9))), ('rejected', implies(not_(good), ieq(O.k[0], 1))),
               ('unchanged', forall(I.n, lambda i: eq(O.a[i], I.a[i])))]
        return res + [('as for the fixed size %d' % i, when(and_(good, ine(O.k[0], 9)), eq(O.o[i], O.p[i]))) for i in range(outs)]
    return SizeCase(nm, body, ps, ens, label='every vector size (%s): %s' % (src, st), opts=SOFT)


# ---- further shape conditions
def c_invert_RT(nm, bas, lay):
    """shapes that are not affine are rejected (C19 has the values of the accepted ones)"""
    body = 'k[0] = 0; ' + dmat('dext', 'double', 'A', 'a', 'r', 'c', bas, lay) + '\n try { matrix_invert_RT(A); } ' + ERRS

    def affine(r, c):
        M, N = (r, c) if bas == 'row' else (c, r)
        return or_(ieq(M, N), ieq(M, N + 1))

    def ens(I, O):
        old, new = mget('dext', lay, I.a), mget('dext', lay, O.a)
        return [('rejected shape', ieq(O.k[0], 1)), ('rejected: unchanged', forall(I.r, lambda i: forall(I.c, lambda j: eq(new(i, j), old(i, j)))))]
    return SizeCase(nm, body, [P('a', 'double', mshape('dext', lay, 'r', 'c'), 'inout'), S_('r', hi=7), S_('c', hi=7), P('k', 'int', 1, 'out')], ens,
                    lambda I: [not_(affine(I.r, I.c))], label='matrix_invert_RT rejects shapes that are not affine, %s %s' % (bas, lay),
                    opts=dict(SOFT, szok=lambda z: (z['r'] - z['c'] if bas == 'row' else z['c'] - z['r']) not in (0, 1)))


def c_concat(nm, ka, kb, bas, lay):
    """the concatenation of square matrices of one size is the product; all others are rejected"""
    body = 'k[0] = 0; z[0] = z[1] = -1; ' + dmat(ka, 'double', 'A', 'a', 'r', 'c', bas, lay) + dmat(kb, 'double', 'B', 'b', 'p', 'q', bas, lay)
    body += '\n try { auto R = matrix_concat(A, B); z[0] = R.rows(); z[1] = R.cols(); if (R.rows() == r && R.cols() == r) outm(o, R, r, r); } ' + ERRS

    def ens(I, O):
        good = and_(ieq(I.r, I.c), and_(ieq(I.p, I.q), ieq(I.r, I.p)))
        res = [('accepted', implies(good, ieq(O.k[0], 0))), ('rejected', implies(not_(good), ieq(O.k[0], 1))), ('rows', implies(good, ieq(O.z[0], I.r))),
               ('columns', implies(good, ieq(O.z[1], I.r)))]
        A, B = mget(ka, lay, I.a), mget(kb, lay, I.b)
        if bas == 'col':
            A, B = B, A
        f = lambda: forall(I.r, lambda i: forall(I.r, lambda j: eq(O.o[i][j], total(I.r, lambda x: A(i, x) * B(x, j)))))
        return res + [('product', f() if good is tm.TRUE else tm.TRUE if good is tm.FALSE else when(good, Prop('lazy', f)))]
    ps = [P('a', 'double', mshape(ka, lay, 'r', 'c')), P('b', 'double', mshape(kb, lay, 'p', 'q'))] + [S_(x, hi=5) for x in 'rcpq'] + [
        P('o', 'double', ('r', 'r'), 'out'), P('z', 'int', 2, 'out'), P('k', 'int', 1, 'out')]
    return SizeCase(nm, body, ps, ens, label='matrix_concat accepts square matrices of one size, %s %s %s %s' % (ka, kb, bas, lay), opts=SOFT)


RESULTS = [
    ('matrix_to_axis_angle', 'matrix<double,fixed<3,3>> M; matrix_rotation_axis_angle(M, vector<double,fixed<3>>(0.6, 0.0, 0.8), 0.5); double an; matrix_to_axis_angle(M, {V}, an);', 3),
    ('quaternion_to_axis_angle', 'quaternion<double> q(0.6, 0.0, 0.0, 0.8); double an; quaternion_to_axis_angle(q, {V}, an);', 3),
]


def c_result(nm, row, kind):
    """results given through a view of run-time size: a view of another size is rejected"""
    f, st, n = row
    body = 'k[0] = 0; z[0] = -1; ' + vec(kind, 'double', 'V', 'a', 0, size='n') + '\n try { %s z[0] = V.size(); } %s' % (st.replace('{V}', 'V'), ERRS)

    def ens(I, O):
        good = tm.TRUE if kind == 'dyn' else ieq(I.n, n)
        return [('accepted', implies(good, ieq(O.k[0], 0))), ('rejected', implies(not_(good), ieq(O.k[0], 1))), ('size', implies(good, ieq(O.z[0], n))),
                ('rejected: unchanged', when(not_(good), forall(I.n, lambda i: eq(O.a[i], I.a[i]))))]
    return SizeCase(nm, body, [P('a', 'double', ('n',), 'inout'), S_('n', hi=7), P('z', 'int', 1, 'out'), P('k', 'int', 1, 'out')], ens,
                    label='%s into a vector of every size, %s' % (f, kind), opts=SOFT)


def units(tier):
    cs = []
    T = table()
    for q, row in enumerate(T):
        for bas in ('col', 'row'):
            for lay in ('row', 'col') if tier == 'thorough' else (('row', 'col')[(q + (bas == 'row')) % 2],):
                cs.append(c_shape('s%d_%s_%s' % (q, bas, lay), row, bas, lay))
    for q, row in enumerate(vtable()):
        for src in ('dyn', 'dext', 'cdext') if tier == 'thorough' else (('dyn', 'dext', 'cdext')[q % 3],):
            cs.append(c_vshape('v%d_%s' % (q, src), row, src))
    for bas in ('col', 'row'):
        for lay in ('row', 'col'):
            cs.append(c_invert_RT('rt_%s_%s' % (bas, lay), bas, lay))
        cs.append(c_concat('cc_%s' % bas, 'dext', 'dext', bas, ('row', 'col')[bas == 'row']))
        cs.append(c_concat('cd_%s' % bas, 'dyn', 'dext', bas, ('row', 'col')[bas == 'col']))
    for q, row in enumerate(RESULTS):
        cs.append(c_result('res%d' % q, row, 'dext'))
    return chunks('c27', cs, 8)
