"""C19: translation, scale, linear and affine builders, application to points and vectors, concatenation, rigid inverse"""
from contracts.common import *
from contracts.c15 import TARGETS, T2, target, emb, linear, unit
from contracts.c16 import place
from contracts.c18 import AFF

META = {'level': 'proof'}
MINERR = '@_ZTIN3cml25minimum_matrix_size_errorE'
AFF2 = [('fix', 3, 3, 'col', 'col'), ('fix', 3, 3, 'row', 'row'), ('fix', 2, 3, 'col', 'row'), ('fix', 3, 2, 'row', 'col'), ('fix', 4, 4, 'col', 'row'), ('dyn', 3, 3, 'col', 'row'), ('dyn', 3, 2, 'row', 'row'),
        ('ext', 3, 3, 'row', 'col'), ('dext', 2, 3, 'col', 'col')]
SQ = [T for T in TARGETS if T[1] == T[2]]


def be(M, b, i, j):
    return M[j][i] if b == 'col' else M[i][j]


def put(M, b, vals):
    """copy of M with basis elements {(i, j): value} replaced"""
    R = [list(r) for r in M]
    for (i, j), v in vals.items():
        if b == 'col':
            R[j][i] = v
        else:
            R[i][j] = v
    return R


def idm(T):
    return [[const(1 if i == j else 0) for j in range(T[2])] for i in range(T[1])]


def io(k):
    return 'inout' if k in ('ext', 'dext') else 'in'


def c_trans(nm, t, T, vk, n):
    """translation builders, setters and getters of dimension n"""
    k, r, c, b, l = T
    sfx = '_2D' if n == 2 else ''
    d = dict(s=sfx, r=r, c=c, t=t)
    el = ','.join('v[%d]' % i for i in range(n))
    body = target(t, T) + target(t, T, 'N') + vec(vk, t, 'V', 'v', n) + '''
  matrix_translation%(s)s(M, E); outm(a, M, %(r)d, %(c)d); matrix_translation%(s)s(M, V); outm(a2, M, %(r)d, %(c)d);
  auto g = matrix_get_translation%(s)s(M); out(g0, g, N_); G; { %(D)s matrix_set_translation%(s)s(M, E); outm(s1, M, %(r)d, %(c)d); } { %(D)s matrix_set_translation%(s)s(M, V + V); outm(s2, M, %(r)d, %(c)d); }
  out(v1, V, N_);'''.replace('E)', el + ')').replace('N_', str(n)) % dict(d, D=target(t, T))
    body = body.replace('G;', '%s; matrix_get_translation%s(N, %s);' % ('', sfx, ','.join('g1[%d]' % i for i in range(n))))
    if n == 3:
        body += 'matrix_translation(M, v[0], v[1]); outm(a3, M, %d, %d); vector<%s,fixed<2>> W(v[0], v[1]); matrix_translation(M, W); outm(a4, M, %d, %d); { %s matrix_set_translation(M, v[0], v[1]); outm(s3, M, %d, %d); } vector<%s,dynamic<>> X(W); { %s matrix_set_translation(M, X); outm(s4, M, %d, %d); }' % (
            r, c, t, r, c, target(t, T), r, c, t, target(t, T), r, c)
    names = ['a', 'a2', 's1', 's2'] + (['a3', 'a4', 's3', 's4'] if n == 3 else [])
    ps = [P('m', t, (r, c)), P('v', t, n, io(vk))] + [P(x, t, (r, c), 'out') for x in names] + [P('g0', t, n, 'out'), P('g1', t, n, 'out'), P('v1', t, n, 'out')]

    def ens(I, O):
        v = I.v
        st = lambda M, v: put(M, b, {(n, i): v[i] for i in range(n)})
        res = meq('translation', O.a, st(idm(T), v)) + meq('translation by a vector', O.a2, st(idm(T), v)) + meq('set', O.s1, st(I.m, v)) + meq('set by an expression', O.s2, st(I.m, vscale(const(2), v)))
        if n == 3:
            w = [v[0], v[1], const(0)]
            res += meq('translation by two values', O.a3, st(idm(T), w)) + meq('translation by a 2D vector', O.a4, st(idm(T), w)) + meq('set by two values', O.s3, st(I.m, w)) + meq('set by a run-time 2D vector', O.s4, st(I.m, w))
        return res + veq('get of the result', O.g0, v) + veq('get of a matrix', O.g1, [be(I.m, b, n, i) for i in range(n)]) + veq('vector kept', O.v1, v)
    return Case(nm, body, ps, ens, label='%dD translation, %s %s %s' % (n, t, T, vk))


def c_scale(nm, t, T, vk, n):
    k, r, c, b, l = T
    sfx = '_2D' if n == 2 else ''
    el = ','.join('v[%d]' % i for i in range(n))
    calls = [('a', 'matrix_scale%s(M, %s)' % (sfx, el)), ('a2', 'matrix_scale%s(M, V)' % sfx), ('u', 'matrix_uniform_scale%s(M, v[0])' % sfx), ('i', 'matrix_inverse_scale%s(M, %s)' % (sfx, el)),
             ('i2', 'matrix_inverse_scale%s(M, V)' % sfx), ('z', 'matrix_scale%s(M, %s)' % (sfx, ','.join('k[%d]' % i for i in range(n)))), ('y', 'matrix_inverse_scale%s(M, %s)' % (sfx, ','.join('k[%d]' % i for i in range(n))))]
    body = vec(vk, t, 'V', 'v', n) + ''.join('{ %s %s; outm(%s, M, %d, %d); }' % (target(t, T), cl, o, r, c) for o, cl in calls) + 'out(v1, V, %d);' % n
    ps = [P('m', t, (r, c)), P('v', t, n, io(vk)), P('k', 'int', n, lo=1, hi=9)] + [P(o, t, (r, c), 'out') for o, _ in calls] + [P('v1', t, n, 'out')]

    def ens(I, O):
        dg = lambda d: put(idm(T), b, {(i, i): d[i] for i in range(n)})
        inv = [const(1) / x for x in I.v]
        kk = [as_real(x) for x in I.k]
        return meq('scale', O.a, dg(I.v)) + meq('scale by a vector', O.a2, dg(I.v)) + meq('uniform scale', O.u, dg([I.v[0]] * n)) + meq('inverse scale', O.i, dg(inv)) + meq('inverse scale by a vector', O.i2, dg(inv)) + \
            meq('scale by integers', O.z, dg(kk)) + meq('inverse scale by integers', O.y, dg([const(1) / x for x in kk])) + veq('vector kept', O.v1, I.v)
    return Case(nm, body, ps, ens, lambda I: [nonzero(x) for x in I.v] + [nonzero(as_real(x)) for x in I.k], label='%dD scale, %s %s %s' % (n, t, T, vk))


def c_linear(nm, t, T, L, vk):
    """linear and affine builders; L: shape and orientation of the linear operand"""
    k, r, c, b, l = T
    lk, lr, lc, lb, ll = L
    body = target(t, T) + target(t, L, 'L', 'n') + vec(vk, t, 'V', 'v', 3) + vec('fix', t, 'U', 'u', 3) + vec('fix', t, 'W', 'w', 3) + '''
  matrix_linear_transform(M, L); outm(a, M, %(r)d, %(c)d);''' % dict(r=r, c=c)
    aff = T in AFF
    if aff:
        body += '''{ %(D)s matrix_affine_transform(M, L, V); outm(f, M, %(r)d, %(c)d); } { %(D)s matrix_affine_transform(M, U, an, V); outm(g, M, %(r)d, %(c)d); }
  { %(D)s matrix_affine_transform(M, W, an, V, true); outm(h, M, %(r)d, %(c)d); } { %(D)s matrix_affine_transform(M, U, an, V, false); outm(h2, M, %(r)d, %(c)d); }''' % dict(r=r, c=c, D=target(t, T))
    body += 'outm(n1, L, %d, %d); out(v1, V, 3);' % (lr, lc)
    outs = ['a'] + (['f', 'g', 'h', 'h2'] if aff else [])
    ps = [P('m', t, (r, c)), P('n', t, (lr, lc)), P('v', t, 3, io(vk)), P('u', t, 3, gen='unit'), P('w', t, 3), P('an', t, gen='angle')] + [P(o, t, (r, c), 'out') for o in outs] + [P('n1', t, (lr, lc), 'out'), P('v1', t, 3, 'out')]

    def ens(I, O):
        Ln = linear(I.n, lb)
        tr_ = lambda M: put(M, b, {(3, i): I.v[i] for i in range(3)})
        res = meq('linear', O.a, emb(Ln, T)) + meq('operand kept', O.n1, I.n) + veq('vector kept', O.v1, I.v)
        if aff:
            cs, sn = tm.cos(I.an), tm.sin(I.an)
            wn = vscale(const(1) / tm.sqrt(norm2(I.w)), I.w)
            res += meq('affine', O.f, tr_(emb(Ln, T))) + meq('affine of axis and angle', O.g, tr_(emb(rot_axis(I.u, cs, sn), T))) + meq('affine, not normalizing', O.h2, tr_(emb(rot_axis(I.u, cs, sn), T))) + \
                meq('affine, normalizing', O.h, tr_(emb(rot_axis(wn, cs, sn), T)))
        return res
    return Case(nm, body, ps, ens, lambda I: [unit(I.u), lt(const(0), norm2(I.w))], label='linear and affine builders, %s %s from %s %s' % (t, T, L, vk))


def c_apply(nm, t, T, vk, n):
    k, r, c, b, l = T
    sfx = '_2D' if n == 2 else ''
    aff = T in (AFF if n == 3 else AFF2)
    body = target(t, T) + vec(vk, t, 'V', 'v', n) + 'auto x = transform_vector%s(M, V); out(a, x, %d); z[0] = x.size(); auto x2 = transform_vector%s(M, V + V); out(a2, x2, %d);' % (sfx, n, sfx, n)
    if aff:
        body += 'auto y = transform_point%s(M, V); out(p, y, %d); auto y2 = transform_point%s(M + M, V + V); out(p2, y2, %d);' % (sfx, n, sfx, n)
    body += 'outm(m1, M, %d, %d); out(v1, V, %d);' % (r, c, n)
    ps = [P('m', t, (r, c)), P('v', t, n, io(vk)), P('a', t, n, 'out'), P('a2', t, n, 'out'), P('z', 'int', 1, 'out')] + ([P('p', t, n, 'out'), P('p2', t, n, 'out')] if aff else []) + [P('m1', t, (r, c), 'out'), P('v1', t, n, 'out')]

    def ens(I, O):
        L = linear(I.m, b, n)
        lv = mv(L, I.v)
        res = veq('vector', O.a, lv) + veq('vector expression', O.a2, vscale(const(2), lv)) + [('size', is_val(O.z[0], n))] + meq('matrix kept', O.m1, I.m) + veq('operand kept', O.v1, I.v)
        if aff:
            tt = [be(I.m, b, n, i) for i in range(n)]
            res += veq('point', O.p, vadd(lv, tt)) + veq('point expression', O.p2, vadd(vscale(const(4), lv), vscale(const(2), tt)))
        return res
    return Case(nm, body, ps, ens, label='%dD application, %s %s %s' % (n, t, T, vk))


def c_apply4(nm, t, T, vk):
    k, r, c, b, l = T
    body = target(t, T) + vec(vk, t, 'V', 'v', 4) + vec(vk, t, 'W', 'w', 3) + 'auto x = transform_vector_4D(M, V); out(a, x, 4); auto x2 = transform_vector_4D(M, V + V); out(a2, x2, 4); auto y = transform_point_4D(M, W); out(p, y, 3);' + \
        'outm(m1, M, 4, 4); out(v1, V, 4); out(w1, W, 3);'
    ps = [P('m', t, (4, 4)), P('v', t, 4, io(vk)), P('w', t, 3, io(vk)), P('a', t, 4, 'out'), P('a2', t, 4, 'out'), P('p', t, 3, 'out'), P('m1', t, (4, 4), 'out'), P('v1', t, 4, 'out'), P('w1', t, 3, 'out')]
    col = lambda I: tr(I.m) if b == 'row' else I.m

    def ens(I, O):
        A = col(I)
        h = mv(A, I.w + [const(1)])
        return veq('vector', O.a, mv(A, I.v)) + veq('vector expression', O.a2, vscale(const(2), mv(A, I.v))) + veq('projected point', O.p, [h[i] / h[3] for i in range(3)]) + \
            meq('matrix kept', O.m1, I.m) + veq('vector kept', O.v1, I.v) + veq('point kept', O.w1, I.w)
    return Case(nm, body, ps, ens, lambda I: [ne(mv(col(I), I.w + [const(1)])[3], const(0))], label='homogeneous application, %s %s %s' % (t, T, vk))


def c_concat(nm, t, k1, k2, n, b, l, t2=None):
    """the first matrix is applied first; affine points go through both"""
    T, U = (k1, n, n, b, l), (k2, n, n, b, l)
    t2 = t2 or t
    rt = 'double' if 'double' in (t, t2) else t
    body = target(t, T) + target(t2, U, 'N', 'n') + 'auto R = matrix_concat(M, N); outm(o, R, %d, %d); z[0] = R.rows(); z[1] = R.cols(); auto S = matrix_concat(M + M, transpose(transpose(N))); outm(o2, S, %d, %d); outm(m1, M, %d, %d); outm(n1, N, %d, %d);' % ((n,) * 8)
    ps = [P('m', t, (n, n)), P('n', t2, (n, n)), P('o', rt, (n, n), 'out'), P('o2', rt, (n, n), 'out'), P('z', 'int', 2, 'out'), P('m1', t, (n, n), 'out'), P('n1', t2, (n, n), 'out')]
    pt = n in (3, 4)
    if pt:
        d = n - 1
        sfx = '_2D' if d == 2 else ''
        body += vec('fix', rt, 'V', 'v', d) + 'auto p = transform_point%s(R, V); auto q = transform_point%s(M, V); auto s = transform_point%s(N, q); out(p1, p, %d); out(p2, s, %d);' % (sfx, sfx, sfx, d, d)
        ps += [P('v', rt, d), P('p1', rt, d, 'out'), P('p2', rt, d, 'out')]

    def ens(I, O):
        A, B = (I.m, I.n) if b == 'row' else (I.n, I.m)
        R = mm(A, B)
        res = meq('product in application order', O.o, R) + meq('product of expressions', O.o2, [[2 * x for x in r] for r in R]) + [('rows', is_val(O.z[0], n)), ('cols', is_val(O.z[1], n))] + meq('first kept', O.m1, I.m) + meq('second kept', O.n1, I.n)
        if pt:
            # for affine matrices the concatenation applies both
            d = n - 1
            last = lambda M: and_(*[eq(be(M, b, i, d), const(1 if i == d else 0)) for i in range(n)])
            res += [(lb, implies(and_(last(I.m), last(I.n)), f)) for lb, f in veq('applies the first, then the second', O.p1, O.p2)]
        return res
    return Case(nm, body, ps, ens, label='concatenation, %s %s %s %s %dx%d %s %s' % (t, k1, t2, k2, n, n, b, l))


def c_invert(nm, t, T, which):
    """inverse of a rigid transform (rotation and translation)"""
    k, r, c, b, l = T
    n = 2 if which == '_RT_only_2D' else (min(r, c) if r != c else r - 1) if which == '_RT' else 3
    body = target(t, T) + 'matrix_invert%s(M); outm(o, M, %d, %d);' % (which, r, c)
    ps = [P('m', t, (r, c)), P('v', t, n), P('o', t, (r, c), 'out')]

    def ens(I, O):
        L = linear(I.m, b, n)
        tt = [be(I.m, b, n, i) for i in range(n)]
        Li = tr(L)
        ti = vscale(const(-1), mv(Li, tt))
        vals = {(i, j): Li[j][i] for i in range(n) for j in range(n)}
        vals.update({(n, i): ti[i] for i in range(n)})
        res = meq('inverse', O.o, put(I.m, b, vals))
        # the result after the transform is L^T L v: every point comes back when the linear part is orthonormal
        Lo = linear(O.o, b, n)
        to = [be(O.o, b, n, i) for i in range(n)]
        res += veq('lemma: undoes the transform', vadd(mv(Lo, vadd(mv(L, I.v), tt)), to), mv(mm(tr(L), L), I.v))
        return res
    return Case(nm, body, ps, ens, label='rigid inverse %s, %s %s' % (which, t, T), opts={'limit': 60})


def c_basis(nm, t, T, vk, n):
    """basis vector setters and getters of the linear part"""
    k, r, c, b, l = T
    s = '_2D' if n == 2 else ''
    ax = 'xyz'[:n]
    D = target(t, T)
    calls = []
    for tp in ('', 'transposed_'):
        calls.append((tp + 'i', 'matrix_set_%sbasis_vector%s(M, ix, V)' % (tp, s)))
        for a in ax:
            calls.append((tp + a, 'matrix_set_%s%s_basis_vector%s(M, V + V - V)' % (tp, a, s)))
        calls.append((tp + 'all', 'matrix_set_%sbasis_vectors%s(M, %s)' % (tp, s, ', '.join(['V', 'V + W', 'W'][:n]))))
    body = vec(vk, t, 'V', 'v', n) + vec('fix', t, 'W', 'w', n) + ''.join('{ %s %s; outm(o_%s, M, %d, %d); }' % (D, cl, o, r, c) for o, cl in calls) + D
    gets = []
    for tp in ('', 'transposed_'):
        gets.append(tp + 'i')
        body += '{ auto x = matrix_get_%sbasis_vector%s(M, ix); out(g_%si, x, %d); }' % (tp, s, tp, n)
        for a in ax:
            gets.append(tp + a)
            body += '{ auto x = matrix_get_%s%s_basis_vector%s(M); out(g_%s%s, x, %d); }' % (tp, a, s, tp, a, n)
            gets.append(tp + 'all' + a)
        body += '{ vector<%s,fixed<%d>> A, B%s; matrix_get_%sbasis_vectors%s(M, A, B%s); %s }' % (t, n, ', C' if n == 3 else '', tp, s, ', C' if n == 3 else '', ''.join('out(g_%sall%s, %s, %d);' % (tp, a, 'ABC'[i], n) for i, a in enumerate(ax)))
    ps = [P('m', t, (r, c)), P('v', t, n, io(vk)), P('w', t, n), P('ix', 'int', lo=0, hi=n - 1)] + [P('o_' + o, t, (r, c), 'out') for o, _ in calls] + [P('g_' + g, t, n, 'out') for g in gets]

    def ens(I, O):
        res = []
        vw = [I.v, vadd(I.v, I.w), I.w]
        for tp in ('', 'transposed_'):
            pos = (lambda i, j: (i, j)) if not tp else (lambda i, j: (j, i))
            get = [[be(I.m, b, *pos(i, j)) for j in range(n)] for i in range(n)]
            for i, a in enumerate(ax):
                one = put(I.m, b, {pos(i, j): I.v[j] for j in range(n)})
                res += meq('set %s%s' % (tp, a), O['o_' + tp + a], one) + [('set %sby index %d %s' % (tp, i, lb), implies(is_val(I.ix, i), f)) for lb, f in meq('', O['o_' + tp + 'i'], one)]
                res += veq('get %s%s' % (tp, a), O['g_' + tp + a], get[i]) + veq('get all %s%s' % (tp, a), O['g_' + tp + 'all' + a], get[i]) + \
                    [('get %sby index %d %s' % (tp, i, lb), implies(is_val(I.ix, i), f)) for lb, f in veq('', O['g_' + tp + 'i'], get[i])]
            res += meq('set all %s' % tp, O['o_' + tp + 'all'], put(I.m, b, {pos(i, j): vw[i][j] for i in range(n) for j in range(n)}))
        return res
    return Case(nm, body, ps, ens, lambda I: [in_range(I.ix, 0, n - 1)], label='%dD basis vectors, %s %s %s' % (n, t, T, vk))


def c_basis_bad(nm, T, n, fn):
    s = '_2D' if n == 2 else ''
    body = target('double', T) + vec('fix', 'double', 'V', 'v', n) + (('matrix_set_%sbasis_vector%s(M, ix, V);' if fn[0] == 's' else 'auto x = matrix_get_%sbasis_vector%s(M, ix); out(g, x, %d);') % ((fn[1:], s) + (() if fn[0] == 's' else (n,))))
    ps = [P('m', 'double', (T[1], T[2])), P('v', 'double', n), P('ix', 'int', lo=-2, hi=4)] + ([P('g', 'double', n, 'out')] if fn[0] == 'g' else [])
    return Case(nm, body, ps, None, throws=lambda I: [('@_ZTISt16invalid_argument', not_(in_range(I.ix, 0, n - 1)))], label='%dD basis vector with a wrong index, %s %s' % (n, fn, T))


def c_misc(nm, t, T, vk):
    """traces of the leading block and skew-symmetric matrices"""
    k, r, c, b, l = T
    body = target(t, T) + 'w[0] = trace_2x2(M); w[1] = trace_3x3(M); outm(m1, M, %d, %d);' % (r, c) + vec(vk, t, 'V', 'v', 3) + 'matrix_skew_symmetric(M, V); outm(s, M, %d, %d); %s matrix_skew_symmetric_2D(N, v[0]); outm(s2, N, %d, %d);' % (r, c, target(t, T, 'N'), r, c)
    ps = [P('m', t, (r, c)), P('v', t, 3, io(vk)), P('w', t, 2, 'out')] + [P(x, t, (r, c), 'out') for x in ('m1', 's', 's2')]

    def ens(I, O):
        z = const(0)
        x, y, w = I.v
        K = [[z, -w, y], [w, z, -x], [-y, x, z]]
        pad = lambda A: [[A[i][j] if i < len(A) and j < len(A) else z for j in range(c)] for i in range(r)]
        o = (lambda A: tr(A)) if b == 'row' else (lambda A: A)
        return [('trace 2x2', eq(O.w[0], I.m[0][0] + I.m[1][1])), ('trace 3x3', eq(O.w[1], I.m[0][0] + I.m[1][1] + I.m[2][2]))] + meq('matrix kept', O.m1, I.m) + \
            meq('skew-symmetric', O.s, pad(o(K))) + meq('skew-symmetric 2D', O.s2, pad(o([[z, -x], [x, z]])))
    return Case(nm, body, ps, ens, label='traces and skew-symmetric matrices, %s %s' % (t, T))


def c_gen(nm):
    """generator functions"""
    body = '''auto a = identity_2x2(); outm(i2, a, 2, 2); auto b = identity_3x3(); outm(i3, b, 3, 3); auto c = identity_4x4(); outm(i4, c, 4, 4); auto d = identity<2,3>(); outm(i23, d, 2, 3);
  auto e = zero_2x2(); outm(z2, e, 2, 2); auto f = zero_3x3(); outm(z3, f, 3, 3); auto g = zero_4x4(); outm(z4, g, 4, 4); auto h = zero<3,2>(); outm(z32, h, 3, 2);
  auto k = zero_2D(); out(v2, k, 2); auto l = zero_3D(); out(v3, l, 3); auto m = zero_4D(); out(v4, m, 4); auto n = zero<5>(); out(v5, n, 5);
  auto p = x_axis_2D(); out(x2, p, 2); auto q = y_axis_2D(); out(y2, q, 2); auto r = x_axis_3D(); out(x3, r, 3); auto s = y_axis_3D(); out(y3, s, 3); auto t = z_axis_3D(); out(w3, t, 3);
  auto u = axis_2D(j); out(a2, u, 2); auto v = axis_3D(i); out(a3, v, 3); auto w = axis<4>(i); out(a4, w, 4);'''
    ps = [P('i', 'int', lo=0, hi=2), P('j', 'int', lo=0, hi=1)] + [P('i%d' % n, 'double', (n, n), 'out') for n in (2, 3, 4)] + [P('z%d' % n, 'double', (n, n), 'out') for n in (2, 3, 4)] + [P('i23', 'double', (2, 3), 'out'), P('z32', 'double', (3, 2), 'out')] + \
        [P('v%d' % n, 'double', n, 'out') for n in (2, 3, 4, 5)] + [P('x2', 'double', 2, 'out'), P('y2', 'double', 2, 'out')] + [P(x, 'double', 3, 'out') for x in ('x3', 'y3', 'w3')] + [P('a%d' % n, 'double', n, 'out') for n in (2, 3, 4)]

    def ens(I, O):
        card = lambda n, i: [const(1 if j == i else 0) for j in range(n)]
        res = []
        for n in (2, 3, 4):
            res += meq('identity %d' % n, O['i%d' % n], ident(n)) + meq('zero %d' % n, O['z%d' % n], [[const(0)] * n] * n)
        res += meq('identity 2x3', O.i23, [card(3, 0), card(3, 1)]) + meq('zero 3x2', O.z32, [[const(0)] * 2] * 3)
        for n in (2, 3, 4, 5):
            res += veq('zero vector %d' % n, O['v%d' % n], [const(0)] * n)
        for lb, n, i in (('x2', 2, 0), ('y2', 2, 1), ('x3', 3, 0), ('y3', 3, 1), ('w3', 3, 2)):
            res += veq(lb, O[lb], card(n, i))
        for n in (2, 3, 4):
            for i in range(n if n < 4 else 3):
                res += [('axis %d of %d %s' % (i, n, lb), implies(is_val(I.j if n == 2 else I.i, i), f)) for lb, f in veq('', O['a%d' % n], card(n, i))]
        return res
    return Case(nm, body, ps, ens, lambda I: [in_range(I.i, 0, 2), in_range(I.j, 0, 1)], label='generators')


SIZED = {  # call, minimum (rows, cols) for column basis and whether the operation is affine (transposed minimum for row basis)
    'set_translation': ('matrix_set_translation(M, 1., 2., 3.);', (3, 4), True), 'get_translation': ('auto p = matrix_get_translation(M);', (3, 4), True), 'translation': ('matrix_translation(M, 1., 2., 3.);', (3, 4), True),
    'set_translation_2D': ('matrix_set_translation_2D(M, 1., 2.);', (2, 3), True), 'scale': ('matrix_scale(M, 1., 2., 3.);', (3, 4), True), 'scale_2D': ('matrix_scale_2D(M, 1., 2.);', (2, 3), True),
    'linear': ('matrix_linear_transform(M, L);', (3, 3), False), 'point': ('auto p = transform_point(M, V);', (3, 4), True), 'vector': ('auto p = transform_vector(M, V);', (3, 3), False),
    'basis': ('matrix_set_x_basis_vector(M, V);', (3, 3), False), 'invert': ('matrix_invert_RT_only(M);', (3, 4), True), 'affine': ('matrix_affine_transform(M, L, V);', (3, 4), True)}


def c_size(nm, fn, b, k):
    call, (r0, c0), aff = SIZED[fn]
    if aff and b == 'row':
        r0, c0 = c0, r0
    decl = mtype(k, 'double', 0, 0, b, 'row' if b == 'col' else 'col')
    body = 'double mb[25] = {}; %s M%s; M.zero(); matrix<double,fixed<3,3>> L; L.identity(); vector<double,fixed<3>> V(1, 2, 3); ok[0] = 0; %s ok[0] = 1;' % (
        decl, '(rs, cs)' if k == 'dyn' else '(mb, rs, cs)', call)
    ps = [P('rs', 'int', lo=1, hi=5), P('cs', 'int', lo=1, hi=5), P('ok', 'int', 1, 'out')]
    return Case(nm, body, ps, lambda I, O: [('runs', is_val(O.ok[0], 1))], lambda I: [in_range(I.rs, 1, 5), in_range(I.cs, 1, 5)],
                throws=lambda I: [(MINERR, or_(tm.icmp('slt', I.rs, const(r0, 32)), tm.icmp('slt', I.cs, const(c0, 32))))], label='minimum size of %s, %s %s' % (fn, b, k))


def units(tier):
    cs = []
    n = [0]

    def add(f, *a):
        n[0] += 1
        cs.append(f('c19_%s_%d' % (f.__name__, n[0]), *a))
    K = ('fix', 'dyn', 'ext', 'dext', 'cext')
    ty = lambda i: ('double', 'float')[i % 3 == 2]
    for i, T in enumerate(AFF):
        add(c_trans, ty(i), T, K[i % 5], 3)
        add(c_scale, ty(i + 1), T, K[(i + 1) % 5], 3)
        add(c_invert, ty(i), T, '_RT_only')
    for i, T in enumerate(AFF2):
        add(c_trans, ty(i), T, K[i % 5], 2)
        add(c_scale, ty(i + 1), T, K[(i + 1) % 5], 2)
        add(c_apply, ty(i + 1), T, K[(i + 2) % 5], 2)
        add(c_invert, ty(i), T, '_RT_only_2D')
    for i, T in enumerate(TARGETS):
        add(c_linear, ty(i), T, TARGETS[(5 * i + 3) % len(TARGETS)], K[i % 5])
        add(c_apply, ty(i), T, K[i % 5], 3)
        add(c_misc, ty(i), T, K[(i + 1) % 5])
        add(c_basis, ty(i), T, K[(i + 2) % 5], 3)
    for i, T in enumerate(T2):
        add(c_basis, ty(i), T, K[i % 5], 2)
    for i, T in enumerate([T for T in TARGETS if T[1:3] == (4, 4)]):
        add(c_apply4, ty(i), T, K[i % 5])
    for i, (k1, k2) in enumerate([('fix', 'fix'), ('fix', 'dyn'), ('dyn', 'dyn'), ('ext', 'fix'), ('dext', 'ext')]):
        for m in (2, 3, 4):
            for b in ('row', 'col'):
                add(c_concat, ty(i), k1, k2, m, b, ('row', 'col')[(i + m) % 2], 'float' if i == 0 and m == 3 else None)
    RT = [T for T in TARGETS if T[1:3] != (3, 3)] + [T for T in AFF2 if T[1:3] != (4, 4)] + [('fix', 3, 3, 'row', 'col'), ('dyn', 5, 5, 'col', 'row'), ('fix', 5, 4, 'row', 'row')]
    for i, T in enumerate(RT):
        if T[0] in ('dyn', 'dext'):
            continue
        add(c_invert, ty(i), T, '_RT')
    for n_, T in ((3, TARGETS[1]), (3, TARGETS[9]), (2, T2[0]), (2, T2[6])):
        for fn in ('s', 'stransposed_', 'g', 'gtransposed_'):
            add(c_basis_bad, T, n_, fn)
    add(c_gen)
    for i, fn in enumerate(SIZED):
        for b in ('row', 'col'):
            add(c_size, fn, b, ('dyn', 'dext')[i % 2])
    return chunks('c19', cs, 6)
