"""C10: matrix-matrix and matrix-vector products"""
from contracts.common import *
from contracts.c01 import prom, conv
from contracts.c08 import bounded, KINDS, BASES, LAYOUTS
from contracts.c09 import mmap, small

META = {'level': 'proof'}
VK = ['fix', 'ext', 'dyn', 'dext']


def c_mm(nm, ka, kb, ta, tb, m, k, n, bl, l):
    t = prom(ta, tb)
    body = mat(ka, ta, 'A', 'a', m, k, bl, l) + mat(kb, tb, 'B', 'b', k, n, bl, l) + '''
  auto P = A * B; on[0] = P.rows(); on[1] = P.cols(); outm(o, P, %(m)d, %(n)d);
  outm(p, (A + A) * (-B), %(m)d, %(n)d);
  outm(q, transpose(A * B), %(n)d, %(m)d);
  outm(a1, A, %(m)d, %(k)d); outm(b1, B, %(k)d, %(n)d);''' % dict(m=m, k=k, n=n)
    ps = [P('a', ta, (m, k)), P('b', tb, (k, n)), P('on', 'int', 2, 'out'), P('o', t, (m, n), 'out'), P('p', t, (m, n), 'out'), P('q', t, (n, m), 'out'),
          P('a1', ta, (m, k), 'out'), P('b1', tb, (k, n), 'out')]

    def ens(I, O):
        a, b = mmap(lambda x: conv(t, x), I.a), mmap(lambda x: conv(t, x), I.b)
        a2 = mmap(lambda x: conv(t, x + x), I.a)
        nb = mmap(lambda x: conv(t, -x), I.b)
        p = mm(a, b)
        return [('shape', and_(is_val(O.on[0], m), is_val(O.on[1], n)))] + meq('product', O.o, p) + meq('product of expressions', O.p, mm(a2, nb)) + \
            meq('transposed product', O.q, tr(p)) + meq('A kept', O.a1, I.a) + meq('B kept', O.b1, I.b)
    return Case(nm, body, ps, ens, lambda I: small(I.a, I.b), level=bounded(ka, kb),
                label='product of %s and %s' % (mtype(ka, ta, m, k, bl, l), mtype(kb, tb, k, n, bl, l)))


def c_sq(nm, k, t, n, bl, l):
    """products whose target is an operand; associativity; reversal under transposition"""
    body = mat(k, t, 'A', 'a', n, n, bl, l) + mat(k, t, 'B', 'b', n, n, bl, l) + '''
  outm(o, A * A, %(S)s); outm(p, A * B * A, %(S)s);
  %(T)s T(A); T = transpose(A); %(T)s U(B); U = transpose(B); outm(q, U * T, %(S)s);
  { %(mA)s A = A * B; outm(x, A, %(S)s); }
  { %(mB)s B = A * B; outm(y, B, %(S)s); }
  { %(mA)s A = A * A; outm(z, A, %(S)s); }''' % dict(S='%d, %d' % (n, n), T=mtype('dyn' if k in ('dyn', 'dext') else 'fix', t, n, n, bl, l),
                                                        mA=mat(k, t, 'A', 'a', n, n, bl, l), mB=mat(k, t, 'B', 'b', n, n, bl, l))
    sh = (n, n)

    def ens(I, O):
        a, b = I.a, I.b
        ab = mm(a, b)
        return meq('A*A', O.o, mm(a, a)) + meq('A*B*A', O.p, mm(ab, a)) + meq('transposes in reverse order', O.q, tr(ab)) + \
            meq('A = A*B', O.x, ab) + meq('B = A*B', O.y, ab) + meq('A = A*A', O.z, mm(a, a))
    return Case(nm, body, [P('a', t, sh), P('b', t, sh)] + [P(x, t, sh, 'out') for x in 'opqxyz'], ens, lambda I: small(I.a, I.b), level=bounded(k),
                label='products of square %s' % mtype(k, t, n, n, bl, l))


def c_mv(nm, km, kv, tm_, tv, r, c, bl, l):
    t = prom(tm_, tv)
    body = mat(km, tm_, 'A', 'a', r, c, bl, l) + vec(kv, tv, 'V', 'v', c) + vec(kv, tv, 'W', 'w', r) + '''
  auto X = A * V; on[0] = X.size(); out(x, X, %(r)d);
  auto Y = W * A; on[1] = Y.size(); out(y, Y, %(c)d);
  out(x2, (-A) * (V + V), %(r)d); out(y2, (2 * W) * (A + A), %(c)d);
  out(x3, (A * V) + W, %(r)d); out(y3, V - (W * A), %(c)d); out(x4, row(A, 0) * transpose(A), %(r)d);
  outm(a1, A, %(r)d, %(c)d);''' % dict(r=r, c=c)
    ps = [P('a', tm_, (r, c)), P('v', tv, c, mode(kv)), P('w', tv, r, mode(kv)), P('on', 'int', 2, 'out'), P('x', t, r, 'out'), P('y', t, c, 'out'),
          P('x2', t, r, 'out'), P('y2', t, c, 'out'), P('x3', t, r, 'out'), P('y3', t, c, 'out'), P('x4', tm_, r, 'out'), P('a1', tm_, (r, c), 'out')]

    def ens(I, O):
        a, v, w = mmap(lambda x: conv(t, x), I.a), [conv(t, x) for x in I.v], [conv(t, x) for x in I.w]
        x, y = mv(a, v), mv(tr(a), w)
        na = mmap(lambda q: conv(t, -q), I.a)
        aa = mmap(lambda q: conv(t, q + q), I.a)
        return [('sizes', and_(is_val(O.on[0], r), is_val(O.on[1], c)))] + veq('A*v', O.x, x) + veq('w*A', O.y, y) + \
            veq('(-A)*(v+v)', O.x2, mv(na, [conv(t, q + q) for q in I.v])) + \
            veq('(2w)*(A+A)', O.y2, mv(tr(aa), [conv(t, 2 * q) for q in I.w])) + veq('A*v+w', O.x3, vadd(x, w)) + veq('v-w*A', O.y3, vsub(v, y)) + \
            veq('row*transpose', O.x4, mv(I.a, I.a[0])) + meq('A kept', O.a1, I.a) + kept(I, O, 'v', 'w')
    return Case(nm, body, ps, ens, lambda I: small(I.a, I.v, I.w), level=bounded(km, kv),
                label='products of %s with %s<%s>' % (mtype(km, tm_, r, c, bl, l), kv, tv))


def c_alias(nm, km, kv, t, n, bl, l):
    tv = vec(kv, t, 'V', 'v', n)
    body = mat(km, t, 'A', 'a', n, n, bl, l) + '{ %s V = A * V; out(x, V, %d); } { %s V = V * A; out(y, V, %d); } { %s V += A * V; out(z, V, %d); }' % (
        vec(kv, t, 'V', 'x', n), n, vec(kv, t, 'V', 'y', n), n, vec(kv, t, 'V', 'z', n), n)

    def ens(I, O):
        return veq('V = A*V', O.x, mv(I.a, I.x)) + veq('V = V*A', O.y, mv(tr(I.a), I.y)) + veq('V += A*V', O.z, vadd(I.z, mv(I.a, I.z)))
    return Case(nm, body, [P('a', t, (n, n))] + [P(x, t, n, 'inout') for x in 'xyz'], ens, lambda I: small(I.a, I.x, I.y, I.z), level=bounded(km, kv),
                label='products assigned to their operand, %s, %s' % (mtype(km, t, n, n, bl, l), kv))


def c_tr(nm, ka, kb, kv, t, m, k, n, bl, l):
    """transposes, outer products and other size-changing nodes as factors"""
    body = mat(ka, t, 'A', 'a', m, k, bl, l) + mat(kb, t, 'B', 'b', n, k, bl, l) + mat(ka, t, 'C', 'c', m, n, bl, l) + vec(kv, t, 'V', 'v', k) + \
        vec(kv, t, 'W', 'w', m) + '''
  auto X = A * transpose(B); on[0] = X.rows(); on[1] = X.cols(); outm(x, X, %(m)d, %(n)d);
  auto Y = transpose(A) * C; on[2] = Y.rows(); on[3] = Y.cols(); outm(y, Y, %(k)d, %(n)d);
  auto Z = transpose(A) * W; on[4] = Z.size(); out(z, Z, %(k)d);
  auto R = V * transpose(A); on[5] = R.size(); out(r, R, %(m)d);
  auto Q = transpose(transpose(A) * C) * transpose(A); on[6] = Q.rows(); on[7] = Q.cols(); outm(q, Q, %(n)d, %(m)d);
  auto U = (transpose(A) + transpose(A)) * (W - 2 * W); on[8] = U.size(); out(u, U, %(k)d);
  outm(t, transpose(A) - transpose(2 * A), %(k)d, %(m)d);
  auto D = col(A, 0) * transpose(transpose(A)); on[9] = D.size(); out(d, D, %(k)d);''' % dict(m=m, k=k, n=n)
    ps = [P('a', t, (m, k)), P('b', t, (n, k)), P('c', t, (m, n)), P('v', t, k, mode(kv)), P('w', t, m, mode(kv)), P('on', 'int', 10, 'out'),
          P('x', t, (m, n), 'out'), P('y', t, (k, n), 'out'), P('z', t, k, 'out'), P('r', t, m, 'out'), P('q', t, (n, m), 'out'), P('u', t, k, 'out'),
          P('t', t, (k, m), 'out'), P('d', t, k, 'out')]

    def ens(I, O):
        a, b, c, v, w = I.a, I.b, I.c, I.v, I.w
        y = mm(tr(a), c)
        ns = (m, n, k, n, k, m, n, m, k, k)
        return [('sizes', and_(*[is_val(x, s) for x, s in zip(O.on, ns)]))] + meq('A*B^T', O.x, mm(a, tr(b))) + meq('A^T*C', O.y, y) + \
            veq('A^T*w', O.z, mv(tr(a), w)) + veq('v*A^T', O.r, mv(a, v)) + meq('(A^T*C)^T*A^T', O.q, mm(tr(y), tr(a))) + \
            veq('(A^T+A^T)*(w-2w)', O.u, [-2 * x for x in mv(tr(a), w)]) + meq('A^T-(2A)^T', O.t, [[-x for x in rr] for rr in tr(a)]) + \
            veq('col*A', O.d, mv(tr(a), [rr[0] for rr in a]))
    return Case(nm, body, ps, ens, level=bounded(ka, kb, kv), label='products with transposes, %s, %s, %s' % (mtype(ka, t, m, k, bl, l), kb, kv))


def c_outer(nm, ka, kb, t, m, n):
    body = vec(ka, t, 'U', 'u', m) + vec(kb, t, 'V', 'v', n) + vec(ka, t, 'X', 'x', n) + vec(ka, t, 'Y', 'y', m) + mat('fix' if ka in ('fix', 'ext') else 'dyn', t, 'G', 'g', n, m, 'col', 'row') + '''
  auto A = outer(U, V) * X; on[0] = A.size(); out(o, A, %(m)d);
  auto B = Y * outer(U, V); on[1] = B.size(); out(p, B, %(n)d);
  auto C = transpose(outer(U, V)) * Y; on[2] = C.size(); out(q, C, %(n)d);
  auto D = outer(U, V) * G; on[3] = D.rows(); on[4] = D.cols(); outm(r, D, %(m)d, %(m)d);''' % dict(m=m, n=n)
    ps = [P('u', t, m, mode(ka)), P('v', t, n, mode(kb)), P('x', t, n, mode(ka)), P('y', t, m, mode(ka)), P('on', 'int', 5, 'out'), P('o', t, m, 'out'),
          P('p', t, n, 'out'), P('q', t, n, 'out'), P('r', t, (m, m), 'out'), P('g', t, (n, m))]

    def ens(I, O):
        vx, yu = dot(I.v, I.x), dot(I.y, I.u)
        return [('sizes', and_(*[is_val(x, s) for x, s in zip(O.on, (m, n, n, m, m))]))] + veq('outer*x', O.o, vscale(vx, I.u)) + \
            veq('y*outer', O.p, vscale(yu, I.v)) + veq('outer^T*y', O.q, vscale(yu, I.v)) + \
            meq('outer*matrix', O.r, mm([[p * q for q in I.v] for p in I.u], I.g))
    return Case(nm, body, ps, ens, level=bounded(ka, kb), label='products with outer products, %s, %s %dx%d' % (ka, kb, m, n))


def c_dyn(nm, kinds, what, l, hi=3):
    """symbolic run-time sizes, zero included"""
    ka, kb = kinds
    if what == 'mm':
        body = mat(ka, 'double', 'A', 'a', hi, hi, 'col', l, 'm', 'k') + mat(kb, 'double', 'B', 'b', hi, hi, 'col', l, 'k', 'n') + \
            'auto P = A * B; on[0] = P.rows(); on[1] = P.cols(); for (int i = 0; i < P.rows(); ++i) for (int j = 0; j < P.cols(); ++j) o[i * n + j] = P(i, j);'
    else:
        body = 'on[1] = 0;' + (mat(ka, 'double', 'A', 'a', hi, hi, 'col', l, 'm', 'k') if what == 'mv' else mat(ka, 'double', 'A', 'a', hi, hi, 'col', l, 'k', 'm')) + \
            vec(kb, 'double', 'V', 'b', hi, 'k') + 'on[0] = outn(o, %s);' % ('A * V' if what == 'mv' else 'V * A')

    def ens(I, O):
        res = [('rows', eq(O.on[0], I.m))] + ([('cols', eq(O.on[1], I.n))] if what == 'mm' else [])
        for m in range(1, hi + 1):
            for k in range(hi + 1):
                for n in range(1, hi + 1) if what == 'mm' else (1,):
                    g = and_(is_val(I.m, m), is_val(I.k, k), is_val(I.n, n) if what == 'mm' else tm.TRUE)
                    for i in range(m):
                        for j in range(n):
                            e = [const(0)] + [(I.a[i * k + q] * I.b[q * n + j]) if what == 'mm' else I.a[i * k + q] * I.b[q] if what == 'mv' else
                                              I.a[q * m + i] * I.b[q] for q in range(k)]
                            res.append(('%dx%dx%d (%d,%d)' % (m, k, n, i, j), implies(g, eq(O.o[i * n + j], S(e)))))
        return res
    ps = [P('a', 'double', hi * hi), P('b', 'double', hi * hi, mode(kb) if what != 'mm' else 'in'), P('m', 'int', lo=0, hi=hi), P('k', 'int', lo=0, hi=hi),
          P('n', 'int', lo=0, hi=hi), P('on', 'int', 2, 'out'), P('o', 'double', hi * hi, 'out', opt=True)]
    return Case(nm, body, ps, ens, lambda I: [in_range(x, 0, hi) for x in (I.m, I.k, I.n)], level='bounded', opts={'cost': 9},
                label='%s product of %s, %s, %s-major, run-time sizes 0..%d' % (what, ka, kb, l, hi))


def units(tier):
    cs = []
    n = [0]

    def add(f, *a):
        n[0] += 1
        cs.append(f('c10_%s_%d' % (f.__name__, n[0]), *a))
    th = tier == 'thorough'
    shapes = ((2, 2, 2), (3, 3, 3), (4, 4, 4), (2, 3, 4), (3, 2, 3), (1, 3, 2), (3, 1, 2), (2, 3, 1)) + (((5, 5, 5), (4, 6, 2)) if th else ())
    for b, l in itertools.product(BASES, LAYOUTS):
        for s in shapes:
            add(c_mm, 'fix', 'fix', 'double', 'double', *s, b, l)
        for k in KINDS:
            for s in (2, 3, 4) if th or k == 'fix' else (2, 3):
                add(c_sq, k, 'double', s, b, l)
    for ka, kb in itertools.product(KINDS, KINDS):
        for l in LAYOUTS:
            add(c_mm, ka, kb, 'double', 'double', 2, 3, 4, 'col', l)
            add(c_mm, ka, kb, 'double', 'double', 3, 2, 2, 'row', l)
            for kk in ((2, 3), (3, 2)):
                add(c_mv, ka, kb, 'double', 'double', *kk, 'col', l)
            add(c_alias, ka, kb, 'double', 3, 'col', l)
    for r, c in ((2, 2), (3, 3), (4, 4), (4, 3), (1, 3), (3, 1)):
        for b, l in itertools.product(BASES, LAYOUTS):
            add(c_mv, 'fix', 'fix', 'double', 'double', r, c, b, l)
    for ta, tb in (('float', 'float'), ('float', 'double'), ('double', 'float'), ('int', 'int'), ('int', 'double'), ('double', 'int'), ('int', 'float')):
        for l in LAYOUTS:
            add(c_mm, 'fix', 'fix', ta, tb, 2, 3, 2, 'col', l)
            add(c_mv, 'fix', 'fix', ta, tb, 2, 3, 'col', l)
            if th:
                add(c_mm, 'dyn', 'ext', ta, tb, 2, 3, 2, 'col', l)
                add(c_mv, 'dyn', 'ext', ta, tb, 2, 3, 'col', l)
    for ka, kb in itertools.product(KINDS, KINDS):
        for b, l in zip(BASES, LAYOUTS):
            add(c_tr, ka, kb, kb, 'double', 3, 2, 4, b, l)
            add(c_tr, ka, kb, 'fix', 'double', 2, 3, 1, b, l)
        if ka[0] == kb[0] or th:
            add(c_outer, ka, kb, 'double', 3, 2)
            add(c_outer, ka, kb, 'double', 2, 3)
    for l in LAYOUTS:
        for kk in (('dyn', 'dyn'), ('dyn', 'dext'), ('dext', 'dyn')):
            add(c_dyn, kk, 'mm', l, 2 if not th else 3)
            add(c_dyn, kk, 'mv', l)
            add(c_dyn, kk, 'vm', l)
    from contracts import sized
    return chunks('c10', cs, 8) + sized.family('c10', tier)
