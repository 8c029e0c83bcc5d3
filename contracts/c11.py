"""C11: transpose, trace, determinant, inverse"""
from contracts.common import *
from contracts.c01 import conv
from contracts.c08 import bounded, KINDS, BASES, LAYOUTS
from contracts.c09 import mmap, small

META = {'level': 'proof'}


def c_transpose(nm, k, t, r, c, bl, l):
    sq = r == c and k != 'dext'
    body = mat(k, t, 'A', 'a', r, c, bl, l) + '''
  auto e = transpose(A); on[0] = e.rows(); on[1] = e.cols(); outm(x, e, %(c)d, %(r)d);
  outm(y, transpose(A + A), %(c)d, %(r)d); outm(z, transpose(transpose(A)), %(r)d, %(c)d);
  %(T)s T(transpose(A)); outm(w, T, %(c)d, %(r)d); outm(a1, A, %(r)d, %(c)d); on[2] = on[3] = 0;
''' % dict(r=r, c=c, T=mtype('dyn' if k in ('dyn', 'dext') else 'fix', t, c, r, bl, l))
    inpl = sq or k == 'dyn'
    if inpl:
        body += '{ %s auto& R = A.transpose(); on[2] = A.rows(); on[3] = A.cols(); outm(p, R, %d, %d); }' % (mat(k, t, 'A', 'a', r, c, bl, l), c, r)
        body += '{ %s auto&& R = std::move(A).transpose(); outm(q, R, %d, %d); }' % (mat(k, t, 'A', 'a', r, c, bl, l), c, r)
    ps = [P('a', t, (r, c)), P('on', 'int', 4, 'out'), P('x', t, (c, r), 'out'), P('y', t, (c, r), 'out'), P('z', t, (r, c), 'out'),
          P('w', t, (c, r), 'out'), P('a1', t, (r, c), 'out'), P('p', t, (c, r), 'out', opt=True), P('q', t, (c, r), 'out', opt=True)]

    def ens(I, O):
        T = tr(I.a)
        res = [('shape', and_(is_val(O.on[0], c), is_val(O.on[1], r)))] + meq('transpose', O.x, T) + meq('transpose(A+A)', O.y, mmap(lambda x: x + x, T)) + \
            meq('double transpose', O.z, I.a) + meq('constructed', O.w, T) + meq('argument kept', O.a1, I.a)
        if inpl:
            res += [('shape in place', and_(is_val(O.on[2], c), is_val(O.on[3], r)))] + meq('in place', O.p, T) + meq('rvalue', O.q, T)
        return res
    return Case(nm, body, ps, ens, lambda I: small(I.a), level=bounded(k), label='transpose of %s' % mtype(k, t, r, c, bl, l))


def c_trdet(nm, k, t, n, bl, l):
    body = mat(k, t, 'A', 'a', n, n, bl, l) + '''
  v[0] = trace(A); v[1] = A.trace(); v[2] = determinant(A); v[3] = A.determinant(); v[4] = determinant(transpose(A)); v[5] = determinant(A + A);
  v[6] = trace(A - 3 * A); outm(o, A, %d, %d);''' % (n, n)

    def ens(I, O):
        d = det(I.a)
        s = S(I.a[i][i] for i in range(n))
        k_ = (lambda x: const(x, 32)) if t == 'int' else const
        return [('trace', eq(O.v[0], s)), ('member trace', eq(O.v[1], s)), ('determinant', eq(O.v[2], d)), ('member determinant', eq(O.v[3], d)),
                ('determinant of the transpose', eq(O.v[4], d)), ('determinant of an expression', eq(O.v[5], k_(2 ** n) * d)),
                ('trace of an expression', eq(O.v[6], k_(-2) * s))] + meq('argument kept', O.o, I.a)
    return Case(nm, body, [P('a', t, (n, n), lo=-20, hi=20), P('v', t, 7, 'out'), P('o', t, (n, n), 'out')], ens,
                lambda I: [in_range(x, -20, 20) for r in I.a for x in r if t == 'int'], level=bounded(k),
                label='trace and determinant of %s' % mtype(k, t, n, n, bl, l))


def c_mult(nm, t, n, l):
    """multiplicativity of the determinant"""
    body = mat('fix', t, 'A', 'a', n, n, 'col', l) + mat('fix', t, 'B', 'b', n, n, 'col', l) + 'v[0] = determinant(A * B); v[1] = determinant(A); v[2] = determinant(B);'
    return Case(nm, body, [P('a', t, (n, n)), P('b', t, (n, n)), P('v', t, 3, 'out')], lambda I, O: [('multiplicative', eq(O.v[0], O.v[1] * O.v[2]))],
                label='determinant of a product, %dx%d' % (n, n))


def c_inverse(nm, k, t, n, bl, l):
    body = mat(k, t, 'A', 'a', n, n, bl, l) + '''
  outm(x, inverse(A), %(n)d, %(n)d); outm(a1, A, %(n)d, %(n)d); outm(y, inverse(2 * A), %(n)d, %(n)d);
  { %(m)s auto& R = A.inverse(); outm(z, R, %(n)d, %(n)d); }
  { %(m)s auto&& R = std::move(A).inverse(); outm(w, R, %(n)d, %(n)d); }''' % dict(n=n, m=mat(k, t, 'A', 'a', n, n, bl, l))
    ps = [P('a', t, (n, n), gen='dense')] + [P(x, t, (n, n), 'out') for x in ('x', 'a1', 'y', 'z', 'w')]

    def ens(I, O):
        d = det(I.a)
        adj = [[det([row[:i] + row[i + 1:] for q, row in enumerate(I.a) if q != j]) * const((-1) ** (i + j)) for j in range(n)] for i in range(n)] \
            if n > 1 else [[const(1)]]
        inv = mmap(lambda x: x / d, adj)
        res = meq('inverse', O.x, inv) + meq('argument kept', O.a1, I.a) + meq('in place', O.z, inv) + meq('rvalue', O.w, inv) + \
            meq('inverse of 2A', O.y, mmap(lambda x: x / 2, inv))
        if n <= 3:
            res += meq('A * inverse(A)', mm(I.a, O.x), ident(n)) + meq('inverse(A) * A', mm(O.x, I.a), ident(n))
        return res
    return Case(nm, body, ps, ens, lambda I: [nonzero(det(I.a))], level=bounded(k), label='inverse of %s' % mtype(k, t, n, n, bl, l),
                opts={'timeout': 10000, 'cost': n})


def c_pivot(nm, k, t, n, l, what):
    """sizes handled by pivoting (N >= 5)"""
    dom = 'outm(x, %s, %d, %d);' % ('inverse(A)', n, n) if what == 'inv' else 'v[0] = determinant(A);'
    body = mat(k, t, 'A', 'a', n, n, 'col', l) + dom
    ps = [P('a', t, (n, n), gen='dense')] + ([P('x', t, (n, n), 'out')] if what == 'inv' else [P('v', t, 1, 'out')])

    def ens(I, O):
        if what == 'inv':
            return meq('A * inverse(A)', mm(I.a, O.x), ident(n))
        return [('determinant', eq(O.v[0], det(I.a)))]
    return Case(nm, body, ps, ens, lambda I: [ge(tm.fabs(det(I.a)), const(1))], level='tested',
                label='%s of %s' % (what, mtype(k, t, n, n, 'col', l)), tol=1e-6)


def units(tier):
    cs, heavy = [], []
    n = [0]

    def add(f, *a, to=cs):
        n[0] += 1
        to.append(f('c11_%s_%d' % (f.__name__, n[0]), *a))
    th = tier == 'thorough'
    for k in KINDS:
        for b, l in itertools.product(BASES, LAYOUTS):
            for r, c in ((2, 2), (3, 3), (2, 3), (3, 2), (4, 4), (1, 3), (3, 1)):
                add(c_transpose, k, 'double', r, c, b, l)
            for m in (2, 3, 4):
                add(c_trdet, k, 'double', m, b, l)
                if m < 4 or k == 'fix' or b[0] == l[0] or th:
                    add(c_inverse, k, 'double', m, b, l, to=heavy)
        add(c_transpose, k, 'int', 3, 3, 'row', 'col')
        add(c_transpose, k, 'float', 3, 2, 'col', 'row')
        add(c_trdet, k, 'float', 3, 'col', 'row')
        add(c_inverse, k, 'float', 3, 'col', 'row', to=heavy)
    add(c_trdet, 'fix', 'int', 2, 'col', 'row')
    add(c_trdet, 'fix', 'int', 3, 'col', 'col')
    add(c_trdet, 'dyn', 'int', 2, 'col', 'col')
    for m in (2, 3):
        for l in LAYOUTS:
            add(c_mult, 'double', m, l)
    piv = []
    for k in ('fix', 'dyn', 'ext'):
        for m in (5, 6):
            for l in LAYOUTS:
                add(c_pivot, k, 'double', m, l, 'inv', to=piv)
                add(c_pivot, k, 'double', m, l, 'det', to=piv)
    from contracts import sized
    return chunks('c11', cs, 12) + chunks('c11i', heavy, 4) + chunks('c11p', piv, 4) + sized.family('c11', tier)
