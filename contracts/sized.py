"""Contracts for every run-time size (engine/sizes.py): array lengths, indices and loop counts are symbolic."""
from contracts.common import *
from dsl import SizeCase, forall, exists, conj, disj, when, total

SOFT = {'soft': True}
CATCHV = ''.join('catch (const %s&) { rc = 1; }' % e for e in (
    'incompatible_vector_size_error', 'minimum_vector_size_error', 'vector_size_error', 'vector_size_range_error'))
CATCHM = ''.join('catch (const %s&) { rc = 1; }' % e for e in (
    'incompatible_matrix_size_error', 'minimum_matrix_size_error', 'matrix_size_error', 'incompatible_matrix_row_size_error',
    'incompatible_matrix_col_size_error', 'incompatible_matrix_inner_size_error', 'non_square_matrix_error'))


def S_(nm, lo=0, hi=33):
    return P(nm, 'int', gen='size', lo=lo, hi=hi)


# ---- index relations (numbers in the native runs, terms in the proofs)
def _b(c):
    return tm.TRUE if c else tm.FALSE


def ilt(a, b):
    return _b(a < b) if isinstance(a, int) and isinstance(b, int) else lt(as_t(a), as_t(b))


def ile(a, b):
    return _b(a <= b) if isinstance(a, int) and isinstance(b, int) else le(as_t(a), as_t(b))


def as_t(a):
    return const(a) if isinstance(a, int) else a


def ieq(a, b):
    """equality of sizes, indices and codes"""
    if isinstance(a, int) and isinstance(b, int):
        return _b(a == b)
    if isinstance(a, tm.T) and a.sort != 'R':
        return eq(a, const(b, a.sort))
    return eq(as_t(a), as_t(b))


def ine(a, b):
    return not_(ieq(a, b))


def pick(c, f, g):
    """f() where the index condition c holds, g() elsewhere"""
    if c is tm.TRUE:
        return f()
    if c is tm.FALSE:
        return g()
    return conj([when(c, f()), when(not_(c), g())])


def each(lab, n, f):
    return [(lab, forall(n, f))]


def each2(lab, r, c, f):
    return [(lab, forall(r, lambda i: forall(c, lambda j: f(i, j))))]


# ---- declarations
def dvec(kind, t, nm, ptr, n):
    """vector of run-time size n (an expression) over the elements at ptr"""
    return vec(kind, t, nm, ptr, 0, size=n)


def dmat(kind, t, nm, ptr, r, c, basis='col', layout='row'):
    """matrix of run-time shape: 'dyn' loaded from the row-by-row array ptr, 'dext' a view of the elements at ptr"""
    bl = '%s_basis,%s_major' % (basis, layout)
    ct = CPP[t]
    if kind == 'dyn':
        return 'matrix<%s,dynamic<>,%s> %s(%s,%s); ldm(%s,%s,%s,%s);' % (ct, bl, nm, r, c, nm, ptr, r, c)
    if kind == 'dext':
        return 'matrix<%s,external<>,%s> %s((%s*)%s,%s,%s);' % (ct, bl, nm, ct, ptr, r, c)
    return 'matrix<const %s,external<>,%s> %s(%s,%s,%s);' % (ct, bl, nm, ptr, r, c)


def mshape(kind, layout, r, c):
    return (r, c) if kind == 'dyn' or layout == 'row' else (c, r)


def mget(kind, layout, A):
    return (lambda i, j: A[i][j]) if kind == 'dyn' or layout == 'row' else (lambda i, j: A[j][i])


def view(k):
    return k in ('ext', 'dext', 'cdext', 'cext')


def back(k, nm, ptr, n):
    return '' if view(k) else 'out(%s, %s, %s);' % (ptr, nm, n)


def backm(k, nm, ptr, r, c):
    return '' if view(k) else 'outm(%s, %s, %s, %s);' % (ptr, nm, r, c)


# ================================================================ C01

def vlinear(nm, ka, kb, t='double'):
    n = 'n'
    ops = [('s', 'A + B', lambda a, b, k: a + b), ('d', 'A - B', lambda a, b, k: a - b), ('m', '-A', lambda a, b, k: -a),
           ('k1', 'A * k', lambda a, b, k: a * k), ('k2', 'k * A', lambda a, b, k: k * a), ('q', 'A / k', lambda a, b, k: a / k),
           ('z', '(A - B) * k + (B - (-A)) / k', lambda a, b, k: (a - b) * k + (b + a) / k)]
    body = dvec(ka, t, 'A', 'a', n) + dvec(kb, t, 'B', 'b', n)
    for o, e, f in ops:
        body += '\n  out(%s, %s, n);' % (o, e)
    body += '\n  { vector<%s,dynamic<>> R = A + B; out(y, R, n); sz[0] = R.size(); R = A - B; out(x, R, n); sz[1] = R.size(); }' % CPP[t]
    ps = [P('a', t, n), P('b', t, n), S_('n'), P('k', t)] + [P(o, t, n, 'out') for o, e, f in ops] + [
        P('y', t, n, 'out'), P('x', t, n, 'out'), P('sz', 'int', 2, 'out')]

    def ens(I, O):
        r = [(e, forall(I.n, lambda k, o=o, f=f: eq(O[o][k], f(I.a[k], I.b[k], I.k)))) for o, e, f in ops]
        r += [('stored A+B', forall(I.n, lambda k: eq(O.y[k], I.a[k] + I.b[k]))), ('stored A-B', forall(I.n, lambda k: eq(O.x[k], I.a[k] - I.b[k])))]
        return r + [('size', ieq(O.sz[i], I.n)) for i in (0, 1)]
    return SizeCase(nm, body, ps, ens, lambda I: [ne(I.k, const(0))], label='linear expressions %s, %s, every size' % (ka, kb), opts=SOFT)


def vcompound(nm, ka, kb, t='double'):
    n = 'n'
    ops = [('e', 'A = B', lambda a, b, k: b), ('p', 'A += B', lambda a, b, k: a + b), ('s', 'A -= B', lambda a, b, k: a - b),
           ('m', 'A *= k', lambda a, b, k: a * k), ('q', 'A /= k', lambda a, b, k: a / k), ('px', 'A += k * B - A', lambda a, b, k: a + (k * b - a)),
           ('sx', 'A -= (A + B) / k', lambda a, b, k: a - (a + b) / k), ('ex', 'A = B + A * k', lambda a, b, k: b + a * k),
           ('pp', 'A += A', lambda a, b, k: a + a), ('ss', 'A -= A', lambda a, b, k: const(0)), ('ee', 'A = -A', lambda a, b, k: -a)]
    body, ps = dvec(kb, t, 'B', 'b', n), [P('b', t, n), S_('n'), P('k', t)]
    for o, st, f in ops:
        body += '\n  { ' + dvec(ka, t, 'A', o, n) + st + '; ' + back(ka, 'A', o, n) + ' }'
        ps.append(P(o, t, n, 'inout'))

    def ens(I, O):
        return [(st, forall(I.n, lambda k, o=o, f=f: eq(O[o][k], f(I[o][k], I.b[k], I.k)))) for o, st, f in ops]
    return SizeCase(nm, body, ps, ens, lambda I: [ne(I.k, const(0))], label='compound assignment %s, %s, every size' % (ka, kb), opts=SOFT)


def vlinear_i(nm, ka, kb, t='int'):
    """integer elements (machine arithmetic)"""
    ops = [('s', 'A + B', lambda a, b, k: a + b), ('d', 'A - B', lambda a, b, k: a - b), ('m', '-A', lambda a, b, k: -a), ('k1', 'A * k', lambda a, b, k: a * k),
           ('z', '(A - B) * k + B', lambda a, b, k: (a - b) * k + b)]
    tops = [('p', 'A += B', lambda a, b, k: a + b), ('w', 'A -= B', lambda a, b, k: a - b), ('x', 'A *= k', lambda a, b, k: a * k)]
    body = dvec(ka, t, 'A', 'a', 'n') + dvec(kb, t, 'B', 'b', 'n')
    for o, e, f in ops:
        body += '\n  out(%s, %s, n);' % (o, e)
    for o, e, f in tops:
        body += '\n  { vector<%s,dynamic<>> C(A); %s; out(%s, C, n); }' % (CPP[t], e.replace('A', 'C'), o)
    ps = [P('a', t, 'n', lo=-1000, hi=1000), P('b', t, 'n', lo=-1000, hi=1000), S_('n'), P('k', t, lo=-1000, hi=1000)] + [P(o, t, 'n', 'out') for o, e, f in ops + tops]

    def ens(I, O):
        return [(e, forall(I.n, lambda k, o=o, f=f: eq(O[o][k], f(I.a[k], I.b[k], I.k)))) for o, e, f in ops + tops]
    return SizeCase(nm, body, ps, ens, label='integer expressions %s, %s, every size' % (ka, kb), opts=SOFT)


# ================================================================ C02

def vmismatch(nm, ka, kb, what):
    """an error exactly when the sizes differ; the target keeps its elements"""
    st, f = {'add': ('out(o, A + B, n);', lambda a, b: a + b), 'sub': ('out(o, A - B, n);', lambda a, b: a - b),
             'had': ('out(o, hadamard(A, B), n);', lambda a, b: a * b), 'pe': ('A += B;', lambda a, b: a + b), 'se': ('A -= 2. * B;', lambda a, b: a - 2 * b),
             'as': ('A = B + B;', lambda a, b: b + b)}[what]
    tgt = what in ('pe', 'se', 'as')
    body = 'int rc = 0; ' + dvec(ka, 'double', 'A', 'a', 'n') + dvec(kb, 'double', 'B', 'b', 'm') + 'try { %s } %s z[0] = A.size(); ' % (st, CATCHV)
    if tgt and not view(ka):
        body += 'out(a, A, n);'
    body += ' return rc;'
    ps = [P('a', 'double', 'n', 'inout' if tgt else 'in'), P('b', 'double', 'm'), S_('n', hi=9), S_('m', hi=9), P('z', 'int', 1, 'out')] + (
        [] if tgt else [P('o', 'double', 'n', 'inout')])
    o = 'a' if tgt else 'o'

    def ens(I, O):
        good = ieq(I.n, I.m)
        return [('error iff the sizes differ', pick(good, lambda: ieq(O.ret, 0), lambda: ieq(O.ret, 1))), ('size', ieq(O.z[0], I.n)),
                ('value', pick(good, lambda: forall(I.n, lambda k: eq(O[o][k], f(I.a[k], I.b[k]))), lambda: tm.TRUE)),
                ('nothing written on error', pick(good, lambda: tm.TRUE, lambda: forall(I.n, lambda k: eq(O[o][k], I[o][k]))))]
    return SizeCase(nm, body, ps, ens, ret='int', label='size check, %s, %s and %s, every pair of sizes' % (st, ka, kb), opts=SOFT)


def vresize_assign(nm, kb, t='double'):
    """assignment to a resizable vector takes the source's size"""
    body = dvec('dyn', t, 'A', 'a', 'n') + dvec(kb, t, 'B', 'b', 'm') + '''
  A = B + B; z[0] = A.size(); out(o, A, m);
  { vector<%s,dynamic<>> C; C = B; z[1] = C.size(); out(p, C, m); C = A - B; z[2] = C.size(); out(q, C, m); }''' % CPP[t]
    ps = [P('a', t, 'n'), P('b', t, 'm'), S_('n', hi=9), S_('m', hi=9)] + [P(x, t, 'm', 'out') for x in 'opq'] + [P('z', 'int', 3, 'out')]

    def ens(I, O):
        return [('size', ieq(O.z[i], I.m)) for i in range(3)] + each('A = B+B', I.m, lambda k: eq(O.o[k], I.b[k] + I.b[k])) + \
            each('C = B', I.m, lambda k: eq(O.p[k], I.b[k])) + each('C = A-B', I.m, lambda k: eq(O.q[k], I.b[k]))
    return SizeCase(nm, body, ps, ens, label='resizing assignment from %s, every pair of sizes' % kb, opts=SOFT)


def mmismatch(nm, ka, kb, what, lay='row'):
    st, f = {'add': ('outm(o, A + B, r, c);', lambda a, b: a + b), 'pe': ('A += B;', lambda a, b: a + b), 'se': ('A -= 2. * B;', lambda a, b: a - 2 * b)}[what]
    tgt = what in ('pe', 'se')
    body = 'int rc = 0; ' + dmat(ka, 'double', 'A', 'a', 'r', 'c', 'col', lay) + dmat(kb, 'double', 'B', 'b', 'p', 'q', 'col', lay) + \
        'try { %s } %s z[0] = A.rows(); z[1] = A.cols(); ' % (st, CATCHM)
    if tgt and not view(ka):
        body += 'outm(a, A, r, c);'
    body += ' return rc;'
    ps = [P('a', 'double', mshape(ka, lay, 'r', 'c'), 'inout' if tgt else 'in'), P('b', 'double', mshape(kb, lay, 'p', 'q')), S_('r', lo=1, hi=5),
          S_('c', lo=1, hi=5), S_('p', lo=1, hi=5), S_('q', lo=1, hi=5), P('z', 'int', 2, 'out')] + ([] if tgt else [P('o', 'double', ('r', 'c'), 'inout')])

    def ens(I, O):
        a, b = mget(ka, lay, I.a), mget(kb, lay, I.b)
        oi, oo = (a, mget(ka, lay, O.a)) if tgt else (mget('dyn', 'row', I.o), mget('dyn', 'row', O.o))
        p, q = ieq(I.r, I.p), ieq(I.c, I.q)
        bad = lambda: conj([ieq(O.ret, 1)] + [forall(I.r, lambda i: forall(I.c, lambda j: eq(oo(i, j), oi(i, j))))])
        ok = lambda: conj([ieq(O.ret, 0)] + [forall(I.r, lambda i: forall(I.c, lambda j: eq(oo(i, j), f(a(i, j), b(i, j)))))])
        return [('error iff the shapes differ, nothing written then', pick(p, lambda: pick(q, ok, bad), bad)), ('rows', ieq(O.z[0], I.r)),
                ('cols', ieq(O.z[1], I.c))]
    return SizeCase(nm, body, ps, ens, ret='int', label='shape check, %s, %s and %s, %s-major, all shapes' % (st, ka, kb, lay), opts=SOFT)


def mvmismatch(nm, what, lay='row'):
    """products: an error exactly when the inner sizes differ"""
    ps = [P('a', 'double', ('r', 'c')), S_('r', lo=1, hi=5), S_('c', lo=1, hi=5), S_('n', lo=1, hi=6)]
    A = dmat('dyn', 'double', 'A', 'a', 'r', 'c', 'col', lay)
    if what == 'mv':
        body = A + dvec('cdext', 'double', 'V', 'v', 'n') + 'try { out(o, A * V, r); }'
        ps += [P('v', 'double', 'n'), P('o', 'double', 'r', 'inout')]
        inner, spec = 'c', lambda I, O: forall(I.r, lambda i: eq(O.o[i], total(I.c, lambda k: I.a[i][k] * I.v[k])))
        same = lambda I, O: forall(I.r, lambda i: eq(O.o[i], I.o[i]))
    elif what == 'vm':
        body = A + dvec('cdext', 'double', 'V', 'v', 'n') + 'try { out(o, V * A, c); }'
        ps += [P('v', 'double', 'n'), P('o', 'double', 'c', 'inout')]
        inner, spec = 'r', lambda I, O: forall(I.c, lambda j: eq(O.o[j], total(I.r, lambda k: I.v[k] * I.a[k][j])))
        same = lambda I, O: forall(I.c, lambda i: eq(O.o[i], I.o[i]))
    else:
        body = A + dmat('dyn', 'double', 'B', 'v', 'n', 'm', 'col', lay) + 'try { outm(o, A * B, r, m); }'
        ps += [P('v', 'double', ('n', 'm')), S_('m', lo=1, hi=5), P('o', 'double', ('r', 'm'), 'inout')]
        inner, spec = 'c', lambda I, O: forall(I.r, lambda i: forall(I.m, lambda j: eq(O.o[i][j], total(I.c, lambda k: I.a[i][k] * I.v[k][j]))))
        same = lambda I, O: forall(I.r, lambda i: forall(I.m, lambda j: eq(O.o[i][j], I.o[i][j])))

    def ens(I, O):
        return [('error iff the inner sizes differ', pick(ieq(I[inner], I.n), lambda: conj([ieq(O.ret, 0), spec(I, O)]),
                                                          lambda: conj([ieq(O.ret, 1), same(I, O)])))]
    return SizeCase(nm, 'int rc = 0; ' + body + CATCHM + CATCHV.replace('rc = 1', 'rc = 1') + ' return rc;', ps, ens, ret='int',
                    label='product size check %s, %s-major, all sizes' % (what, lay), opts=SOFT)


# ================================================================ C03

def vdot(nm, ka, kb, t='double'):
    body = dvec(ka, t, 'A', 'a', 'n') + dvec(kb, t, 'B', 'b', 'n') + 'o[0] = dot(A, B); o[1] = dot(B, A); o[2] = dot(A + A, B - A); o[3] = dot(A, A);'

    def ens(I, O):
        s = lambda f: total(I.n, f)
        return [('a.b', eq(O.o[0], s(lambda k: I.a[k] * I.b[k]))), ('b.a', eq(O.o[1], s(lambda k: I.a[k] * I.b[k]))),
                ('(a+a).(b-a)', eq(O.o[2], s(lambda k: (I.a[k] + I.a[k]) * (I.b[k] - I.a[k])))), ('a.a', eq(O.o[3], s(lambda k: I.a[k] * I.a[k])))]
    return SizeCase(nm, body, [P('a', t, 'n'), P('b', t, 'n'), S_('n', lo=1), P('o', t, 4, 'out')], ens, label='dot %s, %s, every size' % (ka, kb), opts=SOFT)


def vouter(nm, ka, kb, t='double', lay='row'):
    body = dvec(ka, t, 'A', 'a', 'n') + dvec(kb, t, 'B', 'b', 'm') + '''
  auto e = outer(A, B); d[0] = e.rows(); d[1] = e.cols(); outm(o, e, n, m);
  matrix<%s,dynamic<>,col_basis,%s_major> M = outer(A + A, B); d[2] = M.rows(); d[3] = M.cols(); outm(p, M, n, m);''' % (CPP[t], lay)

    def ens(I, O):
        return each2('a b^T', I.n, I.m, lambda i, j: eq(O.o[i][j], I.a[i] * I.b[j])) + \
            each2('stored 2a b^T', I.n, I.m, lambda i, j: eq(O.p[i][j], (I.a[i] + I.a[i]) * I.b[j])) + [
                ('shape', ieq(O.d[i], (I.n, I.m)[i % 2])) for i in range(4)]
    return SizeCase(nm, body, [P('a', t, 'n'), P('b', t, 'm'), S_('n', lo=1, hi=9), S_('m', lo=1, hi=9), P('o', t, ('n', 'm'), 'out'), P('p', t, ('n', 'm'), 'out'),
                               P('d', 'int', 4, 'out')], ens, label='outer product %s, %s, every pair of sizes' % (ka, kb), opts=SOFT)


def vproject(nm, ka, kb, t='double'):
    body = dvec(ka, t, 'A', 'a', 'n') + dvec(kb, t, 'B', 'b', 'n') + \
        'out(o, project_to_vector(A, B), n); out(h, project_to_hplane(A, B), n); m[0] = manhattan_distance(A, B);'

    def ens(I, O):
        d, q = total(I.n, lambda k: I.a[k] * I.b[k]), total(I.n, lambda k: I.b[k] * I.b[k])
        return each('projection', I.n, lambda k: eq(O.o[k], d / q * I.b[k])) + each('plane', I.n, lambda k: eq(O.h[k], I.a[k] - d * I.b[k])) + [
            ('sum of distances', eq(O.m[0], total(I.n, lambda k: tm.fabs(I.a[k] - I.b[k]))))]
    return SizeCase(nm, body, [P('a', t, 'n'), P('b', t, 'n'), S_('n', lo=1), P('o', t, 'n', 'out'), P('h', t, 'n', 'out'), P('m', t, 1, 'out')], ens,
                    lambda I: [gt(total(I.n, lambda k: I.b[k] * I.b[k]), const(0))], label='projections, %s, %s, every size' % (ka, kb), opts=SOFT)


# ================================================================ C04

def vlength(nm, ka, kb, t='double'):
    body = dvec(ka, t, 'A', 'a', 'n') + dvec(kb, t, 'B', 'b', 'n') + '''
  o[0] = A.length_squared(); o[1] = length_squared(A); o[2] = A.length(); o[3] = length(A);
  o[4] = length_squared(A - B); o[5] = (A - B).length();'''

    def ens(I, O):
        s, d = total(I.n, lambda k: I.a[k] * I.a[k]), total(I.n, lambda k: (I.a[k] - I.b[k]) * (I.a[k] - I.b[k]))
        return [('squared length', eq(O.o[i], s)) for i in (0, 1)] + [('length', eq(O.o[i], tm.sqrt(s))) for i in (2, 3)] + [
            ('squared distance', eq(O.o[4], d)), ('distance', eq(O.o[5], tm.sqrt(d)))]
    return SizeCase(nm, body, [P('a', t, 'n'), P('b', t, 'n'), S_('n', lo=1), P('o', t, 6, 'out')], ens, label='length %s, %s, every size' % (ka, kb), opts=SOFT)


def vnorm(nm, k, t='double'):
    body = dvec({'dext': 'cdext'}.get(k, k), t, 'A', 'a', 'n') + 'out(o, normalize(A), n); const auto& R = A; out(p, R.normalize(), n); out(q, A, n); ' + \
        'out(s, normalize(A + A), n);' + '{ ' + dvec(k, t, 'B', 'm', 'n') + 'B.normalize(); ' + back(k, 'B', 'm', 'n') + '}'

    def ens(I, O):
        L = lambda v: tm.sqrt(total(I.n, lambda k: v[k] * v[k]))
        LA, LM, L2 = L(I.a), L(I.m), tm.sqrt(total(I.n, lambda k: (I.a[k] + I.a[k]) * (I.a[k] + I.a[k])))
        return each('normalize(v)', I.n, lambda k: eq(O.o[k], I.a[k] / LA)) + each('v.normalize()', I.n, lambda k: eq(O.p[k], I.a[k] / LA)) + \
            each('argument', I.n, lambda k: eq(O.q[k], I.a[k])) + each('normalize(v+v)', I.n, lambda k: eq(O.s[k], (I.a[k] + I.a[k]) / L2)) + \
            each('in place', I.n, lambda k: eq(O.m[k], I.m[k] / LM))

    def req(I):
        sq = lambda f: gt(total(I.n, lambda k: f(k) * f(k)), const(0))
        return [sq(lambda k: I.a[k]), sq(lambda k: I.m[k]), sq(lambda k: I.a[k] + I.a[k])]
    return SizeCase(nm, body, [P('a', t, 'n'), S_('n', lo=1)] + [P(x, t, 'n', 'out') for x in 'opqs'] + [P('m', t, 'n', 'inout')], ens, req,
                    label='normalisation %s, every size' % k, opts=SOFT)


def vminmax(nm, ka, kb, op, t='double'):
    body = dvec(ka, t, 'A', 'a', 'n') + dvec(kb, t, 'B', 'b', 'n') + 'A.%s(B);' % op + back(ka, 'A', 'a', 'n')

    def ens(I, O):
        def f(k):
            x, y, o = I.a[k], I.b[k], O.a[k]
            return and_(or_(eq(o, x), eq(o, y)), and_(le(o, x), le(o, y)) if op == 'minimize' else and_(ge(o, x), ge(o, y)))
        return each(op, I.n, f)
    return SizeCase(nm, body, [P('a', t, 'n', 'inout'), P('b', t, 'n'), S_('n')], ens, label='%s %s, %s, every size' % (op, ka, kb), opts=SOFT)


# ================================================================ C05

def vconstruct(nm, t='double'):
    D = vtype('dyn', t, 0)
    forms = [('p', '%s A(a, n);' % D), ('r', '%s A(n, a);' % D), ('v', vtype('cdext', t, 0) + ' B(a, n); %s A(B);' % D),
             ('e', vtype('cdext', t, 0) + ' B(a, n); %s A(B + B);' % D), ('c', '%s B(a, n); %s A(B); ' % (D, D)), ('m', '%s B(a, n); %s A(std::move(B));' % (D, D)),
             ('s', '%s A(n);  A = %s(a, n);' % (D, D)), ('rv', 'std::vector<%s> l(a, a + n); %s A(l);' % (CPP[t], D)) if False else None]
    forms = [f for f in forms if f]
    body, ps = '', [P('a', t, 'n'), S_('n')]
    for i, (o, st) in enumerate(forms):
        body += '{ %s z[%d] = A.size(); out(%s, A, n); }\n' % (st, i, o)
        ps.append(P(o, t, 'n', 'out'))
    ps.append(P('z', 'int', len(forms), 'out'))

    def ens(I, O):
        r = [('size %d' % i, ieq(O.z[i], I.n)) for i in range(len(forms))]
        for o, st in forms:
            r += each(o, I.n, lambda k, o=o: eq(O[o][k], I.a[k] + I.a[k] if o == 'e' else I.a[k]))
        return r
    return SizeCase(nm, body, ps, ens, label='constructors of run-time vectors, every size', opts=SOFT)


def vappend(nm, m, kb, t='double', how='ctor'):
    """a vector of n elements followed by m scalars"""
    D = vtype('dyn', t, 0)
    els = ', '.join('s[%d]' % i for i in range(m))
    body = dvec(kb, t, 'B', 'a', 'n')
    if how == 'ctor':
        body += '%s A(B, %s);' % (D, els)
    elif how == 'set':
        body += '%s A(q); A.set(B, %s);' % (D, els)
    else:
        body += '%s A(o, n + %d); A.set(B, %s);' % (vtype('dext', t, 0), m, els)
    body += ' z[0] = A.size();' + ('' if how == 'eset' else 'out(o, A, n + %d);' % m)
    ps = [P('a', t, 'n'), P('s', t, m), S_('n', lo=1, hi=20), P('o', t, lambda d: d['n'] + m, 'out'), P('z', 'int', 1, 'out')] + (
        [S_('q', hi=9)] if how == 'set' else [])

    def ens(I, O):
        return [('size', ieq(O.z[0], I.n + m))] + each('leading', I.n, lambda k: eq(O.o[k], I.a[k])) + [
            ('trailing %d' % i, eq(O.o[I.n + i], I.s[i])) for i in range(m)]
    return SizeCase(nm, body, ps, ens, label='vector from %s and %d scalars (%s), every size' % (kb, m, how), opts=SOFT)


def vset(nm, k, t='double'):
    """fill, zero, cardinal and single element writes at every index"""
    forms = [('z', 'A.zero();', lambda I, o, j: const(0)), ('f', 'A.fill(q);', lambda I, o, j: I.q),
             ('c', 'A.cardinal(i);', lambda I, o, j: None), ('x', 'A[i] = q;', None), ('p', 'A.put(i, q);', None)]
    body, ps = '', [S_('n', lo=1, hi=20), S_('i', hi=19), P('q', t)]
    for o, st, f in forms:
        body += '{ ' + dvec(k, t, 'A', o, 'n') + st + back(k, 'A', o, 'n') + ' }\n'
        ps.append(P(o, t, 'n', 'inout'))

    def ens(I, O):
        r = each('zero', I.n, lambda j: eq(O.z[j], const(0))) + each('fill', I.n, lambda j: eq(O.f[j], I.q))
        r += each('cardinal', I.n, lambda j: pick(ieq(j, I.i), lambda: eq(O.c[j], const(1)), lambda: eq(O.c[j], const(0))))
        for o in 'xp':
            r += each('write ' + o, I.n, lambda j, o=o: pick(ieq(j, I.i), lambda: eq(O[o][j], I.q), lambda: eq(O[o][j], I[o][j])))
        return r
    return SizeCase(nm, body, ps, ens, lambda I: [ilt(I.i, I.n)], label='element writes on %s, every size and index' % k,
                    opts=dict(SOFT, szok=lambda z: z['i'] < z['n']))


def vread(nm, k, t='double'):
    body = dvec(k, t, 'A', 'a', 'n') + '''const auto& R = A; for (int i=0;i<n;++i) { g[i] = R.get(i); x[i] = R[i]; da[i] = R.data()[i]; }
  int j = 0; for (auto p = R.begin(); p != R.end(); ++p) it[j++] = *p; z[0] = j; z[1] = R.size();'''

    def ens(I, O):
        r = []
        for o in ('g', 'x', 'da', 'it'):
            r += each(o, I.n, lambda j, o=o: eq(O[o][j], I.a[j]))
        return r + [('count', ieq(O.z[i], I.n)) for i in (0, 1)]
    return SizeCase(nm, body, [P('a', t, 'n'), S_('n'), P('z', 'int', 2, 'out')] + [P(o, t, 'n', 'out') for o in ('g', 'x', 'da', 'it')], ens,
                    label='reading %s, every size' % k, opts=SOFT)


def vsub(nm, ka, kb, t='double'):
    body = dvec(ka, t, 'A', 'a', 'n') + dvec(kb, t, 'B', 'b', 'n') + '''out(h, hadamard(A, B), n); out(hx, hadamard(A + A, -B), n);
  z[0] = outn(s, A.subvector(i)); z[1] = outn(f, subvector(A + A, i));'''

    def ens(I, O):
        r = each('hadamard', I.n, lambda k: eq(O.h[k], I.a[k] * I.b[k])) + each('hadamard(2a,-b)', I.n, lambda k: eq(O.hx[k], (I.a[k] + I.a[k]) * -I.b[k]))
        m = I.n - 1
        for o, f in (('s', lambda x: x), ('f', lambda x: x + x)):
            r += each('subvector ' + o, m, lambda k, o=o, f=f: pick(ilt(k, I.i), lambda: eq(O[o][k], f(I.a[k])), lambda: eq(O[o][k], f(I.a[k + 1]))))
        return r + [('size', ieq(O.z[i], m)) for i in (0, 1)]
    return SizeCase(nm, body, [P('a', t, 'n'), P('b', t, 'n'), S_('n', lo=2, hi=20), S_('i', hi=19), P('h', t, 'n', 'out'), P('hx', t, 'n', 'out'),
                               P('s', t, lambda d: d['n'] - 1, 'out'), P('f', t, lambda d: d['n'] - 1, 'out'), P('z', 'int', 2, 'out')], ens,
                    lambda I: [ilt(I.i, I.n)], label='sub-vectors and element products %s, %s, every size and index' % (ka, kb),
                    opts=dict(SOFT, szok=lambda z: z['i'] < z['n']))


# ================================================================ C06

def vcompare(nm, ka, kb, t='double'):
    body = dvec(ka, t, 'A', 'a', 'n') + dvec(kb, t, 'B', 'b', 'n') + 'o[0] = A == B; o[1] = A != B; o[2] = A < B; o[3] = A > B; o[4] = A <= B; o[5] = A >= B;'

    def ens(I, O):
        n = I.n
        a, b = I.a, I.b
        lex = lambda x, y: exists(n, lambda k: conj([lt(x[k], y[k]), forall(k, lambda j: eq(x[j], y[j]))]))
        same = forall(n, lambda k: eq(a[k], b[k]))
        lss, gtr = lex(a, b), lex(b, a)
        r = []
        # the six results agree with one of the three cases
        one = lambda v: conj([ieq(O.o[i], x) for i, x in enumerate(v)])
        return [('equal, less or greater', disj([conj([one((1, 0, 0, 0, 1, 1)), same]), conj([one((0, 1, 1, 0, 1, 0)), lss]),
                                                 conj([one((0, 1, 0, 1, 0, 1)), gtr])]))]
    return SizeCase(nm, body, [P('a', t, 'n', gen='ties'), P('b', t, 'n', gen='ties'), S_('n'), P('o', 'int', 6, 'out')], ens,
                    label='comparisons %s, %s, every size' % (ka, kb), opts=SOFT)


def vcompare1(nm, ka, kb, op, t='double'):
    """one comparison: the result is its definition"""
    body = dvec(ka, t, 'A', 'a', 'n') + dvec(kb, t, 'B', 'b', 'n') + 'o[0] = A %s B;' % op

    def ens(I, O):
        n, a, b = I.n, I.a, I.b
        same = lambda: forall(n, lambda k: eq(a[k], b[k]))
        diff = lambda: exists(n, lambda k: ne(a[k], b[k]))
        lex = lambda x, y: exists(n, lambda k: conj([lt(x[k], y[k]), forall(k, lambda j: eq(x[j], y[j]))]))
        L, G = lambda: lex(a, b), lambda: lex(b, a)
        LE, GE = lambda: disj([same(), L()]), lambda: disj([same(), G()])
        T, F = {'==': (same, diff), '!=': (diff, same), '<': (L, GE), '>': (G, LE), '<=': (LE, G), '>=': (GE, L)}[op]
        return [('result', disj([conj([ieq(O.o[0], 1), T()]), conj([ieq(O.o[0], 0), F()])]))]
    return SizeCase(nm, body, [P('a', t, 'n', gen='ties'), P('b', t, 'n', gen='ties'), S_('n'), P('o', 'int', 1, 'out')], ens,
                    label='%s %s %s, every size' % (ka, op, kb), opts=SOFT)


def mcompare1(nm, ka, kb, op, la='row', lb='row', t='double'):
    body = dmat(ka, t, 'A', 'a', 'r', 'c', 'col', la) + dmat(kb, t, 'B', 'b', 'r', 'c', 'col', lb) + 'o[0] = A %s B;' % op

    def ens(I, O):
        a, b = mget(ka, la, I.a), mget(kb, lb, I.b)
        same = forall(I.r, lambda i: forall(I.c, lambda j: eq(a(i, j), b(i, j))))
        diff = exists(I.r, lambda i: exists(I.c, lambda j: ne(a(i, j), b(i, j))))
        T, F = (same, diff) if op == '==' else (diff, same)
        return [('result', disj([conj([ieq(O.o[0], 1), T]), conj([ieq(O.o[0], 0), F])]))]
    return SizeCase(nm, body, [P('a', t, mshape(ka, la, 'r', 'c'), gen='ties'), P('b', t, mshape(kb, lb, 'r', 'c'), gen='ties'), S_('r', lo=1, hi=7), S_('c', lo=1, hi=7),
                               P('o', 'int', 1, 'out')], ens, label='%s(%s) %s %s(%s), all shapes' % (ka, la, op, kb, lb), opts=SOFT)


# ================================================================ C07

def vcopies(nm, t='double'):
    """copies are independent; resizing keeps the common prefix"""
    D = vtype('dyn', t, 0)
    body = dvec('dyn', t, 'A', 'a', 'n') + '''
  { %s B(A); for (int k = 0; k < n; ++k) B[k] = q; out(o, A, n); out(p, B, n); }
  { %s B; B = A; A.fill(q); out(s, B, n); out(u, A, n); z[0] = B.size(); }''' % (D, D)

    def ens(I, O):
        return each('original', I.n, lambda k: eq(O.o[k], I.a[k])) + each('written copy', I.n, lambda k: eq(O.p[k], I.q)) + \
            each('copy', I.n, lambda k: eq(O.s[k], I.a[k])) + each('written original', I.n, lambda k: eq(O.u[k], I.q)) + [('size', ieq(O.z[0], I.n))]
    return SizeCase(nm, body, [P('a', t, 'n'), S_('n'), P('q', t), P('z', 'int', 1, 'out')] + [P(x, t, 'n', 'out') for x in 'opsu'], ens,
                    label='copies of run-time vectors, every size', opts=SOFT)


def vresize(nm, t='double', fast=False):
    body = dvec('dyn', t, 'A', 'a', 'n') + 'A.%s(m); z[0] = A.size(); int c = n < m ? n : m; ' % ('resize_fast' if fast else 'resize')
    body += 'for (int k = 0; k < m; ++k) A[k] = b[k]; out(o, A, m);' if fast else 'for (int k = 0; k < c; ++k) o[k] = A[k]; for (int k = c; k < m; ++k) A[k] = b[k]; for (int k = c; k < m; ++k) o[k] = A[k];'

    def ens(I, O):
        if fast:
            return [('size', ieq(O.z[0], I.m))] + each('usable', I.m, lambda k: eq(O.o[k], I.b[k]))
        return [('size', ieq(O.z[0], I.m))] + each('kept', I.m, lambda k: pick(ilt(k, I.n), lambda: eq(O.o[k], I.a[k]), lambda: eq(O.o[k], I.b[k])))
    return SizeCase(nm, body, [P('a', t, 'n'), P('b', t, 'm'), S_('n', hi=12), S_('m', hi=12), P('o', t, 'm', 'out'), P('z', 'int', 1, 'out')], ens,
                    label='resize%s of run-time vectors, every pair of sizes' % ('_fast' if fast else ''), opts=SOFT)


def vmove(nm, t='double'):
    D = vtype('dyn', t, 0)
    body = dvec('dyn', t, 'A', 'a', 'n') + dvec('dyn', t, 'C', 'b', 'm') + '''
  { %s B(std::move(A)); z[0] = B.size(); z[1] = A.size(); out(o, B, n); B = std::move(C); z[2] = B.size(); out(p, B, m); }
  { %s X(a, n), Y(b, m); using std::swap; swap(X, Y); z[3] = X.size(); z[4] = Y.size(); out(u, X, m); out(v, Y, n); }''' % (D, D)

    def ens(I, O):
        return each('moved', I.n, lambda k: eq(O.o[k], I.a[k])) + each('move assigned', I.m, lambda k: eq(O.p[k], I.b[k])) + \
            each('swapped', I.m, lambda k: eq(O.u[k], I.b[k])) + each('swapped', I.n, lambda k: eq(O.v[k], I.a[k])) + [
                ('sizes', ieq(O.z[i], x)) for i, x in ((0, I.n), (2, I.m), (3, I.m), (4, I.n))]
    return SizeCase(nm, body, [P('a', t, 'n'), P('b', t, 'm'), S_('n', hi=12), S_('m', hi=12)] + [P('o', t, 'n', 'out'), P('p', t, 'm', 'out'),
                    P('u', t, 'm', 'out'), P('v', t, 'n', 'out'), P('z', 'int', 5, 'out')], ens, label='moves of run-time vectors, every pair of sizes', opts=SOFT)


def mcopies(nm, lay='row', t='double'):
    D = mtype('dyn', t, 0, 0, 'col', lay)
    body = dmat('dyn', t, 'A', 'a', 'r', 'c', 'col', lay) + '''
  { %s B(A); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) B(i, j) = q; outm(o, A, r, c); outm(p, B, r, c); z[0] = B.rows(); z[1] = B.cols(); }
  { %s B(p0, q0); B = A; A.fill(q); outm(s, B, r, c); outm(u, A, r, c); z[2] = B.rows(); z[3] = B.cols(); }
  { %s B(std::move(A)); outm(v, B, r, c); z[4] = B.rows(); z[5] = B.cols(); }''' % (D, D, D)

    def ens(I, O):
        e2 = lambda l, o, f: each2(l, I.r, I.c, lambda i, j: eq(O[o][i][j], f(i, j)))
        return e2('original', 'o', lambda i, j: I.a[i][j]) + e2('written copy', 'p', lambda i, j: I.q) + e2('copy', 's', lambda i, j: I.a[i][j]) + \
            e2('written original', 'u', lambda i, j: I.q) + e2('moved', 'v', lambda i, j: I.q) + [('shape', ieq(O.z[i], (I.r, I.c)[i % 2])) for i in range(6)]
    return SizeCase(nm, body, [P('a', t, ('r', 'c')), S_('r', lo=1, hi=7), S_('c', lo=1, hi=7), S_('p0', lo=1, hi=4), S_('q0', lo=1, hi=4), P('q', t), P('z', 'int', 6, 'out')] + [
        P(x, t, ('r', 'c'), 'out') for x in 'opsuv'], ens, label='copies of run-time matrices, %s-major, all shapes' % lay, opts=SOFT)


def vviews(nm, t='double'):
    """views write through and read the buffer"""
    E = vtype('dext', t, 0)
    body = '%s A(a, n), B(a, m); A = 2 * A; for (int k = 0; k < m; ++k) o[k] = B[k]; B[i] = q; z[0] = A.size(); z[1] = B.size();' % E

    def ens(I, O):
        return each('seen through the second view', I.m, lambda k: eq(O.o[k], 2 * I.a[k])) + each(
            'buffer', I.n, lambda k: pick(ieq(k, I.i), lambda: eq(O.a[k], I.q), lambda: eq(O.a[k], 2 * I.a[k]))) + [
                ('size', ieq(O.z[0], I.n)), ('size', ieq(O.z[1], I.m))]
    return SizeCase(nm, body, [P('a', t, 'n', 'inout'), S_('n', lo=1, hi=12), S_('m', lo=1, hi=12), S_('i', hi=11), P('q', t), P('o', t, 'm', 'out'), P('z', 'int', 2, 'out')],
                    ens, lambda I: [ile(I.m, I.n), ilt(I.i, I.m)], label='views of a buffer, every size', opts=dict(SOFT, szok=lambda z: z['i'] < z['m'] <= z['n']))


# ================================================================ C08

def mlayout(nm, k, lay, basis='col', t='double'):
    """element (i, j) is at i*cols+j (row-major) or j*rows+i (column-major)"""
    sh = (lambda d: d['r'] * d['c'],)
    E = {'dext': 'matrix<%s,external<>,%s_basis,%s_major> A(a, r, c);' % (CPP[t], basis, lay),
         'dyn': 'matrix<%s,dynamic<>,%s_basis,%s_major> A(r, c); for (int k = 0; k < r * c; ++k) A.data()[k] = a[k];' % (CPP[t], basis, lay)}[k]
    body = E + 'outm(o, A, r, c); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) p[i * c + j] = A.get(i, j); z[0] = A.rows(); z[1] = A.cols(); ' + \
        'for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) A(i, j) = b[i * c + j]; for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) q[%(p)s] = A.data()[%(p)s];' % {'p': 'i * c + j' if lay == 'row' else 'j * r + i'}
    ps = [P('a', t, sh, 'inout' if k == 'dext' else 'in'), P('b', t, ('r', 'c')), S_('r', lo=1, hi=7), S_('c', lo=1, hi=7), P('o', t, ('r', 'c'), 'out'), P('p', t, ('r', 'c'), 'out'),
          P('q', t, sh, 'out'), P('z', 'int', 2, 'out')]

    def ens(I, O):
        pos = (lambda i, j: i * I.c + j) if lay == 'row' else (lambda i, j: j * I.r + i)
        r = []
        for o in 'op':
            r += each2('read', I.r, I.c, lambda i, j, o=o: eq(O[o][i][j], I.a[pos(i, j)]))
        for o in 'q' + ('a' if k == 'dext' else ''):
            r += each2('written', I.r, I.c, lambda i, j, o=o: eq(O[o][pos(i, j)], I.b[i][j]))
        return r + [('shape', ieq(O.z[i], (I.r, I.c)[i])) for i in (0, 1)]
    return SizeCase(nm, body, ps, ens, label='layout of %s %s basis %s-major, all shapes' % (k, basis, lay), opts=SOFT)


def mput(nm, k, lay, basis='col', t='double'):
    """writing one element, row, column or basis vector, at every index"""
    ops = [('x', 'A(i, j) = q;', lambda I, a, b: (a, b)), ('p', 'A.put(i, j, q);', None), ('e', 'A.set_basis_element(%s, q);' % ('j, i' if basis == 'col' else 'i, j'), None)]
    body, ps = '', [S_('r', lo=1, hi=6), S_('c', lo=1, hi=6), S_('i', hi=5), S_('j', hi=5), P('q', t), P('v', t, 'c'), P('w', t, 'r')]
    for o, st, f in ops + [('sr', 'vector<const %s,external<>> V(v, c); A.set_row(i, V);' % CPP[t], 0), ('sc', 'vector<const %s,external<>> V(w, r); A.set_col(j, V);' % CPP[t], 0)]:
        body += '{ ' + dmat(k, t, 'A', o, 'r', 'c', basis, lay) + st + backm(k, 'A', o, 'r', 'c') + ' }\n'
        ps.append(P(o, t, mshape(k, lay, 'r', 'c'), 'inout'))

    def ens(I, O):
        r = []
        for o in ('x', 'p', 'e'):
            a, b = mget(k, lay, I[o]), mget(k, lay, O[o])
            r += each2('write ' + o, I.r, I.c, lambda x, y, a=a, b=b: pick(ieq(x, I.i), lambda: pick(ieq(y, I.j), lambda: eq(b(x, y), I.q), lambda: eq(b(x, y), a(x, y))),
                                                                          lambda: eq(b(x, y), a(x, y))))
        a, b = mget(k, lay, I.sr), mget(k, lay, O.sr)
        r += each2('set_row', I.r, I.c, lambda x, y: pick(ieq(x, I.i), lambda: eq(b(x, y), I.v[y]), lambda: eq(b(x, y), a(x, y))))
        a2, b2 = mget(k, lay, I.sc), mget(k, lay, O.sc)
        r += each2('set_col', I.r, I.c, lambda x, y: pick(ieq(y, I.j), lambda: eq(b2(x, y), I.w[x]), lambda: eq(b2(x, y), a2(x, y))))
        return r
    return SizeCase(nm, body, ps, ens, lambda I: [ilt(I.i, I.r), ilt(I.j, I.c)], label='writes on %s %s basis %s-major, all shapes and indices' % (k, basis, lay),
                    opts=dict(SOFT, szok=lambda z: z['i'] < z['r'] and z['j'] < z['c']))


def mnodes(nm, k, lay, basis='col', t='double'):
    """row(i), col(j), basis(k), row and column of expressions, conversion to the other layout"""
    body = dmat({'dext': 'cdext'}.get(k, k), t, 'A', 'a', 'r', 'c', basis, lay) + '''
  z[0] = row(A, i).size(); out(o, row(A, i), c); z[1] = col(A, j).size(); out(p, col(A, j), r); out(s, row(2 * A, i), c); out(u, col(-A, j), r);
  matrix<%s,dynamic<>,%s_basis,%s_major> B(A); outm(m, B, r, c); z[2] = B.rows(); z[3] = B.cols();''' % (CPP[t], basis, 'col' if lay == 'row' else 'row')
    ps = [P('a', t, mshape(k, lay, 'r', 'c')), S_('r', lo=1, hi=6), S_('c', lo=1, hi=6), S_('i', hi=5), S_('j', hi=5)] + [
        P('o', t, 'c', 'out'), P('s', t, 'c', 'out'), P('p', t, 'r', 'out'), P('u', t, 'r', 'out'), P('m', t, ('r', 'c'), 'out'), P('z', 'int', 4, 'out')]

    def ens(I, O):
        a = mget(k, lay, I.a)
        return each('row', I.c, lambda y: eq(O.o[y], a(I.i, y))) + each('col', I.r, lambda x: eq(O.p[x], a(x, I.j))) + each(
            'row of 2A', I.c, lambda y: eq(O.s[y], 2 * a(I.i, y))) + each('col of -A', I.r, lambda x: eq(O.u[x], -a(x, I.j))) + each2(
                'other layout', I.r, I.c, lambda x, y: eq(O.m[x][y], a(x, y))) + [('size', ieq(O.z[q], v)) for q, v in enumerate((I.c, I.r, I.r, I.c))]
    return SizeCase(nm, body, ps, ens, lambda I: [ilt(I.i, I.r), ilt(I.j, I.c)], label='rows and columns of %s %s basis %s-major, all shapes and indices' % (k, basis, lay),
                    opts=dict(SOFT, szok=lambda z: z['i'] < z['r'] and z['j'] < z['c']))


def mfill(nm, k, lay, t='double'):
    body, ps = '', [S_('r', lo=1, hi=6), S_('c', lo=1, hi=6), P('q', t)]
    for o, st in (('z', 'A.zero();'), ('f', 'A.fill(q);'), ('d', 'A.identity();')):
        body += '{ ' + dmat(k, t, 'A', o, 'r', 'c', 'col', lay) + st + backm(k, 'A', o, 'r', 'c') + ' }\n'
        ps.append(P(o, t, mshape(k, lay, 'r', 'c'), 'inout'))

    def ens(I, O):
        z, f, d = (mget(k, lay, O[o]) for o in 'zfd')
        return each2('zero', I.r, I.c, lambda x, y: eq(z(x, y), const(0))) + each2('fill', I.r, I.c, lambda x, y: eq(f(x, y), I.q)) + each2(
            'identity', I.r, I.c, lambda x, y: pick(ieq(x, y), lambda: eq(d(x, y), const(1)), lambda: eq(d(x, y), const(0))))
    return SizeCase(nm, body, ps, ens, label='fill, zero, identity on %s %s-major, all shapes' % (k, lay), opts=SOFT)


# ================================================================ C09

def mlinear(nm, ka, kb, lay='row', lb=None, basis='col', t='double'):
    lb = lb or lay
    ops = [('s', 'A + B', lambda a, b, k: a + b), ('d', 'A - B', lambda a, b, k: a - b), ('m', '-A', lambda a, b, k: -a), ('k1', 'A * k', lambda a, b, k: a * k),
           ('q', 'A / k', lambda a, b, k: a / k), ('z', '(A - B) * k + (B - (-A)) / k', lambda a, b, k: (a - b) * k + (b + a) / k)]
    body = dmat(ka, t, 'A', 'a', 'r', 'c', basis, lay) + dmat(kb, t, 'B', 'b', 'r', 'c', basis, lb)
    for o, e, f in ops:
        body += '\n  outm(%s, %s, r, c);' % (o, e)
    body += '\n  { matrix<%s,dynamic<>,%s_basis,%s_major> R = A + k * B; outm(y, R, r, c); w[0] = R.rows(); w[1] = R.cols(); }' % (CPP[t], basis, lay)
    ps = [P('a', t, mshape(ka, lay, 'r', 'c')), P('b', t, mshape(kb, lb, 'r', 'c')), S_('r', lo=1, hi=7), S_('c', lo=1, hi=7), P('k', t)] + [
        P(o, t, ('r', 'c'), 'out') for o, e, f in ops] + [P('y', t, ('r', 'c'), 'out'), P('w', 'int', 2, 'out')]

    def ens(I, O):
        a, b = mget(ka, lay, I.a), mget(kb, lb, I.b)
        r = []
        for o, e, f in ops:
            r += each2(e, I.r, I.c, lambda i, j, o=o, f=f: eq(O[o][i][j], f(a(i, j), b(i, j), I.k)))
        r += each2('stored', I.r, I.c, lambda i, j: eq(O.y[i][j], a(i, j) + I.k * b(i, j)))
        return r + [('shape', ieq(O.w[i], (I.r, I.c)[i])) for i in (0, 1)]
    return SizeCase(nm, body, ps, ens, lambda I: [ne(I.k, const(0))], label='linear matrix expressions %s(%s), %s(%s), all shapes' % (ka, lay, kb, lb), opts=SOFT)


def mcompound(nm, ka, kb, lay='row', lb=None, basis='col', t='double'):
    lb = lb or lay
    ops = [('e', 'A = B', lambda a, b, k: b), ('p', 'A += B', lambda a, b, k: a + b), ('s', 'A -= B', lambda a, b, k: a - b), ('m', 'A *= k', lambda a, b, k: a * k),
           ('q', 'A /= k', lambda a, b, k: a / k), ('px', 'A += k * B', lambda a, b, k: a + k * b), ('pp', 'A += A', lambda a, b, k: a + a)]
    body, ps = dmat(kb, t, 'B', 'b', 'r', 'c', basis, lb), [P('b', t, mshape(kb, lb, 'r', 'c')), S_('r', lo=1, hi=7), S_('c', lo=1, hi=7), P('k', t)]
    for o, st, f in ops:
        body += '\n  { ' + dmat(ka, t, 'A', o, 'r', 'c', basis, lay) + st + '; ' + backm(ka, 'A', o, 'r', 'c') + ' }'
        ps.append(P(o, t, mshape(ka, lay, 'r', 'c'), 'inout'))

    def ens(I, O):
        b = mget(kb, lb, I.b)
        r = []
        for o, st, f in ops:
            x, y = mget(ka, lay, I[o]), mget(ka, lay, O[o])
            r += each2(st, I.r, I.c, lambda i, j, x=x, y=y, f=f: eq(y(i, j), f(x(i, j), b(i, j), I.k)))
        return r
    return SizeCase(nm, body, ps, ens, lambda I: [ne(I.k, const(0))], label='compound matrix assignment %s(%s), %s(%s), all shapes' % (ka, lay, kb, lb), opts=SOFT)


# ================================================================ C10

def mproduct(nm, ka, kb, lay='row', basis='col', t='double'):
    body = dmat(ka, t, 'A', 'a', 'r', 'k', basis, lay) + dmat(kb, t, 'B', 'b', 'k', 'c', basis, lay) + '''
  { auto e = A * B; outm(o, e, r, c); w[0] = e.rows(); w[1] = e.cols(); }
  { matrix<%s,dynamic<>,%s_basis,%s_major> R = A * B; outm(y, R, r, c); w[2] = R.rows(); w[3] = R.cols(); }''' % (CPP[t], basis, lay)
    ps = [P('a', t, mshape(ka, lay, 'r', 'k')), P('b', t, mshape(kb, lay, 'k', 'c')), S_('r', lo=1, hi=6), S_('k', lo=1, hi=6), S_('c', lo=1, hi=6),
          P('o', t, ('r', 'c'), 'out'), P('y', t, ('r', 'c'), 'out'), P('w', 'int', 4, 'out')]

    def ens(I, O):
        a, b = mget(ka, lay, I.a), mget(kb, lay, I.b)
        r = []
        for o in 'oy':
            r += each2('A B ' + o, I.r, I.c, lambda i, j, o=o: eq(O[o][i][j], total(I.k, lambda q: a(i, q) * b(q, j))))
        return r + [('shape', ieq(O.w[i], (I.r, I.c)[i % 2])) for i in range(4)]
    return SizeCase(nm, body, ps, ens, label='products %s, %s, %s-major, all shapes' % (ka, kb, lay), opts=SOFT)


def mvproduct(nm, km, kv, lay='row', basis='col', t='double'):
    body = dmat(km, t, 'A', 'a', 'r', 'c', basis, lay) + dvec(kv, t, 'V', 'v', 'c') + dvec(kv, t, 'W', 'w', 'r') + '''
  { auto e = A * V; out(o, e, r); z[0] = e.size(); } { auto e = W * A; out(p, e, c); z[1] = e.size(); }
  { vector<%s,dynamic<>> R = A * V; out(s, R, r); R = W * A; out(u, R, c); z[2] = R.size(); }''' % CPP[t]
    ps = [P('a', t, mshape(km, lay, 'r', 'c')), P('v', t, 'c'), P('w', t, 'r'), S_('r', lo=1, hi=8), S_('c', lo=1, hi=8), P('o', t, 'r', 'out'), P('s', t, 'r', 'out'),
          P('p', t, 'c', 'out'), P('u', t, 'c', 'out'), P('z', 'int', 3, 'out')]

    def ens(I, O):
        a = mget(km, lay, I.a)
        r = []
        for o in 'os':
            r += each('A v ' + o, I.r, lambda i, o=o: eq(O[o][i], total(I.c, lambda q: a(i, q) * I.v[q])))
        for o in 'pu':
            r += each('w A ' + o, I.c, lambda j, o=o: eq(O[o][j], total(I.r, lambda q: I.w[q] * a(q, j))))
        return r + [('size', ieq(O.z[i], (I.r, I.c, I.c)[i])) for i in range(3)]
    return SizeCase(nm, body, ps, ens, label='products of %s %s-major with %s, all sizes' % (km, lay, kv), opts=SOFT)


def mtproduct(nm, ka, kb, lay='row', basis='col', t='double'):
    """transposed factors and outer products"""
    body = dmat(ka, t, 'A', 'a', 'r', 'k', basis, lay) + dmat(kb, t, 'B', 'b', 'c', 'k', basis, lay) + dvec('cdext', t, 'W', 'w', 'r') + dvec('cdext', t, 'V', 'v', 'k') + '''
  { auto e = A * transpose(B); outm(o, e, r, c); z[0] = e.rows(); z[1] = e.cols(); }
  { auto e = transpose(A) * W; out(p, e, k); z[2] = e.size(); } { auto e = V * transpose(A); out(q, e, r); z[3] = e.size(); }
  { auto e = outer(W, V) * V; out(s, e, r); z[4] = e.size(); }'''
    ps = [P('a', t, mshape(ka, lay, 'r', 'k')), P('b', t, mshape(kb, lay, 'c', 'k')), P('w', t, 'r'), P('v', t, 'k'), S_('r', lo=1, hi=6), S_('k', lo=1, hi=6), S_('c', lo=1, hi=6),
          P('o', t, ('r', 'c'), 'out'), P('p', t, 'k', 'out'), P('q', t, 'r', 'out'), P('s', t, 'r', 'out'), P('z', 'int', 5, 'out')]

    def ens(I, O):
        a, b = mget(ka, lay, I.a), mget(kb, lay, I.b)
        return each2('A B^T', I.r, I.c, lambda i, j: eq(O.o[i][j], total(I.k, lambda x: a(i, x) * b(j, x)))) + each(
            'A^T w', I.k, lambda j: eq(O.p[j], total(I.r, lambda x: a(x, j) * I.w[x]))) + each('v A^T', I.r, lambda i: eq(O.q[i], total(I.k, lambda x: I.v[x] * a(i, x)))) + each(
                '(w v^T) v', I.r, lambda i: eq(O.s[i], total(I.k, lambda x: (I.w[i] * I.v[x]) * I.v[x]))) + [
                    ('shape', ieq(O.z[i], y)) for i, y in enumerate((I.r, I.c, I.k, I.r, I.r))]
    return SizeCase(nm, body, ps, ens, label='products with transposes %s, %s, %s-major, all shapes' % (ka, kb, lay), opts=SOFT)


def malias(nm, k, lay='row', t='double'):
    """products assigned to their own operand"""
    ops = [('x', 'A = A * B;', lambda a, b: lambda i, j, n: total(n, lambda q: a(i, q) * b(q, j))), ('y', 'A = B * A;', lambda a, b: lambda i, j, n: total(n, lambda q: b(i, q) * a(q, j)))]
    body, ps = dmat('cdext', t, 'B', 'b', 'n', 'n', 'col', lay), [P('b', t, ('n', 'n')), S_('n', lo=1, hi=6), P('v', t, 'n', 'inout')]
    for o, st, f in ops:
        body += '{ ' + dmat(k, t, 'A', o, 'n', 'n', 'col', lay) + st + backm(k, 'A', o, 'n', 'n') + ' }\n'
        ps.append(P(o, t, ('n', 'n'), 'inout'))
    body += dvec('dext' if k == 'dext' else 'dyn', t, 'V', 'v', 'n') + 'V = B * V;' + back(k, 'V', 'v', 'n')

    def ens(I, O):
        b = mget('cdext', lay, I.b)
        r = []
        for o, st, f in ops:
            g, h = f(mget(k, lay, I[o]), b), mget(k, lay, O[o])
            r += each2(st, I.n, I.n, lambda i, j, g=g, h=h: eq(h(i, j), g(i, j, I.n)))
        return r + each('V = B*V', I.n, lambda i: eq(O.v[i], total(I.n, lambda q: b(i, q) * I.v[q])))
    return SizeCase(nm, body, ps, ens, label='products assigned to their operand, %s %s-major, every size' % (k, lay), opts=SOFT)


# ================================================================ transposes, trace (C11)

def mtranspose(nm, ka, lay='row', basis='col', t='double'):
    L = CPP[t], basis, lay
    body = dmat({'dext': 'cdext'}.get(ka, ka), t, 'A', 'a', 'r', 'c', basis, lay) + '''
  { auto e = transpose(A); outm(o, e, c, r); w[0] = e.rows(); w[1] = e.cols(); }
  { matrix<%s,dynamic<>,%s_basis,%s_major> R = transpose(A); outm(y, R, c, r); w[2] = R.rows(); w[3] = R.cols(); }
  { matrix<%s,dynamic<>,%s_basis,%s_major> R(A); R.transpose(); outm(x, R, c, r); w[4] = R.rows(); w[5] = R.cols(); }''' % (L + L)
    ps = [P('a', t, mshape(ka, lay, 'r', 'c')), S_('r', lo=1, hi=7), S_('c', lo=1, hi=7)] + [P(o, t, ('c', 'r'), 'out') for o in 'oyx'] + [P('w', 'int', 6, 'out')]

    def ens(I, O):
        a = mget(ka, lay, I.a)
        r = []
        for o in 'oyx':
            r += each2('transpose ' + o, I.c, I.r, lambda i, j, o=o: eq(O[o][i][j], a(j, i)))
        return r + [('shape', ieq(O.w[i], (I.c, I.r)[i % 2])) for i in range(6)]
    return SizeCase(nm, body, ps, ens, label='transposes of %s %s-major, all shapes' % (ka, lay), opts=SOFT)


def mtranspose_sq(nm, lay='row', t='double'):
    body = dmat('dext', t, 'A', 'a', 'n', 'n', 'col', lay) + 'A.transpose();'
    return SizeCase(nm, body, [P('a', t, ('n', 'n'), 'inout'), S_('n', lo=1, hi=8)],
                    lambda I, O: each2('transpose in place', I.n, I.n, lambda i, j: eq(O.a[i][j], I.a[j][i])), label='square view transposed in place', opts=SOFT)


def mtrace(nm, k, lay='row', t='double'):
    body = dmat({'dext': 'cdext'}.get(k, k), t, 'A', 'a', 'n', 'n', 'col', lay) + 'o[0] = trace(A); o[1] = A.trace(); o[2] = trace(A + A);'
    ps = [P('a', t, ('n', 'n')), S_('n', lo=1, hi=12), P('o', t, 3, 'out')]

    def ens(I, O):
        s = total(I.n, lambda i: I.a[i][i])
        return [('trace', eq(O.o[i], s)) for i in (0, 1)] + [('trace(A+A)', eq(O.o[2], total(I.n, lambda i: I.a[i][i] + I.a[i][i])))]
    return SizeCase(nm, body, ps, ens, label='trace of %s %s-major, every size' % (k, lay), opts=SOFT)


# ================================================================ units per property

RT = ('dyn', 'cdext')


def family(pid, tier):
    cs = []
    n = [0]

    def add(f, *a, **k):
        n[0] += 1
        cs.append(f('%sn_%s_%d' % (pid, f.__name__, n[0]), *a, **k))
    if pid == 'c01':
        for ka in RT:
            for kb in RT:
                add(vlinear, ka, kb)
        for ka in ('dyn', 'dext'):
            for kb in RT:
                add(vcompound, ka, kb)
        add(vlinear, 'dyn', 'dyn', 'float')
        for ka in RT:
            add(vlinear_i, ka, 'dyn')
        add(vcompound, 'dyn', 'dyn', 'float')
    elif pid == 'c02':
        for ka, kb in (('dyn', 'dyn'), ('cdext', 'dyn'), ('cdext', 'cdext')):
            for w in ('add', 'sub', 'had'):
                add(vmismatch, ka, kb, w)
        for ka, kb in (('dyn', 'dyn'), ('dext', 'dyn'), ('dyn', 'cdext')):
            for w in ('pe', 'se') + (('as',) if ka == 'dext' else ()):
                add(vmismatch, ka, kb, w)
        for kb in RT:
            add(vresize_assign, kb)
        for lay in ('row', 'col'):
            add(mmismatch, 'dyn', 'dyn', 'add', lay)
            add(mmismatch, 'dyn', 'cdext', 'pe', lay)
            add(mmismatch, 'dext', 'dyn', 'se', lay)
            for w in ('mv', 'vm', 'mm'):
                add(mvmismatch, w, lay)
    elif pid == 'c03':
        for ka in RT:
            for kb in RT:
                add(vdot, ka, kb)
                add(vouter, ka, kb, 'double', 'row' if ka == kb else 'col')
        add(vdot, 'dyn', 'dyn', 'float')
        add(vproject, 'dyn', 'dyn')
        add(vproject, 'cdext', 'dyn')
    elif pid == 'c04':
        for ka in RT:
            for kb in RT:
                add(vlength, ka, kb)
        add(vnorm, 'dyn')
        add(vnorm, 'dext')
        for ka in ('dyn', 'dext'):
            for kb in RT:
                add(vminmax, ka, kb, 'minimize')
                add(vminmax, ka, kb, 'maximize')
    elif pid == 'c05':
        add(vconstruct)
        add(vconstruct, 'float')
        add(vconstruct, 'int')
        add(vappend, 3, 'dyn', 'int')
        for m in (1, 2, 3, 4):
            for kb in RT:
                add(vappend, m, kb)
        for k in ('dyn', 'dext'):
            add(vset, k)
        for k in RT:
            add(vread, k)
        for ka in RT:
            for kb in RT:
                add(vsub, ka, kb)
    elif pid == 'c06':
        for op in ('==', '!=', '<', '>', '<=', '>='):
            add(vcompare1, 'dyn', 'dyn', op)
            add(vcompare1, 'cdext', 'dyn', op)
        add(vcompare1, 'cdext', 'cdext', '<')
        add(vcompare1, 'cdext', 'cdext', '==')
        for la in ('row', 'col'):
            for lb in ('row', 'col'):
                for op in ('==', '!='):
                    add(mcompare1, 'dyn' if la == lb else 'cdext', 'dyn', op, la, lb)
    elif pid == 'c07':
        add(vcopies)
        add(vresize)
        add(vresize, 'double', True)
        add(vmove)
        add(mcopies, 'row')
        add(mcopies, 'col')
        add(vviews)
    elif pid == 'c08':
        for lay in ('row', 'col'):
            for k in ('dyn', 'dext'):
                for b in ('col', 'row'):
                    add(mlayout, k, lay, b)
                    add(mput, k, lay, b)
                add(mnodes, k, lay)
                add(mfill, k, lay)
    elif pid == 'c09':
        for lay in ('row', 'col'):
            for ka in RT:
                for kb in RT:
                    add(mlinear, ka, kb, lay)
            for ka in ('dyn', 'dext'):
                for kb in RT:
                    add(mcompound, ka, kb, lay)
        for la, lb in (('row', 'col'), ('col', 'row')):
            add(mlinear, 'dyn', 'cdext', la, lb)
            add(mcompound, 'dext', 'dyn', la, lb)
            add(mcompound, 'dyn', 'cdext', la, lb)
        add(mlinear, 'dyn', 'dyn', 'row', None, 'row')
        add(mcompound, 'dyn', 'dyn', 'col', None, 'row')
    elif pid == 'c10':
        for lay in ('row', 'col'):
            for ka in RT:
                for kb in RT:
                    add(mproduct, ka, kb, lay)
                    add(mvproduct, ka, kb, lay)
            add(mtproduct, 'dyn', 'dyn', lay)
            add(mtproduct, 'cdext', 'dyn', lay, 'row')
            add(malias, 'dyn', lay)
            add(malias, 'dext', lay)
    elif pid == 'c11':
        for lay in ('row', 'col'):
            for k in ('dyn', 'dext'):
                add(mtranspose, k, lay)
                add(mtrace, k, lay)
            add(mtranspose_sq, lay)
    return chunks(pid + 'n', cs, 6)
