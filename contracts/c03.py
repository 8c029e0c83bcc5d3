"""C03: dot, cross, perp-dot, triple and outer products"""
from contracts.common import *
from contracts.c01 import prom, conv, lift, KINDS

META = {'level': 'proof'}


def small(I, names):
    out = []
    for o in names:
        for x in I[o]:
            if x.sort != 'R':
                out.append(in_range(x, -500, 500))
    return out


def bounded(*ks):
    return 'bounded' if any(k in ('dyn', 'cdext') for k in ks) else 'proved'


def c_dot(nm, ka, kb, ta, tb, n):
    t = prom(ta, tb)
    body = vec(ka, ta, 'A', 'a', n) + vec(kb, tb, 'B', 'b', n) + 'o[0] = dot(A, B); o[1] = dot(B, A); o[2] = dot(A + A, B - A); o[3] = dot(A, A);'

    def ens(I, O):
        a, b = lift(I.a, ta, t), lift(I.b, tb, t)
        aa = lift([x + x for x in I.a], ta, t)
        return [('a.b', eq(O.o[0], dot(a, b))), ('b.a', eq(O.o[1], dot(a, b))), ('(a+a).(b-a)', eq(O.o[2], dot(aa, vsub(b, a)))),
                ('a.a', eq(O.o[3], conv(t, dot(I.a, I.a))))]
    return Case(nm, body, [P('a', ta, n), P('b', tb, n), P('o', t, 4, 'out')], ens, lambda I: small(I, 'ab'),
                label='dot %s<%s>, %s<%s>, size %d' % (ka, ta, kb, tb, n), level=bounded(ka, kb), opts={'timeout': 8000})


def c_cross(nm, ka, kb, ta, tb):
    t = prom(ta, tb)
    body = vec(ka, ta, 'A', 'a', 3) + vec(kb, tb, 'B', 'b', 3) + '''
  out(o, cross(A, B), 3); out(r, cross(B, A), 3); out(x, cross(A + A, B - A), 3);
  vector<%s,fixed<3>> C = cross(A, B); s[0] = dot(C, A); s[1] = dot(C, B); s[2] = triple_product(A, B, A + B); s[3] = triple_product(A, A, B);
  auto e = cross(A, B); n[0] = e.size(); out(y, e + e, 3);
  s[4] = triple_product(B, A, C); s[5] = triple_product(B - A, B + A, C);''' % CPP[t]
    ps = [P('a', ta, 3), P('b', tb, 3), P('o', t, 3, 'out'), P('r', t, 3, 'out'), P('x', t, 3, 'out'), P('y', t, 3, 'out'), P('s', t, 6, 'out'),
          P('n', 'int', 1, 'out')]

    def ens(I, O):
        a, b = lift(I.a, ta, t), lift(I.b, tb, t)
        c = cross(a, b)
        aa = lift([x + x for x in I.a], ta, t)
        # zero, written so that its evaluation carries the rounding magnitude of the products
        z, zb = dot(c, a), dot(c, b)
        z0 = const(0) if t != 'int' else const(0, 32)
        return veq('a x b', O.o, c) + veq('b x a', O.r, [-x for x in c]) + veq('(a+a) x (b-a)', O.x, cross(aa, vsub(b, a))) + \
            veq('2(a x b)', O.y, vadd(c, c)) + [
                ('(a x b).a = 0', eq(O.s[0], z)), ('(a x b).b = 0', eq(O.s[1], zb)), ('a.(b x (a+b))', eq(O.s[2], dot(a, cross(b, vadd(a, b))))),
                ('a.(a x b) = 0', eq(O.s[3], z)), ('lemma: (a x b).a = 0', eq(O.s[0], z0)), ('lemma: (a x b).b = 0', eq(O.s[1], z0)),
                ('lemma: a.(a x b) = 0', eq(O.s[3], z0)), ('b.(a x c)', eq(O.s[4], dot(b, cross(a, c)))),
                ('(b-a).((b+a) x c)', eq(O.s[5], dot(vsub(b, a), cross(vadd(b, a), c)))), ('size', is_val(O.n[0], 3))]

    def req(I):
        return [in_range(x, -20, 20) for o in 'ab' for x in I[o] if x.sort != 'R']
    return Case(nm, body, ps, ens, req, label='cross and triple product %s<%s>, %s<%s>' % (ka, ta, kb, tb), level=bounded(ka, kb),
                opts={'timeout': 8000})


def c_prodnodes(nm, ka, kb, t):
    """copied and moved cross and outer product nodes"""
    body = vec(ka, t, 'A', 'a', 3) + vec(kb, t, 'B', 'b', 3) + '''
  { auto mk = [&] { auto e = cross(A, B); auto f = e; return f; }; auto g = mk(); auto h = std::move(g); out(o, h, 3); auto p = h; out(q, p + h, 3); }
  { auto mk = [&] { auto e = cross(A + B, +B); auto f = e; return f; }; auto g = mk(); auto h = std::move(g); out(r, h, 3); }
  { auto mk = [&] { auto e = outer(A, B); auto f = e; return f; }; auto g = mk(); auto h = std::move(g); outm(m, h, 3, 3); auto p = h; outm(n, p + h, 3, 3); }
  { auto mk = [&] { auto e = outer(A - B, +B); auto f = e; return f; }; auto g = mk(); auto h = std::move(g); outm(l, h, 3, 3); }'''

    def ens(I, O):
        a, b = I.a, I.b
        c = cross(a, b)
        return veq('cross', O.o, c) + veq('sum of copies', O.q, [x + x for x in c]) + veq('cross of expressions', O.r, cross(vadd(a, b), b)) + \
            meq('outer', O.m, [[x * y for y in b] for x in a]) + meq('sum of outer copies', O.n, [[x * y + x * y for y in b] for x in a]) + \
            meq('outer of expressions', O.l, [[(x - z) * y for y in b] for x, z in zip(a, b)])
    return Case(nm, body, [P('a', t, 3), P('b', t, 3)] + [P(x, t, 3, 'out') for x in 'oqr'] + [P(x, t, (3, 3), 'out') for x in 'mnl'], ens,
                lambda I: small(I, 'ab'), level=bounded(ka, kb), label='copied product nodes, %s and %s <%s>' % (ka, kb, t))


def c_triple(nm, ka, kb, kc, t):
    body = vec(ka, t, 'A', 'a', 3) + vec(kb, t, 'B', 'b', 3) + vec(kc, t, 'C', 'c', 3) + \
        'o[0] = triple_product(A, B, C); o[1] = dot(A, cross(B, C)); o[2] = triple_product(B, C, A); o[3] = triple_product(B, A, C);'

    def ens(I, O):
        v = dot(I.a, cross(I.b, I.c))
        return [('a.(b x c)', eq(O.o[0], v)), ('dot(a, cross(b, c))', eq(O.o[1], v)), ('cyclic', eq(O.o[2], v)), ('anti-cyclic', eq(O.o[3], -v))]
    return Case(nm, body, [P('a', t, 3), P('b', t, 3), P('c', t, 3), P('o', t, 4, 'out')], ens, level=bounded(ka, kb, kc),
                label='triple product %s, %s, %s <%s>' % (ka, kb, kc, t))


def c_perp(nm, ka, kb, ta, tb):
    t = prom(ta, tb)
    body = vec(ka, ta, 'A', 'a', 2) + vec(kb, tb, 'B', 'b', 2) + \
        'o[0] = perp_dot(A, B); o[1] = perp_dot(A + B, B); o[2] = perp_dot(A, A); auto p = perp(A); out(q, p, 2);'

    def ens(I, O):
        a, b = lift(I.a, ta, t), lift(I.b, tb, t)
        v = a[0] * b[1] - a[1] * b[0]
        return [('perp_dot', eq(O.o[0], v)), ('perp_dot(a+b, b)', eq(O.o[1], (a[0] + b[0]) * b[1] - (a[1] + b[1]) * b[0])),
                ('perp_dot(a,a)', eq(O.o[2], v - v))] + veq('perp', O.q, [-I.a[1], I.a[0]])
    return Case(nm, body, [P('a', ta, 2), P('b', tb, 2), P('o', t, 3, 'out'), P('q', ta, 2, 'out')], ens, lambda I: small(I, 'ab'),
                label='perp_dot %s<%s>, %s<%s>' % (ka, ta, kb, tb), level=bounded(ka, kb))


def c_outer(nm, ka, kb, ta, tb, n, m):
    t = prom(ta, tb)
    body = vec(ka, ta, 'A', 'a', n) + vec(kb, tb, 'B', 'b', m) + '''
  auto e = outer(A, B); d[0] = e.rows(); d[1] = e.cols(); outm(o, e, %d, %d);
  matrix<%s,%s> M = outer(A + A, B); outm(p, M, %d, %d);
  matrix<%s,dynamic<>,row_basis,col_major> N = outer(A, -B); d[2] = N.rows(); d[3] = N.cols(); outm(q, N, %d, %d);''' % (
        n, m, CPP[t], 'fixed<%d,%d>' % (n, m) if ka in ('fix', 'cext') and kb in ('fix', 'cext') else 'dynamic<>', n, m, CPP[t], n, m)

    def ens(I, O):
        a, b = lift(I.a, ta, t), lift(I.b, tb, t)
        nb = lift([-x for x in I.b], tb, t)
        a2 = lift([x + x for x in I.a], ta, t)
        return meq('a b^T', O.o, [[x * y for y in b] for x in a]) + meq('2a b^T', O.p, [[x * y for y in b] for x in a2]) + \
            meq('-a b^T', O.q, [[x * y for y in nb] for x in a]) + [('dims %d' % i, is_val(O.d[i], (n, m)[i % 2])) for i in range(4)]
    return Case(nm, body, [P('a', ta, n), P('b', tb, m), P('o', t, (n, m), 'out'), P('p', t, (n, m), 'out'), P('q', t, (n, m), 'out'), P('d', 'int', 4, 'out')],
                ens, lambda I: small(I, 'ab'), label='outer product %s<%s>(%d), %s<%s>(%d)' % (ka, ta, n, kb, tb, m), level=bounded(ka, kb))


def c_misc(nm, ka, kb, t, n):
    """projections and the taxicab distance"""
    body = vec(ka, t, 'A', 'a', n) + vec(kb, t, 'B', 'b', n) + \
        'out(o, project_to_vector(A, B), %d); out(h, project_to_hplane(A, B), %d); m[0] = manhattan_distance(A, B); m[1] = manhattan_distance(A, A);' % (n, n)

    def ens(I, O):
        d = dot(I.a, I.b)
        return veq('projection', O.o, [d / norm2(I.b) * x for x in I.b]) + veq('plane', O.h, [x - d * y for x, y in zip(I.a, I.b)]) + [
            ('sum of distances', eq(O.m[0], S(tm.fabs(x - y) for x, y in zip(I.a, I.b)))), ('zero distance', eq(O.m[1], const(0)))]
    return Case(nm, body, [P('a', t, n), P('b', t, n), P('o', t, n, 'out'), P('h', t, n, 'out'), P('m', t, 2, 'out')], ens,
                lambda I: [gt(norm2(I.b), const(0))], label='projections, %s, %s <%s> size %d' % (ka, kb, t, n), level=bounded(ka, kb))


TYPES = [('float', 'float'), ('float', 'double'), ('double', 'float'), ('int', 'int'), ('int', 'double'), ('double', 'int')]


def units(tier):
    cs = []
    k = [0]

    def add(f, *a):
        k[0] += 1
        cs.append(f('c03_%s_%d' % (f.__name__, k[0]), *a))
    for ka, kb in itertools.product(KINDS, KINDS):
        add(c_dot, ka, kb, 'double', 'double', 3)
        add(c_cross, ka, kb, 'double', 'double')
        add(c_perp, ka, kb, 'double', 'double')
        add(c_outer, ka, kb, 'double', 'double', 3, 2)
    for ta, tb in TYPES:
        add(c_dot, 'fix', 'fix', ta, tb, 3)
        add(c_cross, 'fix', 'fix', ta, tb)
        add(c_perp, 'fix', 'fix', ta, tb)
        add(c_outer, 'fix', 'fix', ta, tb, 2, 4)
        add(c_dot, 'dyn', 'cext', ta, tb, 4)
    for n in (1, 2, 4, 5) if tier == 'quick' else (1, 2, 4, 5, 6, 8, 12):
        add(c_dot, 'fix', 'fix', 'double', 'double', n)
        add(c_dot, 'dyn', 'dyn', 'double', 'double', n)
        add(c_outer, 'fix', 'dyn', 'double', 'double', n, 3)
    for ks in [('fix', 'fix', 'fix'), ('fix', 'dyn', 'cext'), ('dyn', 'cext', 'cdext'), ('cdext', 'fix', 'dyn'), ('cext', 'cdext', 'fix'), ('dyn', 'dyn', 'dyn')]:
        add(c_triple, *ks, 'double')
    add(c_triple, 'fix', 'fix', 'fix', 'float')
    for ka, kb in [('fix', 'fix'), ('dyn', 'fix'), ('cext', 'dyn'), ('cdext', 'cext')]:
        for n in (2, 3, 4):
            add(c_misc, ka, kb, 'double', n)
    for ka, kb in itertools.product(KINDS, KINDS):
        add(c_prodnodes, ka, kb, 'double')
    add(c_prodnodes, 'fix', 'fix', 'int')
    add(c_prodnodes, 'fix', 'fix', 'float')
    from contracts import sized
    return chunks('c03', cs, 12) + sized.family('c03', tier)
