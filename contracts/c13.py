"""C13: quaternion algebra"""
from contracts.common import *
from contracts.c01 import prom, conv, div
from contracts.c09 import small

META = {'level': 'proof'}
CONF = [(o, x) for o in ('imaginary_first', 'real_first') for x in ('positive_cross', 'negative_cross')]


def prod(x, a, b):
    return qmul(a, b) if x == 'positive_cross' else qmul(b, a)


def Q4(nm, t, m='out'):
    return P(nm, t, 4, m)


def c_linear(nm, ta, tb, o, x):
    t = prom(ta, tb)
    body = quat('A', 'a', ta, o, x) + quat('B', 'b', tb, o, x) + '''
  outq(s, A + B); outq(d, A - B); outq(m, -A); outq(u, +A); outq(k1, A * k); outq(k2, k * A); outq(q, A / k);
  outq(c, conjugate(A)); outq(c2, std::as_const(A).conjugate()); outq(c3, conjugate(A + A)); outq(z, (A - B) * k + (conjugate(B) - (-A)) / k);
  auto e = (k * A - B) + (A + (-B)); outq(y, e);
  v[0] = dot(A, B); v[1] = dot(A + B, B);
  l[0] = A.length_squared(); l[1] = norm(A); l[2] = A.norm(); l[3] = length_squared(A); l[4] = real(A); l[5] = A.real(); l[6] = A.w();
  auto im = imaginary(A); for(int i = 0; i < 3; ++i) { i1[i] = im[i]; i2[i] = A.imaginary()[i]; i3[i] = imaginary(A + A)[i]; }
  i1[3] = im.size(); i2[3] = A.size(); i3[3] = 0;
  for(int i = 0; i < 4; ++i) r[i] = A[i], r2[i] = A.get(i), r3[i] = (A + B)[i];
  outq(a1, A); outq(b1, B);'''
    pa = prom(ta, t)
    ps = [Q4('a', ta, 'in'), Q4('b', tb, 'in'), P('k', t)] + [Q4(n, t) for n in 'sdzy'] + [Q4(n, ta) for n in ('m', 'u', 'c', 'c2', 'c3')] + \
        [Q4(n, pa) for n in ('k1', 'k2', 'q')] + [P('v', t, 2, 'out'), P('l', ta, 7, 'out')] + [Q4(n, ta) for n in ('i1', 'i2', 'i3', 'r', 'r2', 'a1')] + \
        [Q4('r3', t), Q4('b1', tb)]
    st = [1, 2, 3, 0] if o == 'imaginary_first' else [0, 1, 2, 3]

    def ens(I, O):
        L = lambda v: [conv(t, y) for y in v]
        a, b, k = L(I.a), L(I.b), I.k
        c = qconj(I.a)
        cb, na, nb = L(qconj(I.b)), L([-y for y in I.a]), L([-y for y in I.b])
        n = norm2(I.a)
        K = (lambda v: const(v, 32)) if ta == 'int' else const
        res = veq('a+b', O.s, vadd(a, b)) + veq('a-b', O.d, vsub(a, b)) + veq('-a', O.m, [-y for y in I.a]) + veq('+a', O.u, I.a)
        res += veq('a*k', O.k1, vscale(k, a)) + veq('k*a', O.k2, vscale(k, a)) + veq('a/k', O.q, [div(t, y, k) for y in a])
        res += veq('conjugate', O.c, c) + veq('member conjugate', O.c2, c) + veq('conjugate of an expression', O.c3, [y + y for y in c])
        res += veq('nested', O.z, [(p - q) * k + div(t, r - s, k) for p, q, r, s in zip(a, b, cb, na)])
        res += veq('stored', O.y, [(k * p - q) + (p + r) for p, q, r in zip(a, b, nb)])
        res += [('dot', eq(O.v[0], dot(a, b))), ('dot of an expression', eq(O.v[1], dot(vadd(a, b), b)))]
        res += [('length squared', eq(O.l[i], n)) for i in range(4)] + [('real', eq(O.l[i], I.a[0])) for i in (4, 5, 6)]
        res += veq('imaginary', O.i1[:3], I.a[1:]) + veq('member imaginary', O.i2[:3], I.a[1:]) + veq('imaginary of an expression', O.i3[:3], [y + y for y in I.a[1:]])
        res += [('sizes', and_(eq(O.i1[3], K(3)), eq(O.i2[3], K(4)), eq(O.i3[3], K(0))))]
        res += veq('element order', O.r, [I.a[i] for i in st]) + veq('get', O.r2, [I.a[i] for i in st]) + veq('expression element', O.r3, [a[i] + b[i] for i in st])
        return res + veq('A kept', O.a1, I.a) + veq('B kept', O.b1, I.b)
    return Case(nm, body, [p for p in ps if p.name != 'i3' or True], ens, lambda I: [nonzero(I.k)] + small(I.a, I.b, [I.k]),
                label='linear quaternion expressions, %s %s %s %s' % (ta, tb, o, x), opts={'partial': True})


def c_prod(nm, ta, tb, o, x):
    t = prom(ta, tb)
    body = quat('A', 'a', ta, o, x) + quat('B', 'b', tb, o, x) + quat('C', 'c', tb, o, x) + '''
  outq(p, A * B); outq(q, (A + A) * conjugate(B)); outq(r, A * B * C); outq(s, A * (B * C)); outq(u, conjugate(A * B)); outq(w, conjugate(B) * conjugate(A));
  n[0] = norm(A * B); n[1] = norm(A); n[2] = norm(B); outq(z, A * A); outq(y, A * B + C * B); outq(a1, A); outq(b1, B); outq(e, A * conjugate(A));'''
    ps = [Q4('a', ta, 'in'), Q4('b', tb, 'in'), Q4('c', tb, 'in')] + [Q4(m, t) for m in ('p', 'q', 'r', 's', 'u', 'w', 'z', 'y', 'e')] + [P('n', t, 3, 'out'), Q4('a1', ta), Q4('b1', tb)]

    def ens(I, O):
        L = lambda v: [conv(t, y) for y in v]
        a, b, c = L(I.a), L(I.b), L(I.c)
        f = lambda p, q: prod(x, p, q)
        ab = f(a, b)
        res = veq('product', O.p, ab) + veq('product of expressions', O.q, f(L(vadd(I.a, I.a)), L(qconj(I.b)))) + veq('triple', O.r, f(ab, c)) + veq('associative', O.s, f(ab, c) if t == tb or tb != 'int' else f(a, L(f(I.b, I.c))))
        res += veq('conjugate of a product', O.u, qconj(ab)) + veq('conjugates in reverse order', O.w, f(L(qconj(I.b)), L(qconj(I.a)))) + veq('square', O.z, L(f(I.a, I.a)))
        res += veq('sum of products', O.y, vadd(ab, L(f(I.c, I.b))))
        na, nb = conv(t, norm2(I.a)), conv(t, norm2(I.b))
        res += [('norm', eq(O.n[1], na)), ('norm of b', eq(O.n[2], nb)), ('norm is multiplicative', eq(O.n[0], norm2(a) * norm2(b)))]
        z = I.a[0] - I.a[0]
        res += veq('a * conjugate(a)', O.e, L([norm2(I.a), z, z, z]))
        return res + veq('A kept', O.a1, I.a) + veq('B kept', O.b1, I.b)
    return Case(nm, body, ps, ens, lambda I: small(I.a, I.b, I.c), label='quaternion products, %s %s %s %s' % (ta, tb, o, x))


COMP = [('p', 'A += B'), ('m', 'A -= B'), ('x', 'A *= B'), ('s', 'A *= k'), ('q', 'A /= k')]
SELF = [('f', 'A += A'), ('g', 'A -= A'), ('h', 'A *= A'), ('i', 'A *= A.conjugate()'), ('j', 'A += A * B'), ('l', 'A = A * B'), ('n', 'A = B * A'),
        ('o', 'A = A.conjugate()'), ('r', 'A *= A.y()'), ('t', 'A /= A[0]'), ('u', 'A = conjugate(A) * A + A'), ('v', 'A.conjugate()'), ('w', 'A *= conjugate(A)')]


def c_comp(nm, ta, tb, o, x):
    t = prom(ta, tb)
    body, ps = [quat('B', 'b', tb, o, x)], [Q4('a', ta, 'in'), Q4('b', tb, 'in'), P('k', ta), Q4('b1', tb)]
    for n, s in COMP:
        body.append('{ %s auto& R = (%s); outq(%s, A); outq(%s2, R); }' % (quat('A', 'a', ta, o, x), s, n, n))
        body.append('{ %s auto&& R = (%s); outq(%s3, A); outq(%s4, R); }' % (quat('A', 'a', ta, o, x), s.replace('A', 'std::move(A)', 1), n, n))
        ps += [Q4(n + e, ta) for e in ('', '2', '3', '4')]
    if ta == tb:
        for n, s in SELF:
            body.append('{ %s auto& R = (%s); outq(%s, A); outq(%s2, R); }' % (quat('A', 'a', ta, o, x), s, n, n) if n != 'z' else '')
            ps += [Q4(n, ta), Q4(n + '2', ta)]
    body.append('outq(b1, B);')

    def ens(I, O):
        L = lambda v: [conv(t, y) for y in v]
        D = lambda v: [tm.mk('app', ('r2s', y), 32) if ta == 'int' and y.sort == 'R' else conv(ta, y) for y in v]
        a, b = L(I.a), L(I.b)
        f = lambda p, q: prod(x, p, q)
        # scalar compounds act in the type of the target
        E = {'p': D(vadd(a, b)), 'm': D(vsub(a, b)), 'x': D(f(a, b)), 's': vscale(I.k, I.a), 'q': [div(ta, y, I.k) for y in I.a]}
        res = []
        for n, s in COMP:
            for e in ('', '2', '3', '4'):
                res += veq(s + e, O[n + e], E[n])
        if ta == tb:
            a0 = a[1] if o == 'imaginary_first' else a[0]
            z = a[0] - a[0]
            E = {'f': vadd(a, a), 'g': [z] * 4, 'h': f(a, a), 'i': f(qconj(a), qconj(a)), 'j': vadd(a, f(a, b)), 'l': f(a, b), 'n': f(b, a), 'o': qconj(a), 'r': vscale(a[2], a),
                 't': [div(ta, y, a0) for y in a], 'u': vadd(f(qconj(a), a), a), 'v': qconj(a), 'w': f(a, qconj(a))}
            for n, s in SELF:
                res += veq(s, O[n], E[n]) + veq(s + ' (result)', O[n + '2'], E[n])
        return res + veq('B kept', O.b1, I.b)

    def req(I):
        r = [nonzero(I.k)] + small(I.a, I.b, [I.k])
        if ta == tb:
            r.append(nonzero(I.a[1] if o == 'imaginary_first' else I.a[0]))
        return r
    return Case(nm, '\n'.join(body), ps, ens, req, label='compound quaternion operations, %s %s %s %s' % (ta, tb, o, x))


def c_build(nm, ta, tb, o, x):
    """constructors, assignment, element access"""
    qt = qtype(ta, o, x)
    ct = CPP[tb]
    im = o == 'imaginary_first'
    body = '''
  typedef %(Q)s Q; const vector<%(T)s,fixed<3>> V(s[0], s[1], s[2]); const %(T)s arr[4] = {s[0], s[1], s[2], s[3]}, a3[3] = {s[0], s[1], s[2]};
  { Q q(s[0], s[1], s[2], s[3]); out(o0, q, 4); }
  { Q q(arr); out(o1, q, 4); }
  { Q q((const %(T)s*) arr); out(o2, q, 4); }
  { Q q{s[0], s[1], s[2], s[3]}; out(o3, q, 4); }
  { Q q(V, s[3]); outq(w0, q); }
  { Q q(s[3], V); outq(w1, q); }
  { Q q(a3, s[3]); outq(w2, q); }
  { Q q(s[3], a3); outq(w3, q); }
  { Q q; q.identity(); outq(id, q); q.zero(); outq(ze, q); q.set(V, s[3]); outq(w4, q); q.zero(); q.set(s[3], V); outq(w5, q); }
  { Q q; q = arr; out(o4, q, 4); }
  { Q q; q = {s[0], s[1], s[2], s[3]}; out(o5, q, 4); }
  { Q q; q.put(0, s[0]); q[1] = s[1]; q.get(2) = s[2]; q.put(3, s[3]); out(o6, q, 4); Q r(q); out(o7, r, 4); Q t; t = q; out(o8, t, 4); Q u(std::move(t)); out(o9, u, 4); t = std::move(u); out(oa, t, 4);
    out(ob, q.data(), 4); for(int i = 0; i < 4; ++i) oc[i] = q.begin()[i]; int n = q.end() - q.begin(); od[0] = n; od[1] = q.size(); }
  { Q q; q.w() = s[3]; q.x() = s[0]; q.y() = s[1]; q.z() = s[2]; outq(w6, q); %(QB)s p(s[0], s[1], s[2], s[3]); Q r(p); out(oe, r, 4); Q t; t = p; out(of, t, 4); outq(w7, identity(q)); }
  { Q q(s[0], s[1], s[2], s[3]); Q r(-q); out(og, r, 4); Q t(q); t.put(%(j)d, s[0]); out(oh, t, 4); }''' % dict(Q=qt, T=ct, QB=qtype(tb, o, x), j=2)
    O4 = ['o%s' % c for c in '0123456789abc'] + ['oe', 'of', 'og', 'oh']
    W4 = ['w%d' % i for i in range(8)] + ['id', 'ze']
    ps = [P('s', tb, 4)] + [Q4(n, ta) for n in O4 + W4] + [P('od', 'int', 2, 'out')]

    def ens(I, O):
        v = [tm.mk('app', ('r2s', y), 32) if ta == 'int' and y.sort == 'R' else conv(ta, y) for y in I.s]
        res = []
        for n in O4:
            e = v if n not in ('og', 'oh') else [-y for y in v] if n == 'og' else [v[0], v[1], v[0], v[3]]
            res += veq('elements in storage order (%s)' % n, O[n], e)
        K = const if CT[ta][1] == 'R' else (lambda c: const(c, CT[ta][1]))
        idq = [K(1), K(0), K(0), K(0)]
        for n in W4:
            e = {'id': idq, 'ze': [K(0)] * 4, 'w7': idq}.get(n, [v[3], v[0], v[1], v[2]])
            res += veq('real and imaginary parts (%s)' % n, O[n], e)
        return res + [('size', and_(is_val(O.od[0], 4), is_val(O.od[1], 4)))]
    return Case(nm, body, ps, ens, lambda I: small(I.s), label='construction and access, %s from %s' % (qt, tb))


def c_temp(nm, ta, o, x):
    """operations on temporaries, copies and moves of expression nodes"""
    qt = qtype(ta, o, x)
    q = quat('A', 'a', ta, o, x) + quat('B', 'b', ta, o, x)
    body = q + '''
  typedef %(Q)s Q; const vector<%(T)s,fixed<3>> V(b[0], b[1], b[2]); const %(T)s arr[4] = {b[0], b[1], b[2], b[3]};
  outq(o0, Q(A).zero()); outq(o1, Q(A).identity()); outq(o2, Q(A).conjugate()); outq(o3, Q(A).set(V, b[3])); outq(o4, Q(A).set(b[3], V));
  outq(o5, Q(A) = B); outq(o6, Q(A) = A + B); out(o7, Q(A) = arr, 4); out(o8, (Q(A) = {b[0], b[1], b[2], b[3]}), 4);
  outq(p0, Q(A) += B); outq(p1, Q(A) -= B); outq(p2, Q(A) *= B); outq(p3, Q(A) *= b[0]); out(p4, Q(A).put(2, b[0]), 4);
  { auto im = Q(A).imaginary(); auto im2 = im; auto im3 = std::move(im2); for(int i = 0; i < 3; ++i) { i0[i] = im[i]; i0[3 + i] = im3[i]; i0[6 + i] = (A + B).imaginary()[i]; }
    i0[9] = (%(T)s) im3.size(); i0[10] = (%(T)s) (A + B).size(); i0[11] = Q(A).w(); i0[12] = std::as_const(A).data()[1]; i0[13] = ((const Q&&) A).real(); }
  { auto e = A + B; auto f = e; auto g = std::move(f); outq(c0, e); outq(c1, g); }
  { auto e = A - B; auto f = e; auto g = std::move(f); outq(c2, g); }
  { auto e = A * B; auto f = e; auto g = std::move(f); outq(c3, e); outq(c4, g); }
  { auto e = -A; auto f = e; auto g = std::move(f); outq(c5, g); }
  { auto e = A * b[1]; auto f = e; auto g = std::move(f); auto h = b[1] * A; auto k = h; outq(c6, g); outq(c7, k); }
  { auto e = conjugate(A); auto f = e; auto g = std::move(f); outq(c8, g); outq(c9, (A + B).conjugate()); }
  outq(a1, A); outq(b1, B);''' % dict(Q=qt, T=CPP[ta])
    N4 = ['o%d' % i for i in range(9)] + ['p%d' % i for i in range(5)] + ['c%d' % i for i in range(10)] + ['a1', 'b1']
    ps = [P('a', ta, 4), P('b', ta, 4)] + [Q4(n, ta) for n in N4] + [P('i0', ta, 14, 'out')]

    def ens(I, O):
        a, b = I.a, I.b
        K = const if CT[ta][1] == 'R' else (lambda c: const(c, CT[ta][1]))
        first = [1, 2, 3, 0] if o == 'imaginary_first' else [0, 1, 2, 3]
        sa = [a[i] for i in first]          # storage order
        raw = b                             # set(), arrays and lists take the four values as they come
        res = veq('zero', O.o0, [K(0)] * 4) + veq('identity', O.o1, [K(1)] + [K(0)] * 3) + veq('conjugate', O.o2, qconj(a))
        res += veq('set(v, s)', O.o3, [raw[3]] + raw[:3]) + veq('set(s, v)', O.o4, [raw[3]] + raw[:3])
        res += veq('= quaternion', O.o5, b) + veq('= expression', O.o6, vadd(a, b)) + veq('= array', O.o7, raw) + veq('= list', O.o8, raw)
        res += veq('+=', O.p0, vadd(a, b)) + veq('-=', O.p1, vsub(a, b)) + veq('*=', O.p2, prod(x, a, b)) + veq('*= scalar', O.p3, vscale(raw[0], a))
        res += veq('put', O.p4, [raw[0] if i == 2 else y for i, y in enumerate(sa)])
        for k, e in ((0, a[1:]), (3, a[1:]), (6, vadd(a, b)[1:])):
            res += veq('imaginary part of a temporary %d' % k, O.i0[k:k + 3], e)
        res += [('size of the imaginary part', eq(O.i0[9], K(3))), ('size of an expression', eq(O.i0[10], K(4))), ('w', eq(O.i0[11], a[0])),
                ('data', eq(O.i0[12], sa[1])), ('real', eq(O.i0[13], a[0]))]
        for n, e in (('c0', vadd(a, b)), ('c1', vadd(a, b)), ('c2', vsub(a, b)), ('c3', prod(x, a, b)), ('c4', prod(x, a, b)), ('c5', [-y for y in a]),
                     ('c6', vscale(raw[1], a)), ('c7', vscale(raw[1], a)), ('c8', qconj(a)), ('c9', qconj(vadd(a, b)))):
            res += veq('copied node %s' % n, O[n], e)
        return res + veq('A kept', O.a1, a) + veq('B kept', O.b1, b)
    return Case(nm, body, ps, ens, lambda I: small(I.a, I.b), label='temporaries and copied expression nodes, %s' % qt)


def units(tier):
    cs = []
    n = [0]

    def add(f, *a):
        n[0] += 1
        cs.append(f('c13_%s_%d' % (f.__name__, n[0]), *a))
    for o, x in CONF:
        for ta, tb in (('double', 'double'), ('float', 'float'), ('int', 'int'), ('float', 'double'), ('double', 'float'), ('int', 'double'), ('double', 'int')):
            add(c_linear, ta, tb, o, x)
            add(c_prod, ta, tb, o, x)
            add(c_comp, ta, tb, o, x)
            add(c_build, ta, tb, o, x)
        for ta in ('double', 'float', 'int'):
            add(c_temp, ta, o, x)
    return chunks('c13', cs, 7)
