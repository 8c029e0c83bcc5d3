"""C04: length, normalisation, minima and maxima"""
from contracts.common import *
from contracts.c01 import KINDS

META = {'level': 'proof'}


def bounded(*ks):
    return 'bounded' if any(k in ('dyn', 'cdext', 'dext') for k in ks) else 'proved'


def c_length(nm, ka, kb, t, n):
    body = vec(ka, t, 'A', 'a', n) + vec(kb, t, 'B', 'b', n) + '''
  o[0] = A.length_squared(); o[1] = length_squared(A); o[2] = A.length(); o[3] = length(A);
  o[4] = length_squared(A - B); o[5] = (A - B).length(); o[6] = length(2 * A + B);'''

    def ens(I, O):
        a, b = I.a, I.b
        s = norm2(a)
        d = norm2(vsub(a, b))
        w = norm2([2 * x + y for x, y in zip(a, b)])
        return [('member length_squared', eq(O.o[0], s)), ('length_squared', eq(O.o[1], s)), ('member length', eq(O.o[2], tm.sqrt(s))),
                ('length', eq(O.o[3], tm.sqrt(s))), ('squared distance', eq(O.o[4], d)), ('distance', eq(O.o[5], tm.sqrt(d))),
                ('length of an expression', eq(O.o[6], tm.sqrt(w))), ('length is not negative', ge(O.o[2], const(0)))]
    return Case(nm, body, [P('a', t, n), P('b', t, n), P('o', t, 7, 'out')], ens, level=bounded(ka, kb), label='length %s, %s <%s> size %d' % (ka, kb, t, n))


def c_norm(nm, k, t, n):
    """free and member normalisation; the member changes its target, the others do not"""
    view = k in ('ext', 'dext')
    ro = {'ext': 'cext', 'dext': 'cdext'}.get(k, k)
    body = vec(ro, t, 'A', 'a', n) + 'out(o, normalize(A), %d); const auto& R = A; out(p, R.normalize(), %d); out(q, A, %d); ' % (n, n, n) + \
        'out(s, normalize(A + A), %d); out(u, (A + A).normalize(), %d);' % (n, n) + \
        '{ ' + vec(k, t, 'B', 'm', n) + 'B.normalize(); ' + ('' if view else 'out(m, B, %d);' % n) + '}' + \
        '{ ' + vec(k, t, 'B', 'r', n) + 'auto&& C = std::move(B).normalize(); ' + ('' if view else 'out(r, C, %d);' % n) + '}'
    ps = [P('a', t, n)] + [P(x, t, n, 'out') for x in 'opqsu'] + [P('m', t, n, 'inout'), P('r', t, n, 'inout')]

    def ens(I, O):
        L = tm.sqrt(norm2(I.a))
        u = [x / L for x in I.a]
        r = veq('normalize(v)', O.o, u) + veq('v.normalize() node', O.p, u) + veq('argument unchanged', O.q, I.a)
        r += veq('normalize(v+v)', O.s, u) + veq('(v+v).normalize()', O.u, u)
        for o in 'mr':
            L = tm.sqrt(norm2(I[o]))
            r += veq('in place', O[o], [x / L for x in I[o]])
            r += [('unit length', eq(norm2(O[o]), const(1)))]
        return r
    return Case(nm, body, ps, ens, lambda I: [gt(norm2(I[o]), const(0)) for o in 'amr'], level=bounded(k), label='normalisation %s<%s> size %d' % (k, t, n),
                opts={'timeout': 10000})


def c_minmax(nm, ka, kb, t, tb, n, op):
    view = ka in ('ext', 'dext')
    st, lo = {'lo': ('A.minimize(B);', 1), 'hi': ('A.maximize(B);', 0), 'lr': ('std::move(A).minimize(B);', 1),
              'hr': ('std::move(A).maximize(B);', 0), 'sl': ('A.minimize(A + A);', 1), 'sh': ('A.maximize(A - B);', 0)}[op]
    body = vec(ka, t, 'A', 'a', n) + vec(kb, tb, 'B', 'b', n) + st + ('' if view else 'out(a, A, %d);' % n)

    def ens(I, O):
        r = []
        for i in range(n):
            x, o = I.a[i], O.a[i]
            y = I.b[i] if t == tb else as_real(I.b[i])
            if op[0] == 's':
                y = x + x if lo else x - y
            r.append(('%s[%d] is an operand' % (op, i), or_(eq(o, x), eq(o, y))))
            if x.sort == 'R':
                r.append(('%s[%d] bound' % (op, i), and_(le(o, x), le(o, y)) if lo else and_(ge(o, x), ge(o, y))))
            else:
                r.append(('%s[%d] bound' % (op, i), and_(tm.icmp('sle', o, x), tm.icmp('sle', o, y)) if lo else
                          and_(tm.icmp('sle', x, o), tm.icmp('sle', y, o))))
        return r

    def req(I):
        return [in_range(x, -10**6, 10**6) for o in 'ab' for x in I[o] if x.sort != 'R']
    return Case(nm, body, [P('a', t, n, 'inout'), P('b', tb, n)], ens, req, level=bounded(ka, kb),
                label='%s %s<%s>, %s<%s> size %d' % (st, ka, t, kb, tb, n))


def units(tier):
    cs = []
    k = [0]

    def add(f, *a):
        k[0] += 1
        cs.append(f('c04_%s_%d' % (f.__name__, k[0]), *a))
    for ka, kb in itertools.product(KINDS, KINDS):
        add(c_length, ka, kb, 'double', 3)
    for n in (1, 2, 4, 5) if tier == 'quick' else (1, 2, 4, 5, 6, 8):
        add(c_length, 'fix', 'fix', 'double', n)
        add(c_length, 'dyn', 'dyn', 'float', n)
    for kk in ('fix', 'ext', 'dyn', 'dext'):
        for n in (2, 3, 4):
            add(c_norm, kk, 'double', n)
        add(c_norm, kk, 'float', 3)
        for op in ('lo', 'hi', 'lr', 'hr', 'sl', 'sh'):
            for kb in KINDS:
                add(c_minmax, kk, kb, 'double', 'double', 3, op)
            add(c_minmax, kk, 'fix', 'float', 'float', 2, op)
            add(c_minmax, kk, 'fix', 'int', 'int', 2, op)
            if op[0] != 's':
                add(c_minmax, kk, 'fix', 'double', 'int', 2, op)
    from contracts import sized
    return chunks('c04', cs, 12) + sized.family('c04', tier)
