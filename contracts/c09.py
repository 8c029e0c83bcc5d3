"""C09: matrix arithmetic"""
from contracts.common import *
from contracts.c01 import prom, conv, div
from contracts.c08 import bounded, KINDS, BASES, LAYOUTS

META = {'level': 'proof'}


def mmap(f, *Ms):
    return [[f(*xs) for xs in zip(*rs)] for rs in zip(*Ms)]


def small(*Ms):
    return [in_range(x, -1000, 1000) for M in Ms for x in (sum(M, []) if isinstance(M[0], list) else M) if x.sort != 'R']


def linear(nm, ka, kb, ta, tb, r, c, bl, la, lb):
    t = prom(ta, tb)
    body = mat(ka, ta, 'A', 'a', r, c, bl, la) + mat(kb, tb, 'B', 'b', r, c, bl, lb) + '''
  outm(s, A + B, %(S)s); outm(d, A - B, %(S)s); outm(m, -A, %(S)s); outm(k1, A * k, %(S)s); outm(k2, k * A, %(S)s); outm(q, A / k, %(S)s);
  outm(u, +A, %(S)s); outm(h, hadamard(A, B), %(S)s);
  outm(z, (A - B) * k + (B - (-A)) / k, %(S)s);
  auto e = (k * A - B) + (A + (-B)); outm(y, e, %(S)s);
  outm(a1, A, %(S)s); outm(b1, B, %(S)s);
''' % dict(S='%d, %d' % (r, c))
    sh = (r, c)
    O = lambda nm, t: P(nm, t, sh, 'out')
    pa = prom(ta, t)
    ps = [P('a', ta, sh), P('b', tb, sh), P('k', t), O('s', t), O('d', t), O('m', ta), O('k1', pa), O('k2', pa), O('q', pa), O('u', ta), O('h', t),
          O('z', t), O('y', t), O('a1', ta), O('b1', tb)]

    def ens(I, O):
        L = lambda M, ct: mmap(lambda x: conv(t, x), M)
        a, b, k = L(I.a, ta), L(I.b, tb), I.k
        na, nb = L(mmap(lambda x: -x, I.a), ta), L(mmap(lambda x: -x, I.b), tb)
        res = meq('a+b', O.s, mmap(lambda x, y: x + y, a, b)) + meq('a-b', O.d, mmap(lambda x, y: x - y, a, b))
        res += meq('-a', O.m, mmap(lambda x: -x, I.a)) + meq('a*k', O.k1, mmap(lambda x: x * k, a)) + meq('k*a', O.k2, mmap(lambda x: x * k, a))
        res += meq('a/k', O.q, mmap(lambda x: div(t, x, k), a)) + meq('+a', O.u, I.a)
        res += meq('hadamard', O.h, mmap(lambda x, y: x * y, a, b))
        res += meq('nested', O.z, mmap(lambda x, y, z: (x - y) * k + div(t, y - z, k), a, b, na))
        res += meq('stored', O.y, mmap(lambda x, y, z: (k * x - y) + (x + z), a, b, nb))
        return res + meq('A kept', O.a1, I.a) + meq('B kept', O.b1, I.b)
    return Case(nm, body, ps, ens, lambda I: [nonzero(I.k)] + small(I.a, I.b, [I.k]), level=bounded(ka, kb),
                label='linear expressions over %s and %s' % (mtype(ka, ta, r, c, bl, la), mtype(kb, tb, r, c, bl, lb)))


COMP = [('p', 'A += B'), ('m', 'A -= B'), ('s', 'A *= k'), ('q', 'A /= k'), ('w', 'A += (B - A) * k')]


def compound(nm, ka, kb, ta, tb, r, c, bl, la, lb):
    t = prom(ta, tb)
    body, ps = [], [P('b', tb, (r, c)), P('k', ta), P('b1', tb, (r, c), 'out')]
    body.append(mat(kb, tb, 'B', 'b', r, c, bl, lb))
    for o, st in COMP:
        body.append('{ %s auto& R = (%s); outm(%s, A, %d, %d); outm(%s2, R, %d, %d); }' % (mat(ka, ta, 'A', o, r, c, bl, la), st, o, r, c, o, r, c))
        ps += [P(o, ta, (r, c), 'inout'), P(o + '2', ta, (r, c), 'out')]
        if o != 'w':
            body.append('{ %s auto&& R = (%s); outm(%sr, A, %d, %d); }' % (mat(ka, ta, 'A', o + 'r', r, c, bl, la), st.replace('A', 'std::move(A)', 1),
                                                                        o, r, c))
            ps.append(P(o + 'r', ta, (r, c), 'inout'))
    body.append('outm(b1, B, %d, %d);' % (r, c))

    def back(x):
        return tm.mk('app', ('r2s', x), 32) if ta == 'int' and x.sort == 'R' else x

    def ens(I, O):
        f = {'p': lambda x, y: back(conv(t, x) + conv(t, y)), 'm': lambda x, y: back(conv(t, x) - conv(t, y)), 's': lambda x, y: x * I.k,
             'q': lambda x, y: div(ta, x, I.k), 'w': lambda x, y: back(conv(t, x) + (conv(t, y) - conv(t, x)) * conv(t, I.k))}
        res = meq('B kept', O.b1, I.b)
        for o, st in COMP:
            res += meq(st, O[o], mmap(f[o], I[o], I.b)) + meq(st + ' returned', O[o + '2'], mmap(f[o], I[o], I.b))
            if o != 'w':
                res += meq('rvalue ' + st, O[o + 'r'], mmap(f[o], I[o + 'r'], I.b))
        return res

    def req(I):
        return [nonzero(I.k)] + small(*[I[p.name] if p.shape else [I[p.name]] for p in ps if p.mode != 'out'])
    return Case(nm, '\n'.join(body), ps, ens, req, level=bounded(ka, kb),
                label='compound assignment to %s with %s' % (mtype(ka, ta, r, c, bl, la), mtype(kb, tb, r, c, bl, lb)))


def alias(nm, k, t, r, c, bl, l):
    body, ps, ops = [], [], []
    for i in range(r):
        for j in range(c):
            ops.append(('mul%d%d' % (i, j), 'A *= A(%d,%d);' % (i, j), lambda M, i=i, j=j: mmap(lambda x: x * M[i][j], M), None))
            ops.append(('div%d%d' % (i, j), 'A /= A(%d,%d);' % (i, j), lambda M, i=i, j=j: mmap(lambda x: div(t, x, M[i][j]), M), (i, j)))
    ops.append(('rmul', 'std::move(A) *= A(0,0);', lambda M: mmap(lambda x: x * M[0][0], M), None))
    ops.append(('add', 'A += A;', lambda M: mmap(lambda x: x + x, M), None))
    ops.append(('sub', 'A -= A;', lambda M: mmap(lambda x: x - x, M), None))
    ops.append(('self', 'A = A;', lambda M: M, None))
    ops.append(('ex', 'A = A + A;', lambda M: mmap(lambda x: x + x, M), None))
    ops.append(('had', 'A = hadamard(A, A);', lambda M: mmap(lambda x: x * x, M), None))
    for o, op, f, i in ops:
        body.append('{ ' + mat(k, t, 'A', o, r, c, bl, l) + op + 'outm(%s, A, %d, %d); }' % (o, r, c))
        ps.append(P(o, t, (r, c), 'inout', lo=-30, hi=30))

    def ens(I, O):
        return sum([meq(op.rstrip(';'), O[o], f(I[o])) for o, op, f, i in ops], [])

    def req(I):
        return [nonzero(I[o][i[0]][i[1]]) for o, op, f, i in ops if i] + small(*[I[o] for o, op, f, i in ops])
    return Case(nm, '\n'.join(body), ps, ens, req, level=bounded(k), label='aliasing operands, %s' % mtype(k, t, r, c, bl, l))


def temps(nm, ka, kb, t, r, c, bl, la, lb):
    """temporaries inside expressions: operands that are rvalues are stored in the nodes"""
    body = mat(ka, t, 'A', 'a', r, c, bl, la) + mat(kb, t, 'B', 'b', r, c, bl, lb) + '''
  auto mk = [&] { return +A; };
  auto e = (A + B) * k - hadamard(-B, A / k); auto f = e; outm(o, f, %(S)s);
  auto T = (A + B); outm(p, T - k * T, %(S)s);
  %(D)s; outm(q, R, %(S)s); R = mk(); outm(x, R, %(S)s);''' % dict(S='%d, %d' % (r, c), D='%s R(A - B * k)' % mtype('fix' if ka == 'ext' else 'dyn' if ka == 'dext' else ka, t, r, c, bl, la))
    sh = (r, c)
    ps = [P('a', t, sh), P('b', t, sh), P('k', t)] + [P(x, t, sh, 'out') for x in 'opqx']

    def ens(I, O):
        k = I.k
        return meq('node', O.o, mmap(lambda x, y: (x + y) * k - (-y) * (x / k), I.a, I.b)) + \
            meq('shared node', O.p, mmap(lambda x, y: (x + y) - k * (x + y), I.a, I.b)) + \
            meq('constructed', O.q, mmap(lambda x, y: x - y * k, I.a, I.b)) + meq('assigned', O.x, I.a)
    return Case(nm, body, ps, ens, lambda I: [nonzero(I.k)], level=bounded(ka, kb), label='stored expressions over %s, %s' % (
        mtype(ka, t, r, c, bl, la), mtype(kb, t, r, c, bl, lb)))


def nodes(nm, ka, kb, t, r, c, bl, la, lb):
    """copied and moved expression nodes"""
    ops = [('A + B', lambda a, b, k: a + b), ('A - B', lambda a, b, k: a - b), ('-A', lambda a, b, k: -a), ('A * k', lambda a, b, k: a * k), ('k * A', lambda a, b, k: a * k),
           ('A / k', lambda a, b, k: div(t, a, k)), ('hadamard(A, B)', lambda a, b, k: a * b), ('(A - B) * k', lambda a, b, k: (a - b) * k), ('-(A + B)', lambda a, b, k: -(a + b)),
           ('transpose(A)', None), ('transpose(A + A)', None)]     # the transpose of a sum of mixed storages does not compile
    body = mat(ka, t, 'A', 'a', r, c, bl, la) + mat(kb, t, 'B', 'b', r, c, bl, lb)
    ps = [P('a', t, (r, c)), P('b', t, (r, c)), P('k', t)]
    for i, (e, f) in enumerate(ops):
        s = (r, c) if f else (c, r)
        body += '{ auto mk = [&] { auto e = %s; auto f = e; return f; }; auto g = mk(); auto h = std::move(g); z[%d] = h.rows(); z[%d] = h.cols(); outm(o%d, h, %d, %d); auto p = h; outm(p%d, p + h, %d, %d); }\n' % (
            (e, 2 * i, 2 * i + 1, i) + s + (i,) + s)
        ps += [P('%s%d' % (x, i), t, s, 'out') for x in 'op']
    ps.append(P('z', 'int', 2 * len(ops), 'out'))

    def ens(I, O):
        res = []
        for i, (e, f) in enumerate(ops):
            M = mmap(lambda x, y: f(x, y, I.k), I.a, I.b) if f else tr(I.a) if i == 9 else tr(mmap(lambda x: x + x, I.a))
            res += meq('moved copy of ' + e, O['o%d' % i], M) + meq('sum of copies of ' + e, O['p%d' % i], mmap(lambda x: x + x, M))
            res += [('rows', is_val(O.z[2 * i], r if f else c)), ('cols', is_val(O.z[2 * i + 1], c if f else r))]
        return res
    return Case(nm, body, ps, ens, lambda I: [nonzero(I.k)] + small(I.a, I.b, [I.k]), level=bounded(ka, kb), label='copied expression nodes, %s and %s' % (
        mtype(ka, t, r, c, bl, la), mtype(kb, t, r, c, bl, lb)))


def units(tier):
    cs = []
    n = [0]

    def add(f, *a):
        n[0] += 1
        cs.append(f('c09_%s_%d' % (f.__name__, n[0]), *a))
    th = tier == 'thorough'
    LL = list(itertools.product(LAYOUTS, LAYOUTS))
    for ka, kb in itertools.product(KINDS, KINDS):
        for la, lb in LL:
            b = BASES[n[0] % 2]
            r, c = ((2, 3), (3, 2), (2, 2))[n[0] % 3]
            add(linear, ka, kb, 'double', 'double', r, c, b, la, lb)
            add(compound, ka, kb, 'double', 'double', r, c, b, la, lb)
            add(temps, ka, kb, 'double', r, c, b, la, lb)
            if th:
                for r, c in ((2, 2), (3, 3), (1, 4), (4, 1), (3, 2)):
                    add(linear, ka, kb, 'double', 'double', r, c, b, la, lb)
                    add(compound, ka, kb, 'double', 'double', r, c, b, la, lb)
    for la, lb in LL:
        for r, c in ((3, 3), (4, 4), (1, 3), (3, 1), (2, 4)) + (((5, 5), (3, 6)) if th else ()):
            add(linear, 'fix', 'fix', 'double', 'double', r, c, 'col', la, lb)
            add(compound, 'fix', 'fix', 'double', 'double', r, c, 'row', la, lb)
        for ta, tb in (('float', 'float'), ('float', 'double'), ('double', 'float'), ('int', 'int'), ('int', 'double'), ('double', 'int'), ('int', 'float')):
            add(linear, 'fix', 'fix', ta, tb, 2, 3, 'col', la, lb)
            if ta == tb or tb == 'int' or ta == 'double':
                add(compound, 'fix', 'dyn', ta, tb, 3, 2, 'row', la, lb)
    for k in KINDS:
        for b, l in itertools.product(BASES, LAYOUTS):
            add(alias, k, 'double', 2, 3, b, l)
            add(alias, k, 'double', 3, 2, b, l)
        add(alias, k, 'float', 2, 2, 'col', 'col')
        add(alias, k, 'int', 2, 2, 'row', 'row')
    for ka, kb in itertools.product(KINDS, KINDS):
        add(nodes, ka, kb, 'double', *((2, 3), (3, 2))[n[0] % 2], BASES[n[0] % 2], *LL[n[0] % 4])
    for t in ('int', 'float'):
        add(nodes, 'fix', 'fix', t, 2, 3, 'col', 'row', 'row')
    from contracts import sized
    return chunks('c09', cs, 8) + sized.family('c09', tier)
