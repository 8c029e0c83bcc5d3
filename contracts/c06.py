"""C06: comparison operators and hashing"""
from contracts.common import *

META = {'level': 'proof'}
N = 3
OPS = ['<', '>', '<=', '>=', '==', '!=']


def as_r(x):
    return as_real(x) if x.sort != 'R' else x


def lex(a, b):
    """(less, greater, equal) of equally long element lists"""
    ls, gs, pre = [], [], tm.TRUE
    for x, y in zip(a, b):
        ls.append(and_(pre, lt(x, y)))
        gs.append(and_(pre, lt(y, x)))
        pre = and_(pre, eq(x, y))
    f = tm.FALSE
    return (or_(*ls) if ls else f), (or_(*gs) if gs else f), pre


def flag(c):
    return ite(c, const(1, 32), const(0, 32))


def six(l, g, e):
    return [l, g, not_(g), not_(l), e, not_(e)]


def allops(A, B, o='o', k=0):
    return ''.join('%s[%d] = %s %s %s; ' % (o, k + i, A, op, B) for i, op in enumerate(OPS))


def cmp6(lab, O, conds, k=0):
    return [('%s %s' % (lab, op), eq(O[k + i], flag(c))) for i, (op, c) in enumerate(zip(OPS, conds))]


def lifted(a, ta, tb):
    return [as_r(x) for x in a] if ('double' in (ta, tb) or 'float' in (ta, tb)) else list(a)


def rt(k):
    return k in ('dyn', 'dext', 'cdext')


def vcmp(nm, ka, kb, ta, tb, n):
    body = vec(ka, ta, 'A', 'a', n) + vec(kb, tb, 'B', 'b', n) + allops('A', 'B') + allops('A', 'A', 'p')

    def ens(I, O):
        a, b = lifted(I.a, ta, tb), lifted(I.b, ta, tb)
        return cmp6('a b', O.o, six(*lex_i(a, b))) + cmp6('a a', O.p, [tm.FALSE, tm.FALSE, tm.TRUE, tm.TRUE, tm.TRUE, tm.FALSE]) + kept(I, O, 'a', 'b')
    return Case(nm, body, [P('a', ta, n, mode(ka), gen='ties'), P('b', tb, n, mode(kb), gen='ties'), P('o', 'int', 6, 'out'), P('p', 'int', 6, 'out')], ens,
                label='comparisons of %s<%s> with %s<%s>, size %d' % (ka, ta, kb, tb, n), level='bounded' if rt(ka) or rt(kb) else 'proved')


def lex_i(a, b):
    if a and a[0].sort != 'R':
        ls, gs, pre = [], [], tm.TRUE
        for x, y in zip(a, b):
            ls.append(and_(pre, tm.icmp('slt', x, y)))
            gs.append(and_(pre, tm.icmp('slt', y, x)))
            pre = and_(pre, eq(x, y))
        return or_(*ls), or_(*gs), pre
    return lex(a, b)


def vcmp_rt(nm, ka, kb, t):
    """run-time sizes: a proper prefix is less"""
    fa, fb = (N if rt(ka) else 2), (N if rt(kb) else 2)
    body = vec(ka, t, 'A', 'a', fa, 'n') + vec(kb, t, 'B', 'b', fb, 'm') + allops('A', 'B') + allops('B', 'A', 'p')

    def ens(I, O):
        n = I.n if rt(ka) else const(2, 32)
        m = I.m if rt(kb) else const(2, 32)
        less, gr, pre = [], [], tm.TRUE
        for i in range(max(fa, fb) + 1):
            ina, inb = tm.icmp('slt', const(i, 32), n), tm.icmp('slt', const(i, 32), m)
            less.append(and_(pre, not_(ina), inb))
            gr.append(and_(pre, ina, not_(inb)))
            if i < min(fa, fb):
                x, y = I.a[i], I.b[i]
                L = (lambda p, q: lt(p, q)) if x.sort == 'R' else (lambda p, q: tm.icmp('slt', p, q))
                less.append(and_(pre, ina, inb, L(x, y)))
                gr.append(and_(pre, ina, inb, L(y, x)))
                pre = and_(pre, or_(and_(ina, inb, eq(x, y)), and_(not_(ina), not_(inb))))
            elif i == min(fa, fb):
                break
        l, g = or_(*less), or_(*gr)
        e = and_(eq(n, m), *[implies(tm.icmp('slt', const(i, 32), n), eq(I.a[i], I.b[i])) for i in range(min(fa, fb))])
        return cmp6('a b', O.o, six(l, g, e)) + cmp6('b a', O.p, six(g, l, e)) + kept(I, O, 'a', 'b')
    return Case(nm, body, [P('a', t, fa, mode(ka), gen='ties'), P('b', t, fb, mode(kb), gen='ties'), P('n', 'int', lo=0, hi=N), P('m', 'int', lo=0, hi=N), P('o', 'int', 6, 'out'),
                           P('p', 'int', 6, 'out')], ens, lambda I: [in_range(I.n, 0, N), in_range(I.m, 0, N)],
                label='comparisons of %s with %s <%s>, run-time sizes 0..%d' % (ka, kb, t, N), level='bounded')


def vlaws(nm, k, t, n):
    """the order laws themselves, from the observed results"""
    body = ''.join(vec(k, t, X, x, n) for X, x in (('A', 'a'), ('B', 'b'), ('C', 'c'))) + \
        'o[0] = A < B; o[1] = B < C; o[2] = A < C; o[3] = B < A; o[4] = A == B; o[5] = B == C; o[6] = A == C;'

    def ens(I, O):
        T = [eq(x, const(1, 32)) for x in O.o]
        return [('transitive', implies(and_(T[0], T[1]), T[2])), ('asymmetric', not_(and_(T[0], T[3]))), ('trichotomy', or_(T[0], T[3], T[4])),
                ('exclusive', not_(and_(T[4], or_(T[0], T[3])))), ('== transitive', implies(and_(T[4], T[5]), T[6])),
                ('< respects ==', implies(and_(T[4], T[1]), T[2]))]
    return Case(nm, body, [P('a', t, n, mode(k), gen='ties'), P('b', t, n, mode(k), gen='ties'), P('c', t, n, mode(k), gen='ties'), P('o', 'int', 7, 'out')], ens,
                opts={'prune': True}, label='order laws of %s<%s>, size %d' % (k, t, n), level='bounded' if rt(k) else 'proved')


def vexpr(nm, t, n):
    body = vec('fix', t, 'A', 'a', n) + vec('ext', t, 'B', 'b', n) + allops('(A + B)', '(B + B)') + allops('-A', 'B', 'p')

    def ens(I, O):
        l, g, e = lex_i(I.a, I.b)
        na = [-x for x in I.a]
        return cmp6('a+b, b+b', O.o, six(l, g, e)) + cmp6('-a, b', O.p, six(*lex_i(na, I.b)))
    return Case(nm, body, [P('a', t, n, gen='ties'), P('b', t, n, 'inout', gen='ties'), P('o', 'int', 6, 'out'), P('p', 'int', 6, 'out')], ens,
                label='comparisons of expressions <%s>, size %d' % (t, n))


def mcmp(nm, ka, kb, ta, tb, r, c, ba, la, bb, lb):
    body = mat(ka, ta, 'A', 'a', r, c, ba, la) + mat(kb, tb, 'B', 'b', r, c, bb, lb) + \
        'o[0] = A == B; o[1] = A != B; o[2] = B == A; o[3] = A == A; o[4] = A != A; o[5] = (A + A) == (A + A);'

    def ens(I, O):
        e = tm.TRUE
        for x, y in zip(sum(I.a, []), sum(I.b, [])):
            x, y = lifted([x], ta, tb)[0], lifted([y], ta, tb)[0]
            e = and_(e, eq(x, y))
        return [('==', eq(O.o[0], flag(e))), ('!=', eq(O.o[1], flag(not_(e)))), ('reversed ==', eq(O.o[2], flag(e))), ('a == a', is_val(O.o[3], 1)),
                ('a != a', is_val(O.o[4], 0)), ('a+a == a+a', is_val(O.o[5], 1))]
    return Case(nm, body, [P('a', ta, (r, c), gen='ties'), P('b', tb, (r, c), gen='ties'), P('o', 'int', 6, 'out')], ens,
                label='equality of %dx%d %s<%s>(%s,%s) and %s<%s>(%s,%s)' % (r, c, ka, ta, ba, la, kb, tb, bb, lb),
                level='bounded' if rt(ka) or rt(kb) else 'proved')


def mcmp_rt(nm, ka, kb, la, lb, M=2):
    fa, fb = rt(ka), rt(kb)
    body = mat(ka, 'double', 'A', 'a', M, M, 'col', la, 'r', 'c') + mat(kb, 'double', 'B', 'b', M, M, 'col', lb, 's', 'd') + \
        'o[0] = A == B; o[1] = A != B;'

    def ens(I, O):
        r, c = (I.r, I.c) if fa else (const(M, 32), const(M, 32))
        s, d = (I.s, I.d) if fb else (const(M, 32), const(M, 32))
        e = and_(eq(r, s), eq(c, d))
        for rr in range(1, M + 1):
            for cc in range(1, M + 1):
                same = and_(*[eq(I.a[i * cc + j], I.b[i * cc + j]) for i in range(rr) for j in range(cc)])
                e = and_(e, implies(and_(is_val(r, rr), is_val(c, cc)), same))
        return [('==', eq(O.o[0], flag(e))), ('!=', eq(O.o[1], flag(not_(e))))]
    ps = [P('a', 'double', M * M, gen='ties'), P('b', 'double', M * M, gen='ties')] + [P(x, 'int', lo=1, hi=M) for x in 'rcsd'] + [P('o', 'int', 2, 'out')]
    return Case(nm, body, ps, ens, lambda I: [in_range(I[x], 1, M) for x in 'rcsd'],
                label='equality of %s(%s) and %s(%s), run-time shapes up to %dx%d' % (ka, la, kb, lb, M, M), level='bounded')


def qcmp(nm, t, order, ca, cb, ka, kb):
    body = quat('A', 'a', t, order, ca, ka) + quat('B', 'b', t, order, cb, kb) + allops('A', 'B') + allops('A', 'A', 'p') + allops('(A + B)', '(B + B)', 'r')
    idx = [1, 2, 3, 0] if order == 'imaginary_first' else [0, 1, 2, 3]

    def ens(I, O):
        l, g, e = lex_i([I.a[i] for i in idx], [I.b[i] for i in idx])
        return cmp6('a b', O.o, six(l, g, e)) + cmp6('a a', O.p, [tm.FALSE, tm.FALSE, tm.TRUE, tm.TRUE, tm.TRUE, tm.FALSE]) + \
            cmp6('a+b, b+b', O.r, six(l, g, e))
    return Case(nm, body, [P('a', t, 4, gen='ties'), P('b', t, 4, gen='ties')] + [P(x, 'int', 6, 'out') for x in 'opr'], ens,
                lambda I: [in_range(x, -10**8, 10**8) for o in 'ab' for x in I[o] if x.sort != 'R'],
                label='comparisons of quaternions <%s> %s, %s %s and %s %s' % (t, order, ka, ca, kb, cb))


def qlaws(nm, t, order):
    body = ''.join(quat(X, x, t, order) for X, x in (('A', 'a'), ('B', 'b'), ('C', 'c'))) + \
        'o[0] = A < B; o[1] = B < C; o[2] = A < C; o[3] = B < A; o[4] = A == B;'

    def ens(I, O):
        T = [eq(x, const(1, 32)) for x in O.o]
        return [('transitive', implies(and_(T[0], T[1]), T[2])), ('asymmetric', not_(and_(T[0], T[3]))), ('trichotomy', or_(T[0], T[3], T[4])),
                ('exclusive', not_(and_(T[4], or_(T[0], T[3]))))]
    return Case(nm, body, [P(x, t, 4, gen='ties') for x in 'abc'] + [P('o', 'int', 5, 'out')], ens, opts={'prune': True}, label='order laws of quaternions <%s> %s' % (t, order))


def vhash(nm, k, t, n):
    """objects with equal elements (zeros of either sign included) hash alike"""
    zero = '-0.' if t == 'double' else '-0.f' if t == 'float' else '0'
    ty = vtype(k, t, n)
    decl = ty.replace('vector<', 'vector<', 1)
    body = '%s b[%d]; for (int i = 0; i < %d; ++i) b[i] = (a[i] == 0) ? %s : a[i];' % (CPP[t], n, n, zero) + vec(k, t, 'A', 'a', n) + vec(k, t, 'B', 'b', n) + \
        'std::hash<%s> H; h[0] = H(A); h[1] = H(B); h[2] = H(A); o[0] = A == B;' % decl

    def ens(I, O):
        return [('equal objects', is_val(O.o[0], 1)), ('equal hashes', eq(O.h[0], O.h[1])), ('repeatable', eq(O.h[0], O.h[2]))] + kept(I, O, 'a')
    return Case(nm, body, [P('a', t, n, mode(k), gen='ties'), P('h', 'ulong', 3, 'out'), P('o', 'int', 1, 'out')], ens,
                label='hash of %s<%s>, size %d' % (k, t, n), level='bounded' if rt(k) else 'proved')


def vhash_state(nm, k, t, n):
    """the hash does not depend on earlier contents or on how the elements were stored"""
    ty = vtype(k, t, n)
    body = vec(k, t, 'A', 'a', n) + vec(k, t, 'B', 'b', n) + 'B = A; std::hash<%s> H; h[0] = H(A); h[1] = H(B);' % ty

    def ens(I, O):
        return [('equal hashes', eq(O.h[0], O.h[1]))]
    return Case(nm, body, [P('a', t, n, 'inout'), P('b', t, n, 'inout'), P('h', 'ulong', 2, 'out')], ens,
                label='hash after assignment, %s<%s>, size %d' % (k, t, n), level='bounded' if rt(k) else 'proved')


def cases():
    cs = []
    n = 0

    def nm():
        nonlocal n
        n += 1
        return 'c06_%d' % n
    K = ['fix', 'ext', 'cext', 'dyn', 'dext', 'cdext']
    for ka in K:
        for kb in K:
            cs.append(vcmp(nm(), ka, kb, 'double', 'double', 3))
    for n_ in (1, 2, 4):
        for t in ('double', 'int', 'float'):
            cs.append(vcmp(nm(), 'fix', 'fix', t, t, n_))
    for ta, tb in (('int', 'int'), ('float', 'float'), ('int', 'double'), ('double', 'int'), ('float', 'double')):
        for ka, kb in (('fix', 'fix'), ('ext', 'dyn')):
            cs.append(vcmp(nm(), ka, kb, ta, tb, 3))
    for ka in K:
        for kb in K:
            if rt(ka) or rt(kb):
                cs.append(vcmp_rt(nm(), ka, kb, 'double'))
    cs.append(vcmp_rt(nm(), 'dyn', 'dyn', 'int'))
    for k in ('fix', 'ext', 'dyn'):
        cs.append(vlaws(nm(), k, 'double', 2))
    cs.append(vlaws(nm(), 'fix', 'int', 2))
    cs.append(vlaws(nm(), 'fix', 'double', 3))
    for t in ('double', 'float'):
        cs.append(vexpr(nm(), t, 3))
    MK = ['fix', 'ext', 'dyn', 'dext']
    for ka in MK:
        for kb in MK:
            cs.append(mcmp(nm(), ka, kb, 'double', 'double', 2, 2, 'col', 'row', 'col', 'row'))
            cs.append(mcmp(nm(), ka, kb, 'double', 'double', 2, 3, 'col', 'row', 'row', 'col'))
    for s in ((3, 3), (3, 2), (4, 4), (1, 3)):
        for la in ('row', 'col'):
            for lb in ('row', 'col'):
                cs.append(mcmp(nm(), 'fix', 'fix', 'double', 'double', s[0], s[1], 'col', la, 'col', lb))
    for ta, tb in (('int', 'int'), ('float', 'float'), ('int', 'double')):
        cs.append(mcmp(nm(), 'fix', 'ext', ta, tb, 2, 2, 'col', 'row', 'col', 'col'))
    for ka in MK:
        for kb in MK:
            if rt(ka) or rt(kb):
                cs.append(mcmp_rt(nm(), ka, kb, 'row', 'row'))
    cs.append(mcmp_rt(nm(), 'dyn', 'dyn', 'row', 'col'))
    cs.append(mcmp_rt(nm(), 'dext', 'dyn', 'col', 'row'))
    for order in ('imaginary_first', 'real_first'):
        for t in ('double', 'float', 'int'):
            cs.append(qcmp(nm(), t, order, 'positive_cross', 'positive_cross', 'fix', 'fix'))
        cs.append(qcmp(nm(), 'double', order, 'negative_cross', 'negative_cross', 'fix', 'fix'))
        cs.append(qlaws(nm(), 'double', order))
    for k in ('fix', 'ext', 'dyn', 'dext'):
        for t in ('double', 'float', 'int', 'long'):
            cs.append(vhash(nm(), k, t, 3))
            cs.append(vhash_state(nm(), k, t, 2))
    for t in ('double', 'int'):
        for n_ in (1, 2, 4, 5) + ((9, 17, 33, 65) if t == 'int' else ()):
            cs.append(vhash(nm(), 'fix', t, n_))
    for k, n_ in (('fix', 33), ('ext', 20), ('dyn', 17), ('dext', 40)):
        cs.append(vhash(nm(), k, 'int', n_))
        cs.append(vhash_state(nm(), k, 'int', n_))
    return cs


def units(tier):
    us = chunks('c06', cases(), 6)
    for u in us:
        u.includes = u.includes + ['cml/util/vector_hash.h']
    from contracts import sized
    return us + sized.family('c06', tier)
