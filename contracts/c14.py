"""C14: quaternion inverse, normalisation, exponential, logarithm"""
from contracts.common import *
from contracts.c13 import CONF, prod, Q4

META = {'level': 'proof'}


def c_inv(nm, t, o, x):
    q = quat('A', 'a', t, o, x)
    body = q + '''
  outq(o0, inverse(A)); outq(o1, std::as_const(A).inverse()); outq(o2, A * inverse(A)); outq(o3, inverse(A) * A); outq(o4, inverse(A + A)); outq(o5, inverse(conjugate(A)));
  outq(n0, normalize(A)); outq(n1, std::as_const(A).normalize()); outq(n2, normalize(A + A)); outq(n3, normalize(-A));
  v[0] = length(A); v[1] = A.length(); v[2] = length(A + A); v[3] = length(normalize(A)); outq(a1, A);
  { %(q)s auto& R = A.inverse(); outq(o6, R); outq(o7, A); }
  { %(q)s auto&& R = std::move(A).inverse(); outq(o8, R); }
  { %(q)s A = inverse(A); outq(o9, A); }
  { %(q)s auto& R = A.normalize(); outq(n4, R); outq(n5, A); }
  { %(q)s auto&& R = std::move(A).normalize(); outq(n6, R); }
  { %(q)s A = normalize(A); outq(n7, A); A = std::as_const(A).normalize(); outq(n8, A); }
  { %(q)s %(Q)s B(inverse(A)); outq(p0, B); B = inverse(inverse(A)); outq(p1, B); }''' % dict(q=q, Q=qtype(t, o, x))
    INV = ['o0', 'o1', 'o6', 'o7', 'o8', 'o9', 'p0']
    ps = [P('a', t, 4)] + [Q4('o%d' % i, t) for i in range(10)] + [Q4('n%d' % i, t) for i in range(9)] + [Q4('p0', t), Q4('p1', t), Q4('a1', t), P('v', t, 4, 'out')]

    def ens(I, O):
        n = norm2(I.a)
        inv = [y / n for y in qconj(I.a)]
        L = tm.sqrt(n)
        one = [const(1), const(0), const(0), const(0)]
        res = []
        for k in INV:
            res += veq('inverse (%s)' % k, O[k], inv)
        res += veq('a * inverse', O.o2, qmul(I.a, inv)) + veq('inverse * a', O.o3, qmul(inv, I.a)) + \
            veq('lemma: a * inverse is one', O.o2, one) + veq('lemma: inverse * a is one', O.o3, one) + veq('inverse of a sum', O.o4, [y / 2 for y in inv])
        res += veq('inverse of the conjugate', O.o5, [y / n for y in I.a]) + veq('inverse of the inverse', O.p1, I.a)
        for k in ('n0', 'n1', 'n2', 'n4', 'n5', 'n6', 'n7', 'n8'):
            res += veq('normalized (%s)' % k, O[k], [y / L for y in I.a])
        res += veq('normalized negation', O.n3, [-y / L for y in I.a])
        res += [('length', eq(O.v[0], L)), ('member length', eq(O.v[1], L)), ('length of a sum', eq(O.v[2], L + L)), ('unit length', eq(O.v[3], const(1))),
                ('unit', eq(norm2(O.n0), const(1)))]
        return res + veq('argument kept', O.a1, I.a)
    return Case(nm, body, ps, ens, lambda I: [gt(norm2(I.a), const(0))], label='inverse and normalize, %s %s %s' % (t, o, x))


def c_temp(nm, t, o, x):
    """members of temporaries and of expressions, copies of inverse nodes"""
    qt = qtype(t, o, x)
    body = quat('A', 'a', t, o, x) + '''
  typedef %s Q; const Q K(A);
  outq(o0, ((const Q&&) K).inverse()); outq(o1, (A + A).inverse()); outq(o2, (-A).inverse());
  { auto e = inverse(A); auto f = e; auto g = std::move(f); outq(o3, e); outq(o4, g); auto c = conjugate(A); auto i = inverse(c); auto j = i; outq(o5, j); }
  outq(o6, Q(A).inverse()); outq(o7, Q(inverse(A)).inverse());
  outq(n0, ((const Q&&) K).normalize()); outq(n1, (A + A).normalize()); outq(n2, Q(A).normalize()); outq(n3, conjugate(A).normalize());
  v[0] = (A + A).length(); v[1] = Q(A).length(); v[2] = (A + A).norm(); v[3] = inverse(A).length_squared(); outq(a1, A);''' % qt
    ps = [P('a', t, 4)] + [Q4('o%d' % i, t) for i in range(8)] + [Q4('n%d' % i, t) for i in range(4)] + [P('v', t, 4, 'out'), Q4('a1', t)]

    def ens(I, O):
        n = norm2(I.a)
        inv = [y / n for y in qconj(I.a)]
        L = tm.sqrt(n)
        nr = [y / L for y in I.a]
        res = []
        for k, e in (('o0', inv), ('o1', [y / 2 for y in inv]), ('o2', [-y for y in inv]), ('o3', inv), ('o4', inv), ('o5', qconj(inv)), ('o6', inv), ('o7', I.a),
                     ('n0', nr), ('n1', nr), ('n2', nr), ('n3', qconj(nr))):
            res += veq(('inverse' if k[0] == 'o' else 'normalized') + ' (%s)' % k, O[k], e)
        return res + [('length of a sum', eq(O.v[0], L + L)), ('length', eq(O.v[1], L)), ('norm of a sum', eq(O.v[2], 4 * n)), ('norm of the inverse', eq(O.v[3] * n, const(1)))] + \
            veq('argument kept', O.a1, I.a)
    return Case(nm, body, ps, ens, lambda I: [gt(norm2(I.a), const(0))], label='inverse and normalize of temporaries, %s' % qt)


def c_exp(nm, t, o, x, f):
    q = quat('A', 'a', t, o, x)
    body = q + '''
  outq(o0, %(f)s(A)); outq(a1, A); outq(o4, %(f)s(A + B));
  { %(q)s auto& R = A.%(f)s(); outq(o1, R); outq(o2, A); }
  { %(q)s auto&& R = std::move(A).%(f)s(); outq(o3, R); }''' % dict(q=q, f=f)
    body = '%s B; B.zero(); ' % qtype(t, o, x) + body
    ps = [P('a', t, 4)] + [Q4('o%d' % i, t) for i in range(5)] + [Q4('a1', t)]

    def spec(a):
        w, v = a[0], a[1:]
        lv2 = norm2(v)
        lv = tm.sqrt(lv2)
        if f == 'exp':
            e = tm.app('exp', w)
            c = ite(gt(lv2, const(0)), tm.sin(lv) / lv, const(1))
            return [e * tm.cos(lv)] + [e * c * y for y in v]
        l = tm.sqrt(norm2(a))
        c = ite(gt(lv2, const(0)), tm.app('acos', w / l) / lv, const(1) / l)
        return [tm.app('log', l)] + [c * y for y in v]

    def ens(I, O):
        w, v = I.a[0], I.a[1:]
        lv2 = norm2(v)
        lv = tm.sqrt(lv2)
        res = []
        for k in range(5):
            o_ = O['o%d' % k]
            if f == 'exp':
                e = tm.app('exp', w)
                res.append(('real part (%d)' % k, eq(o_[0], e * tm.cos(lv))))
                for i in range(3):
                    res.append(('imaginary part %d (%d)' % (i, k), implies(gt(lv, const(0)), eq(o_[1 + i] * lv, e * tm.sin(lv) * v[i]))))
                    res.append(('real argument %d (%d)' % (i, k), implies(not_(gt(lv, const(0))), eq(o_[1 + i], const(0)))))
            else:
                l = tm.sqrt(norm2(I.a))
                res.append(('real part (%d)' % k, eq(o_[0], tm.app('log', l))))
                for i in range(3):
                    res.append(('imaginary part %d (%d)' % (i, k), implies(gt(lv, const(0)), eq(o_[1 + i] * lv, tm.app('acos', w / l) * v[i]))))
                    res.append(('real argument %d (%d)' % (i, k), implies(not_(gt(lv, const(0))), eq(o_[1 + i], const(0)))))
        return res + veq('argument kept', O.a1, I.a)
    req = (lambda I: [gt(norm2(I.a), const(0))]) if f == 'log' else (lambda I: [in_r(y, 30) for y in I.a])
    return Case(nm, body, ps, ens, req, label='%s, %s %s %s' % (f, t, o, x))


def in_r(y, b):
    return and_(le(const(-b), y), le(y, const(b)))


def c_logexp(nm, t, o, x):
    """log inverts exp for imaginary parts shorter than pi; exp inverts log"""
    body = quat('A', 'a', t, o, x) + 'outq(o0, log(exp(A))); outq(o1, exp(log(A)));'
    ps = [P('a', t, 4), Q4('o0', t), Q4('o1', t)]

    def ens(I, O):
        return veq('lemma: log(exp(q))', O.o0, I.a) + veq('lemma: exp(log(q))', O.o1, I.a) + \
            [('test: close', lt(norm2(vsub(O.o0, I.a)) + norm2(vsub(O.o1, I.a)), const(1e-4)))]

    def req(I):
        return [gt(norm2(I.a[1:]), const(0.01)), lt(norm2(I.a[1:]), const(9))] + [in_r(y, 5) for y in I.a]
    return Case(nm, body, ps, ens, req, label='log and exp invert each other, %s %s %s' % (t, o, x))


def units(tier):
    cs = []
    n = [0]

    def add(f, *a):
        n[0] += 1
        cs.append(f('c14_%s_%d' % (f.__name__, n[0]), *a))
    for o, x in CONF:
        for t in ('double', 'float'):
            add(c_inv, t, o, x)
            add(c_temp, t, o, x)
            for f in ('exp', 'log'):
                add(c_exp, t, o, x, f)
            add(c_logexp, t, o, x)
    return chunks('c14', cs, 4)
