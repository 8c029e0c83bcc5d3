"""C22: scalar helper functions, named constants and angles between vectors"""
from fractions import Fraction

from contracts.common import *

META = {'level': 'proof'}
C0, C1, C2 = const(0), const(1), const(2)


def cmp_lt(t):
    return (lambda a, b: tm.icmp('slt', a, b)) if t in ('int', 'i64') else lt


def zero(t):
    return const(0, {'int': 32, 'i64': 64}[t]) if t in ('int', 'i64') else C0


def le_(t, a, b):
    return not_(cmp_lt(t)(b, a))


def int_pre(I, t):
    return [in_range(x, -1000, 1000) for x in I.a] if t == 'int' else []


def lim(t):
    return dict(lo=-1000, hi=1000) if t == 'int' else {}


def c_order(nm, t):
    """sign, clamp, in_range and powers"""
    body = 'o[0] = sign(a[0]); o[1] = clamp(a[0], a[1], a[2]); o[2] = sqr(a[0]); o[3] = cub(a[0]); k[0] = in_range(a[0], a[1], a[2]); k[1] = in_range(a[0], a[0], a[1]); k[2] = in_range(a[0], a[1], a[0]);'
    ps = [P('a', t, 3, **lim(t)), P('o', t, 4, 'out'), P('k', 'int', 3, 'out')]
    lt_ = cmp_lt(t)
    z = zero(t)
    one = const(1, 32) if t == 'int' else C1

    def ens(I, O):
        a = I.a
        res = [('sign of a negative', implies(lt_(a[0], z), eq(O.o[0], -one))), ('sign of zero', implies(eq(a[0], z), eq(O.o[0], z))), ('sign of a positive', implies(lt_(z, a[0]), eq(O.o[0], one)))]
        ok = le_(t, a[1], a[2])
        inside = and_(le_(t, a[1], a[0]), le_(t, a[0], a[2]))
        res += [('clamp inside', implies(and_(ok, inside), eq(O.o[1], a[0]))), ('clamp below', implies(and_(ok, lt_(a[0], a[1])), eq(O.o[1], a[1]))), ('clamp above', implies(and_(ok, lt_(a[2], a[0])), eq(O.o[1], a[2])))]
        res += [('square', eq(O.o[2], a[0] * a[0])), ('cube', eq(O.o[3], a[0] * a[0] * a[0]))]
        res += [('in range', implies(inside, is_val(O.k[0], 1))), ('out of range', implies(not_(inside), is_val(O.k[0], 0)))]
        res += [('in range from itself', and_(implies(le_(t, a[0], a[1]), is_val(O.k[1], 1)), implies(lt_(a[1], a[0]), is_val(O.k[1], 0)))),
                ('in range to itself', and_(implies(le_(t, a[1], a[0]), is_val(O.k[2], 1)), implies(lt_(a[0], a[1]), is_val(O.k[2], 0))))]
        return res
    return Case(nm, body, ps, ens, lambda I: int_pre(I, t), label='order helpers <%s>' % t)


def c_extreme(nm, t, m, mx, ab):
    """the index of the extreme element of m values"""
    body = 'k[0] = index_of_%s%s(%s);' % ('max' if mx else 'min', '_abs' if ab else '', ', '.join('a[%d]' % i for i in range(m)))
    ps = [P('a', t, m, **lim(t)), P('k', 'int', 1, 'out')]
    lt_ = cmp_lt(t)
    z = zero(t)

    def ens(I, O):
        vs = [ite(lt_(x, z), -x, x) if ab else x for x in I.a]
        r = O.k[0]
        return [('index in range', in_range(r, 0, m - 1))] + [('extreme %d' % i, implies(is_val(r, i), and_(*[le_(t, vs[q], vs[i]) if mx else le_(t, vs[i], vs[q]) for q in range(m) if q != i]))) for i in range(m)]
    return Case(nm, body, ps, ens, lambda I: int_pre(I, t), label='index of %s of %d%s <%s>' % (('minimum', 'maximum')[mx], m, ' magnitudes' if ab else '', t))


def c_wrap(nm, t):
    body = 'o[0] = wrap(v, lo, hi); o[1] = wrap(v + (hi - lo), lo, hi); o[2] = wrap(v - 2*(hi - lo), lo, hi); o[3] = wrap(lo, lo, hi);'
    ps = [P('v', t), P('lo', t), P('hi', t), P('o', t, 4, 'out')]

    def ens(I, O):
        M = I.hi - I.lo
        res = []
        for i, lb in enumerate(('', ' after a period', ' after two periods', ' of the lower end')):
            res += [('wrap%s in range' % lb, and_(le(I.lo, O.o[i]), le(O.o[i], I.hi)))]
        f = tm.app('fmod', I.v - I.lo, M)
        res += [('inside kept', implies(and_(le(I.lo, I.v), lt(I.v, I.hi)), eq(O.o[0], I.v))), ('remainder', eq(O.o[0], I.lo + ite(lt(f, C0), f + M, f))), ('lower end', eq(O.o[3], I.lo)),
                ('one period above', implies(and_(le(I.hi, I.v), lt(I.v, I.hi + M)), eq(O.o[0], I.v - M))), ('one period below', implies(and_(lt(I.lo - M, I.v), lt(I.v, I.lo)), eq(O.o[0], I.v + M)))]
        return res
    return Case(nm, body, ps, ens, lambda I: [lt(I.lo, I.hi)], label='wrap <%s>' % t)


def c_wrap_int(nm):
    """integers wrap exactly: small ranges"""
    body = 'o[0] = wrap(v, lo, hi);'
    ps = [P('v', 'int', lo=-40, hi=40), P('lo', 'int', lo=-9, hi=0), P('hi', 'int', lo=1, hi=9), P('o', 'int', 1, 'out')]

    def ens(I, O):
        M = I.hi - I.lo
        w = lambda x: tm.imk('sext', 32, x) if False else x
        return [('wrap in range', and_(le_('int', I.lo, O.o[0]), cmp_lt('int')(O.o[0], I.hi))), ('inside kept', implies(and_(le_('int', I.lo, I.v), cmp_lt('int')(I.v, I.hi)), eq(O.o[0], I.v))),
                ('one period above', implies(and_(le_('int', I.hi, I.v), cmp_lt('int')(I.v, I.hi + M)), eq(O.o[0], I.v - M))), ('one period below', implies(and_(le_('int', I.lo - M, I.v), cmp_lt('int')(I.v, I.lo)), eq(O.o[0], I.v + M)))]
    return Case(nm, body, ps, ens, lambda I: [in_range(I.v, -40, 40), in_range(I.lo, -9, 0), in_range(I.hi, 1, 9)], label='wrap <int>', level='tested')


def c_real(nm, t):
    """range mapping, roots, inverse functions, degrees and lengths"""
    body = 'o[0] = map_range(a[0], a[1], a[2], a[3], a[4]); o[1] = acos_safe(a[0]); o[2] = asin_safe(a[0]); o[3] = sqrt_safe(a[0]); o[4] = inv_sqrt(p); o[5] = deg(a[0]); o[6] = rad(a[0]); o[7] = deg(rad(a[0]));' + \
        'o[8] = length_squared(a[0], a[1]); o[9] = length_squared(a[0], a[1], a[2]); o[10] = length(a[0], a[1]); o[11] = length(a[0], a[1], a[2]); o[12] = map_range(a[1], a[1], a[2], a[3], a[4]); o[13] = map_range(a[2], a[1], a[2], a[3], a[4]);' + \
        'o[14] = rad(T(180)); o[15] = deg(constants<T>::pi()); o[16] = cml::length(a[0], T(0));'
    body = 'typedef %s T; ' % CPP[t] + body
    ps = [P('a', t, 5), P('p', t, lo=0.01, hi=50), P('o', t, 17, 'out')]

    def ens(I, O):
        a, o = I.a, O.o
        cl = ite(lt(a[0], const(-1)), const(-1), ite(lt(C1, a[0]), C1, a[0]))
        return [('map_range', eq((o[0] - a[3]) * (a[2] - a[1]), (a[0] - a[1]) * (a[4] - a[3]))), ('map_range of the start', eq(o[12], a[3])), ('map_range of the end', eq(o[13], a[4])),
                ('acos inside', implies(and_(le(const(-1), a[0]), le(a[0], C1)), eq(tm.cos(o[1]), a[0]))), ('acos above', implies(le(C1, a[0]), eq(o[1], C0))), ('acos below', implies(le(a[0], const(-1)), eq(o[1], tm.PI))), ('acos range', and_(le(C0, o[1]), le(o[1], tm.PI))),
                ('asin inside', implies(and_(le(const(-1), a[0]), le(a[0], C1)), eq(tm.sin(o[2]), a[0]))), ('asin above', implies(le(C1, a[0]), eq(tm.sin(o[2]), C1))), ('asin below', implies(le(a[0], const(-1)), eq(tm.sin(o[2]), const(-1)))),
                ('asin range', and_(le(-tm.PI, C2 * o[2]), le(C2 * o[2], tm.PI))),
                ('sqrt_safe of a negative', implies(le(a[0], C0), eq(o[3], C0))), ('sqrt_safe', implies(le(C0, a[0]), and_(le(C0, o[3]), eq(o[3] * o[3], a[0])))), ('inv_sqrt', eq(o[4] * o[4] * I.p, C1)), ('inv_sqrt sign', lt(C0, o[4])),
                ('deg', eq(o[5] * tm.PI, a[0] * const(180))), ('rad', eq(o[6] * const(180), a[0] * tm.PI)), ('deg of rad', eq(o[7], a[0])), ('length squared', eq(o[8], norm2(a[:2]))), ('length squared 3D', eq(o[9], norm2(a[:3]))),
                ('length', and_(le(C0, o[10]), eq(o[10] * o[10], norm2(a[:2])))), ('length 3D', and_(le(C0, o[11]), eq(o[11] * o[11], norm2(a[:3])))), ('rad of 180', eq(o[14], tm.PI)), ('deg of pi', eq(o[15], const(180))), ('length on an axis', eq(o[16], tm.fabs(a[0])))]
    return Case(nm, body, ps, ens, lambda I: [ne(I.a[1], I.a[2]), lt(C0, I.p)], label='real helpers <%s>' % t)


CONSTS = [('pi', '3.14159265358979323846264338328'), ('two_pi', '6.28318530717958647692528676656'), ('inv_pi', '0.318309886183790671537767526745'), ('inv_two_pi', '0.159154943091895335768883763373'),
          ('pi_over_2', '1.57079632679489661923132169164'), ('pi_over_4', '0.785398163397448309615660845820'), ('e', '2.71828182845904523536028747135'), ('deg_per_rad', '57.2957795130823208767981548141'),
          ('rad_per_deg', '0.0174532925199432957692369076849'), ('sqrt_2', '1.41421356237309504880168872421'), ('sqrt_3', '1.73205080756887729352744634151'), ('sqrt_5', '2.23606797749978969640917366873'), ('sqrt_6', '2.44948974278317809819728407471')]


def c_consts(nm, t):
    """named constants agree with their values to the precision of the type: compared inside the program, so that the values are exact"""
    u = '0x1p-52' if t == 'double' else '0x1p-23'
    body = ''.join('{ volatile %s c = constants<%s>::%s(); long double d = (long double)c / %sL - 1.L; k[%d] = d <= %sL && d >= -%sL; }' % (t, t, c, v, i, u, u) for i, (c, v) in enumerate(CONSTS))
    body += '{ volatile %s x = scalar_traits<%s>::sqrt_epsilon(); long double d = (long double)x * x / std::numeric_limits<%s>::epsilon() - 1.L; k[%d] = d <= 4*%sL && d >= -4*%sL; }' % (t, t, t, len(CONSTS), u, u)
    ps = [P('dummy', 'int', lo=0, hi=0), P('k', 'int', len(CONSTS) + 1, 'out')]
    return Case(nm, body, ps, lambda I, O: [('constant %s' % c, is_val(O.k[i], 1)) for i, c in enumerate([c for c, _ in CONSTS] + ['sqrt_epsilon'])], label='named constants <%s>' % t, level='tested')


def c_next(nm):
    body = 'o[0] = cml::next(i, n); o[1] = cml::prev(i, n); o[2] = cml::prev(cml::next(i, n), n); o[3] = cml::next(cml::prev(i, n), n);'
    ps = [P('i', 'int', lo=0, hi=4), P('n', 'int', lo=5, hi=9), P('o', 'int', 4, 'out')]
    sl = lambda a, b: tm.icmp('slt', a, b)

    def ens(I, O):
        one = const(1, 32)
        return [('next', implies(sl(I.i + one, I.n), eq(O.o[0], I.i + one))), ('next of the last', implies(eq(I.i + one, I.n), is_val(O.o[0], 0))),
                ('prev', implies(sl(const(0, 32), I.i), eq(O.o[1], I.i - one))), ('prev of the first', implies(is_val(I.i, 0), eq(O.o[1], I.n - one))), ('prev of next', eq(O.o[2], I.i)), ('next of prev', eq(O.o[3], I.i))]
    return Case(nm, body, ps, ens, lambda I: [sl(const(0, 32), I.n), tm.icmp('sle', const(0, 32), I.i), sl(I.i, I.n)], label='cyclic successor and predecessor', opts={'timeout': 30000})


def wide(ta, tb):
    return 'double' if 'double' in (ta, tb) else ta


def c_angle2(nm, ka, kb, ta, tb):
    t = wide(ta, tb)
    body = vec(ka, ta, 'A', 'a', 2) + vec(kb, tb, 'B', 'b', 2) + 'o[0] = signed_angle_2D(A, B); o[1] = unsigned_angle_2D(A, B); o[2] = signed_angle_2D(B, A); o[3] = signed_angle_2D(A + A, B); out(a1, A, 2); out(b1, B, 2);'
    ps = [P('a', ta, 2, mode(ka)), P('b', tb, 2, mode(kb)), P('o', t, 4, 'out'), P('a1', ta, 2, 'out'), P('b1', tb, 2, 'out')]

    def ens(I, O):
        a, b, o = I.a, I.b, O.o
        L = tm.sqrt(norm2(a)) * tm.sqrt(norm2(b))
        pd, d = a[0] * b[1] - a[1] * b[0], dot(a, b)
        return [('cosine', eq(tm.cos(o[0]) * L, d)), ('sine', eq(tm.sin(o[0]) * L, pd)), ('signed bounds', and_(lt(-tm.PI, o[0]), le(o[0], tm.PI))), ('unsigned cosine', eq(tm.cos(o[1]) * L, d)),
                ('unsigned bounds', and_(le(C0, o[1]), le(o[1], tm.PI))), ('swapped sine', eq(tm.sin(o[2]) * L, -pd)), ('swapped cosine', eq(tm.cos(o[2]) * L, d)), ('expression cosine', eq(tm.cos(o[3]) * L, d)), ('expression sine', eq(tm.sin(o[3]) * L, pd)),
                ('counter-clockwise', implies(lt(C0, pd), lt(C0, o[0]))), ('clockwise', implies(lt(pd, C0), lt(o[0], C0)))] + veq('first kept', O.a1, a) + veq('second kept', O.b1, b)
    return Case(nm, body, ps, ens, lambda I: [lt(C0, norm2(I.a)), lt(C0, norm2(I.b))], label='2D angles, %s<%s> %s<%s>' % (ka, ta, kb, tb), opts={'float': True} if 'float' in (ta, tb) else {})


def c_angle3(nm, ka, kb, kc, ta, tb):
    t = wide(ta, tb)
    body = vec(ka, ta, 'A', 'a', 3) + vec(kb, tb, 'B', 'b', 3) + vec(kc, tb, 'R', 'r', 3) + 'o[0] = signed_angle(A, B, R); o[1] = unsigned_angle(A, B); o[2] = signed_angle(A, B + B, R); o[3] = unsigned_angle(B, A); out(a1, A, 3); out(b1, B, 3); out(r1, R, 3);'
    ps = [P('a', ta, 3, mode(ka)), P('b', tb, 3, mode(kb)), P('r', tb, 3, mode(kc)), P('o', t, 4, 'out'), P('a1', ta, 3, 'out'), P('b1', tb, 3, 'out'), P('r1', tb, 3, 'out')]

    def ens(I, O):
        a, b, o = I.a, I.b, O.o
        L = tm.sqrt(norm2(a)) * tm.sqrt(norm2(b))
        c, d = cross(a, b), dot(a, b)
        s = dot(c, I.r)
        return [('cosine', eq(tm.cos(o[0]) * L, d)), ('sine squared', eq(tm.sin(o[0]) * tm.sin(o[0]) * norm2(a) * norm2(b), norm2(c))), ('unsigned cosine', eq(tm.cos(o[1]) * L, d)), ('unsigned bounds', and_(le(C0, o[1]), le(o[1], tm.PI))),
                ('signed bounds', and_(le(-tm.PI, o[0]), le(o[0], tm.PI))), ('positive side', implies(lt(C0, s), le(C0, o[0]))), ('negative side', implies(lt(s, C0), le(o[0], C0))), ('expression', eq(tm.cos(o[2]) * L, d)),
                ('expression sign', implies(lt(s, C0), le(o[2], C0))), ('expression positive sign', implies(lt(C0, s), le(C0, o[2]))), ('symmetric', eq(tm.cos(o[3]) * L, d)), ('symmetric bounds', and_(le(C0, o[3]), le(o[3], tm.PI)))] + \
            veq('first kept', O.a1, a) + veq('second kept', O.b1, b) + veq('reference kept', O.r1, I.r)
    return Case(nm, body, ps, ens, lambda I: [lt(C0, norm2(I.a)), lt(C0, norm2(I.b))], label='3D angles, %s<%s> %s<%s> %s' % (ka, ta, kb, tb, kc), opts={'float': True} if 'float' in (ta, tb) else {})


def c_collinear(nm, t, k, n):
    """parallel and opposite vectors: exactly 0 and pi"""
    s = '_2D' if n == 2 else ''
    body = 'typedef %s T; ' % CPP[t] + vec(k, t, 'A', 'a', n) + 'vector<T,fixed<%d>> B = s * A; o[0] = unsigned_angle%s(A, B); o[1] = unsigned_angle%s(A, -B); o[2] = unsigned_angle%s(A, A);' % (n, s, s, s)
    ps = [P('a', t, n, mode(k)), P('s', t, lo=0.01, hi=10), P('o', t, 3, 'out')]
    return Case(nm, body, ps, lambda I, O: [('parallel', eq(O.o[0], C0)), ('opposite', eq(O.o[1], tm.PI)), ('itself', eq(O.o[2], C0))], lambda I: [lt(C0, norm2(I.a)), lt(C0, I.s)], label='collinear vectors, %s<%s> %dD' % (k, t, n))


SIZED = {'signed_angle_2D(V, V)': 2, 'unsigned_angle_2D(V, V)': 2, 'unsigned_angle(V, V)': 3, 'signed_angle(V, V, V)': 3}


def units(tier):
    cs = []
    n = [0]

    def add(f, *a):
        n[0] += 1
        cs.append(f('c22_%s_%d' % (f.__name__, n[0]), *a))
    for t in ('double', 'float', 'int'):
        add(c_order, t)
        for m in (2, 3, 4):
            for mx in (True, False):
                for ab in (True, False):
                    add(c_extreme, t, m, mx, ab)
    for t in ('double', 'float'):
        add(c_wrap, t)
        add(c_real, t)
        add(c_consts, t)
    add(c_wrap_int)
    add(c_next)
    K = ('fix', 'dyn', 'ext', 'dext', 'cext', 'cdext')
    TT = [('double', 'double'), ('float', 'float'), ('float', 'double'), ('double', 'float')]
    for i, ka in enumerate(K):
        for j, kb in enumerate(K):
            if tier == 'thorough' or (i + j) % 2 == 0 or i < 1:
                add(c_angle2, ka, kb, *TT[(i + j // 2) % 4])
                add(c_angle3, ka, kb, K[(i + 2 * j) % 6], *TT[(j + i // 2) % 4])
        for m in (2, 3):
            add(c_collinear, ('double', 'float')[i % 2], ka, m)
    return chunks('c22', cs, 6)
