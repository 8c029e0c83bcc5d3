"""C25: random values respect their requested range and geometry.  Every draw of the generator is an arbitrary value
of the distribution's range (engine/stdstubs.py), so the clauses hold for all generator outputs."""
from contracts.common import *

META = {'level': 'proof', 'assumptions': [
    'std::uniform_int_distribution / uniform_real_distribution return a value in [a,b] when a <= b; std::normal_distribution '
    'returns any real; engines, std::rand and std::random_device return any value of their type; both distributions are '
    'otherwise unconstrained',
    'a retry loop (draw again when the squared length is zero) is entered with arbitrary element values, so the first round '
    'stands for every round; termination of the retry is not claimed']}
RND = {'random': True, 'noinline': []}
INC = '#include <cstdlib>\n#include <random>\n'
ICT = {'int': 32, 'long': 64, 'uint': 32, 'ulong': 64, 'short': 16}
ARG = '@_ZTISt16invalid_argument'
SHORT = '@_ZTIN3cml25minimum_vector_size_errorE'


def le_i(t, a, b):
    if t in ('double', 'float'):
        return le(a, b)
    return tm.icmp('ule' if t in ('uint', 'ulong') else 'sle', a, b)


def within(t, x, lo, hi):
    return and_(le_i(t, lo, x), le_i(t, x, hi))


def c_scalar(nm, t):
    f = 'random_integer' if t in ICT else 'random_real'
    ct = CPP[t]
    body = 'o[0] = %s<%s>(lo, hi); %s l2 = lo, h2 = hi; o[1] = %s(l2, h2);' % (f, ct, ct, f)
    ps = [P('lo', t), P('hi', t), P('o', t, 2, 'out')]
    return Case(nm, body, ps, lambda I, O: [('draw %d in [min,max]' % k, within(t, O.o[k], I.lo, I.hi)) for k in range(2)],
                lambda I: [le_i(t, I.lo, I.hi)], label='%s<%s>' % (f, ct), opts=flt(t))


def flt(*ts):
    return {'float': True} if 'float' in ts else {}


def c_fixedrange(nm):
    body = 'b[0] = random_binary(); b[1] = random_polar(); u[0] = random_unit();'
    ps = [P('b', 'int', 2, 'out'), P('u', 'double', 1, 'out')]

    def ens(I, O):
        return [('random_binary is 0 or 1', or_(is_val(O.b[0], 0), is_val(O.b[0], 1))),
                ('random_polar is -1 or 1', or_(is_val(O.b[1], -1), is_val(O.b[1], 1))),
                ('random_unit in [0,1]', and_(le(const(0), O.u[0]), le(O.u[0], const(1))))]
    return Case(nm, body, ps, ens, label='random_binary, random_polar, random_unit')


def c_vec(nm, k, t, n):
    body = vec(k, t, 'V', 'v', n) + 'auto& R = V.random(lo, hi); id[0] = (&R == &V); out(o, V, %d); sz[0] = V.size();' % n
    if k == 'fix':
        body += 'auto W = %s().random(lo, hi); out(w, W, %d);' % (vtype(k, t, n), n)
    ps = [P('v', t, n, mode(k)), P('lo', t), P('hi', t), P('id', 'int', 1, 'out'), P('sz', 'int', 1, 'out'), P('o', t, n, 'out')]
    if k == 'fix':
        ps.append(P('w', t, n, 'out'))

    def ens(I, O):
        r = [('element %d in range' % i, within(t, O.o[i], I.lo, I.hi)) for i in range(n)] + [('same vector', is_val(O.id[0], 1)), ('size', is_val(O.sz[0], n))]
        if k == 'fix':
            r += [('temporary element %d in range' % i, within(t, O.w[i], I.lo, I.hi)) for i in range(n)]
        if mode(k) == 'inout':
            r += veq('elements stored in the wrapped array', O.v, O.o)
        return r
    return Case(nm, body, ps, ens, lambda I: [le_i(t, I.lo, I.hi)], level='bounded' if 'd' in k[:1] else 'proved', label='%s random(low,high)' % vtype(k, t, n), opts=flt(t))


def c_mat(nm, k, t, r, c, b, l):
    body = mat(k, t, 'M', 'm', r, c, b, l) + 'auto& R = M.random(lo, hi); id[0] = (&R == &M); outm(o, M, %d, %d); sz[0] = M.rows(); sz[1] = M.cols();' % (r, c)
    ps = [P('m', t, (r, c)), P('lo', t), P('hi', t), P('id', 'int', 1, 'out'), P('sz', 'int', 2, 'out'), P('o', t, (r, c), 'out')]
    if k == 'fix':
        body += 'auto W = %s().random(lo, hi); outm(w, W, %d, %d);' % (mtype(k, t, r, c, b, l), r, c)
        ps.append(P('w', t, (r, c), 'out'))

    def ens(I, O):
        res = [('element (%d,%d) in range' % (i, j), within(t, O.o[i][j], I.lo, I.hi)) for i in range(r) for j in range(c)]
        if k == 'fix':
            res += [('temporary element (%d,%d) in range' % (i, j), within(t, O.w[i][j], I.lo, I.hi)) for i in range(r) for j in range(c)]
        return res + [('same matrix', is_val(O.id[0], 1)), ('rows', is_val(O.sz[0], r)), ('cols', is_val(O.sz[1], c))]
    return Case(nm, body, ps, ens, lambda I: [le_i(t, I.lo, I.hi)], level='bounded' if 'd' in k[:1] else 'proved', label='%s random(low,high)' % mtype(k, t, r, c, b, l), opts=flt(t))


GEN = {'own': '', 'engine': 'std::default_random_engine g(seed);', 'mt': 'std::mt19937 g(seed);'}


def c_unit(nm, k, t, n, gen):
    body = vec(k, t, 'V', 'v', n) + GEN[gen] + 'random_unit(V%s); out(o, V, %d); sz[0] = V.size();' % ('' if gen == 'own' else ', g', n)
    ps = [P('v', t, n, mode(k)), P('seed', 'uint'), P('sz', 'int', 1, 'out'), P('o', t, n, 'out')]

    def ens(I, O):
        return [('unit length', eq(norm2(O.o), const(1))), ('size', is_val(O.sz[0], n))]
    return Case(nm, body, ps, ens, level='bounded' if 'd' in k[:1] else 'proved', label='random_unit(%s) %s' % (vtype(k, t, n), gen), opts=dict(flt(t), maxdraws=n))


def c_cone(nm, k, kd, t, td, ts, n, size=None):
    sz0 = n if size is None else size
    body = vec(k, t, 'V', 'v', sz0) + vec(kd, td, 'D', 'd', n) + 'random_unit(V, D, a); out(o, V, %d); sz[0] = V.size();' % n
    ps = [P('v', t, sz0, mode(k)), P('d', td, n, mode(kd), gen='unit'), P('a', ts, gen='cone'), P('sz', 'int', 1, 'out'), P('o', t, n, 'out')]

    def bad(I):
        return not_(and_(lt(const(0), I.a), le(I.a, tm.PI / const(2))))

    def ens(I, O):
        return [('unit length', eq(norm2(O.o), const(1))), ('within the cone', ge(dot(O.o, I.d), tm.cos(I.a))), ('size', is_val(O.sz[0], n))] + kept(I, O, 'd')
    return Case(nm, body, ps, ens, lambda I: [eq(norm2(I.d), const(1))], lambda I: [(ARG, bad(I))], level='bounded' if 'd' in k[:1] + kd[:1] else 'proved',
                label='random_unit(%s, %s, %s)' % (vtype(k, t, sz0), vtype(kd, td, n), CPP[ts]), opts=dict(flt(t, td, ts), maxdraws=n if n != 2 or 'd' in kd[:1] else 1))


# ---- bounded native companions: many draws of the real generators

def c_many(nm, what, n, t='double'):
    ct = CPP[t]
    eps = 1e-12 if t == 'double' else 1e-5
    if what == 'int':
        body = 'std::srand(seed); bool mn = false, mx = false; int w = 0; for (int i = 0; i < 400; ++i) { %s x = random_integer<%s>(lo, lo + %d); if (!(x >= lo && x <= lo + %d)) w = 1; mn |= x == lo; mx |= x == lo + %d; } ok[0] = !w; ok[1] = mn && mx;' % (ct, ct, n, n, n)
        return Case(nm, body, [P('seed', 'uint'), P('lo', t, lo=-50 if t in ('int', 'long', 'short') else 0, hi=100), P('ok', 'int', 2, 'out')],
                    lambda I, O: [('in range', is_val(O.ok[0], 1)), ('both ends occur', is_val(O.ok[1], 1))], level='tested', label='%d-wide random_integer<%s> draws' % (n, ct), pre=INC)
    if what == 'unit':
        body = 'std::srand(seed); int w = 0; for (int i = 0; i < 40; ++i) { vector<%s,fixed<%d>> v; random_unit(v); if (!(std::fabs(v.length_squared() - 1) < %g)) w = 1; } ok[0] = !w;' % (ct, n, eps)
    else:
        body = '''std::srand(seed); int w = 0; if (!(a > 1e-3 && a <= 1.57)) a = 0.5; for (int i = 0; i < 40; ++i) { vector<%(c)s,%(k)s> d(%(s)s), v(%(s)s), u(%(s)s); random_unit(d);
  if (i %% 4 == 0) { std::srand(seed + i); random_unit(u); d = u; std::srand(seed + i); }
  random_unit(v, d, %(c)s(a)); if (!(std::fabs(v.length_squared() - 1) < %(e)g && dot(v, d) >= std::cos(a) - 10 * %(e)g)) w = 1; } ok[0] = !w;''' % dict(
            c=ct, k='fixed<%d>' % n if what == 'cone' else 'dynamic<>', s='' if what == 'cone' else n, e=eps)
        body = body.replace('d(), v(), u()', 'd, v, u')
    return Case(nm, body, [P('seed', 'uint'), P('a', 'double', lo=0.01, hi=1.57), P('ok', 'int', 1, 'out')], lambda I, O: [('every draw', is_val(O.ok[0], 1))], level='tested',
                label='%s draws, %s %d' % (what, ct, n), pre=INC)


def units(tier):
    cs = [c_scalar('scalar_%s' % t, t) for t in ('int', 'long', 'uint', 'ulong', 'short', 'double', 'float')]
    cs.append(c_fixedrange('fixed_range'))
    for k in ('fix', 'ext', 'dyn', 'dext'):
        for t in ('double', 'float', 'int', 'long', 'uint'):
            for n in ((1, 2, 3, 4, 5) if t == 'double' else (3,)):
                cs.append(c_vec('vec_%s_%s_%d' % (k, t, n), k, t, n))
    for k in ('fix', 'ext', 'dyn', 'dext'):
        for b, l in (('col', 'row'), ('row', 'col'), ('col', 'col'), ('row', 'row')):
            for r, c in ((1, 1), (2, 3), (3, 2), (3, 3)):
                cs.append(c_mat('mat_%s_%d%d_%s_%s' % (k, r, c, b, l), k, 'double', r, c, b, l))
        for t in ('int', 'float'):
            cs.append(c_mat('mat_%s_%s' % (k, t), k, t, 2, 3, 'col', 'row'))
    for k in ('fix', 'ext', 'dyn', 'dext'):
        for n in (1, 2, 3, 4, 5):
            cs.append(c_unit('unit_%s_%d' % (k, n), k, 'double', n, 'own'))
        cs.append(c_unit('unit_%s_eng' % k, k, 'double', 3, 'engine'))
        cs.append(c_unit('unit_%s_mt' % k, k, 'float', 3, 'mt'))
    cn = []
    for k, kd in (('fix', 'fix'), ('ext', 'ext'), ('dyn', 'fix'), ('fix', 'dyn'), ('dyn', 'dyn'), ('dext', 'dext')):
        for n in (1, 2, 3, 4):
            cn.append(c_cone('cone_%s_%s_%d' % (k, kd, n), k, kd, 'double', 'double', 'double', n))
    cn.append(c_cone('cone_float', 'fix', 'fix', 'float', 'float', 'float', 3))
    cn.append(c_cone('cone_float2', 'fix', 'fix', 'float', 'float', 'float', 2))
    cn.append(c_cone('cone_resize', 'dyn', 'fix', 'double', 'double', 'double', 3, 1))
    cn.append(c_cone('cone_resize2', 'dyn', 'dyn', 'double', 'double', 'double', 2, 4))
    ts = [c_many('many_int_%s_%d' % (t, n), 'int', n, t) for t in ('int', 'long', 'uint', 'short') for n in (0, 1, 3, 7)]
    ts += [c_many('many_%s_%s_%d' % (w, t, n), w, n, t) for w in ('unit', 'cone', 'dcone') for t in ('double', 'float') for n in (1, 2, 3, 4, 6)]
    return chunks('c25r', cs, 12, pre=INC, opts=RND) + chunks('c25c', cn, 5, pre=INC, opts=RND) + chunks('c25t', ts, 12, pre='#include <cmath>\n')
