"""C05: construction, assignment, sub-vectors, element-wise products"""
from contracts.common import *

META = {'level': 'proof'}
ALL = ['fix', 'ext', 'cext', 'dyn', 'dext', 'cdext']


def bounded(*ks):
    return 'bounded' if any(k in ('dyn', 'cdext', 'dext') for k in ks) else 'proved'


def conv_to(t, ct, x):
    """built-in conversion of x (of C type ct) to t"""
    if t == ct:
        return x
    if t in ('double', 'float'):
        return as_real(x)
    if ct in ('double', 'float'):
        return tm.mk('app', ('r2s', x), 32)
    return x


def rng(I, names):
    out = []
    for o in names:
        for x in I[o]:
            if x.sort == 'R':
                continue
            out.append(in_range(x, -10**6, 10**6))
    return out


def reals_small(I, names, t):
    """real values converted to int must be representable"""
    if t != 'int':
        return []
    return [and_(lt(const(-1000), x), lt(x, const(1000))) for o in names for x in I[o] if x.sort == 'R']


def construct(nm, t, ts, n):
    """constructors of the owning vectors"""
    T, TS = CPP[t], CPP[ts]
    F, D = vtype('fix', t, n), vtype('dyn', t, n)
    els = ','.join('a[%d]' % i for i in range(n))
    els2 = ','.join('a[%d]' % i for i in range(n - 1))
    src = '%s t[%d] = {%s};' % (TS, n, els)
    forms = [
        ('f_scalars', '%s A(%s); out(%%s, A, %d);' % (F, els, n)),
        ('f_pointer', '%s A(a); out(%%s, A, %d);' % (F, n)),
        ('f_array', src + ' %s A(t); out(%%s, A, %d);' % (F, n)),
        ('f_list', '%s A = {%s}; out(%%s, A, %d);' % (F, els, n)),
        ('f_vector', '%s B(%s); %s A(B); out(%%s, A, %d);' % (vtype('fix', ts, n), els, F, n)),
        ('f_ext', '%s B(a); %s A(B); out(%%s, A, %d);' % (vtype('cext', ts, n), F, n)),
        ('f_dyn', '%s B(a,%d); %s A(B); out(%%s, A, %d);' % (vtype('cdext', ts, n), n, F, n)),
        ('f_copy', '%s B(%s); %s A(B); %s C(std::move(B)); out(%%s, C, %d);' % (F, els, F, F, n)),
        ('d_scalars', '%s A(%s); z[0] = A.size(); out(%%s, A, %d);' % (D, els, n)) if n > 1 else None,
        ('d_pointer', '%s A(a,%d); z[1] = A.size(); out(%%s, A, %d);' % (D, n, n)),
        ('d_rpointer', '%s A(%d,a); z[2] = A.size(); out(%%s, A, %d);' % (D, n, n)),
        ('d_array', src + ' %s A(t); z[3] = A.size(); out(%%s, A, %d);' % (D, n)),
        ('d_list', 'std::initializer_list<%s> l = {%s}; %s A(l); z[4] = A.size(); out(%%s, A, %d);' % (TS, els, D, n)),
        ('d_vector', '%s B(%s); %s A(B); z[5] = A.size(); out(%%s, A, %d);' % (vtype('fix', ts, n), els, D, n)),
        ('d_copy', '%s B(a,%d); %s A(B); %s C(std::move(B)); z[6] = A.size(); z[7] = C.size(); out(%%s, C, %d);' % (D, n, D, D, n)),
    ]
    if n > 1:
        forms += [
            ('f_vec1', '%s B(%s); %s A(B, a[%d]); out(%%s, A, %d);' % (vtype('fix', ts, n - 1), els2, F, n - 1, n)),
            ('d_vec1', '%s B(a,%d); %s A(B, a[%d]); z[8] = A.size(); out(%%s, A, %d);' % (vtype('cdext', ts, n - 1), n - 1, D, n - 1, n))]
    if n > 2:
        forms += [('f_vec2', '%s B(%s); %s A(B, a[%d], a[%d]); out(%%s, A, %d);' % (
            vtype('fix', ts, n - 2), ','.join('a[%d]' % i for i in range(n - 2)), F, n - 2, n - 1, n))]
    forms = [f for f in forms if f]
    body, ps = '', [P('a', ts, n)]
    for o, st in forms:
        body += '{ ' + st % o + ' }\n'
        ps.append(P(o, t, n, 'out'))
    zs = [i for i in range(9) if 'z[%d]' % i in body]
    ps.append(P('z', 'int', 9, 'out', opt=True))

    def ens(I, O):
        r = []
        want = [conv_to(t, ts, x) for x in I.a]
        for o, st in forms:
            r += veq(o, O[o], want)
        return r + [('size %d' % i, is_val(O.z[i], n)) for i in zs]
    return Case(nm, body, ps, ens, lambda I: rng(I, 'a') + reals_small(I, 'a', t), pre='#include <initializer_list>\n',
                label='constructors of vector<%s> size %d from %s' % (t, n, ts))


def assign(nm, k, t, ts, n):
    """assignment forms"""
    T, TS = CPP[t], CPP[ts]
    view = k in ('ext', 'dext')
    els = ','.join('b[%d]' % i for i in range(n))
    src = '%s t[%d] = {%s};' % (TS, n, els)
    forms = [('arr', src + 'A = t;'), ('lst', 'A = {%s};' % els), ('ptr', '%s B(b); A = B;' % vtype('fix', ts, n)),
             ('dyn', '%s B(b,%d); A = B;' % (vtype('dyn', ts, n), n)), ('cex', '%s B(b); A = B;' % vtype('cext', ts, n)),
             ('cdx', '%s B(b,%d); A = B;' % (vtype('cdext', ts, n), n)), ('set', 'A.set(%s);' % els), ('rset', 'std::move(A).set(%s);' % els),
             ('idx', 'for (int i=0;i<%d;++i) A[i] = %s(b[i]);' % (n, T)), ('put', 'for (int i=0;i<%d;++i) A.put(i, b[i]);' % n),
             ('rpu', 'for (int i=0;i<%d;++i) std::move(A).put(i, b[i]);' % n),
             ('rarr', src + 'std::move(A) = t;'), ('rlst', 'std::move(A) = {%s};' % els), ('rvec', '%s B(b); std::move(A) = B;' % vtype('cext', ts, n))]
    if k == 'fix':
        forms.append(('get', ' '.join('A.template get<%d>() = %s(b[%d]);' % (i, T, i) for i in range(n))))
    body, ps = '', [P('b', ts, n)]
    for o, st in forms:
        body += '{ ' + vec(k, t, 'A', o, n) + st + ('' if view else 'out(%s, A, %d);' % (o, n)) + ' }\n'
        ps.append(P(o, t, n, 'inout'))

    def ens(I, O):
        want = [conv_to(t, ts, x) for x in I.b]
        r = []
        for o, st in forms:
            r += veq(o, O[o], want)
        return r
    return Case(nm, body, ps, ens, lambda I: rng(I, ['b'] + [f[0] for f in forms]) + reals_small(I, 'b', t), level=bounded(k),
                label='assignment to %s<%s> size %d from %s' % (k, t, n, ts))


def access(nm, k, t, n):
    """reading, zero, cardinal, fill, single element writes, iteration"""
    view = k in ('ext', 'dext')
    const_ = k in ('cext', 'cdext')
    rd = vec(k, t, 'A', 'a', n)
    body = '{ ' + rd + 'const auto& R = A; for (int i=0;i<%d;++i) { g[i] = R.get(i); x[i] = R[i]; } int j = 0; for (auto p = R.begin(); p != R.end(); ++p) it[j++] = *p; z[0] = j; z[1] = R.size(); ' % n
    body += 'for (int i=0;i<%d;++i) da[i] = R.data()[i];' % n
    if k in ('fix', 'ext', 'cext'):
        body += ' '.join('tg[%d] = R.template get<%d>();' % (i, i) for i in range(n)) + ' }\n'
    else:
        body += 'for (int i=0;i<%d;++i) tg[i] = R.get(i); }\n' % n
    outs = ['g', 'x', 'it', 'da', 'tg']
    ps = [P('a', t, n, 'in' if const_ or not view else 'inout')] + [P(o, t, n, 'out') for o in outs] + [P('z', 'int', 2, 'out')]
    muts = []
    if not const_:
        forms = [('mz', 'A.zero();', lambda v, q: [0] * n), ('mf', 'A.fill(q[0]);', lambda v, q: [q[0]] * n),
                 ('ml', 'A.fill(A[%d]);' % (n - 1), lambda v, q: [v[n - 1]] * n), ('rz', 'std::move(A).zero();', lambda v, q: [0] * n),
                 ('rf', 'std::move(A).fill(q[0]);', lambda v, q: [q[0]] * n)]
        for i in range(n):
            forms.append(('mc%d' % i, 'A.cardinal(%d);' % i, lambda v, q, i=i: [1 if j == i else 0 for j in range(n)]))
            forms.append(('rc%d' % i, 'std::move(A).cardinal(%d);' % i, lambda v, q, i=i: [1 if j == i else 0 for j in range(n)]))
            forms.append(('mi%d' % i, 'A[%d] = q[0];' % i, lambda v, q, i=i: [q[0] if j == i else v[j] for j in range(n)]))
            forms.append(('mp%d' % i, 'A.put(%d, q[0]);' % i, lambda v, q, i=i: [q[0] if j == i else v[j] for j in range(n)]))
        for o, st, f in forms:
            body += '{ ' + vec(k, t, 'A', o, n) + st + ('' if view else 'out(%s, A, %d);' % (o, n)) + ' }\n'
            ps.append(P(o, t, n, 'inout'))
            muts.append((o, f))
        ps.append(P('q', t, 1))

    def ens(I, O):
        r = []
        for o in outs:
            r += veq(o, O[o], I.a)
        r += [('iterated', is_val(O.z[0], n)), ('size', is_val(O.z[1], n))]
        for o, f in muts:
            w = f(I[o], I.q)
            r += veq(o, O[o], [const(x, 'R' if t != 'int' else 32) if isinstance(x, int) else x for x in w])
        if view:
            r += veq('view read only', O.a, I.a)
        return r
    return Case(nm, body, ps, ens, level=bounded(k), label='access %s<%s> size %d' % (k, t, n))


def sub_had(nm, ka, kb, t, tb, n):
    from contracts.c01 import prom, lift
    pt = prom(t, tb)
    body = vec(ka, t, 'A', 'a', n) + vec(kb, tb, 'B', 'b', n)
    ps = [P('a', t, n), P('b', tb, n), P('h', pt, n, 'out'), P('hx', pt, n, 'out')]
    body += 'out(h, hadamard(A, B), %d); out(hx, hadamard(A + A, -B), %d);' % (n, n)
    for i in range(n):
        body += 'z[%d] = outn(s%d, A.subvector(%d)); z[%d] = outn(f%d, subvector(A + A, %d)); ' % (2 * i, i, i, 2 * i + 1, i, i)
        ps += [P('s%d' % i, t, n - 1, 'out'), P('f%d' % i, t, n - 1, 'out')]
    ps.append(P('z', 'int', 2 * n, 'out'))

    def ens(I, O):
        a, b = lift(I.a, t, pt), lift(I.b, tb, pt)
        r = veq('hadamard', O.h, [x * y for x, y in zip(a, b)])
        r += veq('hadamard(2a,-b)', O.hx, [x * y for x, y in zip(lift([x + x for x in I.a], t, pt), lift([-x for x in I.b], tb, pt))])
        for i in range(n):
            rest = [x for j, x in enumerate(I.a) if j != i]
            r += veq('subvector(%d)' % i, O['s%d' % i], rest) + veq('subvector(a+a,%d)' % i, O['f%d' % i], [x + x for x in rest])
        return r + [('size %d' % i, is_val(O.z[i], n - 1)) for i in range(2 * n)]
    return Case(nm, body, ps, ens, lambda I: [in_range(x, -1000, 1000) for o in 'ab' for x in I[o] if x.sort != 'R'],
                level=bounded(ka, kb), label='sub-vectors and element products %s<%s>, %s<%s> size %d' % (ka, t, kb, tb, n))


def sub_nodes(nm, k, t, n):
    """sub-vectors of lvalues, temporaries and expressions by member and free function; copied nodes"""
    ty = vtype('fix' if k in ('fix', 'ext', 'cext') else 'dyn', t, n)
    body = vec(k, t, 'A', 'a', n) + 'const auto& R = A; '
    forms = ['subvector(A, %d)', 'subvector(R, %d)', 'R.subvector(%d)', ty + '(A).subvector(%d)', '(A + A).subvector(%d)', 'subvector(+A, %d)', '(-A).subvector(%d)']
    f = [1, 1, 1, 1, 2, 1, -1]
    ps = [P('a', t, n, mode(k))]
    for i in range(n):
        for j, e in enumerate(forms):
            body += '{ auto mk = [&] { auto e = %s; auto f = e; return f; }; auto g = mk(); auto h = std::move(g); z[%d] = outn(o%d_%d, h); auto p = h; out(p%d_%d, p, %d); }\n' % (
                e % i, i * len(forms) + j, i, j, i, j, n - 1)
            ps += [P('%s%d_%d' % (c, i, j), t, n - 1, 'out') for c in 'op']
    ps.append(P('z', 'int', n * len(forms), 'out'))

    def ens(I, O):
        r = []
        for i in range(n):
            rest = [x for j, x in enumerate(I.a) if j != i]
            for j, e in enumerate(forms):
                w = [x + x for x in rest] if f[j] == 2 else [-x for x in rest] if f[j] == -1 else rest
                r += veq(e % i, O['o%d_%d' % (i, j)], w) + veq('copy of ' + e % i, O['p%d_%d' % (i, j)], w) + [('size', is_val(O.z[i * len(forms) + j], n - 1))]
        return r + kept(I, O, 'a')
    return Case(nm, body, ps, ens, lambda I: [in_range(x, -1000, 1000) for x in I.a if x.sort != 'R'], level=bounded(k), label='sub-vector nodes of %s<%s>, size %d' % (k, t, n))


def rvalue_put(nm, t, n):
    """single element writes and fills on temporaries of every storage"""
    forms = [('r%d' % j, e) for j, e in enumerate([vtype('fix', t, n) + '(A).put(%d, q)', vtype('dyn', t, n) + '(A).put(%d, q)', vtype('dyn', t, n) + '(%d).zero().put(%%d, q)' % n])]
    body = vec('fix', t, 'A', 'a', n)
    ps = [P('a', t, n), P('q', t)]
    for i in range(n):
        for o, e in forms:
            body += 'out(%s_%d, %s, %d);' % (o, i, e % i, n)
            ps.append(P('%s_%d' % (o, i), t, n, 'out'))
        for o, e in (('e', vtype('ext', t, n) + '(e_%d)' % i), ('d', vtype('dext', t, n) + '(d_%d, %d)' % (i, n))):
            body += '%s.put(%d, q);' % (e, i)
            ps.append(P('%s_%d' % (o, i), t, n, 'inout'))

    def ens(I, O):
        r = []
        z = const(0) if CT[t][1] == 'R' else const(0, CT[t][1])
        for i in range(n):
            w = [I.q if j == i else x for j, x in enumerate(I.a)]
            r += veq('fixed', O['r0_%d' % i], w) + veq('dynamic', O['r1_%d' % i], w) + veq('zeroed', O['r2_%d' % i], [I.q if j == i else z for j in range(n)])
            for o in 'ed':
                r += veq('view', O['%s_%d' % (o, i)], [I.q if j == i else x for j, x in enumerate(I['%s_%d' % (o, i)])])
        return r
    return Case(nm, body, ps, ens, label='put on temporaries <%s>, size %d' % (t, n))


def generators(nm):
    """constant vectors"""
    fs = [('zero_2D()', [0, 0]), ('zero_3D()', [0, 0, 0]), ('zero_4D()', [0] * 4), ('zero<5>()', [0] * 5), ('x_axis_2D()', [1, 0]), ('y_axis_2D()', [0, 1]),
          ('x_axis_3D()', [1, 0, 0]), ('y_axis_3D()', [0, 1, 0]), ('z_axis_3D()', [0, 0, 1]), ('axis_3D(0)', [1, 0, 0]), ('axis_3D(1)', [0, 1, 0]), ('axis_3D(2)', [0, 0, 1]),
          ('axis_2D(0)', [1, 0]), ('axis_2D(1)', [0, 1]), ('axis<4>(2)', [0, 0, 1, 0]), ('axis<4>(3)', [0, 0, 0, 1])]
    body = ''
    ps = []
    for i, (e, v) in enumerate(fs):
        body += 'out(o%d, %s, %d);' % (i, e, len(v))
        ps.append(P('o%d' % i, 'double', len(v), 'out'))
    ps.append(P('u', 'double'))

    def ens(I, O):
        r = []
        for i, (e, v) in enumerate(fs):
            r += veq(e, O['o%d' % i], [const(x) for x in v])
        return r
    return Case(nm, body, ps, ens, label='constant vectors')


def units(tier):
    cs = []
    k = [0]

    def add(f, *a):
        k[0] += 1
        cs.append(f('c05_%s_%d' % (f.__name__, k[0]), *a))
    sizes = (1, 2, 3, 4, 5) if tier == 'quick' else (1, 2, 3, 4, 5, 6, 8)
    for n in sizes:
        add(construct, 'double', 'double', n)
    for t, ts in (('float', 'float'), ('int', 'int'), ('double', 'int'), ('double', 'float'), ('float', 'double'), ('int', 'double')):
        add(construct, t, ts, 3)
    for kk in ('fix', 'ext', 'dyn', 'dext'):
        for n in (2, 3, 4):
            add(assign, kk, 'double', 'double', n)
        for t, ts in (('float', 'double'), ('double', 'int'), ('int', 'int'), ('int', 'double'), ('double', 'float')):
            add(assign, kk, t, ts, 3)
    for kk in ALL:
        for n in (2, 3, 4):
            add(access, kk, 'double', n)
        add(access, kk, 'int', 3)
        add(access, kk, 'float', 3)
    for ka, kb in itertools.product(['fix', 'cext', 'dyn', 'cdext'], repeat=2):
        add(sub_had, ka, kb, 'double', 'double', 3)
    for n in (2, 4, 5):
        add(sub_had, 'fix', 'dyn', 'double', 'double', n)
    add(sub_had, 'fix', 'fix', 'int', 'double', 3)
    add(sub_had, 'dyn', 'fix', 'float', 'float', 3)
    add(sub_had, 'fix', 'fix', 'int', 'int', 3)
    for kk in ALL:
        add(sub_nodes, kk, 'double', 3)
    add(sub_nodes, 'fix', 'int', 2)
    add(sub_nodes, 'dyn', 'float', 4)
    for t in ('double', 'float', 'int'):
        add(rvalue_put, t, 3)
    add(generators)
    from contracts import sized
    return chunks('c05', cs, 8) + sized.family('c05', tier)
