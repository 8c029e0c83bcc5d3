"""C08: matrix element layout, rows, columns, basis vectors, construction"""
from contracts.common import *

META = {'level': 'proof'}
KINDS = ('fix', 'ext', 'dyn', 'dext')
BASES = ('row', 'col')
LAYOUTS = ('row', 'col')


def bounded(*ks):
    return 'bounded' if any(k in ('dyn', 'dext') for k in ks) else 'proved'


def raw(l, r, c, i, j):
    return i * c + j if l == 'row' else j * r + i


def at(M, i, j):
    """a specification of the element at symbolic (i, j)"""
    return lambda x, y: and_(eq(i, const(x, 32)), eq(j, const(y, 32)))


def c_layout(nm, k, t, r, c, b, l):
    body = mat(k, t, 'A', 'a', r, c, b, l) + '''
  const auto& C = A;
  for (int k = 0; k < %(n)d; ++k) d[k] = C.data()[k];
  { int k = 0; for (auto p = C.begin(); p != C.end(); ++p) e[k++] = *p; on[0] = k; }
  on[1] = C.rows(); on[2] = C.cols(); on[3] = C.size().first; on[4] = C.size().second; on[5] = C.basis_count(); on[6] = C.basis_size();
  for (int i = 0; i < %(r)d; ++i) for (int j = 0; j < %(c)d; ++j) { g[i*%(c)d+j] = C.get(i, j); h[i*%(c)d+j] = C(i, j); q[i*%(c)d+j] = A.get(i, j); }
  for (int i = 0; i < C.basis_count(); ++i) for (int j = 0; j < C.basis_size(); ++j) s[i*C.basis_size()+j] = C.basis_element(i, j);
  for (int k = 0; k < %(n)d; ++k) A.data()[k] = p[k];
  outm(w, A, %(r)d, %(c)d);''' % dict(n=r * c, r=r, c=c)
    sh = (r, c)
    ps = [P('a', t, sh), P('p', t, r * c), P('d', t, r * c, 'out'), P('e', t, r * c, 'out'), P('on', 'int', 7, 'out'), P('g', t, sh, 'out'),
          P('h', t, sh, 'out'), P('q', t, sh, 'out'), P('s', t, sh if b == 'row' else (c, r), 'out'), P('w', t, sh, 'out')]

    def ens(I, O):
        bs = (r, c) if b == 'row' else (c, r)
        res = [('rows, cols, size, basis count and size', and_(*[is_val(O.on[k], v) for k, v in enumerate((r * c, r, c, r, c) + bs)]))]
        for i in range(r):
            for j in range(c):
                k_ = raw(l, r, c, i, j)
                res += [('raw data of (%d,%d)' % (i, j), eq(O.d[k_], I.a[i][j])), ('iteration to (%d,%d)' % (i, j), eq(O.e[k_], I.a[i][j])),
                        ('written raw data read through (%d,%d)' % (i, j), eq(O.w[i][j], I.p[k_]))]
        res += meq('get', O.g, I.a) + meq('operator()', O.h, I.a) + meq('mutable get', O.q, I.a)
        res += meq('basis element', O.s, I.a if b == 'row' else tr(I.a))
        return res
    return Case(nm, body, ps, ens, level=bounded(k), label='layout of %s' % mtype(k, t, r, c, b, l))


PUTS = {'put': 'A.put(i, j, v);', 'putr': 'std::move(A).put(i, j, v);', 'call': 'A(i, j) = v;', 'get': 'A.get(i, j) = v;',
        'chain': 'A.put(i, j, A(i, j) + v).put(i, j, v);',
        'sbe': 'A.set_basis_element(i, j, v);', 'sber': 'std::move(A).set_basis_element(i, j, v);'}


def c_put(nm, k, t, r, c, b, l, op, tv=None):
    tv = tv or t
    body = mat(k, t, 'A', 'a', r, c, b, l) + PUTS[op] + ' outm(o, A, %d, %d);' % (r, c)
    sw = op.startswith('sb') and b == 'col'

    def ens(I, O):
        i, j = (I.j, I.i) if sw else (I.i, I.j)
        v = I.v if tv == t else as_real(I.v)
        return meq('element', O.o, [[ite(at(None, i, j)(x, y), v, I.a[x][y]) for y in range(c)] for x in range(r)])
    hi = (c - 1, r - 1) if sw else (r - 1, c - 1)
    return Case(nm, body, [P('a', t, (r, c)), P('i', 'int', lo=0, hi=hi[0]), P('j', 'int', lo=0, hi=hi[1]), P('v', tv), P('o', t, (r, c), 'out')], ens,
                lambda I: [in_range(I.i, 0, hi[0]), in_range(I.j, 0, hi[1])] + ([in_range(I.v, -10**6, 10**6)] if tv == 'int' else []),
                level=bounded(k), label='%s on %s, every i and j' % (PUTS[op], mtype(k, t, r, c, b, l)))


SETS = {'row': ('A.set_row(i, V);', 'row'), 'rowr': ('std::move(A).set_row(i, V);', 'row'), 'col': ('A.set_col(i, V);', 'col'),
        'colr': ('std::move(A).set_col(i, V);', 'col'), 'rowx': ('A.set_row(i, 2 * V);', 'row'), 'colx': ('A.set_col(i, 2 * V);', 'col')}


def c_setrc(nm, k, t, r, c, b, l, op, kv='fix', tv=None):
    stmt, which = SETS[op]
    tv = tv or t
    cnt, ln = (r, c) if which == 'row' else (c, r)
    body = mat(k, t, 'A', 'a', r, c, b, l) + vec(kv, tv, 'V', 'v', ln) + stmt + ' outm(o, A, %d, %d);' % (r, c)

    def ens(I, O):
        v = [x if tv == t else as_real(x) for x in I.v]
        if op.endswith('x'):
            v = [2 * x for x in v]
        s = lambda x: eq(I.i, const(x, 32))
        return meq('element', O.o, [[ite(s(x) if which == 'row' else s(y), v[y] if which == 'row' else v[x], I.a[x][y]) for y in range(c)]
                                    for x in range(r)])
    return Case(nm, body, [P('a', t, (r, c)), P('i', 'int', lo=0, hi=cnt - 1), P('v', tv, ln, mode(kv)), P('o', t, (r, c), 'out')], ens,
                lambda I: [in_range(I.i, 0, cnt - 1)] + [in_range(x, -10**6, 10**6) for x in I.v if tv == 'int'], level=bounded(k, kv),
                label='%s on %s, %s<%s>' % (stmt, mtype(k, t, r, c, b, l), kv, tv))


def c_nodes(nm, k, t, r, c, b, l, src='A'):
    """row, col and basis vectors of a matrix, a temporary and an expression"""
    bs, bc = (c, r) if b == 'row' else (r, c)
    body = mat(k, t, 'A', 'a', r, c, b, l) + '''
  const auto& C = A;
  auto R = row(%(s)s, i); on[0] = R.size(); out(x, R, %(c)d);
  out(x1, row(C, i), %(c)d);
  auto K = col(%(s)s, j); on[1] = K.size(); out(y, K, %(r)d);
  out(y1, col(C, j), %(r)d);
  auto B = basis(%(s)s, q); on[2] = B.size(); out(z, B, %(bs)d);
  out(z1, basis(C, q), %(bs)d);
  outm(o, A, %(r)d, %(c)d);''' % dict(c=c, r=r, bs=bs, s=src)
    ps = [P('a', t, (r, c)), P('i', 'int', lo=0, hi=r - 1), P('j', 'int', lo=0, hi=c - 1), P('q', 'int', lo=0, hi=bc - 1), P('on', 'int', 3, 'out'),
          P('x', t, c, 'out'), P('y', t, r, 'out'), P('z', t, bs, 'out'), P('x1', t, c, 'out'), P('y1', t, r, 'out'), P('z1', t, bs, 'out'),
          P('o', t, (r, c), 'out')]

    def pick(rows, i):
        v = rows[-1]
        for k_ in range(len(rows) - 2, -1, -1):
            v = [ite(eq(i, const(k_, 32)), p, q) for p, q in zip(rows[k_], v)]
        return v

    def ens(I, O):
        f = 2 if src != 'A' else 1
        A2 = [[f * x for x in rr] for rr in I.a] if f != 1 else I.a
        bas = (lambda M: M) if b == 'row' else tr
        return [('sizes', and_(is_val(O.on[0], c), is_val(O.on[1], r), is_val(O.on[2], bs)))] + veq('row', O.x, pick(A2, I.i)) + \
            veq('row of const', O.x1, pick(I.a, I.i)) + veq('col', O.y, pick(tr(A2), I.j)) + veq('col of const', O.y1, pick(tr(I.a), I.j)) + \
            veq('basis', O.z, pick(bas(A2), I.q)) + veq('basis of const', O.z1, pick(bas(I.a), I.q)) + meq('unchanged', O.o, I.a)
    return Case(nm, body, ps, ens, lambda I: [in_range(I.i, 0, r - 1), in_range(I.j, 0, c - 1), in_range(I.q, 0, bc - 1)], level=bounded(k),
                label='row, col and basis of %s (%s)' % (mtype(k, t, r, c, b, l), src), opts={'cost': 3})


def c_nodecopies(nm, k, t, r, c, b, l, i, j, q):
    """copied and moved row, column and basis nodes"""
    bs = c if b == 'row' else r
    body = mat(k, t, 'A', 'a', r, c, b, l) + ''.join(
        '{ auto mk = [&] { auto e = %s; auto f = e; return f; }; auto g = mk(); auto h = std::move(g); z[%d] = outn(%s, h); auto p = h; out(%s2, p + h, %d); }\n' % (e, k_, o, o, n_)
        for k_, (o, e, n_) in enumerate((('x', 'row(A, %d)' % i, c), ('y', 'col(A, %d)' % j, r), ('w', 'basis(A, %d)' % q, bs),
                                         ('xt', 'row(A + A, %d)' % i, c), ('yt', 'col(A + A, %d)' % j, r), ('wt', 'basis(A + A, %d)' % q, bs))))
    ps = [P('a', t, (r, c)), P('z', 'int', 6, 'out')] + [P(o + e, t, n_, 'out') for o, n_ in (('x', c), ('y', r), ('w', bs)) for e in ('', '2', 't', 't2')]

    def ens(I, O):
        A = I.a
        res = [('sizes', and_(*[is_val(O.z[k_], (c, r, bs)[k_ % 3]) for k_ in range(6)]))]
        for o, v in (('x', A[i]), ('y', tr(A)[j]), ('w', A[q] if b == 'row' else tr(A)[q])):
            for e, f in (('', 1), ('2', 2), ('t', 2), ('t2', 4)):
                w = v
                for _ in range(f // 2):
                    w = [y + y for y in w]
                if f == 4:
                    w = [(y + y) + (y + y) for y in v]
                res += veq(o + e, O[o + e], w)
        return res
    return Case(nm, body, ps, ens, lambda I: [in_range(x, -1000, 1000) for rr in I.a for x in rr if x.sort != 'R'], level=bounded(k),
                label='copied row, column and basis nodes of %s' % mtype(k, t, r, c, b, l))


def c_rput(nm, t, r, c, b, l):
    """element writes on temporaries of every storage"""
    F, D = mtype('fix', t, r, c, b, l), mtype('dyn', t, r, c, b, l)
    X, Y = mtype('ext', t, r, c, b, l), mtype('dext', t, r, c, b, l)
    body = mat('fix', t, 'A', 'a', r, c, b, l)
    ps = [P('a', t, (r, c)), P('q', t)]
    for i in range(r):
        for j in range(c):
            s_ = '%d%d' % (i, j)
            body += 'outm(f%s, %s(A).put(%d, %d, q), %d, %d); outm(d%s, %s(A).put(%d, %d, q), %d, %d); ' % (s_, F, i, j, r, c, s_, D, i, j, r, c)
            body += 'outm(g%s, %s(A).set_basis_element(%d, %d, q), %d, %d); ' % ((s_, F) + ((i, j) if b == 'row' else (j, i)) + (r, c))
            body += '%s(x%s).put(%d, %d, q); %s(y%s, %d, %d).put(%d, %d, q);\n' % (X, s_, i, j, Y, s_, r, c, i, j)
            ps += [P(o + s_, t, (r, c), 'out') for o in 'fdg'] + [P(o + s_, t, r * c, 'inout') for o in 'xy']

    def ens(I, O):
        res = []
        for i in range(r):
            for j in range(c):
                s_ = '%d%d' % (i, j)
                w = [[I.q if (x, y) == (i, j) else I.a[x][y] for y in range(c)] for x in range(r)]
                for o in 'fdg':
                    res += meq('put %s(%s)' % (o, s_), O[o + s_], w)
                for o in 'xy':
                    p = raw(l, r, c, i, j)
                    res += veq('view put %s(%s)' % (o, s_), O[o + s_], [I.q if z == p else v for z, v in enumerate(I[o + s_])])
        return res
    return Case(nm, body, ps, ens, label='element writes on temporaries, %dx%d <%s> %s basis, %s major' % (r, c, t, b, l))


def c_nodes_neg(nm, f):
    body = mat('fix', 'double', 'A', 'a', 2, 2) + 'int rc = 0; try { out(o, %s(A, i), 2); } catch (const std::invalid_argument&) { rc = 1; } return rc;' % f

    def ens(I, O):
        neg = tm.icmp('slt', I.i, const(0, 32))
        return [('negative index is refused', eq(O.ret, ite(neg, const(1, 32), const(0, 32))))]
    return Case(nm, body, [P('a', 'double', (2, 2)), P('i', 'int', lo=-5, hi=1), P('o', 'double', 2, 'out', opt=True)], ens,
                lambda I: [tm.icmp('sle', I.i, const(1, 32))], ret='int', label='%s with a negative index' % f)


FILLS = {'zero': 'A.zero();', 'zeror': 'std::move(A).zero();', 'identity': 'A.identity();', 'identityr': 'std::move(A).identity();', 'fill': 'A.fill(v);',
         'fillr': 'std::move(A).fill(v);', 'filla': 'A.fill(A(%d, %d));'}


def c_fill(nm, k, t, r, c, b, l, op):
    body = mat(k, t, 'A', 'a', r, c, b, l) + (FILLS[op] % (r - 1, c - 1) if '%' in FILLS[op] else FILLS[op]) + ' outm(o, A, %d, %d);' % (r, c)

    def ens(I, O):
        s = None if t not in ('int',) else 32
        k_ = lambda x: const(x, s) if s else const(x)
        f = {'zero': lambda i, j: k_(0), 'identity': lambda i, j: k_(int(i == j)), 'fill': lambda i, j: I.v,
             'filla': lambda i, j: I.a[r - 1][c - 1]}[op.rstrip('r') if op != 'filla' else op]
        return meq('element', O.o, [[f(i, j) for j in range(c)] for i in range(r)])
    return Case(nm, body, [P('a', t, (r, c)), P('v', t), P('o', t, (r, c), 'out')], ens, level=bounded(k),
                label='%s on %s' % (FILLS[op], mtype(k, t, r, c, b, l)))


def c_build(nm, k, t, r, c, b, l, form, ts=None):
    """construction and assignment from values given row by row"""
    ts = ts or t
    ty, cs = mtype(k, t, r, c, b, l), CPP[ts]
    n = r * c
    els = ','.join('a[%d]' % i for i in range(n))
    dec = '%s A%s; ' % (ty, '' if k == 'fix' else '(%d,%d)' % (r, c)) if k in ('fix', 'dyn') else \
        '%s A_b[%d]; %s A(A_b%s); ' % (CPP[t], n, ty, '' if k == 'ext' else ',%d,%d' % (r, c))
    pre = '%s(' % ty if k == 'fix' else '%s(%d,%d,' % (ty, r, c)
    arr = '%s W[%d]; for (int i = 0; i < %d; ++i) W[i] = a[i]; ' % (cs, n, n)
    arr2 = '%s W[%d][%d]; for (int i = 0; i < %d; ++i) W[i/%d][i%%%d] = a[i]; ' % (cs, r, c, n, c, c)
    sar = 'std::array<%s,%d> W; for (int i = 0; i < %d; ++i) W[i] = a[i]; ' % (cs, n, n)
    body = {
        'els': 'auto A = %s%s);' % (pre, els),
        'carr': arr + 'auto A = %sW);' % pre, 'sarr': sar + 'auto A = %sW);' % pre,
        'ptr': 'auto A = %sa);' % pre,
        'ptr_rc': 'auto A = %s(a,%d,%d);' % (ty, r, c),
        'arr2': arr2 + 'auto A = %s(W);' % ty,
        'list': '%s A({%s});' % (ty, els),
        '=carr': dec + arr + 'A = W;', '=sarr': dec + sar + 'A = W;', '=arr2': dec + arr2 + 'A = W;', '=list': dec + 'A = {%s};' % els,
        '=carrr': dec + arr + 'std::move(A) = W;', '=arr2r': dec + arr2 + 'std::move(A) = W;', '=listr': dec + 'std::move(A) = {%s};' % els,
    }[form] + ' outm(o, A, %d, %d);' % (r, c)

    def ens(I, O):
        a = I.a if ts == t else [[as_real(x) for x in rr] for rr in I.a]
        return meq('element', O.o, a)
    return Case(nm, body, [P('a', ts, (r, c)), P('o', t, (r, c), 'out')], ens,
                lambda I: [in_range(x, -10**6, 10**6) for rr in I.a for x in rr if ts == 'int'], level=bounded(k), pre='#include <array>\n',
                label='%s from %s<%s>' % (ty, form, ts))


def c_conv(nm, ka, kb, t, ts, r, c, la, lb, bb, form):
    """copy between matrices of different storage, layout and element type"""
    dec = mtype(ka, t, r, c, 'col', la) + ' A%s; ' % ('' if ka == 'fix' else '(%d,%d)' % (r, c)) if ka in ('fix', 'dyn') else \
        '%s A_b[%d]; %s A(A_b%s); ' % (CPP[t], r * c, mtype(ka, t, r, c, 'col', la), '' if ka == 'ext' else ',%d,%d' % (r, c))
    body = mat(kb, ts, 'B', 'a', r, c, bb, lb)
    body += {'=': dec + 'A = B;', 'ctor': '%s A(B);' % mtype(ka, t, r, c, 'col', la), '=r': dec + 'std::move(A) = B;'}[form]
    body += ' outm(o, A, %d, %d); outm(p, B, %d, %d);' % (r, c, r, c)

    def ens(I, O):
        a = I.a if ts == t else [[as_real(x) for x in rr] for rr in I.a]
        return meq('element', O.o, a) + meq('source kept', O.p, I.a)
    return Case(nm, body, [P('a', ts, (r, c)), P('o', t, (r, c), 'out'), P('p', ts, (r, c), 'out')], ens,
                lambda I: [in_range(x, -10**6, 10**6) for rr in I.a for x in rr if ts == 'int'], level=bounded(ka, kb),
                label='%s %s %s' % (mtype(ka, t, r, c, 'col', la), form, mtype(kb, ts, r, c, bb, lb)))


def c_size(nm, k, b, l, N=3):
    """symbolic run-time shapes"""
    body = 'on[6] = 0; ' + mat(k, 'double', 'A', 'a', N, N, b, l, 'r', 'c') + '''
  on[0] = A.rows(); on[1] = A.cols(); on[2] = A.basis_count(); on[3] = A.basis_size(); on[4] = A.size().first; on[5] = A.size().second;
  for (int k = 0; k < r * c; ++k) d[k] = A.data()[k];
  for (auto p = A.begin(); p != A.end(); ++p) ++on[6];
  A.identity(); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) o[i * c + j] = A(i, j);'''

    def ens(I, O):
        bs = (I.r, I.c) if b == 'row' else (I.c, I.r)
        res = [('shape queries', and_(*[eq(O.on[k_], v) for k_, v in enumerate((I.r, I.c) + bs + (I.r, I.c, I.r * I.c))]))]
        for R in range(1, N + 1):
            for C in range(1, N + 1):
                w = and_(is_val(I.r, R), is_val(I.c, C))
                for i in range(R):
                    for j in range(C):
                        res.append(('layout %dx%d (%d,%d)' % (R, C, i, j), implies(w, eq(O.d[raw(l, R, C, i, j)], I.a[i * C + j]))))
                        res.append(('identity %dx%d (%d,%d)' % (R, C, i, j), implies(w, eq(O.o[i * C + j], const(int(i == j))))))
        return res
    return Case(nm, body, [P('a', 'double', N * N), P('r', 'int', lo=0, hi=N), P('c', 'int', lo=0, hi=N), P('on', 'int', 7, 'out'),
                           P('d', 'double', N * N, 'out', opt=True), P('o', 'double', N * N, 'out', opt=True)], ens,
                lambda I: [in_range(I.r, 0, N), in_range(I.c, 0, N)], level='bounded', label='shape and layout of %s %s %s, run-time shapes up to %d' % (k, b, l, N))


def units(tier):
    cs = []
    n = [0]

    def add(f, *a):
        n[0] += 1
        cs.append(f('c08_%s_%d' % (f.__name__, n[0]), *a))
    th = tier == 'thorough'
    BL = list(itertools.product(BASES, LAYOUTS))
    shapes = [(2, 2), (3, 3), (2, 3), (3, 2), (4, 4)] + ([(1, 3), (4, 2), (5, 5)] if th else [])
    for k in KINDS:
        for b, l in BL:
            for r, c in shapes:
                add(c_layout, k, 'double', r, c, b, l)
            add(c_layout, k, 'float', 3, 2, b, l)
            add(c_layout, k, 'int', 2, 3, b, l)
            for op in PUTS:
                for r, c in (((2, 3), (3, 2))[n[0] % 2],) if not th else shapes:
                    add(c_put, k, 'double', r, c, b, l, op)
            add(c_put, k, 'double', 3, 3, b, l, 'put', 'int')
            add(c_put, k, 'int', 3, 2, b, l, 'call')
            for op in SETS:
                add(c_setrc, k, 'double', 2, 3, b, l, op)
                if th:
                    add(c_setrc, k, 'double', 4, 3, b, l, op)
            for kv in ('ext', 'dyn', 'dext'):
                add(c_setrc, k, 'double', 3, 2, b, l, 'row', kv)
                add(c_setrc, k, 'double', 3, 2, b, l, 'col', kv)
            add(c_setrc, k, 'float', 2, 3, b, l, 'col', 'fix', 'int')
            for r, c in ((2, 3), (3, 2)) if not th else shapes:
                add(c_nodes, k, 'double', r, c, b, l)
            add(c_nodes, k, 'double', 2, 3, b, l, '(A + A)')
            for op in FILLS:
                for r, c in ((2, 3), (3, 2), (3, 3)) if th or op == 'identity' else (((2, 3), (3, 2))[n[0] % 2],):
                    add(c_fill, k, 'double', r, c, b, l, op)
            add(c_fill, k, 'int', 3, 3, b, l, 'identity')
            add(c_nodecopies, k, 'double', 2, 3, b, l, 1, 2, 1)
            add(c_nodecopies, k, 'double', 3, 2, b, l, 2, 0, 0)
    for b, l in BL:
        add(c_rput, 'double', 2, 3, b, l)
        add(c_rput, 'int', 3, 2, b, l)
    for f in ('row', 'col', 'basis'):
        add(c_nodes_neg, f)
    for k in KINDS:
        for l in LAYOUTS:
            for r, c in ((2, 3), (3, 2)):
                forms = ['=carr', '=arr2', '=list', '=carrr', '=arr2r', '=listr']
                if k == 'fix':
                    forms += ['els', 'carr', 'ptr', 'arr2', 'list']
                if k == 'dyn':
                    forms += ['els', 'carr', 'ptr', 'ptr_rc', 'arr2']
                for f in forms:
                    add(c_build, k, 'double', r, c, 'col', l, f)
                    if (r, c) == (2, 3):
                        add(c_build, k, 'double', r, c, 'row', l, f, 'int')
    for ka, kb in itertools.product(KINDS, KINDS):
        for la, lb in itertools.product(LAYOUTS, LAYOUTS):
            for r, c in ((2, 3), (3, 2)) if th else (((2, 3), (3, 2))[n[0] % 2],):
                for f in ('=', '=r') + (('ctor',) if ka in ('fix', 'dyn') else ()):
                    add(c_conv, ka, kb, 'double', 'double', r, c, la, lb, 'col', f)
            add(c_conv, ka, kb, 'double', 'int', 2, 3, la, lb, 'col', '=')
    for k in ('dyn', 'dext'):
        for b, l in BL:
            add(c_size, k, b, l, 4 if th else 3)
    from contracts import sized
    return chunks('c08', cs, 18) + sized.family('c08', tier)
