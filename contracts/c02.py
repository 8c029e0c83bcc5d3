"""C02: run-time size checks"""
from contracts.common import *

META = {'level': 'proof'}
N = 4          # run-time sizes range over 0..N (the bound of these contracts)
VERR = ('incompatible_vector_size_error', 'minimum_vector_size_error', 'vector_size_error', 'vector_size_range_error')
MERR = ('incompatible_matrix_size_error', 'minimum_matrix_size_error', 'matrix_size_error', 'incompatible_matrix_row_size_error',
        'incompatible_matrix_col_size_error', 'incompatible_matrix_inner_size_error', 'non_square_matrix_error')


def catch(errs):
    return ''.join('catch (const %s&) { rc = 1; }' % e for e in errs)


def runtime(k):
    return k in ('dyn', 'dext', 'cdext')


def sz(kind, sym, fixed):
    return I_(sym) if runtime(kind) else fixed


def I_(x):
    return x


def sym_eq(x, y):
    """equality of sizes given as ints or terms"""
    if isinstance(x, int) and isinstance(y, int):
        return tm.TRUE if x == y else tm.FALSE
    if isinstance(x, int):
        x = const(x, 32)
    if isinstance(y, int):
        y = const(y, 32)
    return eq(x, y)


def I_mul(a, b):
    a = const(a, 32) if isinstance(a, int) else a
    b = const(b, 32) if isinstance(b, int) else b
    return a * b


def slt(k, n):
    if isinstance(n, int):
        return tm.TRUE if k < n else tm.FALSE
    return tm.icmp('slt', const(k, 32), n)


def dims(F, lo, hi):
    return [in_range(F, lo, hi)]


# --------------------------------------------------------------- vectors

# name, statement, ok(n, m), outputs: 'vec' result of A's size / 'sc' scalar / 'A' the target, spec(a, b, k)
VOPS = [
    ('add', 'on = outn(o, A + B);', 'same', 'vec', lambda a, b, i: a[i] + b[i]),
    ('sub', 'on = outn(o, A - B);', 'same', 'vec', lambda a, b, i: a[i] - b[i]),
    ('nest', 'on = outn(o, (2. * A) - (B / 2.));', 'same', 'vec', lambda a, b, i: 2 * a[i] - b[i] / 2),
    ('hadamard', 'on = outn(o, hadamard(A, B));', 'same', 'vec', lambda a, b, i: a[i] * b[i]),
]
TOPS = [
    ('pluseq', 'A += B;', lambda a, b, i: a[i] + b[i]),
    ('minuseq', 'A -= B;', lambda a, b, i: a[i] - b[i]),
    ('pluseqx', 'A += 2. * B;', lambda a, b, i: a[i] + 2 * b[i]),
    ('min', 'A.minimize(B);', lambda a, b, i: ite(lt(b[i], a[i]), b[i], a[i])),
    ('max', 'A.maximize(B);', lambda a, b, i: ite(lt(a[i], b[i]), b[i], a[i])),
]


def vexpr(nm, ka, kb, op, fn=3):
    lab, stmt, ok, kind, spec = op
    fa = N if runtime(ka) else fn
    fb = N if runtime(kb) else fn
    body = 'int rc = 0; ' + vec(ka, 'double', 'A', 'a', fa, 'n') + vec(kb, 'double', 'B', 'b', fb, 'm') + '''
  try { %s } %s
  return rc;''' % (stmt.replace('on =', 'on[0] ='), catch(VERR))
    ps = [P('a', 'double', fa), P('b', 'double', fb), P('n', 'int', lo=0, hi=N), P('m', 'int', lo=0, hi=N), P('o', 'double', N, 'out', opt=True),
          P('on', 'int', 1, 'out', opt=True)]

    def ens(I, O):
        n = I.n if runtime(ka) else fn
        m = I.m if runtime(kb) else fn
        good = sym_eq(n, m)
        r = [('error iff sizes differ', eq(O.ret, ite(good, const(0, 32), const(1, 32)))),
             ('result size', implies(good, sym_eq(O.on[0], n)))]
        for i in range(min(fa, fb)):
            r.append(('element %d' % i, implies(and_(good, slt(i, n)), eq(O.o[i], spec(I.a, I.b, i)))))
        return r
    return Case(nm, body, ps, ens, lambda I: dims(I.n, 0, N) + dims(I.m, 0, N), ret='int', level='bounded',
                label='%s of %s and %s, run-time sizes 0..%d' % (lab, ka, kb, N))


def vtarget(nm, ka, kb, op, fn=3):
    lab, stmt, spec = op
    fa = N if runtime(ka) else fn
    fb = N if runtime(kb) else fn
    view = ka in ('ext', 'dext')
    body = 'int rc = 0; ' + vec(ka, 'double', 'A', 'a', fa, 'n') + vec(kb, 'double', 'B', 'b', fb, 'm') + '''
  try { %s } %s
  on[0] = A.size();%s
  return rc;''' % (stmt, catch(VERR), '' if view else ' for (int i = 0; i < A.size(); ++i) a[i] = A[i];')
    ps = [P('a', 'double', fa, 'inout'), P('b', 'double', fb), P('n', 'int', lo=0, hi=N), P('m', 'int', lo=0, hi=N),
          P('on', 'int', 1, 'out')]

    def ens(I, O):
        n = I.n if runtime(ka) else fn
        m = I.m if runtime(kb) else fn
        good = sym_eq(n, m)
        r = [('error iff sizes differ', eq(O.ret, ite(good, const(0, 32), const(1, 32)))), ('size unchanged', sym_eq(O.on[0], n))]
        for i in range(fa):
            new = and_(good, slt(i, n))
            if i < fb:
                r.append(('element %d' % i, implies(new, eq(O.a[i], spec(I.a, I.b, i)))))
            r.append(('element %d untouched' % i, implies(not_(new), eq(O.a[i], I.a[i]))))
        return r
    return Case(nm, body, ps, ens, lambda I: dims(I.n, 0, N) + dims(I.m, 0, N), ret='int', level='bounded',
                label='%s, target %s, operand %s, run-time sizes 0..%d' % (lab, ka, kb, N))


def vassign(nm, ka, kb, fn=3):
    """assignment: targets of given size need the source's size, resizable targets take it"""
    fa = N if runtime(ka) else fn
    fb = N if runtime(kb) else fn
    view = ka in ('ext', 'dext')
    body = 'int rc = 0; ' + vec(ka, 'double', 'A', 'a', fa, 'n') + vec(kb, 'double', 'B', 'b', fb, 'm') + '''
  try { A = B + B; } %s
  on[0] = A.size();%s
  return rc;''' % (catch(VERR), '' if view else ' for (int i = 0; i < A.size(); ++i) a[i] = A[i];')
    ps = [P('a', 'double', N if ka == 'dyn' else fa, 'inout'), P('b', 'double', fb), P('n', 'int', lo=0, hi=N), P('m', 'int', lo=0, hi=N),
          P('on', 'int', 1, 'out')]

    def ens(I, O):
        n = I.n if runtime(ka) else fn
        m = I.m if runtime(kb) else fn
        good = tm.TRUE if ka == 'dyn' else sym_eq(n, m)
        r = [('error iff the size does not fit', eq(O.ret, ite(good, const(0, 32), const(1, 32)))),
             ('size', sym_eq(O.on[0], m if ka == 'dyn' else n))]
        for i in range(min(fb, len(I.a))):
            r.append(('element %d' % i, implies(and_(good, slt(i, m)), eq(O.a[i], I.b[i] + I.b[i]))))
        for i in range(fa):
            r.append(('element %d untouched on error' % i, implies(not_(good), eq(O.a[i], I.a[i]))))
        return r
    return Case(nm, body, ps, ens, lambda I: dims(I.n, 0, N) + dims(I.m, 0, N), ret='int', level='bounded',
                label='assignment to %s from an expression over %s, run-time sizes 0..%d' % (ka, kb, N))


def vscalar(nm, ka, kb, what, fn=3):
    """dot, cross, perp_dot, triple product on run-time sizes"""
    need = {'dot': None, 'cross': 3, 'perp': 2, 'triple': 3}[what]
    fa = N if runtime(ka) else fn
    fb = N if runtime(kb) else fn
    st = {'dot': 'o[0] = dot(A, B);', 'cross': 'auto C = cross(A, B); out(o, C, 3);', 'perp': 'o[0] = perp_dot(A, B);',
          'triple': 'o[0] = triple_product(A, B, A + B);'}[what]
    body = 'int rc = 0; ' + vec(ka, 'double', 'A', 'a', fa, 'n') + vec(kb, 'double', 'B', 'b', fb, 'm') + 'try { %s } %s return rc;' % (st, catch(VERR))
    ps = [P('a', 'double', fa), P('b', 'double', fb), P('n', 'int', lo=0, hi=N), P('m', 'int', lo=0, hi=N), P('o', 'double', 3, 'out', opt=True)]

    def ens(I, O):
        n = I.n if runtime(ka) else fn
        m = I.m if runtime(kb) else fn
        if need is None:
            good = and_(sym_eq(n, m), slt(0, n))
        else:
            good = and_(sym_eq(n, need), sym_eq(m, need))
        r = [('error iff sizes do not fit', eq(O.ret, ite(good, const(0, 32), const(1, 32))))]
        a, b = I.a, I.b
        if what == 'dot':
            for k in range(1, min(fa, fb) + 1):
                r.append(('size %d' % k, implies(and_(good, sym_eq(n, k)), eq(O.o[0], dot(a[:k], b[:k])))))
        elif what == 'cross':
            r += [(l, implies(good, g)) for l, g in veq('cross', O.o, cross(a, b))]
        elif what == 'perp':
            r.append(('perp_dot', implies(good, eq(O.o[0], a[0] * b[1] - a[1] * b[0]))))
        else:
            r.append(('triple', implies(good, eq(O.o[0], dot(a[:3], cross(b[:3], vadd(a[:3], b[:3])))))))
        return r
    return Case(nm, body, ps, ens, lambda I: dims(I.n, 0, N) + dims(I.m, 0, N), ret='int', level='bounded',
                label='%s of %s and %s, run-time sizes 0..%d' % (what, ka, kb, N))


def vlist(nm, ka, how, fn=3):
    """assignment and set() from an array, list, scalars, vector plus scalars"""
    fa = N if runtime(ka) else fn
    view = ka in ('ext', 'dext')
    st, cnt = {'list': ('A = {b[0], b[1], b[2]};', 3), 'array': ('double t[3] = {b[0], b[1], b[2]}; A = t;', 3),
               'set': ('A.set(b[0], b[1], b[2]);', 3), 'sarray': ('std::array<double,3> t = {{b[0], b[1], b[2]}}; A = t;', 3),
               'svec': ('std::vector<double> t(b, b + 3); A = t;', 3)}[how]
    body = 'int rc = 0; ' + vec(ka, 'double', 'A', 'a', fa, 'n') + 'try { %s } %s on[0] = A.size();%s return rc;' % (
        st, catch(VERR), '' if view else ' for (int i = 0; i < A.size(); ++i) a[i] = A[i];')
    ps = [P('a', 'double', N if ka == 'dyn' else fa, 'inout'), P('b', 'double', 3), P('n', 'int', lo=0, hi=N), P('on', 'int', 1, 'out')]

    def ens(I, O):
        n = I.n if runtime(ka) else fn
        good = tm.TRUE if ka == 'dyn' else sym_eq(n, cnt)
        r = [('error iff the size does not fit', eq(O.ret, ite(good, const(0, 32), const(1, 32)))),
             ('size', sym_eq(O.on[0], cnt if ka == 'dyn' else n))]
        r += [(l, implies(good, g)) for l, g in veq('element', O.a[:cnt], I.b[:cnt])]
        r += [(l, implies(not_(good), g)) for l, g in veq('untouched on error', O.a, I.a)]
        return r
    return Case(nm, body, ps, ens, lambda I: dims(I.n, 0, N), ret='int', level='bounded', pre='#include <array>\n#include <vector>\n',
                label='%s assignment to %s, run-time sizes 0..%d' % (how, ka, N))


# --------------------------------------------------------------- matrices

D = 3        # matrix dimensions range over 1..D-? (bound)


def mdim(kind, F, r, c):
    return (F[0], F[1]) if kind in ('dyn', 'dext') else (r, c)


def mdecl(kind, nm, ptr, r, c, rs, cs, lay, R):
    return mat(kind, 'double', nm, ptr, r, c, 'col', lay, rs, cs) if kind in ('fix', 'ext') else (
        '%s %s(%s,%s); for (int i=0;i<%s;++i) for (int j=0;j<%s;++j) %s(i,j) = %s[i*%d+j];' % (
            mtype('dyn', 'double', r, c, 'col', lay), nm, rs, cs, rs, cs, nm, ptr, R)
        if kind == 'dyn' else
        'double %s_b[%d]; %s %s(%s_b,%s,%s); for (int i=0;i<%s;++i) for (int j=0;j<%s;++j) %s(i,j) = %s[i*%d+j];' % (
            nm, r * c, mtype('dext', 'double', r, c, 'col', lay), nm, nm, rs, cs, rs, cs, nm, ptr, R))


def mcase(nm, ka, kb, what, la='row', lb='row', fr=2, fc=2, hi=2):
    """binary matrix operations over symbolic dimensions 1..hi"""
    R = max(hi, fr, fc)
    target = what in ('pluseq', 'minuseq', 'assign')
    st = {'add': 'auto X = A + B; on[0] = X.rows(); on[1] = X.cols(); for (int i=0;i<X.rows();++i) for (int j=0;j<X.cols();++j) o[i*%d+j] = X(i,j);' % R,
          'sub': 'auto X = A - B; on[0] = X.rows(); on[1] = X.cols(); for (int i=0;i<X.rows();++i) for (int j=0;j<X.cols();++j) o[i*%d+j] = X(i,j);' % R,
          'mul': 'auto X = A * B; on[0] = X.rows(); on[1] = X.cols(); for (int i=0;i<X.rows();++i) for (int j=0;j<X.cols();++j) o[i*%d+j] = X(i,j);' % R,
          'pluseq': 'A += B;', 'minuseq': 'A -= B;', 'assign': 'A = B + B;'}[what]
    post = ''
    if target:
        post = 'on[0] = A.rows(); on[1] = A.cols(); for (int i=0;i<A.rows();++i) for (int j=0;j<A.cols();++j) o[i*%d+j] = A(i,j);' % R
    body = 'int rc = 0; ' + mdecl(ka, 'A', 'a', fr if ka in ('fix', 'ext') else R, fc if ka in ('fix', 'ext') else R, 'r1', 'c1', la, R) + \
        mdecl(kb, 'B', 'b', fr if kb in ('fix', 'ext') else R, fc if kb in ('fix', 'ext') else R, 'r2', 'c2', lb, R) + \
        'try { %s } %s %s return rc;' % (st, catch(MERR), post)
    ps = [P('a', 'double', (R, R)), P('b', 'double', (R, R)), P('r1', 'int', lo=0, hi=hi), P('c1', 'int', lo=0, hi=hi), P('r2', 'int', lo=0, hi=hi),
          P('c2', 'int', lo=0, hi=hi), P('o', 'double', (R, R), 'out', opt=True), P('on', 'int', 2, 'out', opt=True)]
    if fr != R or fc != R:
        assert R == fc == fr or (ka not in ('fix', 'ext') and kb not in ('fix', 'ext')), 'fixed sizes must fill the arrays'

    def ens(I, O):
        r1, c1 = (I.r1, I.c1) if ka in ('dyn', 'dext') else (fr, fc)
        r2, c2 = (I.r2, I.c2) if kb in ('dyn', 'dext') else (fr, fc)
        if what == 'mul':
            good, rr, cc = sym_eq(c1, r2), r1, c2
        elif what == 'assign' and ka == 'dyn':
            good, rr, cc = tm.TRUE, r2, c2
        elif what == 'assign' and ka == 'dext':
            # an external matrix of run-time size takes any shape with the same number of elements
            good = eq(I_mul(r1, c1), I_mul(r2, c2))
            rr, cc = ite(good, I_mul(r2, 1), I_mul(r1, 1)), ite(good, I_mul(c2, 1), I_mul(c1, 1))
        else:
            good, rr, cc = and_(sym_eq(r1, r2), sym_eq(c1, c2)), r1, c1
        out = [('error iff shapes do not fit', eq(O.ret, ite(good, const(0, 32), const(1, 32))))]
        if target:
            out += [('rows', sym_eq(O.on[0], rr)), ('cols', sym_eq(O.on[1], cc))]
        else:
            out += [('rows', implies(good, sym_eq(O.on[0], rr))), ('cols', implies(good, sym_eq(O.on[1], cc)))]
        a, b = I.a, I.b
        for i in range(R):
            for j in range(R):
                inside = and_(slt(i, rr), slt(j, cc))
                if what in ('add', 'pluseq'):
                    v = a[i][j] + b[i][j]
                elif what in ('sub', 'minuseq'):
                    v = a[i][j] - b[i][j]
                elif what == 'assign':
                    v = b[i][j] + b[i][j]
                else:
                    for k in range(R + 1):
                        out.append(('element %d,%d inner %d' % (i, j, k), implies(and_(good, inside, sym_eq(c1, k)),
                                    eq(O.o[i][j], S([const(0)] + [a[i][q] * b[q][j] for q in range(k)])))))
                    continue
                out.append(('element %d,%d' % (i, j), implies(and_(good, inside), eq(O.o[i][j], v))))
                if target:
                    out.append(('element %d,%d untouched on error' % (i, j), implies(and_(not_(good), inside), eq(O.o[i][j], a[i][j]))))
        return out

    def req(I):
        return [in_range(x, 0, hi) for x in (I.r1, I.c1, I.r2, I.c2)]
    return Case(nm, body, ps, ens, req, ret='int', level='bounded', opts={'cost': 5},
                label='matrix %s, %s %s-major with %s %s-major, dimensions 0..%d' % (what, ka, la, kb, lb, hi))


def marray(nm, k, how, lay='row', hi=3):
    """assignment from arrays and lists of six values to run-time shapes"""
    st = {'arr2': 'double t[2][3]; for (int i = 0; i < 6; ++i) t[i / 3][i % 3] = b[i]; A = t;', 'arr': 'double t[6]; for (int i = 0; i < 6; ++i) t[i] = b[i]; A = t;',
          'list': 'A = {b[0], b[1], b[2], b[3], b[4], b[5]};', 'sarray': 'std::array<double,6> t = {{b[0], b[1], b[2], b[3], b[4], b[5]}}; A = t;'}[how]
    body = 'int rc = 0; ' + mdecl(k, 'A', 'a', hi, hi, 'r', 'c', lay, hi) + 'try { %s } %s on[0] = A.rows(); on[1] = A.cols(); ' % (st, catch(MERR)) + \
        'for (int i = 0; i < A.rows(); ++i) for (int j = 0; j < A.cols(); ++j) o[i * A.cols() + j] = A(i, j); return rc;'
    ps = [P('a', 'double', (hi, hi)), P('b', 'double', 6), P('r', 'int', lo=0, hi=hi), P('c', 'int', lo=0, hi=hi), P('on', 'int', 2, 'out'), P('o', 'double', hi * hi, 'out', opt=True)]

    def ens(I, O):
        six = eq(I_mul(I.r, I.c), I_mul(const(6, 32), 1))
        if how == 'arr2':
            good = tm.TRUE if k == 'dyn' else six
            rr, cc = ite(good, const(2, 32), I.r), ite(good, const(3, 32), I.c)
        else:
            good, rr, cc = six, I.r, I.c
        out = [('error iff the shape does not fit', eq(O.ret, ite(good, const(0, 32), const(1, 32)))), ('rows', eq(O.on[0], rr)), ('cols', eq(O.on[1], cc))]
        for i, v in enumerate(I.b):
            out.append(('element %d' % i, implies(good, eq(O.o[i], v))))
        for R in range(1, hi + 1):
            for C in range(1, hi + 1):
                w = and_(not_(good), is_val(I.r, R), is_val(I.c, C))
                for i in range(R):
                    for j in range(C):
                        out.append(('untouched on error %dx%d (%d,%d)' % (R, C, i, j), implies(w, eq(O.o[i * C + j], I.a[i][j]))))
        return out
    return Case(nm, body, ps, ens, lambda I: [in_range(I.r, 0, hi), in_range(I.c, 0, hi)], ret='int', level='bounded', pre='#include <array>\n',
                label='%s assignment to %s %s-major, run-time shapes up to %dx%d' % (how, k, lay, hi, hi))


def msquare(nm, k, what, hi=3, lay='row'):
    """functions on square matrices"""
    st = {'det': 'v[0] = determinant(A);', 'mdet': 'v[0] = A.determinant();', 'trace': 'v[0] = A.trace();', 'inv': 'auto X = inverse(A); v[0] = X(0,0);',
          'lu': 'auto X = lu(A); v[0] = X(0,0);', 'minv': 'A.inverse(); v[0] = A(0,0);'}[what]
    body = 'int rc = 0; ' + mdecl(k, 'A', 'a', hi, hi, 'r', 'c', lay, hi) + 'try { %s } %s return rc;' % (st, catch(MERR))
    ps = [P('a', 'double', (hi, hi), gen='dense'), P('r', 'int', lo=1, hi=hi), P('c', 'int', lo=1, hi=hi), P('v', 'double', 1, 'out', opt=True)]

    def minors(I):
        return [det([row[:n] for row in I.a[:n]]) for n in range(1, hi + 1)]

    def ens(I, O):
        good = sym_eq(I.r, I.c)
        r = [('error iff not square', eq(O.ret, ite(good, const(0, 32), const(1, 32))))]
        for n in range(2, hi + 1):
            g = and_(good, sym_eq(I.r, n))
            a = [row[:n] for row in I.a[:n]]
            if what in ('det', 'mdet'):
                r.append(('determinant %d' % n, implies(g, eq(O.v[0], det(a)))))
            elif what == 'trace':
                r.append(('trace %d' % n, implies(g, eq(O.v[0], S(a[i][i] for i in range(n))))))
            elif what in ('inv', 'minv'):
                r.append(('inverse %d' % n, implies(g, eq(O.v[0] * det(a), det([x[1:] for x in a[1:]])))))
        return r

    def req(I):
        return [in_range(I.r, 2, hi), in_range(I.c, 2, hi)] + [nonzero(m) for m in minors(I)]
    return Case(nm, body, ps, ens, req, ret='int', level='bounded',
                label='matrix %s on %s, dimensions 2..%d' % (what, k, hi), opts={'cost': 3})


def mvec(nm, km, kv, what, hi=3, lay='row'):
    body = 'int rc = 0; ' + mdecl(km, 'A', 'a', hi, hi, 'r', 'c', lay, hi) + vec(kv, 'double', 'B', 'b', hi, 'm') + 'try { %s } %s return rc;' % (
        'auto X = %s; on[0] = outn(o, X);' % ('A * B' if what == 'mv' else 'B * A'), catch(MERR))
    ps = [P('a', 'double', (hi, hi)), P('b', 'double', hi), P('r', 'int', lo=0, hi=hi), P('c', 'int', lo=0, hi=hi), P('m', 'int', lo=0, hi=hi),
          P('o', 'double', hi, 'out', opt=True), P('on', 'int', 1, 'out', opt=True)]

    def ens(I, O):
        r, c = (I.r, I.c) if km in ('dyn', 'dext') else (hi, hi)
        m = I.m if runtime(kv) else hi
        good = sym_eq(c if what == 'mv' else r, m)
        n = r if what == 'mv' else c
        out = [('error iff inner sizes differ', eq(O.ret, ite(good, const(0, 32), const(1, 32)))), ('result size', implies(good, sym_eq(O.on[0], n)))]
        for i in range(hi):
            for k in range(hi + 1):
                v = S([const(0)] + [(I.a[i][q] if what == 'mv' else I.a[q][i]) * I.b[q] for q in range(k)])
                out.append(('element %d inner %d' % (i, k), implies(and_(good, slt(i, n), sym_eq(m, k)), eq(O.o[i], v))))
        return out
    return Case(nm, body, ps, ens, lambda I: [in_range(x, 0, hi) for x in (I.r, I.c, I.m)], ret='int', level='bounded',
                label='%s product %s, %s, dimensions 0..%d' % (what, km, kv, hi), opts={'cost': 3})


def mrowcol(nm, k, what, hi=3, lay='row'):
    """set_row / set_col need a vector of the right size"""
    st = {'row': 'cml::set_row(A, 0, B);', 'col': 'cml::set_col(A, 0, B);', 'mrow': 'A.set_row(0, B);', 'mcol': 'A.set_col(0, B);'}[what]
    body = 'int rc = 0; ' + mdecl(k, 'A', 'a', hi, hi, 'r', 'c', lay, hi) + vec('cdext', 'double', 'B', 'b', hi, 'm') + \
        'try { %s } %s for (int i=0;i<A.rows();++i) for (int j=0;j<A.cols();++j) o[i*%d+j] = A(i,j); return rc;' % (st, catch(MERR), hi)
    ps = [P('a', 'double', (hi, hi)), P('b', 'double', hi), P('r', 'int', lo=1, hi=hi), P('c', 'int', lo=1, hi=hi), P('m', 'int', lo=1, hi=hi),
          P('o', 'double', (hi, hi), 'out', opt=True)]

    def ens(I, O):
        r, c = (I.r, I.c) if k in ('dyn', 'dext') else (hi, hi)
        row = what.endswith('row')
        good = sym_eq(c if row else r, I.m)
        out = [('error iff the size does not fit', eq(O.ret, ite(good, const(0, 32), const(1, 32))))]
        for i in range(hi):
            for j in range(hi):
                ins = and_(slt(i, r), slt(j, c))
                hit = (i == 0) if row else (j == 0)
                new = I.b[j if row else i] if hit else I.a[i][j]
                out.append(('element %d,%d' % (i, j), implies(and_(ins, good), eq(O.o[i][j], new))))
                out.append(('element %d,%d on error' % (i, j), implies(and_(ins, not_(good)), eq(O.o[i][j], I.a[i][j]))))
        return out
    return Case(nm, body, ps, ens, lambda I: [in_range(x, 1, hi) for x in (I.r, I.c, I.m)], ret='int', level='bounded',
                label='set %s on %s, dimensions 0..%d' % (what, k, hi), opts={'cost': 3})


def lusolve(nm, k, hi=3):
    body = 'int rc = 0; ' + mdecl(k, 'A', 'a', hi, hi, 'r', 'c', 'row', hi) + vec('cdext', 'double', 'B', 'b', hi, 'm') + \
        'vector<double,dynamic<>> X(m); try { cml::lu_solve(A, X, B); } %s catch (const incompatible_vector_size_error&) { rc = 1; } return rc;' % catch(MERR)
    ps = [P('a', 'double', (hi, hi), gen='dense'), P('b', 'double', hi), P('r', 'int', lo=1, hi=hi), P('c', 'int', lo=1, hi=hi), P('m', 'int', lo=1, hi=hi)]

    def ens(I, O):
        good = and_(sym_eq(I.r, I.c), sym_eq(I.c, I.m))
        return [('error iff sizes do not fit', eq(O.ret, ite(good, const(0, 32), const(1, 32))))]
    return Case(nm, body, ps, ens, lambda I: [in_range(x, 0, hi) for x in (I.r, I.c, I.m)] + [nonzero(I.a[i][i]) for i in range(hi)], ret='int',
                level='bounded', label='lu_solve on %s, dimensions 0..%d' % (k, hi))


def units(tier):
    cs = []
    k = [0]

    def add(f, *a, **kw):
        k[0] += 1
        nm = 'c02_%s_%d' % (f.__name__, k[0])
        cs.append(f(nm, *a, **kw))
    pairs = [('dyn', 'dyn'), ('dyn', 'fix'), ('cext', 'dyn'), ('cdext', 'dyn'), ('fix', 'cdext'), ('cdext', 'cdext')]
    for op in VOPS:
        for ka, kb in pairs:
            add(vexpr, ka, kb, op)
    for op in TOPS:
        for ka, kb in [('dyn', 'dyn'), ('dext', 'dyn'), ('fix', 'dyn'), ('ext', 'cdext'), ('dyn', 'fix'), ('dext', 'fix')]:
            add(vtarget, ka, kb, op)
    for ka in ('dyn', 'dext', 'fix', 'ext'):
        for kb in ('dyn', 'cdext', 'fix'):
            add(vassign, ka, kb)
    for what in ('dot', 'cross', 'perp', 'triple'):
        for ka, kb in pairs:
            add(vscalar, ka, kb, what, 2 if what == 'perp' else 3)
    for how in ('list', 'array', 'set'):
        for ka in ('dyn', 'dext') + (('fix', 'ext') if how == 'list' else ()):
            add(vlist, ka, how)
    for what in ('add', 'sub', 'mul', 'pluseq', 'minuseq', 'assign'):
        for ka, kb, la, lb in [('dyn', 'dyn', 'row', 'col'), ('dext', 'dyn', 'col', 'col'), ('fix', 'dyn', 'row', 'row'), ('dyn', 'fix', 'col', 'row'),
                               ('ext', 'dext', 'row', 'row'), ('dyn', 'dext', 'row', 'row')]:
            add(mcase, ka, kb, what, la, la if what == 'mul' else lb)   # products of mixed layouts do not compile
    for how in ('arr2', 'arr', 'list'):
        for kk, lay in (('dyn', 'row'), ('dext', 'col'), ('dext', 'row'), ('dyn', 'col')):
            add(marray, kk, how, lay)
    for what in ('det', 'mdet', 'trace', 'inv', 'minv', 'lu'):
        for kk in ('dyn', 'dext'):
            add(msquare, kk, what)
    for what in ('mv', 'vm'):
        for km, kv in (('dyn', 'dyn'), ('dyn', 'fix'), ('fix', 'cdext'), ('dext', 'dyn')):
            add(mvec, km, kv, what)
    for what in ('mrow', 'mcol'):
        for kk in ('dyn', 'dext', 'fix'):
            add(mrowcol, kk, what)
    for kk in ('dyn', 'dext'):
        add(lusolve, kk)
    from contracts import sized
    return chunks('c02', cs, 12) + sized.family('c02', tier)
