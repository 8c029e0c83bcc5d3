"""C07: storage: ownership, views, resizing, exceptions and lifetime.

Histories: every pair of operations on two owning objects, for all sizes up to the bound, all elements and every
allocation that can fail (the allocator below fails at a symbolic allocation number).  The executor's heap model adds
the obligations that no freed, uninitialised or out-of-range memory is touched and that nothing leaks."""
from contracts.common import *

META = {'level': 'proof'}
N = 3

ALLOC = r'''
struct cvmem { static inline int left = 0, live = 0, bad = 0; };
template <class T> struct cval {
  using value_type = T;
  cval() noexcept {}
  template <class U> cval(const cval<U>&) noexcept {}
  T* allocate(std::size_t n) { if (cvmem::left == 0) throw std::bad_alloc(); --cvmem::left; cvmem::live += (int) n + 1; return (T*) ::operator new(n * sizeof(T)); }
  void deallocate(T* p, std::size_t n) { if (p == nullptr) { if (n != 0) cvmem::bad = 1; return; } cvmem::live -= (int) n + 1; ::operator delete(p); }
  friend bool operator==(const cval&, const cval&) { return true; }
  friend bool operator!=(const cval&, const cval&) { return false; }
};
#include <new>
#include <utility>
'''
V = 'vector<%s,dynamic<cval<void*>>>'
M = 'matrix<%s,dynamic<cval<void*>>,%s_basis,%s_major>'


class Undef:
    pass


U = Undef()


# Each operation: (name, C++ statement, model(state) -> state or error, can fail for lack of memory).
# state: {'A': (size, [elements or U]), 'B': ...}; p: the extra size parameter.
def o_assign(s, p):
    return dict(s, B=s['A'])


def o_assign_self(s, p):
    return s


def o_move(s, p):
    return dict(s, B=s['A'], A=(None, None))      # the source keeps an unspecified value


def o_resize(s, p):
    n, e = s['A']
    k = s['cnt'](p)
    return dict(s, A=(p, (list(e) + [U] * k)[:k]))


def o_resize_fast(s, p):
    n, e = s['A']
    k = s['cnt'](p)
    return dict(s, A=(p, list(e) if p == n else [U] * k))


def o_swap(s, p):
    return dict(s, A=s['B'], B=s['A'])


def o_double(s, p):
    return dict(s, A=(s['A'][0], [x + x for x in s['A'][1]]))


def o_expr(s, p):
    n, e = s['A']
    return dict(s, B=(n, [x + x for x in e]))


def o_copyback(s, p):
    """through a temporary copy: B takes A's old value after A changed"""
    n, e = s['A']
    return dict(s, A=(n, [x + x for x in e]), B=(n, list(e)))


VOPS = [('assign', 'B = A;', o_assign, True), ('self', 'A = *pA;', o_assign_self, False), ('selfmove', 'A = std::move(*pA);', o_assign_self, False),
        ('move', 'B = std::move(A);', o_move, False), ('resize', 'A.resize(DIMP);', o_resize, True), ('fast', 'A.resize_fast(DIMP);', o_resize_fast, True),
        ('swap', 'std::swap(A, B);', o_swap, False), ('scale', 'A += A;', o_double, False), ('expr', 'B = A + A;', o_expr, True),
        ('copy', '{ TY T(A); A += T; B = std::move(T); }', o_copyback, True), ('ret', 'B = dup(A);', o_assign, True)]


def usable(op, s):
    """operations do not read unspecified elements (or a moved-from object)"""
    def known(x):
        n, e = s[x]
        return n is not None and not any(y is U for y in e)
    if op in ('assign', 'scale', 'expr', 'copy', 'ret'):
        return known('A')
    if op in ('self', 'resize', 'fast', 'selfmove'):
        return s['A'][0] is not None
    return True


def sel(nm, vals):
    """C++ expression selecting a constant by a symbolic index"""
    e = str(vals[-1])
    for i in range(len(vals) - 1):
        e = '(%s == %d ? %d : %s)' % (nm, i, vals[i], e)
    return e


def history(nm, ops, t, shapes=None, basis='col', layout='row', N=N, ms=(0, 2)):
    """a sequence of operations on two run-time sized vectors or (shapes given) matrices"""
    mat_ = shapes is not None
    ty = M % (CPP[t], basis, layout) if mat_ else V % CPP[t]
    if mat_:
        cap = max(r * c for r, c in shapes)
        N = len(shapes) - 1

        def dim(x):
            return '%s, %s' % (sel(x, [r for r, c in shapes]), sel(x, [c for r, c in shapes]))

        def cnt(k):
            return shapes[k][0] * shapes[k][1]
    else:
        cap = N

        def dim(x):
            return x

        def cnt(k):
            return k
    steps = ''.join('rc = %d; %s ' % (k, st.replace('TY', ty)) for k, (_, st, _, _) in enumerate(ops))
    body = '''cvmem::left = 100; cvmem::live = 0; cvmem::bad = 0; int rc = 0;
  { %s A(DIMN), B(DIMM); LOAD auto* pA = &A; auto dup = [](const %s& x) { %s y(x); return y; }; (void) pA; (void) dup;
    cvmem::left = f;
    try { %s rc = %d; } catch (const std::bad_alloc&) { rc += 100; }
    cvmem::left = 100;
    if (rc >= 100 || rc == %d) { SIZES }
    KEEP
    USABLE
  }
  bal[0] = cvmem::live; bal[2] = cvmem::bad; return rc;''' % (ty, ty, ty, steps, len(ops), len(ops))
    body = body.replace('DIMN', dim('n')).replace('DIMM', dim('m')).replace('DIMP', dim('p'))
    if mat_:
        body = body.replace('LOAD', 'for (int i = 0; i < A.rows() * A.cols(); ++i) A.data()[i] = a[i]; for (int i = 0; i < B.rows() * B.cols(); ++i) B.data()[i] = b[i];')
        body = body.replace('SIZES', 'nA[0] = A.rows(); nA[1] = A.cols(); nB[0] = B.rows(); nB[1] = B.cols();')
        body = body.replace('USABLE', 'A.resize(2, 1); B.resize(1, 1); A.zero(); B = A; B(1, 0) = 1; bal[1] = A(0, 0) == 0 && B.rows() == 2 && B.cols() == 1;')
    else:
        body = body.replace('LOAD', 'ld(A, a, n); ld(B, b, m);').replace('SIZES', 'nA[0] = A.size(); nB[0] = B.size();')
        body = body.replace('USABLE', 'A.resize(2); B.resize(1); A.zero(); B = A; B[1] = 1; bal[1] = A[0] == 0 && B.size() == 2;')

    def runmodel(I, n, m, p):
        s = {'A': (n, list(I.a[:cnt(n)])), 'B': (m, list(I.b[:cnt(m)])), 'cnt': cnt}
        states = [s]
        for name, _, model, _ in ops:
            if not usable(name, s):
                return None
            s = model(s, p)
            states.append(s)
        return states

    def known(st, x):
        n, e = st[x]
        if n is None:
            return 0
        k = 0
        while k < cnt(n) and e[k] is not U:
            k += 1
        return k

    usesp = any(o[0] in ('resize', 'fast') for o in ops)
    sizes = [(n, m, p) for n in range(N + 1) for m in ms for p in (range(N + 1) if usesp else (0,))]

    class D:
        a, b = [0] * cap, [0] * cap
    ok = {k: runmodel(D, *k) for k in sizes}
    if not any(ok.values()):
        return None
    # which elements are meaningful depends on the sizes: report only those the model knows (others may be uninitialised)
    lines = ''
    for (n, m, p), ss in ok.items():
        if ss is not None:
            reach = [ss[i] for i in range(len(ops)) if ops[i][3]] + [ss[-1]]
            lines += 'if (n == %d && m == %d && p == %d) { kA = %d; kB = %d; } ' % (n, m, p, min(known(x, 'A') for x in reach), min(known(x, 'B') for x in reach))
    body = body.replace('KEEP', ('int kA = 0, kB = 0; %s for (int i = 0; i < kA; ++i) oA[i] = A[i]; for (int i = 0; i < kB; ++i) oB[i] = B[i];' % lines)
                        .replace(' A[i]', ' A.data()[i]' if mat_ else ' A[i]').replace(' B[i]', ' B.data()[i]' if mat_ else ' B[i]'))

    def combos(I):
        for n, m, p in sizes:
            yield n, m, p, and_(is_val(I.n, n), is_val(I.m, m), is_val(I.p, p))

    def req(I):
        return [in_range(I.f, 0, 4), or_(*[c for n, m, p, c in combos(I) if ok[n, m, p] is not None])]

    def ens(I, O):
        r = [('memory balance', is_val(O.bal[0], 0)), ('no bogus deallocation', is_val(O.bal[2], 0)), ('objects stay usable', is_val(O.bal[1], 1)),
             ('succeeds while there is memory', implies(is_val(I.f, 4), is_val(O.ret, len(ops))))]
        for i, o in enumerate(ops):
            if not o[3]:
                r.append(('step %d (%s) needs no memory' % (i, o[0]), ne(O.ret, const(100 + i, 32))))
        for n, m, p, c in combos(I):
            ss = runmodel(I, n, m, p)
            if ss is None:
                continue
            for i in [i for i in range(len(ops)) if ops[i][3]] + [len(ops)]:
                cc = and_(c, is_val(O.ret, i if i == len(ops) else 100 + i))
                for x in 'AB':
                    nn, e = ss[i][x]
                    if nn is None:
                        continue
                    for d, dv in enumerate(shapes[nn] if mat_ else (nn,)):
                        r.append(('after %d of %d, %d/%d/%d: size %d of %s' % (i, len(ops), n, m, p, d, x), implies(cc, is_val(O['n' + x][d], dv))))
                    reach = [ss[q] for q in range(len(ops)) if ops[q][3]] + [ss[-1]]
                    for k in range(min(known(q, x) for q in reach)):
                        if e[k] is not U:
                            r.append(('after %d of %d, %d/%d/%d: %s[%d]' % (i, len(ops), n, m, p, x, k),
                                      implies(cc, eq(O['o' + x][k], e[k]))))
        return r
    ps = [P('a', t, cap), P('b', t, cap), P('n', 'int', lo=0, hi=N), P('m', 'int', values=list(ms)), P('p', 'int', **(dict(lo=0, hi=N) if usesp else dict(values=[0]))), P('f', 'int', lo=0, hi=4),
          P('nA', 'int', 2, 'out', opt=True), P('nB', 'int', 2, 'out', opt=True),
          P('oA', t, cap, 'out', opt=True), P('oB', t, cap, 'out', opt=True), P('bal', 'int', 3, 'out')]
    return Case(nm, body, ps, ens, req, ret='int', pre=ALLOC, level='bounded', opts={'maxpaths': 6000, 'leak': True},
                label='history %s on %s <%s>, %s, every allocation failing' % (
                    '; '.join(o[0] for o in ops), 'matrices' if mat_ else 'vectors', t, 'shapes %s' % (shapes,) if mat_ else 'sizes 0..%d' % N))


SHAPES = [(0, 0), (2, 1), (1, 2), (2, 2)]


# ---------------------------------------------------------------- construction that fails

def ctor_fail(nm, decl, ok, ps, req, label, errs):
    """a constructor that throws leaks nothing; one that succeeds yields a usable object"""
    body = """cvmem::left = 100; cvmem::live = 0; cvmem::bad = 0; int rc = 0;
  try { cvmem::left = f; %s cvmem::left = 100; rc = 1; } %s catch (const std::bad_alloc&) { rc = 3; }
  bal[0] = cvmem::live; bal[1] = cvmem::bad; return rc;""" % (decl, ''.join('catch (const %s&) { rc = 2; }' % e for e in errs))

    def ens(I, O):
        good = ok(I)
        return [('memory balance', is_val(O.bal[0], 0)), ('no bogus deallocation', is_val(O.bal[1], 0)),
                ('ok', implies(and_(good, is_val(I.f, 4)), is_val(O.ret, 1))), ('error', implies(and_(not_(good), is_val(I.f, 4)), is_val(O.ret, 2))),
                ('never ok', implies(not_(good), ne(O.ret, const(1, 32))))]
    return Case(nm, body, ps + [P('f', 'int', lo=0, hi=4), P('bal', 'int', 2, 'out')], ens, lambda I: [in_range(I.f, 0, 4)] + req(I), ret='int', pre=ALLOC,
                level='bounded', label=label)


def ctor_fails():
    v, m = V % 'double', M % ('double', 'col', 'row')
    T = tm.TRUE
    n3 = lambda I: [in_range(I.n, -2, 3)]
    rc = lambda I: [in_range(I.n, -1, 3), in_range(I.m, -1, 3)]
    nn = lambda I: tm.icmp('sle', const(0, 32), I.n)
    nm_ = lambda I: and_(nn(I), tm.icmp('sle', const(0, 32), I.m))
    prod = lambda k: (lambda I: and_(nm_(I), eq(I.n * I.m, const(k, 32))))
    n, mm = P('n', 'int', lo=-2, hi=3), P('m', 'int', lo=-1, hi=3)
    a = P('a', 'double', 9)
    inv = ('std::invalid_argument',)
    merr = inv + ('incompatible_matrix_size_error', 'matrix_size_error', 'incompatible_matrix_row_size_error', 'incompatible_matrix_col_size_error')
    verr = inv + ('incompatible_vector_size_error', 'vector_size_error')
    out = []

    def add(*x):
        out.append(ctor_fail('c07_ctor_%d' % len(out), *x))
    add('%s A(n); A.resize(2); A[0] = 1;' % v, nn, [n], n3, 'vector(n)', verr)
    add('%s A(a, n); if (A.size() != n) rc = 9;' % v, nn, [a, n], n3, 'vector(pointer, n)', verr)
    add('%s A(n, a);' % v, nn, [a, n], n3, 'vector(n, pointer)', verr)
    add('%s A(2); A[0] = A[1] = 1; %s B(A); %s C(A + B); %s D(std::move(B));' % (v, v, v, v), lambda I: T, [n], n3, 'vector copies', verr)
    add('%s A(1., 2.); A.resize(n);' % v, nn, [n], n3, 'vector resize', verr)
    add('%s A(1., 2.); A.resize_fast(n);' % v, nn, [n], n3, 'vector resize_fast', verr)
    add('%s A{1., 2., 3.}; %s B(A, 4.); if (B.size() != 4) rc = 9;' % (v, v), lambda I: T, [n], n3, 'vector from a list, extended', verr)
    add('vector<double,fixed<3>> F(1., 2., 3.); %s A(n); A.zero(); F += A;' % v, lambda I: is_val(I.n, 3), [n], n3, 'fixed += run-time sized', verr)
    add('%s A(n), B(3); A.zero(); B.zero(); %s C(A + B);' % (v, v), lambda I: is_val(I.n, 3), [n], n3, 'vector from a sum', verr)
    add('%s A(n, m); A.resize(2, 2); A(0, 0) = 1;' % m, nm_, [n, mm], rc, 'matrix(r, c)', merr)
    add('%s A(n, m, a); ' % m, nm_, [a, n, mm], rc, 'matrix(r, c, pointer)', merr)
    add('%s A(a, n, m); ' % m, nm_, [a, n, mm], rc, 'matrix(pointer, r, c)', merr)
    add('double e[4] = {1, 2, 3, 4}; %s A(n, m, e);' % m, prod(4), [n, mm], rc, 'matrix(r, c, array)', merr)
    add('%s A(n, m, 1., 2., 3.);' % m, prod(3), [n, mm], rc, 'matrix(r, c, elements)', merr)
    add('%s A(n, m, 1.);' % m, prod(1), [n, mm], rc, 'matrix(r, c, element)', merr)
    add('double e[2][2] = {{1, 2}, {3, 4}}; %s A(e); %s B(A); %s C(A + B); %s D(std::move(B));' % (m, m, m, m), lambda I: T, [n, mm], rc, 'matrix copies', merr)
    add('%s A(1, 1); A(0, 0) = 1; A.resize(n, m);' % m, nm_, [n, mm], rc, 'matrix resize', merr)
    add('%s A(1, 1); A(0, 0) = 1; A.resize_fast(n, m);' % m, nm_, [n, mm], rc, 'matrix resize_fast', merr)
    add('%s A(2, 1), B(n, m); A.zero(); B.zero(); %s C(A * B);' % (m, m), lambda I: and_(nm_(I), is_val(I.n, 1)), [n, mm], rc, 'matrix from a product',
        merr + ('incompatible_matrix_inner_size_error',))
    add('%s A(n, m); A.identity(); %s B(inverse(A)); %s C(transpose(A)); double d = determinant(A); (void) d;' % (m, m, m),
        lambda I: and_(nm_(I), eq(I.n, I.m), ne(I.n, const(0, 32))), [n, mm], lambda I: rc(I) + [ne(I.n, const(0, 32)), ne(I.m, const(0, 32))],
        'matrix inverse and determinant', merr + ('non_square_matrix_error',))
    return [c for c in out if c]


# ---------------------------------------------------------------- views and fixed storage

def view_vec(nm, k, t, n=4):
    """a view reads and writes exactly its memory: two overlapping views and a separate one over one buffer of 2n elements"""
    def V_(x, p):
        return 'vector<%s,external<%s>> %s(%s%s);' % (CPP[t], n - 1 if k == 'ext' else '', x, p, '' if k == 'ext' else ', %d' % (n - 1))
    body = V_('A', 'a') + V_('B', 'a + 1') + """
  o[0] = A[1]; o[1] = B[0]; A[1] = x; o[2] = B[0]; B[%d] = y; auto C = A; C[0] = z; o[3] = A[0]; auto D = std::move(C); D *= 2; o[4] = A[0];
  %s
  A = E;            // copies elements, does not rebind
  d[0] = A.data() == a; d[1] = D.data() == a; d[2] = A.size(); d[3] = B.data() == a + 1;""" % (n - 2, V_('E', 'a + %d' % (n + 1)))

    def ens(I, O):
        a = list(I.a)
        o = [a[1], a[1], I.x]
        a[1] = I.x
        a[n - 1] = I.y
        a[0] = I.z
        o.append(I.z)
        for i in range(n - 1):
            a[i] = a[i] * 2 if t != 'int' else a[i] + a[i]
        o.append(a[0])
        for i in range(n - 1):
            a[i] = a[n + 1 + i]
        return veq('read', O.o, o) + veq('memory', O.a, a) + [('binding %d' % i, is_val(O.d[i], v)) for i, v in enumerate((1, 1, n - 1, 1))]
    return Case(nm, body, [P('a', t, 2 * n, 'inout'), P('x', t), P('y', t), P('z', t), P('o', t, 5, 'out'), P('d', 'int', 4, 'out')], ens,
                label='overlapping views %s<%s> of a buffer' % (k, t))


def view_mat(nm, k, t, r, c, basis, layout):
    def M_(x, p):
        return 'matrix<%s,external<%s>,%s_basis,%s_major> %s(%s%s);' % (CPP[t], '%d,%d' % (r, c) if k == 'ext' else '', basis, layout, x, p,
                                                                     '' if k == 'ext' else ', %d, %d' % (r, c))
    n = r * c
    body = M_('A', 'a') + M_('B', 'b') + """
  o[0] = A(%d, %d); A(%d, %d) = x; A.put(0, %d, y); A += B; A = A + B; d[0] = A.data() == a; d[1] = A.rows(); d[2] = A.cols(); d[3] = A.end() - A.begin();
  auto C = std::move(B); C(0, 0) = x; d[4] = C.data() == b;""" % (r - 1, 0, r - 1, c - 1, c - 1)

    def at(i, j):
        return i * c + j if layout == 'row' else j * r + i

    def ens(I, O):
        a, b = list(I.a), list(I.b)
        o = a[at(r - 1, 0)]
        a[at(r - 1, c - 1)] = I.x
        a[at(0, c - 1)] = I.y
        for i in range(n):
            a[i] = a[i] + b[i] + b[i]
        b[0] = I.x
        return [('read', eq(O.o[0], o))] + veq('memory', O.a[:n], a[:n]) + veq('beyond', O.a[n:], I.a[n:]) + veq('operand', O.b, b) + \
            [('binding %d' % i, is_val(O.d[i], v)) for i, v in enumerate((1, r, c, n, 1))]
    return Case(nm, body, [P('a', t, n + 2, 'inout'), P('b', t, n, 'inout'), P('x', t), P('y', t), P('o', t, 1, 'out'), P('d', 'int', 5, 'out')], ens,
                label='views %s<%s> %dx%d %s basis, %s major' % (k, t, r, c, basis, layout))


def view_life(nm, t, n, const=False):
    """run-time views: copies and moves rebind, reset detaches; the memory itself is only touched through element writes"""
    V_ = 'vector<%s%s,external<>>' % ('const ' if const else '', CPP[t])
    body = V_ + ' A(a, %d); ' % n + V_ + ' B(%d, a + 1); ' % (n - 1) + V_ + (' C(%d, a)' % n if const else ' C(A)') + """; C.reset(); d[0] = C.size(); d[1] = C.data() == nullptr; d[2] = A.size();
  """ + V_ + """ D(std::move(A)); d[3] = D.size(); d[4] = D.data() == a; d[5] = D.end() - D.begin(); A.reset(); d[6] = A.size(); """ + \
        ('' if const else 'B = std::move(D); d[7] = B.data() == a; d[8] = B.size(); B[0] = x; B.reset(); d[9] = B.size(); ')

    def ens(I, O):
        want = (0, 1, n, n, 1, n, 0) + (() if const else (1, n, 0))
        return veq('memory', O.a, list(I.a) if const else [I.x] + list(I.a[1:])) + [('binding %d' % i, is_val(O.d[i], v)) for i, v in enumerate(want)]
    return Case(nm, body, [P('a', t, n, 'inout'), P('x', t), P('d', 'int', 7 if const else 10, 'out')], ens, label='life of run-time %sviews <%s>, size %d' % ('const ' if const else '', t, n))


def mview_life(nm, t, r, c, basis, layout):
    M_ = 'matrix<%s,external<>,%s_basis,%s_major>' % (CPP[t], basis, layout)
    n = r * c
    body = M_ + ' A(a, %d, %d); ' % (r, c) + M_ + """ C(a, %d, %d); C.reset(); d[0] = C.rows(); d[1] = C.cols(); d[2] = C.data() == nullptr; d[3] = A.rows() * 10 + A.cols();
  A.resize(%d, %d); d[4] = A.rows() * 10 + A.cols(); d[5] = A.data() == a; o[0] = A(%d, 0); A(%d, %d) = x;
  """ % (r, c, c, r, c - 1, c - 1, r - 1) + M_ + """ D(std::move(A)); d[6] = D.rows() * 10 + D.cols(); d[7] = D.data() == a; D(0, 0) = x; A.reset(); d[8] = A.rows() + A.cols();
  %s E(b, %d, %d); E = std::move(D); d[9] = E.data() == a; d[10] = E.rows() * 10 + E.cols();""" % (M_, r, c)

    def ens(I, O):
        a = list(I.a)
        o = a[(c - 1) * r if layout == 'row' else c - 1]
        a[n - 1] = I.x
        a[0] = I.x
        want = (0, 0, 1, r * 10 + c, c * 10 + r, 1, c * 10 + r, 1, 0, 1, c * 10 + r)
        return veq('memory', O.a, a) + veq('other', O.b, list(I.b)) + [('read', eq(O.o[0], o))] + [('binding %d' % i, is_val(O.d[i], v)) for i, v in enumerate(want)]
    return Case(nm, body, [P('a', t, n, 'inout'), P('b', t, n, 'inout'), P('x', t), P('o', t, 1, 'out'), P('d', 'int', 11, 'out')], ens,
                label='life of run-time matrix views <%s> %dx%d %s basis, %s major' % (t, r, c, basis, layout))


def rebind(nm, t, n, kind, const=False):
    """default-constructed and move-assigned external vectors bind to the source's memory without touching it"""
    c = 'const ' if const else ''
    V_ = 'vector<%s%s,%s>' % (c, CPP[t], 'external<%d>' % n if kind == 'fix' else 'external<>')
    A = '%s A(a);' % V_ if kind == 'fix' else '%s A(a, %d);' % (V_, n)
    E = '' if kind == 'fix' else ' z[0] = E.size(); z[1] = E.data() == nullptr;'
    asg = '' if const else ' E = std::move(A);'
    body = '%s %s %s E; %s %s F(std::move(%s)); z[2] = F.data() == a; z[3] = F.size(); z[4] = F.end() - F.begin(); out(o, F, %d);' % (c and '', A, V_, E + asg, V_, 'A' if const else 'E', n)
    if not const:
        body += ' F[%d] = x; %s G(%s); G = F; out(p, G, %d); z[5] = G.data() == F.data();' % (n - 1, V_, 'b' if kind == 'fix' else 'b, %d' % n, n)

    def ens(I, O):
        a = list(I.a)
        w = a[:-1] + [I.x]
        r = veq('read through the rebound view', O.o, a) + [('binding %d' % i, is_val(O.z[i], v)) for i, v in enumerate((0, 1, 1, n, n)) if kind == 'dyn' or i > 1]
        if const:
            return r + veq('memory', O.a, a)
        return r + veq('memory', O.a, w) + veq('copy assignment copies elements', O.b, w) + veq('read back', O.p, w) + [('copy assignment does not rebind', is_val(O.z[5], 0))]
    return Case(nm, body, [P('a', t, n, 'inout'), P('b', t, n, 'inout'), P('x', t), P('o', t, n, 'out')] + ([] if const else [P('p', t, n, 'out')]) + [P('z', 'int', 6, 'out', opt=True)], ens,
                label='rebinding of %sexternal vectors (%s) <%s>, size %d' % (c, kind, t, n))


def mrebind(nm, t, r, c, basis, layout, kind):
    """default-constructed and move-assigned external matrices, matrices bound to two-dimensional arrays"""
    n = r * c
    M_ = 'matrix<%s,%s,%s_basis,%s_major>' % (CPP[t], 'external<%d,%d>' % (r, c) if kind == 'fix' else 'external<>', basis, layout)
    A = '%s A(a);' % M_ if kind == 'fix' else '%s A(%d, %d, a);' % (M_, r, c)
    d2 = (r, c) if layout == 'row' else (c, r)
    body = '%s %s E; %s E = std::move(A); z[2] = E.data() == a; z[3] = E.rows(); z[4] = E.cols(); outm(o, E, %d, %d); %s F(std::move(E)); F(%d, %d) = x; z[5] = F.data() == a;' % (
        A, M_, '' if kind == 'fix' else 'z[0] = E.rows() + E.cols(); z[1] = E.data() == nullptr;', r, c, M_, r - 1, 0)
    body += ' %s t[%d][%d]; for (int i = 0; i < %d; ++i) (&t[0][0])[i] = b[i]; %s H(t); outm(h, H, %d, %d); H(0, %d) = x; for (int i = 0; i < %d; ++i) b[i] = (&t[0][0])[i];' % (
        CPP[t], d2[0], d2[1], n, M_, r, c, c - 1, n)

    def ens(I, O):
        ix = lambda i, j: i * c + j if layout == 'row' else j * r + i
        a, b = list(I.a), list(I.b)
        a[ix(r - 1, 0)] = I.x
        b[ix(0, c - 1)] = I.x
        return meq('read', O.o, [[I.a[ix(i, j)] for j in range(c)] for i in range(r)]) + veq('memory', O.a, a) + \
            meq('array', O.h, [[I.b[ix(i, j)] for j in range(c)] for i in range(r)]) + veq('array memory', O.b, b) + \
            [('binding %d' % i, is_val(O.z[i], v)) for i, v in enumerate((0, 1, 1, r, c, 1)) if kind == 'dyn' or i > 1]
    return Case(nm, body, [P('a', t, n, 'inout'), P('b', t, n, 'inout'), P('x', t), P('o', t, (r, c), 'out'), P('h', t, (r, c), 'out'), P('z', 'int', 6, 'out', opt=True)], ens,
                label='rebinding of external matrices (%s) <%s> %dx%d %s basis, %s major' % (kind, t, r, c, basis, layout))


def fixed_own(nm, t, n):
    """fixed objects own their elements: copies and moved-to objects are independent"""
    body = vec('fix', t, 'A', 'a', n) + """auto B = A; auto C = std::move(A); auto* s = &B; B = *s; A = B; A += A; out(o, B, %d); B[0] = x; out(p, C, %d); C -= B; out(q, B, %d); out(r, A, %d);
  std::swap(A, B); out(u, A, %d); d[0] = A.data() != B.data(); d[1] = A.end() - A.begin();""" % (n, n, n, n, n)

    def ens(I, O):
        b = [I.x] + list(I.a[1:])
        a2 = [x + x for x in I.a]
        return veq('copy', O.o, I.a) + veq('moved-to', O.p, I.a) + veq('written', O.q, b) + veq('doubled', O.r, a2) + veq('swapped', O.u, b) + \
            [('own storage', is_val(O.d[0], 1)), ('extent', is_val(O.d[1], n))]
    return Case(nm, body, [P('a', t, n), P('x', t)] + [P(k, t, n, 'out') for k in 'opqru'] + [P('d', 'int', 2, 'out')], ens,
                label='fixed vectors <%s>, size %d own their elements' % (t, n))


def fixed_own_m(nm, t, r, c, basis, layout):
    ty = mtype('fix', t, r, c, basis, layout)
    body = mat('fix', t, 'A', 'a', r, c, basis, layout) + """%s B = A; %s C(std::move(A)); auto* s = &B; B = *s; A = B; A += A; outm(o, B, %d, %d); B(0, 0) = x; outm(p, C, %d, %d);
  std::swap(A, B); outm(u, A, %d, %d); outm(q, B, %d, %d); d[0] = A.end() - A.begin();""" % ((ty, ty) + (r, c) * 4)

    def ens(I, O):
        b = [list(x) for x in I.a]
        b[0][0] = I.x
        return meq('copy', O.o, I.a) + meq('moved-to', O.p, I.a) + meq('swapped', O.u, b) + meq('doubled', O.q, [[x + x for x in y] for y in I.a]) + \
            [('extent', is_val(O.d[0], r * c))]
    return Case(nm, body, [P('a', t, (r, c)), P('x', t)] + [P(k, t, (r, c), 'out') for k in 'opqu'] + [P('d', 'int', 1, 'out')], ens,
                label='fixed matrices <%s> %dx%d (%s,%s) own their elements' % (t, r, c, basis, layout))


def units(tier):
    cs = []
    for a in VOPS:
        for b in VOPS:
            k = 'c07_h_%s_%s' % (a[0], b[0])
            full = tier == 'thorough'
            cs.append(history(k, [a, b], 'double', N=3 if full else 2))
            cs.append(history(k + '_m', [a, b], 'double', SHAPES if full else SHAPES[1:], ms=(0, 2)))
    for i, o in enumerate(VOPS):
        cs.append(history('c07_1_%d' % i, [o], 'double'))
        cs.append(history('c07_1f_%d' % i, [o], 'float'))
        cs.append(history('c07_1i_%d' % i, [o], 'int'))
        cs.append(history('c07_1m_%d' % i, [o], 'double', SHAPES, 'row', 'col'))
        cs.append(history('c07_1mi_%d' % i, [o], 'int', SHAPES))
    cs += ctor_fails()
    for i, (k, t) in enumerate(itertools.product(('ext', 'dext'), ('double', 'float', 'int'))):
        cs.append(view_vec('c07_vv_%d' % i, k, t))
        for j, (b, l) in enumerate(itertools.product(('row', 'col'), repeat=2)):
            cs.append(view_mat('c07_vm_%d_%d' % (i, j), k, t, 2, 3, b, l))
    for i, t in enumerate(('double', 'float', 'int')):
        cs += [view_life('c07_vl_%d' % i, t, 3), view_life('c07_vlc_%d' % i, t, 3, True)]
        for j, (b, l) in enumerate(itertools.product(('row', 'col'), repeat=2)):
            cs.append(mview_life('c07_ml_%d_%d' % (i, j), t, 2, 3, b, l))
            for k in ('fix', 'dyn'):
                cs.append(mrebind('c07_mr_%d_%d_%s' % (i, j, k), t, 2, 3, b, l, k))
        for k in ('fix', 'dyn'):
            for c in (False, True):
                cs.append(rebind('c07_vr_%d_%s_%d' % (i, k, c), t, 3, k, c))
    for t in ('double', 'int'):
        for n in (1, 2, 3, 4, 5):
            cs.append(fixed_own('c07_f_%s_%d' % (t, n), t, n))
        for j, (b, l) in enumerate(itertools.product(('row', 'col'), repeat=2)):
            cs.append(fixed_own_m('c07_fm_%s_%d' % (t, j), t, 2, 3, b, l))
    from contracts import sized
    return chunks('c07', [c for c in cs if c], 10) + sized.family('c07', tier)
