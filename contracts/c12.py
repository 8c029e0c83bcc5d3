"""C12: LU factorisation and triangular solves"""
from contracts.common import *
from contracts.c01 import prom, conv
from contracts.c08 import bounded, KINDS, BASES, LAYOUTS
from contracts.c09 import mmap, small

META = {'level': 'proof'}
EPS = {'double': 2.0 ** -52, 'float': 2.0 ** -23}


def LofU(M):
    n = len(M)
    L = [[M[i][j] if j < i else const(1 if i == j else 0) for j in range(n)] for i in range(n)]
    U = [[M[i][j] if j >= i else const(0) for j in range(n)] for i in range(n)]
    return L, U


def minors(A):
    return [det([r[:k] for r in A[:k]]) for k in range(1, len(A))]


def parity(p):
    return (-1) ** sum(1 for i in range(len(p)) for j in range(i) if p[j] > p[i])


def c_lu(nm, k, t, n, bl, l):
    body = mat(k, t, 'A', 'a', n, n, bl, l) + '''
  auto R = lu(A); on[0] = R.rows(); on[1] = R.cols(); outm(o, R, %(n)d, %(n)d); outm(p, lu(A + A), %(n)d, %(n)d); outm(a1, A, %(n)d, %(n)d);''' % dict(n=n)
    ps = [P('a', t, (n, n), gen='dense'), P('on', 'int', 2, 'out')] + [P(x, t, (n, n), 'out') for x in ('o', 'p', 'a1')]

    def ens(I, O):
        L, U = LofU(O.o)
        L2, U2 = LofU(O.p)
        return [('shape', and_(is_val(O.on[0], n), is_val(O.on[1], n)))] + meq('L*U', mm(L, U), I.a) + \
            meq('L*U of an expression', mm(L2, U2), mmap(lambda x: x + x, I.a)) + meq('argument kept', O.a1, I.a) + \
            [('U(0,%d)' % j, eq(O.o[0][j], I.a[0][j])) for j in range(n)]
    return Case(nm, body, ps, ens, lambda I: [nonzero(m) for m in minors(I.a)], level=bounded(k), label='lu of %s' % mtype(k, t, n, n, bl, l))


def c_solve(nm, k, kv, t, tx, tb, n, l, form):
    """triangular solves with given factors: L*U*x = b"""
    tt = prom(prom(t, tx), tb)
    body = mat(k, t, 'A', 'a', n, n, 'col', l)
    if form == 'alias':
        body += vec(kv, tx, 'X', 'x', n) + 'out(b1, X, %d); lu_solve(A, X, X);' % n
    elif form == 'ret':
        body += vec(kv, tb, 'B', 'b', n) + 'auto X = lu_solve(A, B); out(b1, B, %d);' % n
    else:
        body += vec(kv, tx, 'X', 'x', n) + vec(kv, tb, 'B', 'b', n) + 'lu_solve(A, X, B); out(b1, B, %d);' % n
    body += 'on[0] = X.size(); out(o, X, %d); outm(a1, A, %d, %d);' % (n, n, n)
    ps = [P('a', t, (n, n), gen='dense'), P('x', tx, n, mode(kv)), P('b', tb, n, mode(kv)), P('b1', tb, n, 'out'), P('on', 'int', 1, 'out'), P('o', tx, n, 'out'),
          P('a1', t, (n, n), 'out')]

    def ens(I, O):
        L, U = LofU(I.a)
        b = I.x if form == 'alias' else I.b
        return [('size', is_val(O.on[0], n))] + veq('L*U*x', mv(mm(L, U), O.o), [conv(tx, x) for x in b]) + veq('right-hand side kept', O.b1, b) + \
            meq('factors kept', O.a1, I.a) + (kept(I, O, 'b') if form != 'alias' else [])
    return Case(nm, body, ps, ens, lambda I: [nonzero(I.a[i][i]) for i in range(n)] + small(I.x, I.b), level=bounded(k, kv),
                label='lu_solve %s with %s %s = %s' % (form, mtype(k, t, n, n, 'col', l), vtype(kv, tx, n), vtype(kv, tb, n)))


def c_psolve(nm, k, kv, t, tx, tb, n, l, form):
    """solves with given pivoted factors: L*U*x = P*b"""
    M = mtype('dyn' if k in ('dyn', 'dext') else 'fix', t, n, n, 'col', l)
    body = mat(k, t, 'A0', 'a', n, n, 'col', l) + '%s A1(A0); lu_pivot_result<%s> A(A1); for(int i = 0; i < %d; ++i) A.order[i] = ord[i]; A.sign = sg;' % (M, M, n)
    if form == 'alias':
        body += vec(kv, tx, 'X', 'x', n) + 'out(b1, X, %d); lu_solve(A, X, X);' % n
    elif form == 'ret':
        body += vec(kv, tb, 'B', 'b', n) + 'auto X = lu_solve(A, B); out(b1, B, %d);' % n
    else:
        body += vec(kv, tx, 'X', 'x', n) + vec(kv, tb, 'B', 'b', n) + 'lu_solve(A, X, B); out(b1, B, %d);' % n
    body += 'on[0] = X.size(); out(o, X, %d); outm(a1, A.lu, %d, %d); for(int i = 0; i < %d; ++i) o1[i] = A.order[i]; o1[%d] = A.sign;' % (n, n, n, n, n)
    ps = [P('a', t, (n, n), gen='dense'), P('x', tx, n, mode(kv)), P('b', tb, n, mode(kv)), P('ord', 'int', n, lo=0, hi=n - 1), P('sg', 'int', None, lo=-1, hi=1),
          P('b1', tb, n, 'out'), P('on', 'int', 1, 'out'), P('o', tx, n, 'out'), P('a1', t, (n, n), 'out'), P('o1', 'int', n + 1, 'out')]

    def pick(v, i):
        r = v[n - 1]
        for q in range(n - 2, -1, -1):
            r = ite(is_val(i, q), v[q], r)
        return r

    def ens(I, O):
        L, U = LofU(I.a)
        b = I.x if form == 'alias' else I.b
        y = mv(mm(L, U), O.o)
        res = [('size', is_val(O.on[0], n))] + veq('right-hand side kept', O.b1, b) + \
            meq('factors kept', O.a1, I.a) + (kept(I, O, 'b') if form != 'alias' else [])
        for i in range(n):
            for q in range(n):
                res.append(('L*U*x = P*b [%d]' % i, implies(is_val(I.ord[i], q), eq(y[i], conv(tx, b[q])))))
        return res + veq('order kept', O.o1, I.ord + [I.sg])

    def req(I):
        return [nonzero(I.a[i][i]) for i in range(n)] + small(I.x, I.b) + [in_range(x, 0, n - 1) for x in I.ord] + \
            [ne(I.ord[i], I.ord[j]) for i in range(n) for j in range(i)]
    return Case(nm, body, ps, ens, req, throws=lambda I: [('@_ZTISt16invalid_argument', is_val(I.sg, 0))], level=bounded(k, kv),
                label='lu_solve %s with pivoted %s %s = %s' % (form, mtype(k, t, n, n, 'col', l), vtype(kv, tx, n), vtype(kv, tb, n)))


def c_pivot(nm, k, t, n, l, form):
    body = mat(k, t, 'A', 'a', n, n, 'col', l)
    if form == 'ret':
        body += 'auto R = lu_pivot(A);'
    else:
        M = mtype('dyn' if k in ('dyn', 'dext') else 'fix', t, n, n, 'col', l)
        body += '%s A1(A); lu_pivot_result<%s> R(A1); lu_pivot(R);' % (M, M)
    body += 'sg[0] = R.sign; for(int i = 0; i < %(n)d; ++i) ord[i] = R.order[i]; outm(o, R.lu, %(n)d, %(n)d); outm(a1, A, %(n)d, %(n)d);' % dict(n=n)
    ps = [P('a', t, (n, n), gen='ties' if n == 2 else 'dense'), P('sg', 'int', 1, 'out'), P('ord', 'int', n, 'out'), P('o', t, (n, n), 'out'), P('a1', t, (n, n), 'out')]
    eps = const(EPS[t])

    def ens(I, O):
        L, U = LofU(O.o)
        lu_ = mm(L, U)
        res = meq('argument kept', O.a1, I.a)
        perms = list(itertools.permutations(range(n)))
        ok = ne(O.sg[0], const(0, 32))
        isp = {p: and_(*[is_val(O.ord[i], p[i]) for i in range(n)]) for p in perms}
        res.append(('order is a permutation', or_(*isp.values())))
        for p in perms:
            res.append(('sign of the permutation', implies(and_(ok, isp[p]), is_val(O.sg[0], parity(p)))))
            res += [(x, implies(and_(ok, isp[p]), c)) for x, c in meq('L*U = P*A', lu_, [I.a[q] for q in p])]
        for q in range(n - 1):
            res.append(('pivot %d usable' % q, implies(ok, ge(tm.fabs(O.o[q][q]), eps))))
            if n <= 3:
                res += [('multiplier (%d,%d) at most one' % (i, q), implies(ok, le(tm.fabs(O.o[i][q]), const(1)))) for i in range(q + 1, n)]
        res.append(('singular only without a usable pivot',
                    implies(not_(ok), or_(*[and_(*[lt(tm.fabs(O.o[i][q]), eps) for i in range(q, n)]) for q in range(n - 1)]))))
        return res
    return Case(nm, body, ps, ens, level=bounded(k), label='lu_pivot %s of %s' % (form, mtype(k, t, n, n, 'col', l)), opts={'cost': n, 'prune': True})


def c_pivot_big(nm, k, t, n, l):
    """sizes beyond the proof: bounded native runs of factorisation and solve together"""
    body = mat(k, t, 'A', 'a', n, n, 'col', l) + vec('dyn' if k != 'fix' else 'fix', t, 'B', 'b', n) + '''
  auto R = lu_pivot(A); sg[0] = R.sign; auto X = lu_solve(R, B); out(x, X, %d); auto D = lu(A); auto Y = lu_solve(D, B); out(y, Y, %d);''' % (n, n)

    def ens(I, O):
        return veq('A*x = b', mv(I.a, O.x), I.b) + [('sign', or_(is_val(O.sg[0], 1), is_val(O.sg[0], -1)))]
    return Case(nm, body, [P('a', t, (n, n), gen='dense'), P('b', t, n), P('sg', 'int', 1, 'out'), P('x', t, n, 'out'), P('y', t, n, 'out')], ens,
                lambda I: [ge(tm.fabs(det(I.a)), const(1))], level='tested', tol=1e-6, label='lu_pivot and lu_solve of %s' % mtype(k, t, n, n, 'col', l))


def units(tier):
    cs, heavy, big = [], [], []
    n = [0]

    def add(f, *a, to=cs):
        n[0] += 1
        to.append(f('c12_%s_%d' % (f.__name__, n[0]), *a))
    th = tier == 'thorough'
    for k in KINDS:
        for l in LAYOUTS:
            for m in (2, 3, 4):
                for b in BASES:
                    add(c_lu, k, 'double', m, b, l)
            for m in (2, 3):
                for f in ('ret', 'in'):
                    add(c_pivot, k, 'double', m, l, f, to=heavy)
    add(c_lu, 'fix', 'float', 3, 'col', 'row')
    add(c_lu, 'dyn', 'float', 2, 'row', 'col')
    add(c_pivot, 'fix', 'float', 2, 'row', 'ret', to=heavy)
    if th:
        for k in ('fix', 'dyn'):
            for l in LAYOUTS:
                add(c_pivot, k, 'double', 4, l, 'ret', to=heavy)
    for k, kv in (('fix', 'fix'), ('fix', 'ext'), ('dyn', 'dyn'), ('fix', 'dyn'), ('dext', 'dext'), ('ext', 'ext'), ('dyn', 'fix')):
        for l in LAYOUTS:
            for m in (2, 3, 4):
                for f in ('into', 'alias', 'ret'):
                    if f == 'ret' and kv in ('dext',):
                        continue
                    add(c_solve, k, kv, 'double', 'double', 'double', m, l, f)
                    if m < 4 and k in ('fix', 'dyn') or th:
                        add(c_psolve, k, kv, 'double', 'double', 'double', m, l, f)
    for ts in (('double', 'double', 'int'), ('float', 'double', 'int'), ('double', 'double', 'float'), ('float', 'float', 'int')):
        for k, kv in (('fix', 'fix'), ('dyn', 'dyn')):
            add(c_solve, k, kv, *ts, 2, 'row', 'into')
            add(c_psolve, k, kv, *ts, 2, 'row', 'into')
            add(c_solve, k, kv, *ts, 3, 'row', 'into')
    for k in ('fix', 'dyn'):
        for m in (5, 6):
            add(c_pivot_big, k, 'double', m, 'row', to=big)
    return chunks('c12', cs, 12) + chunks('c12h', heavy, 4) + chunks('c12b', big, 2)
