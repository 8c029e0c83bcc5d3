"""C01: vector arithmetic"""
from contracts.common import *

META = {'level': 'proof'}
KINDS = ['fix', 'cext', 'dyn', 'cdext']


def prom(a, b):
    if 'double' in (a, b):
        return 'double'
    if 'float' in (a, b):
        return 'float'
    return 'int'


def conv(t, x):
    return x if t == 'int' else as_real(x)


def lift(vs, ct, t):
    return [conv(t, x) for x in vs]


def idiv(a, b):
    return tm.imk('sdiv', 32, a, b)


def div(t, a, b):
    return idiv(a, b) if t == 'int' else a / b


def params(ta, tb, n, tk=None, more=()):
    ps = [P('a', ta, n), P('b', tb, n)]
    return ps + list(more)


def linear(nm, ka, kb, ta, tb, n):
    """sum, difference, negation, scaling, division, nested expression and stored expressions"""
    t = prom(ta, tb)
    T, TA = CPP[t], CPP[ta]
    body = vec(ka, ta, 'A', 'a', n) + vec(kb, tb, 'B', 'b', n) + '''
  out(s, A + B, %d); out(d, A - B, %d); out(m, -A, %d); out(k1, A * k, %d); out(k2, k * A, %d); out(q, A / k, %d);
  out(u, +A, %d);
  out(z, (A - B) * k + (B - (-A)) / k, %d);
  auto e = (k * A - B) + (A + (-B)); out(y, e, %d);
''' % ((n,) * 9)
    O = lambda nm, t: P(nm, t, n, 'out')
    ps = [P('a', ta, n), P('b', tb, n), P('k', t), O('s', t), O('d', t), O('m', ta), O('k1', prom(ta, t)), O('k2', prom(ta, t)),
          O('q', prom(ta, t)), O('u', ta), O('z', t), O('y', t)]

    def ens(I, O):
        a, b, k = lift(I.a, ta, t), lift(I.b, tb, t), I.k
        na, nb = lift([-x for x in I.a], ta, t), lift([-x for x in I.b], tb, t)
        r = veq('a+b', O.s, vadd(a, b)) + veq('a-b', O.d, vsub(a, b)) + veq('-a', O.m, [-x for x in I.a])
        r += veq('a*k', O.k1, [x * k for x in a]) + veq('k*a', O.k2, [x * k for x in a])
        r += veq('a/k', O.q, [div(t, x, k) for x in a]) + veq('+a', O.u, I.a)
        r += veq('(a-b)*k+(b+a)/k', O.z, [(x - y) * k + div(t, y - z, k) for x, y, z in zip(a, b, na)])
        r += veq('stored (k*a-b)+(a-b)', O.y, [(k * x - y) + (x + z) for x, y, z in zip(a, b, nb)])
        return r

    def req(I):
        if t == 'int':
            # no signed overflow: the elements are small
            return [in_range(x, -10000, 10000) for x in list(I.a) + list(I.b) + [I.k]] + [nonzero(I.k)]
        return [nonzero(I.k)] + [in_range(x, -1000000, 1000000) for x in list(I.a) + list(I.b) if x.sort != 'R']
    return Case(nm, body, ps, ens, req, label='linear expressions %s<%s> with %s<%s>, size %d' % (ka, ta, kb, tb, n),
                level='bounded' if 'd' in ka + kb and n and ('dyn' in (ka, kb) or 'cdext' in (ka, kb)) else 'proved')


def compound(nm, ka, kb, ta, tb, n):
    """compound assignment; the target views or owns the elements; lvalue and rvalue targets"""
    T = CPP[ta]
    view = ka in ('ext', 'dext')
    wr = lambda o: '' if view else 'out(%s, A, %d);' % (o, n)
    body = []
    tgt = ['p', 'm', 's', 'q', 'w']
    ops = ['A += B;', 'A -= B;', 'A *= k;', 'A /= k;', 'A += (B - A) * k;']
    for o, op in zip(tgt, ops):
        body.append('{ ' + vec(ka, ta, 'A', o, n) + vec(kb, tb, 'B', 'b', n) + op + wr(o) + ' }')
    # rvalue overloads on views and temporaries
    if view:
        mkv = lambda o: '%s(%s%s)' % (vtype(ka, ta, n), o, '' if ka == 'ext' else ',%d' % n)
        body.append('{ ' + vec(kb, tb, 'B', 'b', n) + '%s += B; %s -= B; %s *= k; %s /= k; }' % (
            mkv('rp'), mkv('rm'), mkv('rs'), mkv('rq')))
    else:
        for o, op in zip(['rp', 'rm', 'rs', 'rq'], ['+= B', '-= B', '*= k', '/= k']):
            body.append('{ ' + vec(ka, ta, 'A', o, n) + vec(kb, tb, 'B', 'b', n) + 'auto&& R = std::move(A) %s; out(%s, R, %d); }' % (op, o, n))
    ps = [P('b', tb, n), P('k', ta)] + [P(o, ta, n, 'inout') for o in tgt + ['rp', 'rm', 'rs', 'rq']]
    t = prom(ta, tb)

    def back(x):
        if ta == 'int' and x.sort == 'R':
            return tm.mk('app', ('r2s', x), 32)
        return x

    def ens(I, O):
        b, k = lift(I.b, tb, t), conv(t, I.k)
        r = []
        for o in ('p', 'rp'):
            r += veq('+= ' + o, O[o], [back(conv(t, x) + y) for x, y in zip(I[o], b)])
        for o in ('m', 'rm'):
            r += veq('-= ' + o, O[o], [back(conv(t, x) - y) for x, y in zip(I[o], b)])
        for o in ('s', 'rs'):
            r += veq('*= ' + o, O[o], [x * I.k for x in I[o]])
        for o in ('q', 'rq'):
            r += veq('/= ' + o, O[o], [div(ta, x, I.k) for x in I[o]])
        r += veq('+= (b-a)*k', O.w, [back(conv(t, x) + (y - conv(t, x)) * k) for x, y in zip(I.w, b)])
        return r

    def req(I):
        out = [nonzero(I.k)]
        for o in ['b', 'k'] + tgt + ['rp', 'rm', 'rs', 'rq']:
            for x in (I[o] if isinstance(I[o], list) else [I[o]]):
                if x.sort != 'R':
                    out.append(in_range(x, -1000, 1000))
        return out
    return Case(nm, '\n'.join(body), ps, ens, req, label='compound assignment %s<%s> with %s<%s>, size %d' % (ka, ta, kb, tb, n),
                level='bounded' if ka in ('dyn', 'dext') or kb in ('dyn', 'cdext') else 'proved')


def alias(nm, kind, t, n):
    """scalar operand is an element of the target; vector operand is the target itself"""
    view = kind in ('ext', 'dext')
    body, ps = [], []
    spec = []
    ops = []
    for i in range(n):
        ops.append(('mul%d' % i, 'A *= A[%d];' % i, lambda v, i=i: [x * v[i] for x in v], None))
        ops.append(('div%d' % i, 'A /= A[%d];' % i, lambda v, i=i: [div(t, x, v[i]) for x in v], i))
    ops.append(('add', 'A += A;', lambda v: [x + x for x in v], None))
    ops.append(('sub', 'A -= A;', lambda v: [x - x for x in v], None))
    ops.append(('self', 'A = A;', lambda v: list(v), None))
    ops.append(('ex', 'A = A + A * A[0] - A;' if 0 else 'A = A + A;', lambda v: [x + x for x in v], None))
    for o, op, f, i in ops:
        body.append('{ ' + vec(kind, t, 'A', o, n) + op + ('' if view else 'out(%s, A, %d);' % (o, n)) + ' }')
        ps.append(P(o, t, n, 'inout'))

    def ens(I, O):
        r = []
        for o, op, f, i in ops:
            r += veq(op.rstrip(';'), O[o], f(I[o]))
        return r

    def req(I):
        out = []
        for o, op, f, i in ops:
            if i is not None:
                out.append(nonzero(I[o][i]))
            out += [in_range(x, -1000, 1000) for x in I[o] if x.sort != 'R']
        return out
    return Case(nm, '\n'.join(body), ps, ens, req, label='aliasing operand, %s<%s>, size %d' % (kind, t, n),
                level='bounded' if kind in ('dyn', 'dext') else 'proved')


def nodes(nm, ka, kb, t, n):
    """copied and moved expression nodes denote the same value, also after the original is gone"""
    ops = [('A + B', lambda a, b, k: a + b), ('A - B', lambda a, b, k: a - b), ('-A', lambda a, b, k: -a), ('+A', lambda a, b, k: a), ('A * k', lambda a, b, k: a * k),
           ('k * A', lambda a, b, k: a * k), ('A / k', lambda a, b, k: div(t, a, k)), ('(A + B) - (A + A)', lambda a, b, k: (a + b) - (a + a)),
           ('(A - B) * k', lambda a, b, k: (a - b) * k), ('-(A + B)', lambda a, b, k: -(a + b))]
    body = vec(ka, t, 'A', 'a', n) + vec(kb, t, 'B', 'b', n)
    for i, (e, f) in enumerate(ops):
        body += '{ auto mk = [&] { auto e = %s; auto f = e; return f; }; auto g = mk(); auto h = std::move(g); z[%d] = outn(o%d, h); auto p = h; out(p%d, p + h, %d); }\n' % (e, i, i, i, n)
    ps = [P('a', t, n), P('b', t, n), P('k', t)] + [P('%s%d' % (c, i), t, n, 'out') for i in range(len(ops)) for c in 'op'] + [P('z', 'int', len(ops), 'out')]

    def ens(I, O):
        r = []
        for i, (e, f) in enumerate(ops):
            v = [f(x, y, I.k) for x, y in zip(I.a, I.b)]
            r += veq('moved copy of ' + e, O['o%d' % i], v) + veq('sum of copies of ' + e, O['p%d' % i], [x + x for x in v]) + [('size of ' + e, is_val(O.z[i], n))]
        return r
    return Case(nm, body, ps, ens, lambda I: [nonzero(I.k)] + [in_range(x, -1000, 1000) for o in (I.a, I.b, [I.k]) for x in o if x.sort != 'R'],
                level='bounded' if ka in ('dyn', 'cdext') or kb in ('dyn', 'cdext') else 'proved', label='copied expression nodes, %s and %s <%s>, size %d' % (ka, kb, t, n))


def units(tier):
    cs = []
    k = [0]

    def add(f, *a):
        k[0] += 1
        cs.append(f('c01_%s_%d_%s' % (f.__name__, k[0], '_'.join(str(x) for x in a)), *a))
    for ka, kb in itertools.product(KINDS, KINDS):
        add(linear, ka, kb, 'double', 'double', 3)
    for n in (2, 4) if tier == 'quick' else (1, 2, 4, 5, 6, 8):
        add(linear, 'fix', 'fix', 'double', 'double', n)
    for n in (1, 2, 4, 5) if tier == 'quick' else (1, 2, 4, 5, 6, 8, 11):
        add(linear, 'dyn', 'cdext', 'double', 'double', n)
    for ta, tb in (('float', 'float'), ('float', 'double'), ('double', 'float'), ('int', 'int'), ('int', 'double'), ('double', 'int'),
                   ('int', 'float')):
        add(linear, 'fix', 'fix', ta, tb, 3)
        if tier != 'quick':
            for ka, kb in (('dyn', 'fix'), ('fix', 'cdext'), ('cext', 'dyn')):
                add(linear, ka, kb, ta, tb, 3)
    add(linear, 'dyn', 'cext', 'float', 'float', 3)
    add(linear, 'dyn', 'dyn', 'int', 'int', 2)
    for ka in ('fix', 'ext', 'dyn', 'dext'):
        for kb in KINDS:
            add(compound, ka, kb, 'double', 'double', 3)
        add(alias, ka, 'double', 3)
        add(alias, ka, 'float', 2)
    for ta, tb in (('float', 'float'), ('float', 'int'), ('double', 'float'), ('int', 'int')):
        add(compound, 'fix', 'fix', ta, tb, 3)
        add(compound, 'dyn', 'dyn', ta, tb, 2)
    add(alias, 'fix', 'int', 2)
    for n in (2, 4):
        add(alias, 'fix', 'double', n)
        add(compound, 'fix', 'fix', 'double', 'double', n)
        add(compound, 'dyn', 'fix', 'double', 'double', n)
    for ka, kb in itertools.product(KINDS, KINDS):
        add(nodes, ka, kb, 'double', 3)
    for t, n in (('int', 2), ('float', 4), ('double', 2)):
        add(nodes, 'fix', 'fix', t, n)
    from contracts import sized
    return chunks('c01', cs, 10) + sized.family('c01', tier)
