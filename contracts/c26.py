"""C26: textual output lists the elements in order.  The stream is a ghost trace of insertions (engine/stdstubs.py)."""
from contracts.common import *

META = {'level': 'proof', 'assumptions': [
    'each inserter of std::ostream appends the text of its argument and returns the stream; text of a number is a function of its '
    'value, its type and the stream format state']}
INC = '#include <cv_stream.h>\n'


def flt(t):
    return {'float': True} if t == 'float' else {}


def case(nm, decl, expr, want, params, label, t, level, pre_in=''):
    body = decl + '''std::ostream& got = *os_new(); std::ostream& want = *os_new(); %s
  std::ostream& r = (got << %s); ok[1] = (&r == &got); %s
  ok[0] = os_same(&got, &want); os_free(&got); os_free(&want);''' % (pre_in, expr, want)
    return Case(nm, body, params + [P('ok', 'int', 2, 'out')], lambda I, O: [('text of the elements in order', is_val(O.ok[0], 1)), ('returns the stream', is_val(O.ok[1], 1))],
                level=level, label=label, opts=flt(t), pre=INC)


def seq(e, n):
    """elements separated by single spaces"""
    return ' '.join('want << %s%s;' % ('" " << ' if i else '', e(i)) for i in range(n))


def rows(e, r, c):
    out = []
    for i in range(r):
        out.append('want << "["; %s want << " ]"%s;' % (' '.join('want << " " << %s;' % e(i, j) for j in range(c)), ' << "\\n"' if i + 1 < r else ''))
    return ' '.join(out)


def c_vec(nm, k, t, n):
    d = vec(k, t, 'V', 'v', n)
    return case(nm, d, 'V', seq(lambda i: 'v[%d]' % i, n), [P('v', t, n, mode(k))] if n else [P('v', t, 1)], '%s of %d' % (vtype(k, t, n), n), t, 'bounded' if k in ('dyn', 'dext', 'cdext') else 'proved')


def c_expr(nm, k, t, n, what):
    d = vec(k, t, 'V', 'v', n) + vec(k, t, 'W', 'w', n)
    ex, f = {'sum': ('V + W', lambda i: '(v[%d] + w[%d])' % (i, i)), 'neg': ('-V', lambda i: '(-v[%d])' % i), 'scale': ('V * w[0]', lambda i: '(v[%d] * w[0])' % i)}[what]
    return case(nm, d, '(%s)' % ex, seq(f, n), [P('v', t, n, mode(k)), P('w', t, n, mode(k))], '%s of %s' % (what, vtype(k, t, n)), t, 'bounded' if k in ('dyn', 'dext') else 'proved')


def c_mat(nm, k, t, r, c, b, l, what=''):
    d = mat(k, t, 'M', 'm', r, c, b, l)
    e = lambda i, j: 'm[%d]' % (i * c + j)
    ps = [P('m', t, (r, c))]
    if what == 'T':
        return case(nm, d, 'transpose(M)', rows(lambda i, j: e(j, i), c, r), ps, 'transpose of %s %dx%d' % (mtype(k, t, r, c, b, l), r, c), t, 'bounded' if k in ('dyn', 'dext') else 'proved')
    if what == 'row':
        return case(nm, d, 'row(M, %d)' % (r - 1), seq(lambda j: e(r - 1, j), c), ps, 'row of %s' % mtype(k, t, r, c, b, l), t, 'bounded' if k in ('dyn', 'dext') else 'proved')
    if what == 'col':
        return case(nm, d, 'col(M, %d)' % (c - 1), seq(lambda i: e(i, c - 1), r), ps, 'column of %s' % mtype(k, t, r, c, b, l), t, 'bounded' if k in ('dyn', 'dext') else 'proved')
    if what == 'sum':
        return case(nm, d, '(M + M)', rows(lambda i, j: '(%s + %s)' % (e(i, j), e(i, j)), r, c), ps, 'sum of %s' % mtype(k, t, r, c, b, l), t, 'bounded' if k in ('dyn', 'dext') else 'proved')
    return case(nm, d, 'M', rows(e, r, c), ps, '%s %dx%d' % (mtype(k, t, r, c, b, l), r, c), t, 'bounded' if k in ('dyn', 'dext') else 'proved')


def c_empty(nm):
    body = '''vector<double,dynamic<>> V, W(0); matrix<double,dynamic<>> M; double x = 1; vector<double,external<>> E(&x, 0);
  std::ostream& got = *os_new(); std::ostream& want = *os_new(); got << "<" << V << "," << W << "," << E << "," << M << ">"; want << "<,,,>";
  ok[0] = os_same(&got, &want); os_free(&got); os_free(&want);'''
    return Case(nm, body, [P('ok', 'int', 1, 'out')], lambda I, O: [('empty objects have no text', is_val(O.ok[0], 1))], level='bounded', label='empty vectors and matrices', pre=INC)


def c_quat(nm, t, o, c, k, what=''):
    d = quat('Q', 'q', t, o, c, k)
    el = lambda i: ('(-q[%d])' if what == 'conj' and i else '(-q[%d])' if what == 'neg' else 'q[%d]') % i
    expr = {'': 'Q', 'conj': 'conjugate(Q)', 'neg': '(-Q)'}[what]
    return case(nm, d, expr, 'want << "[ " << " " << %s << " ]";' % ' << " " << '.join(el(i) for i in range(4)), [P('q', t, 4)], '%s %s' % (what, qtype(t, o, c, k)), t, 'proved')


def c_chain(nm):
    body = vec('fix', 'double', 'V', 'v', 3) + vec('fix', 'int', 'W', 'w', 2) + mat('fix', 'double', 'M', 'm', 2, 2) + quat('Q', 'q') + '''
  std::ostream& got = *os_new(); std::ostream& want = *os_new(); got << "v=" << V << ";" << W << "|" << M << "|" << Q << 7;
  want << "v=" << v[0] << " " << v[1] << " " << v[2] << ";" << w[0] << " " << w[1] << "|[ " << m[0] << " " << m[1] << " ]\\n[ " << m[2] << " " << m[3] << " ]|[  "
       << q[0] << " " << q[1] << " " << q[2] << " " << q[3] << " ]" << 7;
  ok[0] = os_same(&got, &want); os_free(&got); os_free(&want);'''
    return Case(nm, body, [P('v', 'double', 3), P('w', 'int', 2), P('m', 'double', (2, 2)), P('q', 'double', 4), P('ok', 'int', 1, 'out')],
                lambda I, O: [('text of the elements in order', is_val(O.ok[0], 1))], label='chained insertions', pre=INC)


def units(tier):
    cs = [c_empty('empty'), c_chain('chain')]
    for k in ('fix', 'ext', 'cext', 'dyn', 'dext', 'cdext'):
        for t in ('double', 'float', 'int', 'uint', 'long'):
            for n in ((1, 2, 3, 4, 7, 10, 18) if t == 'double' else (3,)):
                cs.append(c_vec('v_%s_%s_%d' % (k, t, n), k, t, n))
    for k in ('fix', 'ext', 'dyn', 'dext'):
        for w in ('sum', 'neg', 'scale'):
            cs.append(c_expr('e_%s_%s' % (k, w), k, 'double', 3, w))
        for b, l in (('col', 'row'), ('row', 'col'), ('col', 'col'), ('row', 'row')):
            for r, c in ((1, 1), (1, 3), (3, 1), (2, 3), (3, 2), (4, 4)):
                cs.append(c_mat('m_%s_%d%d_%s_%s' % (k, r, c, b, l), k, 'double', r, c, b, l))
            if b == l:
                for r, c in ((2, 10), (10, 2), (5, 5), (11, 3), (9, 9)):
                    cs.append(c_mat('m_%s_%d_%d_%s_%s' % (k, r, c, b, l), k, 'double', r, c, b, l))
            for w in ('T', 'row', 'col', 'sum'):
                cs.append(c_mat('m_%s_%s_%s_%s' % (k, w, b, l), k, 'double', 2, 3, b, l, w))
        for t in ('int', 'float'):
            cs.append(c_mat('m_%s_%s' % (k, t), k, t, 2, 3, 'col', 'row'))
    for o in ('imaginary_first', 'real_first'):
        for c in ('positive_cross', 'negative_cross'):
            for k in ('fix',):
                for w in ('', 'conj', 'neg'):
                    cs.append(c_quat('q_%s_%s_%s%s' % (o[:1], c[:1], k, w), 'double', o, c, k, w))
        cs.append(c_quat('q_%s_float' % o[:1], 'float', o, 'positive_cross', 'fix'))
    return chunks('c26', cs, 14, pre=INC, opts={'streams': True})
