"""C23: axis and Euler order codes, cyclic permutations"""
from itertools import permutations

from contracts.common import *

META = {'level': 'proof'}
NAMES = [''.join(p) for p in permutations('xyz')]
REP = [a + b + a for a in 'xyz' for b in 'xyz' if a != b]
NUM = {'x': 0, 'y': 1, 'z': 2}


def decode(name):
    """first two axes as named, the third as named or the remaining one; parity of the triple; repetition"""
    i, j = NUM[name[0]], NUM[name[1]]
    k = 3 - i - j
    rep = name[2] == name[0]
    odd = (j - i) % 3 == 2
    return [i, j, k, int(odd), int(rep)]


def run(calls, width):
    """calls: (expression setting r[width*q ...], expected)"""
    body = ''.join(c for c, _ in calls)
    return body, [x for _, e in calls for x in e]


def c_named(nm):
    """every named constant, as written in user code"""
    calls, q = [], 0
    for o in NAMES + REP:
        calls.append(('{ int i, j, k; bool odd, rep; unpack_euler_order(euler_order_%s, i, j, k, odd, rep); r[%d] = i; r[%d] = j; r[%d] = k; r[%d] = odd; r[%d] = rep; }' % ((o,) + tuple(range(q, q + 5))), decode(o)))
        q += 5
    for o in NAMES:
        calls.append(('{ int i, j, k; bool odd; unpack_axis_order(axis_order_%s, i, j, k, odd); r[%d] = i; r[%d] = j; r[%d] = k; r[%d] = odd; }' % ((o,) + tuple(range(q, q + 4))), decode(o)[:4]))
        q += 4
        i, j, k, odd, _ = decode(o)
        calls.append(('r[%d] = pack_axis_order(%d, %s) == axis_order_%s; r[%d] = swap_axis_order(axis_order_%s) == axis_order_%s; r[%d] = int(axis_order_%s) == int(euler_order_%s);' % (
            q, i, 'true' if odd else 'false', o, q + 1, o, o[1] + o[0] + o[2], q + 2, o, o), [1, 1, 1]))
        q += 3
    for o in ('xy', 'yx'):
        calls.append(('{ int i, j; bool odd; unpack_axis_order2D(axis_order_%s, i, j, odd); r[%d] = i; r[%d] = j; r[%d] = odd; }' % (o, q, q + 1, q + 2), [NUM[o[0]], NUM[o[1]], int(o == 'yx')]))
        q += 3
    body, exp = run(calls, 5)
    return Case(nm, body, [P('dummy', 'int', lo=0, hi=0), P('r', 'int', q, 'out')], lambda I, O: [('result %d' % i, is_val(O.r[i], e)) for i, e in enumerate(exp)], label='named orders')


CODES = {'xyz': 0, 'xyx': 1, 'xzy': 2, 'xzx': 3, 'yzx': 4, 'yzy': 5, 'yxz': 6, 'yxy': 7, 'zxy': 8, 'zxz': 9, 'zyx': 10, 'zyz': 11}


def c_euler(nm):
    """a code known only at run time"""
    body = 'int i, j, k; bool odd, rep; unpack_euler_order(euler_order(o), i, j, k, odd, rep); r[0] = i; r[1] = j; r[2] = k; r[3] = odd; r[4] = rep;'
    ens = lambda I, O: [('%s field %d' % (n, f), implies(is_val(I.o, c), is_val(O.r[f], e))) for n, c in CODES.items() for f, e in enumerate(decode(n))]
    return Case(nm, body, [P('o', 'int', lo=0, hi=11), P('r', 'int', 5, 'out')], ens, lambda I: [in_range(I.o, 0, 11)], label='Euler order codes')


def c_axis(nm):
    body = 'int i, j, k; bool odd; axis_order A = axis_order(2*o); unpack_axis_order(A, i, j, k, odd); r[0] = i; r[1] = j; r[2] = k; r[3] = odd; r[4] = int(pack_axis_order(i, odd)) == int(A); r[5] = int(swap_axis_order(A)); r[6] = int(swap_axis_order(swap_axis_order(A))) == int(A);'

    def ens(I, O):
        res = []
        for n in NAMES:
            c = CODES[n] // 2
            res += [('%s field %d' % (n, f), implies(is_val(I.o, c), is_val(O.r[f], e))) for f, e in enumerate(decode(n)[:4] + [1, CODES[n[1] + n[0] + n[2]], 1])]
        return res
    return Case(nm, body, [P('o', 'int', lo=0, hi=5), P('r', 'int', 7, 'out')], ens, lambda I: [in_range(I.o, 0, 5)], label='axis order codes')


def c_cyclic(nm):
    body = 'int i, j, k, l; cyclic_permutation(a, i, j); r[0] = i; r[1] = j; cyclic_permutation(b, i, j, k); r[2] = i; r[3] = j; r[4] = k; cyclic_permutation(c, i, j, k, l); r[5] = i; r[6] = j; r[7] = k; r[8] = l;'

    def ens(I, O):
        res = []
        for nme, m, off in (('a', 2, 0), ('b', 3, 2), ('c', 4, 5)):
            res += [('of %d from %d, place %d' % (m, s, p), implies(is_val(I[nme], s), is_val(O.r[off + p], (s + p) % m))) for s in range(m) for p in range(m)]
        return res
    return Case(nm, body, [P('a', 'int', lo=0, hi=1), P('b', 'int', lo=0, hi=2), P('c', 'int', lo=0, hi=3), P('r', 'int', 9, 'out')], ens, lambda I: [in_range(I.a, 0, 1), in_range(I.b, 0, 2), in_range(I.c, 0, 3)], label='cyclic permutations')


def units(tier):
    return chunks('c23', [c_named('c23_named'), c_euler('c23_euler'), c_axis('c23_axis'), c_cyclic('c23_cyclic')], 1)
