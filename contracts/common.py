"""Shared vocabulary of the contracts: declarations of library objects in C++ and the mathematical
specification functions over terms."""
import itertools
from dsl import *
import terms as tm
from terms import eq, ne, lt, le, gt, ge, and_, or_, not_, implies, ite, const

CPP = {k: v[2] for k, v in CT.items()}

PRE = '#include <cv.h>\n'

SIZE_ERR_V = '@_ZTIN3cml30incompatible_vector_size_errorE'


# ---------------------------------------------------------------- C++ declarations

def vtype(kind, t, n):
    t = CPP.get(t, t)
    return {'fix': 'vector<%s,fixed<%d>>' % (t, n), 'ext': 'vector<%s,external<%d>>' % (t, n),
            'cext': 'vector<const %s,external<%d>>' % (t, n), 'dyn': 'vector<%s,dynamic<>>' % t,
            'dext': 'vector<%s,external<>>' % t, 'cdext': 'vector<const %s,external<>>' % t}[kind]


def vec(kind, t, nm, ptr, n, size=None):
    """declares nm of the storage kind over/with the n elements at ptr (size: run-time size expression)"""
    ty = vtype(kind, t, n)
    size = n if size is None else size
    if kind == 'fix':
        return '%s %s; ld(%s,%s,%d);' % (ty, nm, nm, ptr, n)
    if kind == 'dyn':
        return '%s %s(%s); ld(%s,%s,%s);' % (ty, nm, size, nm, ptr, size)
    if kind == 'ext':
        return '%s %s((%s*)%s);' % (ty, nm, CPP.get(t, t), ptr)
    if kind == 'cext':
        return '%s %s(%s);' % (ty, nm, ptr)
    if kind == 'dext':
        return '%s %s((%s*)%s,%s);' % (ty, nm, CPP.get(t, t), ptr, size)
    return '%s %s(%s,%s);' % (ty, nm, ptr, size)


def mtype(kind, t, r, c, basis='col', layout='row'):
    t = CPP.get(t, t)
    bl = '%s_basis,%s_major' % (basis, layout)
    return {'fix': 'matrix<%s,fixed<%d,%d>,%s>' % (t, r, c, bl), 'ext': 'matrix<%s,external<%d,%d>,%s>' % (t, r, c, bl),
            'dyn': 'matrix<%s,dynamic<>,%s>' % (t, bl), 'dext': 'matrix<%s,external<>,%s>' % (t, bl)}[kind]


def mat(kind, t, nm, ptr, r, c, basis='col', layout='row', rs=None, cs=None):
    """declares nm with the elements of the row-by-row array ptr"""
    ty = mtype(kind, t, r, c, basis, layout)
    rs = r if rs is None else rs
    cs = c if cs is None else cs
    ct = CPP.get(t, t)
    if kind == 'fix':
        return '%s %s; ldm(%s,%s,%d,%d);' % (ty, nm, nm, ptr, r, c)
    if kind == 'dyn':
        return '%s %s(%s,%s); ldm(%s,%s,%s,%s);' % (ty, nm, rs, cs, nm, ptr, rs, cs)
    if kind == 'ext':
        return '%s %s_b[%d]; %s %s(%s_b); ldm(%s,%s,%d,%d);' % (ct, nm, r * c, ty, nm, nm, nm, ptr, r, c)
    return '%s %s_b[%d]; %s %s(%s_b,%s,%s); ldm(%s,%s,%s,%s);' % (ct, nm, r * c, ty, nm, nm, rs, cs, nm, ptr, rs, cs)


def qtype(t='double', order='imaginary_first', cross='positive_cross', kind='fix'):
    t = CPP.get(t, t)
    return 'quaternion<%s,%s,%s,%s>' % (t, {'fix': 'fixed<>', 'ext': 'external<>'}[kind], order, cross)


def quat(nm, ptr, t='double', order='imaginary_first', cross='positive_cross', kind='fix'):
    """declares quaternion nm from (w,x,y,z) at ptr"""
    ty = qtype(t, order, cross, kind)
    idx = [1, 2, 3, 0] if order == 'imaginary_first' else [0, 1, 2, 3]
    els = ','.join('%s[%d]' % (ptr, i) for i in idx)
    if kind == 'fix':
        return '%s %s(%s);' % (ty, nm, els)
    return '%s %s_b[4] = {%s}; %s %s(%s_b);' % (CPP.get(t, t), nm, els, ty, nm, nm)


# ---------------------------------------------------------------- mathematics over terms

def S(xs):
    xs = list(xs)
    r = xs[0]
    for x in xs[1:]:
        r = r + x
    return r


def dot(a, b):
    return S(x * y for x, y in zip(a, b))


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def vadd(a, b):
    return [x + y for x, y in zip(a, b)]


def vsub(a, b):
    return [x - y for x, y in zip(a, b)]


def vscale(k, a):
    return [k * x for x in a]


def norm2(a):
    return dot(a, a)


def mm(A, B):
    return [[S(A[i][k] * B[k][j] for k in range(len(B))) for j in range(len(B[0]))] for i in range(len(A))]


def mv(A, v):
    return [dot(r, v) for r in A]


def tr(A):
    return [list(r) for r in zip(*A)]


def det(M):
    n = len(M)
    if n == 1:
        return M[0][0]
    r = None
    for j in range(n):
        t = M[0][j] * det([row[:j] + row[j + 1:] for row in M[1:]])
        r = t if r is None else (r + t if j % 2 == 0 else r - t)
    return r


def ident(n):
    return [[const(1 if i == j else 0) for j in range(n)] for i in range(n)]


def as_real(t):
    """a term of integer sort as a real"""
    if isinstance(t, (int, float)):
        return const(t)
    return t if t.sort == 'R' else tm.mk('app', ('s2r', t), 'R')


# Hamilton algebra on (w,x,y,z)
def qmul(a, b):
    w, x, y, z = a
    W, X, Y, Z = b
    return [w * W - x * X - y * Y - z * Z, w * X + x * W + y * Z - z * Y, w * Y - x * Z + y * W + z * X,
            w * Z + x * Y - y * X + z * W]


def qconj(a):
    return [a[0], -a[1], -a[2], -a[3]]


def qrot(q):
    """rotation matrix (acting on columns) of a unit quaternion"""
    w, x, y, z = q
    one, two = const(1), const(2)
    return [[one - two * (y * y + z * z), two * (x * y - w * z), two * (x * z + w * y)],
            [two * (x * y + w * z), one - two * (x * x + z * z), two * (y * z - w * x)],
            [two * (x * z - w * y), two * (y * z + w * x), one - two * (x * x + y * y)]]


def rot_axis(u, c, s):
    """rotation about unit axis u with cosine c and sine s (acting on columns)"""
    x, y, z = u
    o = const(1) - c
    return [[o * x * x + c, o * x * y - s * z, o * x * z + s * y],
            [o * x * y + s * z, o * y * y + c, o * y * z - s * x],
            [o * x * z - s * y, o * y * z + s * x, o * z * z + c]]


def rot_world(axis, c, s):
    u = [const(0)] * 3
    u[axis] = const(1)
    return rot_axis(u, c, s)


# ---------------------------------------------------------------- clauses

def veq(lab, a, b):
    assert len(a) == len(b), (lab, len(a), len(b))
    return [('%s[%d]' % (lab, i), eq(x, y)) for i, (x, y) in enumerate(zip(a, b))]


def meq(lab, A, B):
    out = []
    assert len(A) == len(B)
    for i, (r, q) in enumerate(zip(A, B)):
        assert len(r) == len(q)
        out += [('%s(%d,%d)' % (lab, i, j), eq(x, y)) for j, (x, y) in enumerate(zip(r, q))]
    return out


def in_range(x, lo, hi, w=32):
    return and_(tm.icmp('sle', const(lo, w), x), tm.icmp('sle', x, const(hi, w)))


def is_val(x, k, w=32):
    return eq(x, const(k, w))


def nonzero(x):
    return ne(x, const(0) if x.sort == 'R' else const(0, x.sort))


def chunks(name, cases, k, **kw):
    """spread cases over units so that extraction runs in parallel"""
    n = max(1, (len(cases) + k - 1) // k)
    return [Unit('%s_%d' % (name, i), cases[i::n], pre=PRE + kw.get('pre', ''), opts=kw.get('opts') or {}) for i in range(n)]


def mode(k):
    return 'inout' if k in ('ext', 'dext') else 'in'


def kept(I, O, *names):
    """operands keep their elements (those the wrapper hands over as writable memory)"""
    out = []
    for nm in names:
        if nm in O:
            a, b = O[nm], I[nm]
            if a and isinstance(a[0], list):
                a, b = sum(a, []), sum(b, [])
            out += [('%s kept[%d]' % (nm, i), eq(x, y)) for i, (x, y) in enumerate(zip(a, b))]
    return out
