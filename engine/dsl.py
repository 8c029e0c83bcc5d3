"""Contract units: a C++ wrapper that calls the real library code, plus pre/postconditions over its
arguments.  The wrapper only moves data between raw arrays and library objects."""
import terms as tm
from terms import T

CT = {'double': (8, 'R', 'double'), 'float': (4, 'R', 'float'), 'int': (4, 32, 'int'), 'long': (8, 64, 'long'),
      'uint': (4, 32, 'unsigned int'), 'ulong': (8, 64, 'unsigned long'), 'bool': (1, 8, 'bool'),
      'uchar': (1, 8, 'unsigned char'), 'short': (2, 16, 'short')}


class P:
    """parameter of a contract unit"""

    def __init__(self, name, ct, shape=None, mode='in', gen=None, lo=None, hi=None, values=None, opt=False):
        self.name = name
        self.ct = ct
        self.shape = None if shape is None else (shape if isinstance(shape, tuple) else (shape,))
        self.mode = mode
        self.gen = gen          # numeric generator kind
        self.lo, self.hi = lo, hi
        self.values = values
        self.opt = opt          # output that may stay unwritten

    @property
    def n(self):
        r = 1
        for s in self.shape or ():
            r *= s
        return r

    def elem_names(self):
        if self.shape is None:
            return [self.name]
        return ["%s_%d" % (self.name, k) for k in range(self.n)]

    def nest(self, flat):
        if self.shape is None:
            return flat[0]
        if len(self.shape) == 1:
            return list(flat)
        r, c = self.shape
        return [list(flat[i * c:(i + 1) * c]) for i in range(r)]


class NS(dict):
    def __getattr__(self, k):
        try:
            return self[k]
        except KeyError:
            raise AttributeError(k)


class Case:
    def __init__(self, name, body, params, ensures=None, requires=None, throws=None, ret=None, pre='', label=None,
                 opts=None, level='proved', doc='', exc_safe=True, tol=None, fp='double', may_throw=()):
        self.name = name
        self.body = body
        self.params = params
        self.ensures = ensures or (lambda I, O: [])
        self.requires = requires or (lambda I: [])
        self.throws = throws          # callable I -> [(type, cond)]
        self.ret = ret
        self.pre = pre                # file-scope C++ needed by the body (deduplicated)
        self.opts = opts or {}
        self.level = level            # 'proved' or 'bounded'
        self.doc = doc
        self.tol = tol
        self.label = label or name

    def signature(self):
        ps = []
        for p in self.params:
            c = CT[p.ct][2]
            if p.shape is None:
                ps.append("%s %s" % (c, p.name))
            else:
                ps.append("%s%s* %s" % ("const " if p.mode == 'in' else "", c, p.name))
        return "%s %s(%s)" % (CT[self.ret][2] if self.ret else "void", self.name, ", ".join(ps))

    def inputs(self):
        """namespace of symbolic inputs and flat list of (name, var, param)"""
        I = NS()
        flat = []
        for p in self.params:
            if p.mode == 'out':
                continue
            vs = []
            for nm in p.elem_names():
                v = tm.var(nm, CT[p.ct][1])
                vs.append(v)
                flat.append((nm, v, p))
            I[p.name] = p.nest(vs)
        return I, flat

    def out_ns(self, get):
        """get(param, k) -> term"""
        O = NS()
        for p in self.params:
            if p.mode in ('out', 'inout'):
                O[p.name] = p.nest([get(p, k) for k in range(p.n)])
        if self.ret:
            O['ret'] = get(None, 0)
        return O


# ---------------------------------------------------------------- arrays of symbolic length

class Prop:
    """proposition with quantifiers over indices (symbolic sizes only)"""

    def __init__(self, kind, *args):
        self.kind, self.args = kind, args


def forall(n, f):
    if isinstance(n, int):
        return conj([f(k) for k in range(n)])
    return Prop('forall', n, f)


def exists(n, f):
    if isinstance(n, int):
        return disj([f(k) for k in range(n)])
    return Prop('exists', n, f)


def conj(xs):
    xs = list(xs)
    return Prop('and', xs) if any(isinstance(x, Prop) for x in xs) else tm.and_(*xs)


def disj(xs):
    xs = list(xs)
    return Prop('or', xs) if any(isinstance(x, Prop) for x in xs) else tm.or_(*xs)


def when(c, p):
    """c implies p"""
    return Prop('imp', c, p) if isinstance(p, Prop) else tm.implies(c, p)


def total(n, f):
    """sum of f(k) for 0 <= k < n"""
    if isinstance(n, int):
        r = tm.const(0)
        for k in range(n):
            r = tm.add(r, f(k))
        return r
    import sizes
    k = '#t%d' % (1 + max([0] + [int(x[2:]) for x in sizes.nvars(sizes.poly(n)) if x.startswith('#t')]) + TOTAL[0])
    TOTAL[0] += 1
    try:
        return sizes.mk_sum(k, sizes.poly(n), f(tm.var(k)))
    finally:
        TOTAL[0] -= 1


TOTAL = [0]


class SizeCase(Case):
    """contract for every value of the size parameters: P(name, 'int', gen='size', lo=, hi=); array shapes name them.
    hi bounds only the sizes of the native conformance runs."""

    def sizes(self):
        return [p for p in self.params if p.gen == 'size']

    def signature(self):
        return Case.signature(self)

    def at(self, sz):
        ps = []
        for p in self.params:
            if p.gen == 'size':
                ps.append(P(p.name, 'int', lo=sz[p.name], hi=sz[p.name]))
            elif p.shape is None:
                ps.append(p)
            else:
                ps.append(P(p.name, p.ct, tuple(sz[d] if isinstance(d, str) else int(d) if isinstance(d, int) else d(sz) for d in p.shape), p.mode,
                            p.gen, p.lo, p.hi, p.values, p.opt))

        def fix(I):
            J = NS(I)
            for k, v in sz.items():
                J[k] = v
            return J
        opts = dict(self.opts)
        c = Case(self.name, self.body, ps, lambda I, O: self.ensures(fix(I), O), lambda I: self.requires(fix(I)),
                 (lambda I: self.throws(fix(I))) if self.throws else None, self.ret, self.pre, self.label, opts, self.level)
        return c


class Unit:
    """one translation unit of contract cases"""

    def __init__(self, name, cases, includes=None, pre='', opts=None):
        self.name = name
        self.cases = cases
        self.includes = includes or ['cml/vector.h', 'cml/matrix.h', 'cml/quaternion.h', 'cml/mathlib/mathlib.h',
                                    'cml/vector/hadamard_product.h', 'cml/matrix/hadamard_product.h', 'cml/matrix/lu.h']
        self.pre = pre
        self.opts = opts or {}

    def source(self):
        out = ["#include <%s>" % i for i in self.includes]
        out.append(PRELUDE)
        out.append(self.pre)
        seen = set()
        for c in self.cases:
            if c.pre and c.pre not in seen:
                seen.add(c.pre)
                out.append(c.pre)
        for c in self.cases:
            out.append('extern "C" %s {\n%s\n}\n' % (c.signature(), c.body))
        return "\n".join(out)

    def native_source(self):
        out = [self.source(), NATIVE]
        for c in self.cases:
            out.append('extern "C" int rc_%s(void** A, char* E) { try { ' % c.name)
            args = []
            for k, p in enumerate(c.params):
                t = CT[p.ct][2]
                args.append("*(%s*)A[%d]" % (t, k) if p.shape is None else "(%s*)A[%d]" % (t, k))
            call = "%s(%s)" % (c.name, ", ".join(args))
            if c.ret:
                call = "*(%s*)A[%d] = %s" % (CT[c.ret][2], len(c.params), call)
            out.append('%s; return 0; } CATCH_ALL }' % call)
        return "\n".join(out)


PRELUDE = r'''
using namespace cml;
#define NI __attribute__((noinline))
'''

NATIVE = r'''
#include <typeinfo>
#include <cstring>
#include <exception>
#define CATCH_ALL catch (std::exception& e) { std::strncpy(E, typeid(e).name(), 200); return 1; } catch (...) { std::strcpy(E, "unknown"); return 2; }
'''
