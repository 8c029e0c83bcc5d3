"""Symbolic executor for the extracted LLVM IR.

One run of a contract unit enumerates every path; each path ends in an Outcome
(return, C++ exception, or a memory-safety error).  Callees without a contract
are executed, so no assumption is made about them.
"""
from fractions import Fraction
import math
import struct
import terms as tm
import stdstubs
from terms import T
import llparse as ll
from llparse import Unsupported


class UndefT:
    def __repr__(self):
        return "UNDEF"


UNDEF = UndefT()


class Ptr:
    __slots__ = ("obj", "off")

    def __init__(self, obj, off):
        self.obj = obj
        self.off = off

    def __repr__(self):
        return "&%s+%s" % (self.obj, self.off)


class FnPtr:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name


class Bits:
    """bit pattern of a real value (double loaded as an integer)"""
    __slots__ = ("val", "size")

    def __init__(self, val, size):
        self.val = val
        self.size = size


class Cat:
    """several memory cells moved as one wide scalar (argument coercion by the ABI)"""
    __slots__ = ("parts", "size")

    def __init__(self, parts, size):
        self.parts = parts      # [(offset, size, value)]
        self.size = size

    def sub(self, off, n):
        ps = [(o - off, s, v) for o, s, v in self.parts if off <= o and o + s <= off + n]
        if sum(s for o, s, v in ps) != n:
            return None
        return ps[0][2] if len(ps) == 1 else Cat(ps, n)


class Obj:
    __slots__ = ("id", "size", "cells", "alive", "kind", "name", "owner", "const")

    def __init__(self, id, size, kind, name=""):
        self.id = id
        self.size = size
        self.cells = {}
        self.alive = True
        self.kind = kind
        self.name = name
        self.const = False
        self.owner = None

    def copy(self):
        o = Obj.__new__(Obj)
        o.id = self.id
        o.size = self.size
        o.cells = dict(self.cells)
        o.alive = self.alive
        o.kind = self.kind
        o.name = self.name
        o.const = self.const
        o.owner = None
        return o


class Frame:
    __slots__ = ("fn", "block", "instrs", "idx", "prev", "env", "dst", "inv", "allocas")


class PathError(Exception):
    def __init__(self, kind, msg):
        self.kind = kind
        self.msg = msg


class NeedConcrete(Exception):
    def __init__(self, term):
        self.term = term


class Outcome:
    __slots__ = ("kind", "what", "state", "ret")

    def __init__(self, kind, what, state, ret=None):
        self.kind = kind
        self.what = what
        self.state = state
        self.ret = ret


class State:
    def __init__(self):
        self.frames = []
        self.mem = {}
        self.pc = []
        self.pcset = set()
        self.concr = {}
        self.exc = None
        self.caught = []
        self.obls = []       # (kind, goal T, pc length)
        self.nobj = 0
        self.token = object()
        self.trace = []
        self.ghost = {}

    def fork(self):
        s = State.__new__(State)
        s.frames = []
        for f in self.frames:
            g = Frame.__new__(Frame)
            g.fn = f.fn
            g.block = f.block
            g.instrs = f.instrs
            g.idx = f.idx
            g.prev = f.prev
            g.env = dict(f.env)
            g.dst = f.dst
            g.inv = f.inv
            g.allocas = list(f.allocas)
            s.frames.append(g)
        s.mem = dict(self.mem)
        # both sides lose exclusive ownership
        self.token = object()
        s.token = object()
        s.pc = list(self.pc)
        s.pcset = set(self.pcset)
        s.concr = dict(self.concr)
        s.exc = self.exc
        s.caught = list(self.caught)
        s.obls = list(self.obls)
        s.nobj = self.nobj
        s.trace = list(self.trace)
        s.ghost = dict(self.ghost)
        return s

    def assume(self, t):
        if t is tm.TRUE:
            return
        if t.op == 'and':
            for x in t.args:
                self.assume(x)
            return
        if t not in self.pcset:
            self.pc.append(t)
            self.pcset.add(t)

    def new(self, size, kind, name=""):
        self.nobj += 1
        o = Obj(self.nobj, size, kind, name)
        o.owner = self.token
        self.mem[o.id] = o
        return o

    def wobj(self, oid):
        o = self.mem[oid]
        if o.owner is not self.token:
            o = o.copy()
            o.owner = self.token
            self.mem[oid] = o
        return o


def _pi_consts():
    d = {}
    qs = [Fraction(1), Fraction(1, 2), Fraction(2), Fraction(1, 4), Fraction(3, 4), Fraction(3, 2), Fraction(1, 3),
          Fraction(1, 6), Fraction(2, 3), Fraction(4), Fraction(1, 180), Fraction(5, 4), Fraction(7, 4)]
    for q in qs:
        for sg in (1, -1):
            v = math.pi * float(q) * sg
            if q == Fraction(1, 180):
                v = sg * math.pi / 180.0
            d[Fraction(v)] = q * sg
            f = struct.unpack('f', struct.pack('f', v))[0]
            d[Fraction(f)] = q * sg
            d[Fraction(struct.unpack('f', struct.pack('f', math.pi))[0]) * q * sg] = q * sg
    return d


PICONST = _pi_consts()
INVPI = {}
for _s in (1, -1):
    for _v in (180.0 / math.pi, 1.0 / math.pi, 2.0 / math.pi):
        q = {180.0 / math.pi: Fraction(180), 1 / math.pi: Fraction(1), 2 / math.pi: Fraction(2)}[_v] * _s
        INVPI[Fraction(_v * _s)] = q
        INVPI[Fraction(struct.unpack('f', struct.pack('f', _v * _s))[0])] = q

# long double constants that x86 code may use for pi
_LDPI = Fraction(0xc90fdaa22168c235, 1 << 62)
for _q in (Fraction(1), Fraction(1, 2), Fraction(2), Fraction(1, 4)):
    for _s in (1, -1):
        PICONST[_LDPI * _q * _s] = _q * _s


BIG = {}


def realconst(v):
    """IEEE constant -> real term (pi multiples are recognised, infinities become symbols)"""
    if isinstance(v, tuple):
        if v[0] == 'inf':
            t = tm.app('inf')
            return t if v[1] > 0 else tm.neg(t)
        return tm.app('nan')
    q = PICONST.get(v)
    if q is not None:
        return tm.mul(tm.const(q), tm.PI)
    q = INVPI.get(v)
    if q is not None:
        return tm.div(tm.const(q), tm.PI)
    return tm.const(v)


LIBM1 = {'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'exp', 'log', 'sqrt', 'fabs', 'floor', 'ceil', 'exp2', 'log2',
         'log10', 'sinh', 'cosh', 'tanh', 'round', 'trunc', 'cbrt', 'log1p', 'expm1', 'rint', 'nearbyint'}
LIBM2 = {'atan2', 'pow', 'fmod', 'hypot', 'copysign', 'fmin', 'fmax', 'remainder', 'minnum', 'maxnum'}


def libm_name(n):
    """'@sinf' / '@llvm.sin.f64' -> 'sin'"""
    n = n[1:]
    if n.startswith('llvm.'):
        p = n.split('.')
        return p[1] if p[1] in LIBM1 or p[1] in LIBM2 else None
    if n in LIBM1 or n in LIBM2:
        return n
    if n[-1:] in 'fl' and (n[:-1] in LIBM1 or n[:-1] in LIBM2):
        return n[:-1]
    return None


class Exec:
    def __init__(self, module, solver, fptrunc='identity', maxpaths=3000, maxsteps=3000000, contracts=None,
                 domains=True, prune_real=False, merge=False):
        self.m = module
        self.ty = module.types
        self.solver = solver
        self.fptrunc = fptrunc
        self.nofloat = False
        self.maxpaths = maxpaths
        self.maxsteps = maxsteps
        self.contracts = contracts or {}
        self.maxdraws = 64
        self.fp = False       # rounding is arbitrary: no reasoning with exact real arithmetic
        self.domains = domains
        self.prune_real = prune_real
        self.outcomes = []
        self.work = []
        self.gobj = {}
        self.steps = 0
        self.fresh = 0
        self.called = set()
        self.stubs = {}
        self.nfork = 0
        self.ordmemo = {}

    # ------------------------------------------------------------ helpers
    def newvar(self, base, sort='R'):
        self.fresh += 1
        return tm.var("%s!%d" % (base, self.fresh), sort)

    def global_ptr(self, st, name):
        if name in self.m.funcs or (name in self.m.decls):
            return FnPtr(name)
        if name in self.m.aliases:
            v = self.m.aliases[name]
            if v[0] == 'g':
                return self.global_ptr(st, v[1])
            raise Unsupported("alias")
        g = st.ghost.get(('g', name))
        if g is None:
            t, init, cst = self.m.globals[name]
            size = self.ty.size(t) if t[0] != 'opaque' else 0
            o = st.new(size, 'global', name)
            st.ghost[('g', name)] = o.id
            g = o.id
            if init is not None:
                self.init_global(st, o, 0, t, init)
            o.const = cst
        return Ptr(g, 0)

    def init_global(self, st, o, off, t, v):
        rt = self.ty.resolve(t)
        if v[0] == 'zero' or v == ('c', 0) and rt[0] in ('st', 'arr'):
            self.fill_zero(o, off, self.ty.size(t))
            return
        if v[0] == 'agg':
            if rt[0] == 'arr':
                es = self.ty.size(rt[2])
                for k, (et, ev) in enumerate(v[1]):
                    self.init_global(st, o, off + k * es, et, ev)
            elif rt[0] == 'st':
                offs = self.ty.offsets(rt)
                for k, (et, ev) in enumerate(v[1]):
                    self.init_global(st, o, off + offs[k], et, ev)
            else:
                raise Unsupported("global init")
            return
        if v[0] == 'undef':
            return
        x = self.const_value(st, t, v)
        o.cells[off] = (self.ty.size(t), x)

    def const_value(self, st, t, v):
        k = v[0]
        if k == 'c':
            if t[0] == 'f':
                if isinstance(v[1], int):
                    return tm.const(v[1])
                return realconst(v[1])
            return v[1]
        if k == 'undef':
            if t[0] in ('st', 'arr', 'vec'):
                n = t[1] if t[0] != 'st' else len(t[1])
                return tuple([UNDEF] * n)
            return UNDEF
        if k == 'zero':
            rt = self.ty.resolve(t)
            if rt[0] == 'st':
                return tuple(self.const_value(st, e, ('zero', e)) for e in rt[1])
            if rt[0] in ('arr', 'vec'):
                return tuple(self.const_value(st, rt[2], ('zero', rt[2])) for _ in range(rt[1]))
            if rt[0] == 'f':
                return tm.const(0)
            return 0
        if k == 'g':
            return self.global_ptr(st, v[1])
        if k == 'agg':
            return tuple(self.const_value(st, et, ev) for et, ev in v[1])
        if k == 'ce':
            if v[1] == 'gep':
                base = self.const_value(st, v[3][0][0], v[3][0][1])
                idx = [(it, self.const_value(st, it, iv)) for it, iv in v[3][1:]]
                return self.gep(st, v[2], base, idx)
            if v[1] in ('ptrtoint', 'inttoptr', 'bitcast'):
                return self.const_value(st, v[2][0], v[2][1])
            a = self.const_value(st, *v[2])
            if v[1] in ('trunc', 'zext', 'sext'):
                return self.cast(st, v[1], v[2][0], a, v[3])
            b = self.const_value(st, *v[3])
            return self.binop(st, v[1], v[2][0], a, b, ())
        raise Unsupported("constant %s" % (v,))

    def fill_zero(self, o, off, n):
        end = off + n
        # remove overlapped cells
        self.clear_range(o, off, n)
        while off < end:
            s = 8 if end - off >= 8 and off % 8 == 0 else (4 if end - off >= 4 and off % 4 == 0 else 1)
            o.cells[off] = (s, 0)
            off += s

    def clear_range(self, o, off, n):
        for k in [k for k, (s, _) in o.cells.items() if k < off + n and k + s > off]:
            s, v = o.cells.pop(k)
            if k < off or k + s > off + n:
                if isinstance(v, int):
                    b = v.to_bytes(s, 'little')
                    for j in range(s):
                        if not (off <= k + j < off + n):
                            o.cells[k + j] = (1, b[j])
                # otherwise: remaining bytes become undefined

    # ------------------------------------------------------------ memory
    def conc(self, st, x):
        """concrete python int for an integer value"""
        if isinstance(x, int):
            return x
        if isinstance(x, T):
            if x.op == 'c':
                return x.args[0]
            v = st.concr.get(x)
            if v is not None:
                return v
            raise NeedConcrete(x)
        if x is UNDEF:
            raise PathError('uninit', 'use of an uninitialised integer')
        raise Unsupported("concretise %r" % (x,))

    def deref(self, st, p, n, write):
        if isinstance(p, int):
            raise PathError('null', 'access through null/invalid pointer')
        if p is UNDEF:
            raise PathError('uninit', 'access through an uninitialised pointer')
        if not isinstance(p, Ptr):
            raise Unsupported("deref %r" % (p,))
        off = p.off
        if not isinstance(off, int):
            off = tm.signed(self.conc(st, off), 64)
        o = st.mem[p.obj]
        if not o.alive:
            raise PathError('uaf', 'access to %s object %s after its lifetime ended' % (o.kind, o.name))
        if off < 0 or off + n > o.size:
            raise PathError('oob', '%s of %d bytes at offset %d of %s object %s of %d bytes'
                            % ('write' if write else 'read', n, off, o.kind, o.name, o.size))
        if write:
            if o.const:
                raise PathError('frame', 'write to read-only object %s' % o.name)
            o = st.wobj(p.obj)
        return o, off

    def load(self, st, t, p):
        t = self.ty.resolve(t)
        if t[0] == 'arr' or t[0] == 'vec':
            es = self.ty.size(t[2])
            return tuple(self.load(st, t[2], self.padd(p, k * es)) for k in range(t[1]))
        if t[0] == 'st':
            offs = self.ty.offsets(t)
            return tuple(self.load(st, e, self.padd(p, o)) for e, o in zip(t[1], offs))
        n = self.ty.size(t)
        o, off = self.deref(st, p, n, False)
        return self.load_obj(o, off, n, t)

    def load_obj(self, o, off, n, t):
        c = o.cells.get(off)
        if c is not None and c[0] == n:
            return self.retype(c[1], t, n)
        # assemble from bytes
        over = [(k, s, v) for k, (s, v) in o.cells.items() if k < off + n and k + s > off]
        if not over:
            return UNDEF
        bs = {}
        for k, s, v in over:
            if v is UNDEF:
                if all(off <= k and k + s <= off + n for k, s, v in over) and len(over) > 1 and any(q[2] is not UNDEF for q in over) \
                        and sum(q[1] for q in over) == n:
                    return Cat(sorted(((k - off, s, v) for k, s, v in over), key=lambda q: q[0]), n)
                return UNDEF
            if isinstance(v, T) and v.op == 'c' and v.args[0] == 0:
                v = 0
            if not isinstance(v, int):
                if all(off <= k and k + s <= off + n for k, s, v in over) and len(over) > 1 and sum(s for k, s, v in over) == n:
                    return Cat(sorted(((k - off, s, v) for k, s, v in over), key=lambda q: q[0]), n)
                if isinstance(v, T) and isinstance(v.sort, int) and v.sort == 8 * s and k <= off and off + n <= k + s and t[0] == 'i':
                    return self.retype(tm.cut(v, 8 * (off - k), 8 * n), t, n)
                raise Unsupported("partial read of symbolic cell (%s) in %s" % (v, o.name))
            b = v.to_bytes(s, 'little')
            for j in range(s):
                bs[k + j] = b[j]
        try:
            v = int.from_bytes(bytes(bs[off + j] for j in range(n)), 'little')
        except KeyError:
            return UNDEF
        return self.retype(v, t, n)

    def retype(self, v, t, n):
        if v is UNDEF or isinstance(v, Cat):
            return v
        if t[0] == 'f':
            if isinstance(v, Bits):
                return v.val
            if isinstance(v, int):
                if v == 0:
                    return tm.const(0)
                if n == 8:
                    return realconst(ll.parse_fp('0x%016X' % v, t))
                if n == 4:
                    f = struct.unpack('<f', v.to_bytes(4, 'little'))[0]
                    return realconst(Fraction(f))
                raise Unsupported("fp bits")
            if isinstance(v, T) and v.sort == 'R':
                return v
            raise Unsupported("retype %r" % (v,))
        if t[0] == 'i':
            if isinstance(v, T) and v.sort == 'R':
                if v.op == 'c' and v.args[0] == 0:
                    return 0
                return Bits(v, n)
            if isinstance(v, int):
                return v & ((1 << t[1]) - 1)
            if isinstance(v, T) and isinstance(v.sort, int) and v.sort != t[1]:
                if v.sort > t[1]:
                    return tm.cut(v, 0, t[1])
                return tm.imk('zext', t[1], v)
            return v
        return v

    def store(self, st, t, v, p):
        t = self.ty.resolve(t)
        if t[0] == 'arr' or t[0] == 'vec':
            es = self.ty.size(t[2])
            if v is UNDEF:
                v = [UNDEF] * t[1]
            for k in range(t[1]):
                self.store(st, t[2], v[k], self.padd(p, k * es))
            return
        if t[0] == 'st':
            offs = self.ty.offsets(t)
            if v is UNDEF:
                v = [UNDEF] * len(t[1])
            for e, o, x in zip(t[1], offs, v):
                self.store(st, e, x, self.padd(p, o))
            return
        n = self.ty.size(t)
        o, off = self.deref(st, p, n, True)
        if isinstance(v, Cat):
            self.clear_range(o, off, n)
            for k, s, x in v.parts:
                o.cells[off + k] = (s, x)
            return
        c = o.cells.get(off)
        if c is None or c[0] != n:
            self.clear_range(o, off, n)
        o.cells[off] = (n, v)

    def padd(self, p, k):
        if k == 0:
            return p
        if isinstance(p, Ptr):
            if isinstance(p.off, int):
                return Ptr(p.obj, p.off + k)
            return Ptr(p.obj, tm.add(p.off, tm.const(k, 64)))
        if isinstance(p, int):
            return (p + k) & ((1 << 64) - 1)
        return p

    def memcpy(self, st, d, s, n):
        n = self.conc(st, n)
        if n == 0:
            return
        so, soff = self.deref(st, s, n, False)
        cells = [(k - soff, c) for k, c in so.cells.items() if k >= soff and k + c[0] <= soff + n]
        cut = [1 for k, c in so.cells.items() if k < soff + n and k + c[0] > soff and not (k >= soff and k + c[0] <= soff + n)]
        if cut:
            raise Unsupported("memcpy splits a cell")
        do, doff = self.deref(st, d, n, True)
        self.clear_range(do, doff, n)
        for k, c in cells:
            do.cells[doff + k] = c

    def gep(self, st, t, base, idx):
        if base is UNDEF:
            return UNDEF
        off = 0
        sym = None
        first = True
        for it, iv in idx:
            if iv is UNDEF:
                return UNDEF
            w = it[1]
            if first:
                scale = self.ty.size(t)
                first = False
            else:
                t = self.ty.resolve(t)
                if t[0] == 'st':
                    k = iv
                    off += self.ty.offsets(t)[k]
                    t = t[1][k]
                    continue
                t = t[2]
                scale = self.ty.size(t)
            if isinstance(iv, T):
                cv = st.concr.get(iv)
                if cv is not None:
                    iv = cv
                elif iv.op == 'c':
                    iv = iv.args[0]
            if isinstance(iv, int):
                off += tm.signed(iv, w) * scale
            else:
                x = iv if iv.sort == 64 else tm.imk('sext', 64, iv)
                x = tm.mul(x, tm.const(scale, 64))
                sym = x if sym is None else tm.add(sym, x)
        if isinstance(base, int):
            if base == 0 and off == 0 and sym is None:
                return 0
            if sym is None:
                return (base + off) & ((1 << 64) - 1)
            k = sym.args[0] if sym.op == 'c' else st.concr.get(sym)
            if k is None:
                raise NeedConcrete(sym)
            return (base + off + tm.signed(k, 64)) & ((1 << 64) - 1)
        if isinstance(base, FnPtr):
            raise Unsupported("gep on function")
        bo = base.off
        if sym is None and isinstance(bo, int):
            return Ptr(base.obj, bo + off)
        b = bo if isinstance(bo, T) else tm.const(bo, 64)
        if off:
            b = tm.add(b, tm.const(off, 64))
        if sym is not None:
            b = tm.add(b, sym)
        if b.op == 'c':
            return Ptr(base.obj, tm.signed(b.args[0], 64))
        return Ptr(base.obj, b)

    # ------------------------------------------------------------ operations
    def val(self, st, env, t, v):
        k = v[0]
        if k == 'l':
            return env[v[1]]
        if k == 'c':
            x = v[1]
            if t[0] == 'f':
                return realconst(x) if not isinstance(x, int) else tm.const(x)
            return x
        return self.const_value(st, t, v)

    def binop(self, st, op, t, a, b, fl):
        if t[0] == 'vec':
            return tuple(self.binop(st, op, t[2], x, y, fl) for x, y in zip(a, b))
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if op[0] == 'f':
            if op == 'fadd':
                return tm.add(a, b)
            if op == 'fsub':
                return tm.sub(a, b)
            if op == 'fmul':
                return tm.mul(a, b)
            if op == 'fdiv':
                if b.op == 'c':
                    if b.args[0] == 0:
                        self.obl(st, 'div0', tm.FALSE, 'floating division by zero')
                        return self.newvar('div0')
                else:
                    self.obl(st, 'div0', tm.ne(b, tm.const(0)), 'floating divisor is nonzero')
                return tm.div(a, b)
            if op == 'frem':
                return tm.app('fmod', a, b)
            raise Unsupported(op)
        w = t[1]
        if isinstance(a, Cat) and op == 'lshr' and isinstance(b, int) and b % 8 == 0:
            x = a.sub(b // 8, a.size - b // 8)
            if x is None:
                raise Unsupported('shift inside a coerced value')
            return Cat([(0, a.size - b // 8, x)], a.size) if not isinstance(x, Cat) else Cat(x.parts, a.size)
        if isinstance(a, Cat) or isinstance(b, Cat):
            raise Unsupported('arithmetic on a coerced value')
        if isinstance(a, int) and isinstance(b, int):
            M = (1 << w) - 1
            if op == 'add':
                return (a + b) & M
            if op == 'sub':
                return (a - b) & M
            if op == 'mul':
                return (a * b) & M
            r = tm.ifold(op, w, w, [a, b])
            if r is None:
                raise PathError('arith', 'undefined integer %s' % op)
            return r & M
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            return self.ptrop(st, op, w, a, b)
        if isinstance(a, Bits) or isinstance(b, Bits):
            return self.bitsop(op, w, a, b)
        a = a if isinstance(a, T) else tm.const(a, w)
        b = b if isinstance(b, T) else tm.const(b, w)
        if op == 'add':
            r = tm.add(a, b)
        elif op == 'sub':
            r = tm.sub(a, b)
        elif op == 'mul':
            r = tm.mul(a, b)
        else:
            if op in ('sdiv', 'srem', 'udiv', 'urem') and not (b.op == 'c' and b.args[0]):
                self.obl(st, 'div0', tm.ne(b, tm.const(0, w)), 'integer divisor is nonzero')
            r = self.isimp(op, w, a, b)
        if r.op == 'c':
            return r.args[0]
        return r

    def isimp(self, op, w, a, b):
        if w == 1:
            # booleans as i1 terms: wrap through B
            x, y = self.tobool(a), self.tobool(b)
            if op == 'and':
                return self.frombool(tm.and_(x, y))
            if op == 'or':
                return self.frombool(tm.or_(x, y))
            if op == 'xor':
                return self.frombool(tm.ne(x, y) if not (y.op == 'c' or x.op == 'c') else
                                     (tm.not_(x) if y is tm.TRUE else x if y is tm.FALSE else
                                      tm.not_(y) if x is tm.TRUE else y))
        if op == 'and' and b.op == 'c' and b.args[0] == 1 and a.op == 'zext' and a.args[0].sort == 1:
            return a
        if op in ('and',) and (b.op == 'c' and b.args[0] == 0 or a.op == 'c' and a.args[0] == 0):
            return tm.const(0, w)
        return tm.imk(op, w, a, b)

    def bitsop(self, op, w, a, b):
        if isinstance(b, Bits):
            a, b = b, a
        if isinstance(b, int):
            sign = 1 << (w - 1)
            if op == 'and' and b == sign - 1:
                return Bits(tm.fabs(a.val), a.size)
            if op == 'xor' and b == sign:
                return Bits(tm.neg(a.val), a.size)
        raise Unsupported("bit operation %s on a real" % op)

    def ptrop(self, st, op, w, a, b):
        if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
            if isinstance(a.off, int) and isinstance(b.off, int):
                return (a.off - b.off) & ((1 << w) - 1)
            x = a.off if isinstance(a.off, T) else tm.const(a.off, 64)
            y = b.off if isinstance(b.off, T) else tm.const(b.off, 64)
            return tm.sub(x, y)
        if op == 'add' and isinstance(a, Ptr) and isinstance(b, int):
            return self.padd(a, tm.signed(b, 64))
        if op == 'sub' and isinstance(a, Ptr) and isinstance(b, int):
            return self.padd(a, -tm.signed(b, 64))
        if op == 'and' and isinstance(a, Ptr) and isinstance(b, int) and b < 16 and isinstance(a.off, int):
            return a.off & b
        raise Unsupported("pointer arithmetic %s" % op)

    def tobool(self, x):
        """i1 value -> bool term"""
        if isinstance(x, int):
            return tm.TRUE if x & 1 else tm.FALSE
        if x.sort == 'B':
            return x
        if x.op == 'b2i':
            return x.args[0]
        if x.op == 'c':
            return tm.TRUE if x.args[0] else tm.FALSE
        return tm.ne(x, tm.const(0, x.sort))

    def frombool(self, b):
        if b.op == 'c':
            return tm.const(1 if b.args[0] else 0, 1)
        if b.op == 'not' and b.args[0].op == '=' and b.args[0].args[0].sort == 1:
            p, q = b.args[0].args
            if q.op == 'c' and q.args[0] == 0:
                return p
            if p.op == 'c' and p.args[0] == 0:
                return q
        return tm.mk('b2i', (b,), 1)

    def fromb(self, b):
        r = self.frombool(b)
        return r.args[0] if r.op == 'c' else r

    def cast(self, st, op, t1, a, t2):
        if t1[0] == 'vec':
            return tuple(self.cast(st, op, t1[2], x, t2[2]) for x in a)
        if a is UNDEF:
            return UNDEF
        if isinstance(a, Cat):
            if op == 'bitcast':
                return a
            if op == 'trunc' and t2[1] % 8 == 0:
                x = a.sub(0, t2[1] // 8)
                if x is not None:
                    return x if isinstance(x, Cat) else self.retype(x, t2, t2[1] // 8)
            raise Unsupported('cast of a coerced value')
        if op in ('bitcast', 'ptrtoint', 'inttoptr'):
            if op == 'bitcast':
                if t1[0] == 'f' and t2[0] == 'i':
                    if a.op == 'c' and a.args[0] == 0:
                        return 0
                    return Bits(a, t1[1] // 8)
                if t1[0] == 'i' and t2[0] == 'f':
                    return self.retype(a, t2, t2[1] // 8)
            return a
        if op == 'fpext':
            return a
        if op == 'fptrunc':
            if self.nofloat and a.op != 'c' and t1[1] == 64:
                st.obls.append(('precision', tm.FALSE, len(st.pc), 'double value narrowed to float in a double-only contract'))
            if self.fptrunc == 'identity':
                return a
            if a.op == 'c':
                v = a.args[0]
                if abs(v) < 2**24 and v.denominator == 1:
                    return a
                d = v.denominator
                if d & (d - 1) == 0 and abs(v.numerator) < 2**24:
                    return a
            if a.op == 'app' and a.args[0] in ('rnd32',):
                return a
            return tm.app('rnd32', a)
        if op in ('sitofp', 'uitofp'):
            if isinstance(a, int):
                return tm.const(tm.signed(a, t1[1]) if op == 'sitofp' else a)
            if t1[1] == 1:
                b = self.tobool(a)
                return tm.ite(b, tm.const(1 if op == 'uitofp' else -1), tm.const(0))
            if a.op == 'b2i' or a.op == 'zext' and a.args[0].op == 'b2i':
                b = a.args[0] if a.op == 'b2i' else a.args[0].args[0]
                return tm.ite(b, tm.const(1), tm.const(0))
            return tm.mk('app', ('s2r' if op == 'sitofp' else 'u2r', a), 'R')
        if op in ('fptosi', 'fptoui'):
            if a.op == 'c':
                return int(a.args[0]) & ((1 << t2[1]) - 1)
            if a.op == 'app' and a.args[0] in ('s2r', 'u2r') and a.args[1].sort <= t2[1]:
                x = a.args[1]
                if x.sort == t2[1]:
                    return x
                return tm.imk('sext' if a.args[0] == 's2r' else 'zext', t2[1], x)
            if op == 'fptosi' and a.op == 'app' and a.args[0] == 'abs' and a.args[1].op == 'app' and a.args[1].args[0] == 's2r' and a.args[1].args[1].sort == t2[1]:
                x = a.args[1].args[1]
                return tm.ite(tm.icmp('slt', x, tm.const(0, x.sort)), tm.neg(x), x)
            return tm.mk('app', ('r2s' if op == 'fptosi' else 'r2u', a), t2[1])
        w1, w2 = t1[1], t2[1]
        if isinstance(a, int):
            if op == 'sext':
                return tm.signed(a, w1) & ((1 << w2) - 1)
            return a & ((1 << w2) - 1)
        if isinstance(a, Ptr):
            if op == 'trunc':
                raise Unsupported("pointer truncation")
            return a
        if isinstance(a, Bits):
            raise Unsupported("cast of bits")
        if op == 'trunc':
            if a.op in ('zext', 'sext'):
                i = a.args[0]
                if i.sort == w2:
                    return i
                if i.sort > w2:
                    a = i
                else:
                    return tm.imk(a.op, w2, i)
            if w2 == 1 and a.op == 'b2i':
                return a
            if w2 in (8, 16, 32):
                r = tm.cut(a, 0, w2)
                return r.args[0] if r.op == 'c' else r
        if op == 'zext' and a.op == 'zext':
            a = a.args[0]
        if op == 'sext' and a.op == 'sext':
            a = a.args[0]
        r = tm.imk(op, w2, a)
        return r.args[0] if r.op == 'c' else r

    def icmp(self, st, pred, t, a, b):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if t[0] == 'vec':
            return tuple(self.icmp(st, pred, t[2], x, y) for x, y in zip(a, b))
        if isinstance(a, (Ptr, FnPtr)) or isinstance(b, (Ptr, FnPtr)):
            return self.pcmp(st, pred, a, b)
        if isinstance(a, Bits) or isinstance(b, Bits):
            raise Unsupported("integer comparison of real bits")
        w = 64 if t == ll.PTR else t[1]
        if isinstance(a, int) and isinstance(b, int):
            if pred == 'eq':
                return int(a == b)
            if pred == 'ne':
                return int(a != b)
            if pred[0] == 's':
                a, b = tm.signed(a, w), tm.signed(b, w)
            o = pred[1:]
            return int(a < b if o == 'lt' else a <= b if o == 'le' else a > b if o == 'gt' else a >= b)
        if w == 1:
            x, y = self.tobool(a), self.tobool(b)
            if pred in ('eq', 'ne'):
                r = tm.eq(x, y)
                return self.fromb(r if pred == 'eq' else tm.not_(r))
        a = a if isinstance(a, T) else tm.const(a, w)
        b = b if isinstance(b, T) else tm.const(b, w)
        # compare of zext(b2i) with 0/1
        if pred in ('eq', 'ne') and b.op == 'c':
            x = a
            while x.op == 'zext':
                x = x.args[0]
            if x.op == 'b2i':
                if b.args[0] == 0:
                    r = tm.not_(x.args[0])
                elif b.args[0] == 1:
                    r = x.args[0]
                else:
                    r = tm.FALSE
                return self.fromb(r if pred == 'eq' else tm.not_(r))
        if pred in ('eq', 'ne'):
            r = tm.eq(a, b)
            if pred == 'ne':
                r = tm.not_(r)
        else:
            o = pred[1:]
            s = pred[0]
            if o == 'lt':
                r = tm.icmp(s + 'lt', a, b)
            elif o == 'gt':
                r = tm.icmp(s + 'lt', b, a)
            elif o == 'le':
                r = tm.icmp(s + 'le', a, b)
            else:
                r = tm.icmp(s + 'le', b, a)
        return self.fromb(r)

    def pcmp(self, st, pred, a, b):
        if isinstance(a, FnPtr) or isinstance(b, FnPtr):
            e = isinstance(a, FnPtr) and isinstance(b, FnPtr) and a.name == b.name
            return int(e if pred == 'eq' else not e)
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.obj == b.obj:
                x = a.off if isinstance(a.off, T) else tm.const(a.off, 64)
                y = b.off if isinstance(b.off, T) else tm.const(b.off, 64)
                if x.op == 'c' and y.op == 'c':
                    p, q = tm.signed(x.args[0], 64), tm.signed(y.args[0], 64)
                    o = pred if pred in ('eq', 'ne') else pred[1:]
                    return int({'eq': p == q, 'ne': p != q, 'lt': p < q, 'le': p <= q, 'gt': p > q, 'ge': p >= q}[o])
                return self.icmp(st, pred, ('i', 64), x, y)
            if pred == 'eq':
                return 0
            if pred == 'ne':
                return 1
            # unrelated objects: order by id (any total order is allowed)
            o = pred[1:]
            lt = a.obj < b.obj
            return int(lt if o in ('lt', 'le') else not lt)
        # pointer against integer (null)
        if pred == 'eq':
            return 0
        if pred == 'ne':
            return 1
        p = 1 if isinstance(a, Ptr) else 0
        o = pred[1:]
        return int((p == 0) if o in ('lt', 'le') else (p == 1))

    def fcmp(self, pred, a, b):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if pred in ('true',):
            return 1
        if pred == 'false':
            return 0
        if pred == 'ord':
            return 1
        if pred == 'uno':
            return 0
        o = pred[1:]
        for x in (a, b):
            if 'inf' in repr_inf(x) or 'nan' in repr_inf(x):
                return self.fcmp_inf(o, a, b)
        if o == 'eq':
            r = tm.eq(a, b)
        elif o == 'ne':
            r = tm.ne(a, b)
        elif o == 'lt':
            r = tm.lt(a, b)
        elif o == 'le':
            r = tm.le(a, b)
        elif o == 'gt':
            r = tm.lt(b, a)
        else:
            r = tm.le(b, a)
        return self.fromb(r)

    def fcmp_inf(self, o, a, b):
        def rank(x):
            s = repr_inf(x)
            return 1 if s == 'inf' else -1 if s == '-inf' else 0
        ra, rb = rank(a), rank(b)
        if ra == rb:
            raise Unsupported("comparison of infinities")
        return int({'eq': False, 'ne': True, 'lt': ra < rb, 'le': ra < rb, 'gt': ra > rb, 'ge': ra > rb}[o])

    def obl(self, st, kind, goal, msg):
        if goal is tm.TRUE or not self.domains:
            return
        if goal in st.pcset:
            return
        st.obls.append((kind, goal, len(st.pc), msg))

    # ------------------------------------------------------------ driver
    def run(self, fname, st, args):
        f = self.m.funcs[fname]
        self.push(st, f, args, None, None)
        self.work = [st]
        self.outcomes = []
        while self.work:
            s = self.work.pop()
            self.run_path(s)
            if len(self.outcomes) > self.maxpaths:
                raise Unsupported("more than %d paths" % self.maxpaths)
        return self.outcomes

    def push(self, st, f, args, dst, inv):
        if f.attrs_lowered is False:
            ll.lower(f)
            f.attrs_lowered = True
        fr = Frame()
        fr.fn = f
        fr.block = f.order[0]
        fr.instrs = f.blocks[fr.block]
        fr.idx = 0
        fr.prev = None
        fr.env = {}
        fr.dst = dst
        fr.inv = inv
        fr.allocas = []
        ps = [p for p in f.params if p != '...']
        for (t, n), a in zip(ps, args):
            fr.env[n] = a
        st.frames.append(fr)
        if len(st.frames) > 200:
            raise Unsupported("call depth")

    def switchval(self, st, c, ins):
        raise Unsupported('switch on %r' % (c,))

    def jump(self, st, fr, target):
        fr.prev = fr.block
        fr.block = target
        fr.instrs = ins = fr.fn.blocks[target]
        # phis evaluate in parallel
        i = 0
        if ins and ins[0][0] == 'phi':
            vals = []
            env = fr.env
            while ins[i][0] == 'phi':
                _, dst, t, inc = ins[i]
                for v, b in inc:
                    if b == fr.prev:
                        vals.append((dst, self.val(st, env, t, v)))
                        break
                else:
                    raise Unsupported("phi")
                i += 1
            for d, v in vals:
                env[d] = v
        fr.idx = i

    def run_path(self, st):
        while True:
            try:
                r = self.steps_loop(st)
            except PathError as e:
                self.outcomes.append(Outcome('error', (e.kind, e.msg), st))
                return
            except NeedConcrete as e:
                self.split_values(st, e.term)
                return
            if r is not None:
                if r != 'forked':
                    self.outcomes.append(r)
                return

    def split_values(self, st, term):
        vals = self.solver.int_values(st.pc, term, 80)
        if vals is None:
            raise Unsupported("too many values for a symbolic index %s" % term)
        for v in vals:
            s = st.fork()
            s.assume(tm.eq(term, tm.const(v, term.sort)))
            s.concr[term] = v
            self.work.append(s)

    def branch(self, st, c):
        """c: bool term.  Returns True/False, or forks: st continues with True and a copy is queued for False"""
        if c.op == 'c':
            return c.args[0]
        if c in st.pcset:
            return True
        nc = tm.not_(c)
        if nc in st.pcset:
            return False
        k = self.holds(st, c)
        if k is not None:
            return k
        if not self.solver.is_real(c):
            a = self.solver.int_feasible(st.pc, c)
            b = self.solver.int_feasible(st.pc, nc)
            if not a and not b:
                raise PathError('infeasible', '')
            if not a:
                st.assume(nc)
                return False
            if not b:
                st.assume(c)
                return True
        elif not self.fp:
            q = self.solver.quick(c, st)
            if q is not None:
                return q
            if self.prune_real:
                if self.solver.real_infeasible(st.pc + [nc]):
                    st.assume(c)
                    return True
                if self.solver.real_infeasible(st.pc + [c]):
                    st.assume(nc)
                    return False
        self.nfork += 1
        return None

    # ---- what the path condition says about the order of two terms
    def ordatom(self, c):
        """(key, mask) of an order atom: mask of the signs of a - b for which it is true (1: <, 2: =, 4: >)"""
        r = self.ordmemo.get(c, 0)
        if r != 0:
            return r
        r = None
        if c.op == 'not':
            q = self.ordatom(c.args[0])
            if q:
                r = (q[0], 7 ^ q[1])
        elif c.op == 'and':
            qs = [self.ordatom(x) for x in c.args]
            if all(qs) and len(set(q[0] for q in qs)) == 1:
                m = 7
                for q in qs:
                    m &= q[1]
                r = (qs[0][0], m)
        elif c.op in ('<', '<=', '=', 'islt', 'isle') and c.args[0].sort not in ('B', 1):
            a, b = c.args
            m = {'<': 1, 'islt': 1, '<=': 3, 'isle': 3, '=': 2}[c.op]
            key = None
            if a.sort == 'R' and not self.fp:
                try:
                    n, d = self.solver.ctx.reduce(self.solver.ctx.rf(tm.sub(a, b)))
                    if n and not d:
                        lead = n[max(n)]
                        if lead < 0:
                            m = flip3(m)
                        key = frozenset((mo, Fraction(co) / lead) for mo, co in n.items())
                except (nf.TooBig, ZeroDivisionError):
                    pass
            if key is None:
                key = (a.sort, a.id, b.id)
                if a.id > b.id:
                    key = (a.sort, b.id, a.id)
                    m = flip3(m)
            r = (key, m)
        self.ordmemo[c] = r
        return r

    def known(self, st, c):
        g = st.ghost
        n = g.get('ordn', 0)
        if n < len(st.pc):
            od = dict(g.get('ord', ()))
            for x in st.pc[n:]:
                r = self.ordatom(x)
                if r:
                    k = od.get(r[0], 7)
                    k2 = od[r[0]] = k & r[1]
                    if k2 == 2 and k != 2:
                        while x.op in ('not', 'and'):
                            x = x.args[0]
                        st.assume(tm.eq(x.args[0], x.args[1]))
            g['ord'] = od
            g['ordn'] = len(st.pc)
        od = g.get('ord')
        if not od:
            return None
        r = self.ordatom(c)
        if r is None:
            return None
        k = od.get(r[0])
        if k is None:
            return None
        m = r[1]
        if k & m == k:
            return True
        if k & m == 0:
            return False
        return None

    def holds(self, st, t):
        """three-valued truth of a boolean term under the order facts of the path"""
        if t.op == 'c':
            return t.args[0]
        if t in st.pcset:
            return True
        r = self.known(st, t)
        if r is not None:
            return r
        if t.op == 'not':
            r = self.holds(st, t.args[0])
            return None if r is None else not r
        if t.op == 'and':
            rs = [self.holds(st, x) for x in t.args]
            return False if False in rs else None if None in rs else True
        return None

    def steps_loop(self, st):
        val = self.val
        while True:
            fr = st.frames[-1]
            env = fr.env
            ins = fr.instrs[fr.idx]
            op = ins[0]
            self.steps += 1
            if self.steps > self.maxsteps:
                raise Unsupported("step limit")
            if op == 'load':
                env[ins[1]] = self.load(st, ins[2], val(st, env, ll.PTR, ins[3]))
            elif op == 'store':
                self.store(st, ins[2], val(st, env, ins[2], ins[3]), val(st, env, ll.PTR, ins[4]))
            elif op == 'gep':
                ops = ins[3]
                base = val(st, env, ll.PTR, ops[0][1])
                env[ins[1]] = self.gep(st, ins[2], base, [(t, val(st, env, t, v)) for t, v in ops[1:]])
            elif op in ll.BINOPS:
                t = ins[2]
                env[ins[1]] = self.binop(st, op, t, val(st, env, t, ins[3]), val(st, env, t, ins[4]), ins[5])
            elif op == 'jmp':
                self.jump(st, fr, ins[2])
                continue
            elif op == 'br':
                c = val(st, env, ll.I1, ins[2])
                if c is UNDEF:
                    raise PathError('uninit', 'branch on an uninitialised value')
                if not isinstance(c, int):
                    b = self.tobool(c)
                    r = self.branch(st, b)
                    if r is None:
                        s2 = st.fork()
                        s2.assume(tm.not_(b))
                        self.jump(s2, s2.frames[-1], ins[4])
                        self.work.append(s2)
                        st.assume(b)
                        c = 1
                        self.check_real(st, b)
                    else:
                        c = 1 if r else 0
                self.jump(st, fr, ins[3] if c & 1 else ins[4])
                continue
            elif op == 'icmp':
                env[ins[1]] = self.icmp(st, ins[2], ins[3], val(st, env, ins[3], ins[4]), val(st, env, ins[3], ins[5]))
            elif op == 'fcmp':
                env[ins[1]] = self.fcmp(ins[2], val(st, env, ins[3], ins[4]), val(st, env, ins[3], ins[5]))
            elif op == 'cast':
                env[ins[1]] = self.cast(st, ins[2], ins[3], val(st, env, ins[3], ins[4]), ins[5])
            elif op == 'call' or op == 'invoke':
                r = self.call(st, fr, ins)
                if r is not None:
                    return r
                continue
            elif op == 'select':
                c = val(st, env, ins[3][0], ins[3][1])
                if c is UNDEF:
                    raise PathError('uninit', 'select on an uninitialised value')
                x = val(st, env, ins[2], ins[4])
                y = val(st, env, ins[2], ins[5])
                if isinstance(c, tuple):
                    raise Unsupported("vector select")
                if not isinstance(c, int):
                    b = self.tobool(c)
                    r = None
                    if x is y:
                        r = True
                    elif ins[2] == ll.I1 and isinstance(x, (int, T)) and isinstance(y, (int, T)):
                        # boolean select stays symbolic: c ? x : y
                        bx, by = self.tobool(x), self.tobool(y)
                        env[ins[1]] = self.fromb(tm.or_(tm.and_(b, bx), tm.and_(tm.not_(b), by)))
                        fr.idx += 1
                        continue
                    if r is None:
                        r = self.branch(st, b)
                    if r is None:
                        s2 = st.fork()
                        s2.assume(tm.not_(b))
                        f2 = s2.frames[-1]
                        f2.env[ins[1]] = y
                        f2.idx += 1
                        self.work.append(s2)
                        st.assume(b)
                        r = True
                    c = 1 if r else 0
                env[ins[1]] = x if c & 1 else y
            elif op == 'fneg':
                v = val(st, env, ins[2], ins[3])
                if isinstance(v, tuple):
                    env[ins[1]] = tuple(UNDEF if x is UNDEF else tm.neg(x) for x in v)
                else:
                    env[ins[1]] = UNDEF if v is UNDEF else tm.neg(v)
            elif op == 'alloca':
                n = 1 if ins[3] is None else self.conc(st, val(st, env, ins[3][0], ins[3][1]))
                o = st.new(self.ty.size(ins[2]) * n, 'stack', fr.fn.name + ins[1])
                fr.allocas.append(o.id)
                env[ins[1]] = Ptr(o.id, 0)
            elif op == 'ret':
                v = None if ins[2] is None else val(st, env, ins[2], ins[3])
                for oid in fr.allocas:
                    st.wobj(oid).alive = False
                st.frames.pop()
                if not st.frames:
                    return Outcome('ret', None, st, v)
                cf = st.frames[-1]
                if fr.dst is not None:
                    cf.env[fr.dst] = v
                if fr.inv is not None:
                    self.jump(st, cf, fr.inv[0])
                else:
                    cf.idx += 1
                continue
            elif op == 'extractvalue':
                v = val(st, env, ins[2], ins[3])
                for k in ins[4]:
                    v = v[k] if v is not UNDEF else UNDEF
                env[ins[1]] = v
            elif op == 'insertvalue':
                v = val(st, env, ins[2], ins[3])
                e = val(st, env, ins[4][0], ins[4][1])
                env[ins[1]] = self.insval(ins[2], v, e, ins[5])
            elif op == 'extractelement':
                v = val(st, env, ins[2], ins[3])
                env[ins[1]] = v[self.conc(st, val(st, env, ('i', 64), ins[4]))]
            elif op == 'insertelement':
                v = val(st, env, ins[2], ins[3])
                l = list(v) if v is not UNDEF else [UNDEF] * ins[2][1]
                l[self.conc(st, val(st, env, ('i', 64), ins[5]))] = val(st, env, ins[4][0], ins[4][1])
                env[ins[1]] = tuple(l)
            elif op == 'freeze':
                v = val(st, env, ins[2], ins[3])
                if v is UNDEF:
                    raise PathError('uninit', 'freeze of an uninitialised value')
                env[ins[1]] = v
            elif op == 'switch':
                c = val(st, env, ins[2], ins[3])
                if isinstance(c, T):
                    c2 = st.concr.get(c)
                    if c2 is None:
                        # split on each case
                        rest = []
                        for k, lab in ins[5]:
                            e = tm.eq(c, tm.const(k, c.sort))
                            rest.append(tm.not_(e))
                            if self.solver.int_feasible(st.pc, e):
                                s2 = st.fork()
                                s2.assume(e)
                                s2.concr[c] = k & ((1 << c.sort) - 1)
                                self.jump(s2, s2.frames[-1], lab)
                                self.work.append(s2)
                        d = tm.and_(*rest)
                        if self.solver.int_feasible(st.pc, d):
                            st.assume(d)
                            self.jump(st, fr, ins[4])
                            continue
                        return 'forked'
                    c = c2
                if c is UNDEF:
                    raise PathError('uninit', 'switch on an uninitialised value')
                if not isinstance(c, int):
                    c = self.switchval(st, c, ins)
                for k, lab in ins[5]:
                    if k == c:
                        self.jump(st, fr, lab)
                        break
                else:
                    self.jump(st, fr, ins[4])
                continue
            elif op == 'landingpad':
                env[ins[1]] = self.landing(st, ins)
            elif op == 'resume':
                e = st.exc
                r = self.unwind_from(st, e, pop=True)
                if r is not None:
                    return r
                continue
            elif op == 'unreachable':
                raise PathError('unreachable', 'control reaches code the compiler assumed unreachable (undefined behaviour)')
            elif op == 'phi':
                raise Unsupported("phi out of place")
            elif op == 'stop' or op == 'loop':
                r = self.special(st, fr, ins)
                if r is not None:
                    return r
                continue
            else:
                raise Unsupported("instruction %s" % op)
            fr.idx += 1

    def check_real(self, st, c):
        pass

    def insval(self, t, v, e, idx):
        t = self.ty.resolve(t)
        if v is UNDEF:
            n = len(t[1]) if t[0] == 'st' else t[1]
            v = [UNDEF] * n
        v = list(v)
        k = idx[0]
        if len(idx) == 1:
            v[k] = e
        else:
            v[k] = self.insval(t[1][k] if t[0] == 'st' else t[2], v[k], e, idx[1:])
        return tuple(v)

    # ------------------------------------------------------------ exceptions
    def landing(self, st, ins):
        e = st.exc
        p, tn = e
        # selector: match catch clauses by type-info name (exact or catch-all)
        sel = 0
        for k, (kind, tv) in enumerate(ins[4]):
            if kind != 'catch':
                raise Unsupported("exception filter")
            v = tv[1]
            if v == ('c', 0):
                sel = 1 << 20
                break
            if v[0] == 'g' and (v[1] == tn or self.derives(tn, v[1])):
                sel = self.typeid(v[1])
                break
        st.ghost['sel'] = sel
        return (p, sel)

    STDBASE = {'@_ZTISt16invalid_argument': '@_ZTISt11logic_error', '@_ZTISt12length_error': '@_ZTISt11logic_error',
               '@_ZTISt11logic_error': '@_ZTISt9exception', '@_ZTISt13runtime_error': '@_ZTISt9exception',
               '@_ZTISt12out_of_range': '@_ZTISt11logic_error', '@_ZTISt9bad_alloc': '@_ZTISt9exception',
               '@_ZTISt12domain_error': '@_ZTISt11logic_error', '@_ZTISt11range_error': '@_ZTISt13runtime_error'}

    def typeid(self, tn):
        d = self.stubs.setdefault('typeids', {})
        return d.setdefault(tn, len(d) + 1)

    def base_of(self, tn):
        if tn in self.STDBASE:
            return self.STDBASE[tn]
        g = self.m.globals.get(tn)
        if g and g[1] and g[1][0] == 'agg' and len(g[1][1]) >= 3:
            v = g[1][1][2][1]
            if v[0] == 'g':
                return v[1]
        return None

    def derives(self, tn, base):
        while tn is not None:
            if tn == base:
                return True
            tn = self.base_of(tn)
        return False

    def throw(self, st, exc):
        """raise exc=(ptr,typename) at the current call instruction"""
        st.exc = exc
        return self.unwind_from(st, exc, pop=False)

    def unwind_from(self, st, exc, pop):
        first = not pop
        while st.frames:
            fr = st.frames[-1]
            ins = fr.instrs[fr.idx]
            if not (pop and ins[0] == 'resume') and ins[0] == 'invoke':
                # does the pad have a matching handler or a cleanup?
                st.exc = exc
                self.jump(st, fr, ins[6])
                return None
            pop = False
            for oid in fr.allocas:
                st.wobj(oid).alive = False
            st.frames.pop()
        return Outcome('throw', exc[1], st)

    # ------------------------------------------------------------ calls
    def ret_to(self, st, fr, ins, v):
        if ins[1] is not None:
            fr.env[ins[1]] = v
        if ins[0] == 'invoke':
            self.jump(st, fr, ins[5])
        else:
            fr.idx += 1
        return None

    def call(self, st, fr, ins):
        env = fr.env
        callee = ins[3]
        if callee[0] == 'l':
            f = env[callee[1]]
            if not isinstance(f, FnPtr):
                raise Unsupported("indirect call")
            name = f.name
        else:
            name = callee[1]
        if name in self.m.aliases and name not in self.m.funcs:
            v = self.m.aliases[name]
            name = v[1]
        if name.startswith('@llvm.') and name.split('.')[1] in ('experimental', 'dbg', 'assume', 'donothing', 'invariant',
                                                               'var', 'annotation', 'prefetch'):
            if '.noalias.scope' in name or name.startswith('@llvm.dbg') or 'assume' in name or 'donothing' in name:
                fr.idx += 1
                return None
        args = [self.val(st, env, t, v) if t[0] != 'metadata' else None for t, v in ins[4]]
        stub = self.stub_for(name)
        if stub is not None:
            return stub(self, st, fr, ins, args)
        f = self.m.funcs.get(name)
        if f is not None and not f.blocks:
            f = None
        if f is not None:
            self.called.add(name)
            self.push(st, f, args, ins[1], (ins[5], ins[6]) if ins[0] == 'invoke' else None)
            return None
        return self.builtin(st, fr, ins, name, args)

    def stub_for(self, name):
        if name in self.contracts:
            return self.contracts[name]
        f = self.contracts[name] = stdstubs.lookup(name)
        return f

    def builtin(self, st, fr, ins, name, args):
        n = name
        lm = libm_name(n)
        if lm is not None:
            return self.ret_to(st, fr, ins, self.libm(st, fr, ins, lm, args))
        if n.startswith('@llvm.'):
            p = n.split('.')
            k = p[1]
            if k == 'lifetime':
                ptr = args[1]
                if isinstance(ptr, Ptr):
                    o = st.wobj(ptr.obj)
                    if p[2] == 'start':
                        o.alive = True
                        o.cells = {}
                    else:
                        o.alive = False
                fr.idx += 1
                return None
            if k in ('memcpy', 'memmove'):
                self.memcpy(st, args[0], args[1], args[2])
                return self.ret_to(st, fr, ins, None)
            if k == 'memset':
                c = self.conc(st, args[1])
                sz = self.conc(st, args[2])
                if sz:
                    o, off = self.deref(st, args[0], sz, True)
                    if c == 0:
                        self.fill_zero(o, off, sz)
                    else:
                        self.clear_range(o, off, sz)
                        for j in range(sz):
                            o.cells[off + j] = (1, c & 255)
                return self.ret_to(st, fr, ins, None)
            if k in ('fmuladd', 'fma'):
                a, b, c = args
                if UNDEF in args:
                    return self.ret_to(st, fr, ins, UNDEF)
                return self.ret_to(st, fr, ins, tm.add(tm.mul(a, b), c))
            if k == 'expect':
                return self.ret_to(st, fr, ins, args[0])
            if k in ('smax', 'smin', 'umax', 'umin', 'abs'):
                return self.iminmax(st, fr, ins, k, args)
            if k == 'is' and p[2] == 'fpclass':
                return self.ret_to(st, fr, ins, 0)
            if k in ('stacksave',):
                return self.ret_to(st, fr, ins, 0)
            if k in ('stackrestore',):
                return self.ret_to(st, fr, ins, None)
            if k == 'eh' and p[2] == 'typeid':
                return self.ret_to(st, fr, ins, self.typeid(ins[4][0][1][1]))
            if k == 'trap':
                raise PathError('trap', 'trap reached')
            if k in ('sadd', 'ssub', 'smul', 'uadd', 'usub', 'umul') and p[2:3] == ['with']:
                a, b = args
                w = ins[4][0][0][1]
                if isinstance(a, int) and isinstance(b, int):
                    x, y = (tm.signed(a, w), tm.signed(b, w)) if k[0] == 's' else (a, b)
                    r = {'add': x + y, 'sub': x - y, 'mul': x * y}[k[1:]]
                    M = (1 << w) - 1
                    ov = r != (tm.signed(r & M, w) if k[0] == 's' else r & M)
                    return self.ret_to(st, fr, ins, (r & M, int(ov)))
            raise Unsupported("intrinsic %s" % n)
        if n in ('@_Znwm', '@_Znam', '@malloc'):
            sz = self.conc(st, args[0])
            if sz > 1 << 20:
                raise PathError('alloc', 'allocation of %d bytes' % sz)
            o = st.new(sz, 'heap', 'new#%d' % (st.nobj + 1))
            o.name = n
            return self.ret_to(st, fr, ins, Ptr(o.id, 0))
        if n in ('@_ZdlPv', '@_ZdlPvm', '@_ZdaPv', '@_ZdaPvm', '@free', '@_ZdlPvSt11align_val_t'):
            p = args[0]
            if p is UNDEF:
                raise PathError('uninit', 'free of an uninitialised pointer')
            if not isinstance(p, int):
                o = st.wobj(p.obj)
                if o.kind != 'heap' or self.conc(st, p.off) != 0:
                    raise PathError('free', 'free of a pointer that was not allocated')
                if not o.alive:
                    raise PathError('free', 'double free')
                arr = o.name == '@_Znam'
                if arr != (n in ('@_ZdaPv', '@_ZdaPvm')):
                    raise PathError('free', 'mismatched new/delete')
                o.alive = False
            return self.ret_to(st, fr, ins, None)
        if n == '@_ZSt11_Hash_bytesPKvmm':
            # trusted contract: a pure function of the bytes it is given, the length and the seed
            ln = self.conc(st, args[1])
            o, off = self.deref(st, args[0], ln, False)
            key, k = [], 0
            while k < ln:
                c = o.cells.get(off + k)
                if c is None or c[0] + k > ln:
                    raise PathError('uninit', 'hash of uninitialised memory')
                x = c[1]
                if not isinstance(x, (tm.T, int)):
                    raise Unsupported('hash of %r' % (x,))
                key.append(x if isinstance(x, tm.T) else tm.const(x, 8 * c[0]))
                k += c[0]
            sd = args[2] if isinstance(args[2], tm.T) else tm.const(args[2], 64)
            return self.ret_to(st, fr, ins, tm.iapp('hashbytes%d' % ln, 64, *(key + [sd])))
        if n == '@__cxa_allocate_exception':
            o = st.new(self.conc(st, args[0]), 'exc', 'exception')
            return self.ret_to(st, fr, ins, Ptr(o.id, 0))
        if n == '@__cxa_free_exception':
            return self.ret_to(st, fr, ins, None)
        if n == '@__cxa_throw':
            tn = ins[4][1][1][1]
            return self.throw(st, (args[0], tn))
        if n == '@__cxa_begin_catch':
            st.caught.append(st.exc)
            return self.ret_to(st, fr, ins, args[0])
        if n == '@__cxa_end_catch':
            st.caught.pop()
            return self.ret_to(st, fr, ins, None)
        if n == '@__cxa_rethrow':
            return self.throw(st, st.caught[-1])
        if n in ('@_ZSt17__throw_bad_allocv',):
            return self.throw(st, (0, '@_ZTISt9bad_alloc'))
        if n in ('@_ZSt28__throw_bad_array_new_lengthv',):
            return self.throw(st, (0, '@_ZTISt20bad_array_new_length'))
        if n.startswith('@_ZSt20__throw_length_error'):
            return self.throw(st, (0, '@_ZTISt12length_error'))
        if n in ('@_ZSt9terminatev', '@abort', '@__clang_call_terminate'):
            raise PathError('terminate', 'std::terminate / abort reached')
        if n == '@__cxa_guard_acquire':
            o, off = self.deref(st, args[0], 1, False)
            g = st.ghost.get(('guard', o.id), 0)
            return self.ret_to(st, fr, ins, 0 if g else 1)
        if n == '@__cxa_guard_release':
            o, off = self.deref(st, args[0], 1, False)
            st.ghost[('guard', o.id)] = 1
            return self.ret_to(st, fr, ins, None)
        if n.startswith('@_ZNSt') and ('C1E' in n or 'C2E' in n) and ('error' in n or 'argument' in n or 'exception' in n
                                                                   or 'out_of_range' in n):
            return self.ret_to(st, fr, ins, None)
        if n.startswith('@_ZNSt') and ('D1Ev' in n or 'D2Ev' in n or 'D0Ev' in n) and \
                ('error' in n or 'argument' in n or 'exception' in n):
            return self.ret_to(st, fr, ins, None)
        raise Unsupported("call to external %s" % n)

    def iminmax(self, st, fr, ins, k, args):
        a, b = args[0], args[1]
        w = ins[4][0][0][1]
        if k == 'abs':
            if isinstance(a, int):
                v = abs(tm.signed(a, w))
                return self.ret_to(st, fr, ins, v & ((1 << w) - 1))
            c = tm.icmp('slt', a, tm.const(0, w))
            x, y = tm.neg(a), a
        else:
            if isinstance(a, int) and isinstance(b, int):
                f = (lambda z: tm.signed(z, w)) if k[0] == 's' else (lambda z: z)
                r = max(f(a), f(b)) if k.endswith('max') else min(f(a), f(b))
                return self.ret_to(st, fr, ins, r & ((1 << w) - 1))
            a = a if isinstance(a, T) else tm.const(a, w)
            b = b if isinstance(b, T) else tm.const(b, w)
            c = tm.icmp(('s' if k[0] == 's' else 'u') + 'lt', a, b)
            x, y = (b, a) if k.endswith('max') else (a, b)
        r = self.branch(st, c)
        if r is None:
            s2 = st.fork()
            s2.assume(tm.not_(c))
            self.ret_to(s2, s2.frames[-1], ins, y)
            self.work.append(s2)
            st.assume(c)
            r = True
        return self.ret_to(st, fr, ins, x if r else y)

    def libm(self, st, fr, ins, f, args):
        if any(a is UNDEF for a in args):
            return UNDEF
        a = args[0]
        if f == 'sqrt':
            self.obl(st, 'sqrt', tm.ge(a, tm.const(0)), 'argument of sqrt is nonnegative')
            return tm.sqrt(a)
        if f == 'fabs':
            return tm.fabs(a)
        if f == 'sin':
            return tm.sin(a)
        if f == 'cos':
            return tm.cos(a)
        if f == 'tan':
            return tm.app('tan', a)
        if f in ('acos', 'asin'):
            self.obl(st, f, tm.and_(tm.ge(a, tm.const(-1)), tm.le(a, tm.const(1))), 'argument of %s is in [-1,1]' % f)
            return tm.app(f, a)
        if f == 'log':
            self.obl(st, 'log', tm.gt(a, tm.const(0)), 'argument of log is positive')
            return tm.app('log', a)
        if f == 'exp':
            return tm.app('exp', a)
        if f == 'fmod':
            self.obl(st, 'div0', tm.ne(args[1], tm.const(0)), 'fmod divisor is nonzero')
            return tm.app('fmod', a, args[1])
        if f == 'pow' and args[1].op == 'c' and args[1].args[0].denominator == 1 and 0 <= args[1].args[0] <= 8:
            return a ** int(args[1].args[0])
        if f in ('fmin', 'minnum', 'fmax', 'maxnum'):
            c = tm.lt(a, args[1])
            lo, hi = (a, args[1])
            return tm.ite(c, lo, hi) if 'min' in f else tm.ite(c, hi, lo)
        if f == 'hypot':
            return tm.sqrt(tm.add(tm.mul(a, a), tm.mul(args[1], args[1])))
        return tm.app(f, *args)


def flip3(m):
    return (m & 2) | (4 if m & 1 else 0) | (1 if m & 4 else 0)


def repr_inf(x):
    if isinstance(x, T):
        if x.op == 'app' and x.args[0] in ('inf', 'nan'):
            return x.args[0]
        if x.op == 'neg' and x.args[0].op == 'app' and x.args[0].args[0] == 'inf':
            return '-inf'
    return ''
