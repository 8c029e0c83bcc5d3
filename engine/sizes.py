"""Unbounded run-time sizes.

Contract units whose array lengths are symbolic.  Sizes, indices and pointer offsets are integer polynomials over the size
parameters and the loop counters; a loop over a symbolic range is replaced by an inferred invariant that is then verified by
one generic iteration:

  at the head of iteration k   0 <= k <= T,  every integer or pointer phi is  init + step*k,  every real phi is
  init + sum_{k'<k} f(k'),  and the written arrays are the initial ones overwritten by the stores of the iterations k' < k.

The generic iteration is executed symbolically from that state.  The invariant is preserved when (checked) the stores of
different iterations hit different elements and no iteration reads an element that an earlier one wrote, the phis step
uniformly, the summand does not mention the accumulator, and the exit test is equivalent to k >= T.  Exits on element values
(searches, comparisons) leave at a fresh iteration e < T with the continuation condition of all k < e as a quantified fact.

Integers are mathematical here: element counts are assumed to stay below 2**28."""
from fractions import Fraction
import itertools
import z3
import terms as tm
import symex
import nf
import solve
import llparse as ll
from symex import Ptr, UNDEF, PathError, Unsupported, Outcome
from terms import T

BIGN = 1 << 28


class N:
    """integer polynomial; c: {tuple of variable names: int}"""
    __slots__ = ('c', 'h')

    def __init__(self, c):
        self.c = {m: k for m, k in c.items() if k}
        self.h = None

    def key(self):
        if self.h is None:
            self.h = frozenset(self.c.items())
        return self.h

    def __eq__(self, o):
        return isinstance(o, N) and self.c == o.c

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return tm.show(term(self), 9)


def P_(x):
    return x if isinstance(x, N) else N({(): x})


def nvar(name):
    return N({(name,): 1})


def nadd(a, b, s=1):
    c = dict(a.c)
    for m, k in b.c.items():
        c[m] = c.get(m, 0) + s * k
    return N(c)


def nmul(a, b):
    c = {}
    for m, k in a.c.items():
        for n, l in b.c.items():
            q = tuple(sorted(m + n))
            c[q] = c.get(q, 0) + k * l
    return N(c)


def nsub(a, b):
    return nadd(a, b, -1)


def nscale(a, k):
    return N({m: k * x for m, x in a.c.items()})


def ncon(a):
    """constant value or None"""
    if not a.c:
        return 0
    if len(a.c) == 1 and () in a.c:
        return a.c[()]
    return None


def nvars(a):
    return {v for m in a.c for v in m}


def nsubst(a, mp):
    if not any(v in mp for v in nvars(a)):
        return a
    r = N({})
    for m, k in a.c.items():
        t = N({(): k})
        for v in m:
            t = nmul(t, mp.get(v) or nvar(v))
        r = nadd(r, t)
    return r


def low32(a):
    return N({m: tm.signed(k & 0xffffffff, 32) for m, k in a.c.items()})


def ndiv(a, k):
    """exact division by an integer, or None"""
    if any(x % k for x in a.c.values()):
        return None
    return N({m: x // k for m, x in a.c.items()})


def coef(a, v):
    """a = p*v + q with q free of v and p free of v, or None"""
    p, q = {}, {}
    for m, k in a.c.items():
        e = m.count(v)
        if e == 0:
            q[m] = k
        elif e == 1:
            l = list(m)
            l.remove(v)
            p[tuple(l)] = k
        else:
            return None
    return N(p), N(q)


def divvar(a, mono):
    """a = q*mono + r with no monomial of r divisible by mono (a tuple of names)"""
    q, r = {}, {}
    for m, k in a.c.items():
        l = list(m)
        ok = True
        for v in mono:
            if v in l:
                l.remove(v)
            else:
                ok = False
                break
        if ok:
            q[tuple(l)] = k
        else:
            r[m] = k
    return N(q), N(r)


_tmemo = {}


def term(p):
    """canonical real term of the polynomial"""
    k = p.key()
    t = _tmemo.get(k)
    if t is None:
        r = tm.const(0)
        for m in sorted(p.c, key=lambda m: (-len(m), m)):
            x = tm.const(p.c[m])
            for v in m:
                x = tm.mul(x, tm.var(v))
            r = tm.add(r, x)
        t = _tmemo[k] = r
    return t


_pmemo = {}


def poly(t):
    """index polynomial of a real term, or None"""
    if isinstance(t, int):
        return N({(): t})
    if t in _pmemo:
        return _pmemo[t]
    r = None
    op = t.op
    if op == 'c' and t.sort == 'R':
        if t.args[0].denominator == 1:
            r = N({(): int(t.args[0])})
    elif op == 'var':
        if t.args[0].startswith('#'):
            r = nvar(t.args[0])
    elif op in ('+', '-', '*') and t.sort == 'R':
        a, b = poly(t.args[0]), poly(t.args[1])
        if a is not None and b is not None:
            r = nadd(a, b) if op == '+' else nsub(a, b) if op == '-' else nmul(a, b)
    elif op == 'neg':
        a = poly(t.args[0])
        if a is not None:
            r = nscale(a, -1)
    _pmemo[t] = r
    return r


def isindex(c):
    """is the boolean term a condition on indices only"""
    if c.op == 'not':
        return isindex(c.args[0])
    if c.op in ('<', '<=', '=') and c.args[0].sort == 'R':
        return poly(c.args[0]) is not None and poly(c.args[1]) is not None
    if c.op == 'and':
        return all(isindex(x) for x in c.args)
    return False


def ge0(p):
    k = ncon(p)
    if k is not None:
        return tm.TRUE if k >= 0 else tm.FALSE
    return tm.le(tm.const(0), term(p))


def eq0(p):
    k = ncon(p)
    if k is not None:
        return tm.TRUE if k == 0 else tm.FALSE
    lead = p.c[max(p.c, key=lambda m: (len(m), m))]
    return tm.eq(term(nscale(p, -1) if lead < 0 else p), tm.const(0))


def subst(t, mp, memo=None):
    """replaces index variables {name: N} in a term"""
    memo = {} if memo is None else memo
    if t in memo:
        return memo[t]
    p = poly(t) if t.sort == 'R' else None
    if p is not None:
        r = term(nsubst(p, mp))
    elif t.op in ('var', 'c'):
        r = t
    else:
        a = tuple(subst(x, mp, memo) if isinstance(x, T) else x for x in t.args)
        if a == t.args:
            r = t
        elif t.op == 'app':
            r = tm.mk('app', a, t.sort)
        else:
            r = solve.rebuild(t, a)
    memo[t] = r
    return r


def el(name, idx, sort='R'):
    return tm.mk('app', ('el:' + name, term(idx)), sort)


def depth_of(t, memo):
    r = memo.get(t)
    if r is None:
        r = 0
        if t.op == 'app' and t.args[0] == 'sum':
            r = int(t.args[1].args[0][2:])
        for a in t.args:
            if isinstance(a, T):
                r = max(r, depth_of(a, memo))
        memo[t] = r
    return r


def mk_sum(k, bound, body):
    """sum of body over 0 <= k < bound"""
    c = ncon(bound)
    if c is not None:
        r = tm.const(0)
        for i in range(max(c, 0)):
            r = tm.add(r, subst(body, {k: P_(i)}))
        return r
    if body.op == 'c' and body.args[0] == 0:
        return body
    d = depth_of(body, {}) + 1
    b = '#b%d' % d
    return tm.app('sum', tm.var(b), term(bound), subst(body, {k: nvar(b)}))


# ---------------------------------------------------------------- integer reasoning

POOL = []           # recent models of index conditions: they refute most of what cannot be proved


def nval(p, m):
    r = 0
    for mo, k in p.c.items():
        for v in mo:
            k = k * m[v]
        r += k
    return r


class Facts:
    def __init__(self, pc):
        self.ge = []
        self.ne = []
        for c in pc:
            self.add(c)
        self.lo, self.hi = {}, {}
        for f in self.ge:
            for v in nvars(f):
                cf = coef(f, v)
                if cf is None:
                    continue
                k = ncon(cf[0])
                if k == 1:
                    self.lo.setdefault(v, []).append(nscale(cf[1], -1))
                elif k == -1:
                    self.hi.setdefault(v, []).append(cf[1])
        self.nonneg = {v for v, l in self.lo.items() if any((ncon(x) or 0) >= 0 and ncon(x) is not None for x in l)}
        self.memo = {}
        self.incons = None
        self.models = [m for m in POOL if self.holds(m)]

    def holds(self, m):
        try:
            return all(nval(f, m) >= 0 for f in self.ge) and all(nval(f, m) != 0 for f in self.ne)
        except KeyError:
            return False

    def add(self, c):
        neg = False
        if c.op == 'not':
            neg = True
            c = c.args[0]
        if c.op not in ('<', '<=', '=') or c.args[0].sort != 'R':
            return
        a, b = poly(c.args[0]), poly(c.args[1])
        if a is None or b is None:
            return
        d = nsub(b, a)
        one = P_(1)
        if c.op == '=':
            if neg:
                self.ne.append(d)
            else:
                self.ge += [d, nscale(d, -1)]
        elif c.op == '<=':
            self.ge.append(d if not neg else nsub(nscale(d, -1), one))
        else:
            self.ge.append(nsub(d, one) if not neg else nscale(d, -1))

    def prove(self, p):
        """p >= 0 ?"""
        k = p.key()
        r = self.memo.get(k)
        if r is None:
            r = self.memo[k] = bool(self._prove(p))
        return r

    def _prove(self, p):
        k = ncon(p)
        if k is not None:
            return k >= 0
        if p in self.ge:
            return True
        if p.c.get((), 0) >= BIGN and all(abs(x) <= 64 for m, x in p.c.items() if m):
            return True
        for m in self.models:
            try:
                if nval(p, m) < 0:
                    return False
            except KeyError:
                pass
        self.budget = 40
        if self.slack(p, {}, frozenset()):
            return True
        r = self.z3(p)
        if r is None:
            self.budget = 400
            r = self.slack(p, {}, frozenset())
        return r

    def good(self, p, slk):
        return all(x >= 0 for x in p.c.values()) and all(v in slk or v in self.nonneg for v in nvars(p))

    def slack(self, p, mp, slk):
        if self.good(p, slk):
            return True
        self.budget -= 1
        if self.budget < 0 or len(mp) >= 5:
            return False
        for v in sorted(nvars(p)):
            if v in slk:
                continue
            s = '#s%d' % len(mp)
            for hi in self.hi.get(v, ()):
                h = nsubst(hi, mp)
                if v in nvars(h):
                    continue
                x = nsub(h, nvar(s))
                if self.slack(nsubst(p, {v: x}), dict({a: nsubst(b, {v: x}) for a, b in mp.items()}, **{v: x}), slk | {s}):
                    return True
            for lo in self.lo.get(v, ()):
                if ncon(lo) == 0:
                    continue
                l = nsubst(lo, mp)
                if v in nvars(l):
                    continue
                x = nadd(l, nvar(s))
                if self.slack(nsubst(p, {v: x}), dict({a: nsubst(b, {v: x}) for a, b in mp.items()}, **{v: x}), slk | {s}):
                    return True
        return False

    def small(self, p, names):
        """small sizes for which the conditions hold and p < 0: {name: value} or None"""
        for hi in (4, 14, 40):
            r = self.z3(p, hi, names)
            if isinstance(r, dict):
                return r
        return None

    def z3(self, p, hi=None, names=()):
        s = z3.Solver()
        s.set('timeout', 300 if hi is None else 1500)
        vs = {}

        def conv(q):
            r = z3.IntVal(0)
            for m, k in q.c.items():
                t = z3.IntVal(k)
                for v in m:
                    t = t * vs.setdefault(v, z3.Int(v))
                r = r + t
            return r
        for f in self.ge:
            s.add(conv(f) >= 0)
        for f in self.ne:
            s.add(conv(f) != 0)
        s.add(conv(p) < 0)
        if hi is not None:
            for v, x in vs.items():
                s.add(x >= 0, x <= hi)
        r = s.check()
        if r == z3.sat and hi is not None:
            md = s.model()
            return {n: md[vs['#' + n]].as_long() for n in names if '#' + n in vs and md[vs['#' + n]] is not None}
        if r == z3.sat:
            md = s.model()
            m = {v: md[x].as_long() if md[x] is not None else 0 for v, x in vs.items()}
            if self.holds(m) and nval(p, m) < 0:
                self.models.append(m)
                POOL.append(m)
                del POOL[:-40]
            return False
        return True if r == z3.unsat else None

    def ge(self, p):
        pass

    def decide_ge(self, p):
        if self.prove(p):
            return True
        if self.prove(nsub(nscale(p, -1), P_(1))):
            return False
        return None

    def decide_eq(self, p):
        m = nscale(p, -1)
        if not p.c:
            return True
        if p in self.ne or m in self.ne or self.prove(nsub(p, P_(1))) or self.prove(nsub(m, P_(1))):
            return False
        if self.prove(p) and self.prove(m):
            return True
        # p = q*m + r with 0 < |r| < m is not zero
        for v in sorted(nvars(p)):
            q, r = divvar(p, (v,))
            if not q.c or not r.c:
                continue
            for s in (r, nscale(r, -1)):
                if self.prove(nsub(s, P_(1))) and self.prove(nsub(nsub(nvar(v), s), P_(1))):
                    return False
        return None

    def inconsistent(self):
        if self.incons is None:
            self.incons = not self.models and self.z3(P_(-1)) is True
        return self.incons


_facts = {}


def facts(pc):
    k = tuple(c for c in pc if isindex(c))
    f = _facts.get(k)
    if f is None:
        if len(_facts) > 4000:
            _facts.clear()
        f = _facts[k] = Facts(k)
    return f


class NeedSplit(Exception):
    def __init__(self, *alts):
        self.alts = alts        # alternatives: lists of conditions that cover all cases


def decide_ge(st, p):
    r = facts(st.pc).decide_ge(p)
    if r is None:
        raise NeedSplit([ge0(p)], [ge0(nsub(nscale(p, -1), P_(1)))])
    return r


def decide_eq(st, p):
    r = facts(st.pc).decide_eq(p)
    if r is None:
        raise NeedSplit([eq0(p)], [ge0(nsub(p, P_(1)))], [ge0(nsub(nscale(p, -1), P_(1)))])
    return r


# ---------------------------------------------------------------- arrays of symbolic length

class W:
    """for all values of the variables in their ranges: element idx holds val"""
    __slots__ = ('vars', 'idx', 'val')

    def __init__(self, vs, idx, val):
        self.vars = vs          # ((name, bound N), ...), outermost first
        self.idx = idx
        self.val = val


class SObj(symex.Obj):
    __slots__ = ('count', 'es', 'writes', 'base', 'esort')

    def __init__(self, id, size, kind, name=''):
        symex.Obj.__init__(self, id, size, kind, name)
        self.es = None
        self.esort = None
        self.writes = ()
        self.base = None

    def copy(self):
        o = SObj.__new__(SObj)
        for a in ('id', 'size', 'alive', 'kind', 'name', 'const', 'es', 'writes', 'base', 'esort'):
            setattr(o, a, getattr(self, a))
        o.cells = {}
        o.owner = None
        return o


class Ctx:
    pass


class SizeExec(symex.Exec):
    def __init__(self, *a, **k):
        symex.Exec.__init__(self, *a, **k)
        self.ctx = []
        self.allobls = []
        self.suspects = []          # conditions under which an obligation may fail
        self.nk = 0
        self.loopsof = {}
        self.loops_done = 0
        self.forks = 0

    def fresh_k(self, p='k'):
        self.nk += 1
        return '#%s%d' % (p, self.nk)

    def new_array(self, st, size, kind, name, base=None, es=None):
        st.nobj += 1
        o = SObj(st.nobj, size, kind, name)
        o.base = base
        o.es = es
        o.owner = st.token
        st.mem[o.id] = o
        return o

    # ---- integers
    def norm(self, p, w=64):
        k = ncon(p)
        return p if k is None else k & ((1 << w) - 1)

    def num(self, x, w, signed=True):
        if isinstance(x, N):
            return x
        if isinstance(x, int):
            return P_(tm.signed(x, w) if signed else x)
        if isinstance(x, T) and x.op == 'c':
            return P_(tm.signed(x.args[0], x.sort))
        raise Unsupported('integer %r among sizes' % (x,))

    def binop(self, st, op, t, a, b, fl):
        if not (isinstance(a, N) or isinstance(b, N)):
            return symex.Exec.binop(self, st, op, t, a, b, fl)
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == 'add' and isinstance(a, Ptr):
                return self.pplus(a, self.num(b, 64))
            if op == 'sub' and isinstance(a, Ptr) and isinstance(b, N):
                return self.pplus(a, nscale(b, -1))
            raise Unsupported('pointer arithmetic %s' % op)
        w = t[1]
        x, y = self.num(a, w), self.num(b, w)
        if op == 'add':
            return self.norm(nadd(x, y), w)
        if op == 'sub':
            return self.norm(nsub(x, y), w)
        if op == 'mul':
            return self.norm(nmul(x, y), w)
        k = ncon(y)
        if op == 'or':
            # two 32-bit halves packed into one register
            for u, v in ((x, y), (y, x)):
                if all(c % (1 << 32) == 0 for c in u.c.values()) and facts(st.pc).prove(v):
                    return nadd(u, v)
        if op in ('ashr', 'lshr') and k == 32 and any(abs(c) >= 1 << 31 for c in x.c.values()):
            lo = low32(x)
            hi = nsub(x, lo)
            if facts(st.pc).prove(lo) and (op == 'ashr' or facts(st.pc).prove(hi)):
                return self.norm(ndiv(hi, 1 << 32), w)
        if op == 'shl' and k is not None:
            return self.norm(nscale(x, 1 << k), w)
        if op in ('ashr', 'lshr') and k is not None:
            k, op = 1 << k, 'sdiv'
        if op in ('sdiv', 'udiv') and k:
            r = ndiv(x, k)
            if r is not None:
                return self.norm(r, w)
        if op in ('srem', 'urem') and k:
            if ndiv(x, k) is not None:
                return 0
        raise Unsupported('%s of a symbolic size: %r %r' % (op, x, y))

    def cast(self, st, op, t1, a, t2):
        if isinstance(a, N):
            if op in ('sitofp', 'uitofp'):
                return term(a)
            if op == 'trunc' and t2[1] == 32:
                return self.norm(low32(a), 32)
            if op in ('sext', 'zext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr') and t2[1] != 1:
                return a
            raise Unsupported('%s of a symbolic size' % op)
        return symex.Exec.cast(self, st, op, t1, a, t2)

    def icmp(self, st, pred, t, a, b):
        if isinstance(a, N) or isinstance(b, N):
            if a is UNDEF or b is UNDEF:
                return UNDEF
            if isinstance(a, (Ptr, symex.FnPtr)) or isinstance(b, (Ptr, symex.FnPtr)):
                return symex.Exec.icmp(self, st, pred, t, a, b)
            w = 64 if t == ll.PTR else t[1]
            if pred[0] == 'u':
                x, y = self.num(a, w, False), self.num(b, w, False)
                f = facts(st.pc)
                for z in (x, y):
                    if ncon(z) is None and not f.prove(z):
                        raise Unsupported('unsigned comparison of a size that may be negative')
            else:
                x, y = self.num(a, w), self.num(b, w)
            return self.ncmp(pred if pred in ('eq', 'ne') else pred[1:], x, y)
        return symex.Exec.icmp(self, st, pred, t, a, b)

    def ncmp(self, o, x, y):
        d = nsub(x, y)
        if o in ('eq', 'ne'):
            c = eq0(d)
            if o == 'ne':
                c = tm.not_(c)
        else:
            if o in ('lt', 'gt'):
                c = ge0(nsub(nsub(y, x) if o == 'lt' else d, P_(1)))
            else:
                c = ge0(nsub(y, x) if o == 'le' else d)
        return self.fromb(c)

    def off(self, p):
        return p.off if isinstance(p.off, N) else self.num(p.off, 64)

    def pcmp(self, st, pred, a, b):
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj and (isinstance(a.off, N) or isinstance(b.off, N)):
            return self.ncmp(pred if pred in ('eq', 'ne') else pred[1:], self.off(a), self.off(b))
        return symex.Exec.pcmp(self, st, pred, a, b)

    def ptrop(self, st, op, w, a, b):
        if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
            return self.norm(nsub(self.off(a), self.off(b)), w)
        return symex.Exec.ptrop(self, st, op, w, a, b)

    def pplus(self, p, d):
        x = nadd(self.off(p), d)
        k = ncon(x)
        return Ptr(p.obj, x if k is None else k)

    def padd(self, p, k):
        if isinstance(p, Ptr) and isinstance(p.off, N):
            return self.pplus(p, P_(k))
        return symex.Exec.padd(self, p, k)

    def gep(self, st, t, base, idx):
        if any(isinstance(iv, N) for _, iv in idx) or isinstance(base, Ptr) and isinstance(base.off, N):
            off = P_(0)
            first = True
            if base is UNDEF:
                return UNDEF
            for it, iv in idx:
                if iv is UNDEF:
                    return UNDEF
                if first:
                    scale = self.ty.size(t)
                    first = False
                else:
                    t = self.ty.resolve(t)
                    if t[0] == 'st':
                        off = nadd(off, P_(self.ty.offsets(t)[iv]))
                        t = t[1][iv]
                        continue
                    t = t[2]
                    scale = self.ty.size(t)
                off = nadd(off, nscale(self.num(iv, it[1]), scale))
            if isinstance(base, int):
                if base == 0:
                    raise Unsupported('symbolic offset from a null pointer')
                raise Unsupported('symbolic offset')
            return self.pplus(base, off)
        return symex.Exec.gep(self, st, t, base, idx)

    def conc(self, st, x):
        if isinstance(x, N):
            raise Unsupported('a symbolic size where a number is needed')
        return symex.Exec.conc(self, st, x)

    def deref(self, st, p, n, write):
        if isinstance(p, Ptr):
            if isinstance(p.off, N):
                o = st.mem[p.obj]
                if not isinstance(o, SObj):
                    raise Unsupported('symbolic offset in an object of fixed size')
                raise Unsupported('access to a symbolic array')
            if isinstance(st.mem[p.obj], SObj):
                raise Unsupported('access to a symbolic array')
        if isinstance(p, N):
            raise PathError('oob', 'access through the number %r' % p)
        return symex.Exec.deref(self, st, p, n, write)

    # ---- arrays
    def spos(self, st, p, n, what):
        o = st.mem[p.obj]
        if not o.alive:
            raise PathError('uaf', 'access to %s object %s after its lifetime ended' % (o.kind, o.name))
        if o.es is None:
            o = st.wobj(p.obj)
            o.es = n
        if o.es != n:
            raise Unsupported('access of %d bytes in an array of %d-byte elements' % (n, o.es))
        idx = ndiv(self.off(p), n)
        if idx is None:
            raise Unsupported('unaligned access')
        cnt = ndiv(o.size, n)
        if cnt is None:
            raise Unsupported('array size')
        f = facts(st.pc)
        for q in (idx, nsub(nsub(cnt, idx), P_(1))):
            if not f.prove(q):
                self.suspects.append((list(st.pc), q))
                raise PathError('oob', '%s possibly outside %s object %s: index %r of %r' % (what, o.kind, o.name, idx, cnt))
        return o, idx

    def load(self, st, t, p):
        if isinstance(p, Ptr) and isinstance(st.mem.get(p.obj), SObj):
            t = self.ty.resolve(t)
            if t[0] in ('arr', 'vec', 'st'):
                return symex.Exec.load(self, st, t, p)
            n = self.ty.size(t)
            o, idx = self.spos(st, p, n, 'read')
            if t[0] not in ('f', 'i'):
                raise Unsupported('element type')
            so = 'R' if t[0] == 'f' else t[1]
            if o.esort is None:
                o = st.wobj(o.id)
                o.esort = so
            v = self.read(st, o, idx, so)
            if isinstance(v, T) and v.sort != so:
                raise Unsupported('element type')
            return v.args[0] if isinstance(v, T) and v.op == 'c' and so != 'R' else v
        return symex.Exec.load(self, st, t, p)

    def store(self, st, t, v, p):
        if isinstance(p, Ptr) and isinstance(st.mem.get(p.obj), SObj):
            t = self.ty.resolve(t)
            if t[0] in ('arr', 'vec', 'st'):
                return symex.Exec.store(self, st, t, v, p)
            n = self.ty.size(t)
            o, idx = self.spos(st, p, n, 'write')
            if o.const:
                raise PathError('frame', 'write to read-only object %s' % o.name)
            if t[0] not in ('f', 'i'):
                raise Unsupported('element type')
            so = 'R' if t[0] == 'f' else t[1]
            if v is UNDEF:
                self.nundef = getattr(self, 'nundef', 0) + 1
                v = el('undef!%d' % self.nundef, idx, so)       # some value
            if isinstance(v, int):
                v = tm.const(0) if so == 'R' and v == 0 else tm.const(v, so)
            if not (isinstance(v, T) and v.sort == so):
                raise Unsupported('store of %r' % (v,))
            if o.esort is None:
                o = st.wobj(o.id)
                o.esort = so
            self.write(st, o.id, W((), idx, v))
            return
        return symex.Exec.store(self, st, t, v, p)

    def write(self, st, oid, w):
        o = st.wobj(oid)
        ws = o.writes
        keep = max([c.base.get(oid, 0) for c in self.ctx] or [0])
        if not w.vars:
            ws = ws[:keep] + tuple(x for x in ws[keep:] if x.vars or x.idx != w.idx)
        o.writes = ws + (w,)

    def read(self, st, o, e, so='R'):
        for n in range(len(o.writes) - 1, -1, -1):
            w = o.writes[n]
            mp = self.match(st, w, e)
            if mp is not None:
                self.log(st, o.id, e, n)
                v = subst(w.val, mp) if mp else w.val
                return tm.const(0, so) if so != 'R' and v.op == 'c' and v.sort == 'R' else v
        self.log(st, o.id, e, -1)
        if o.base is None:
            return UNDEF
        return el(o.base, e, so)

    def log(self, st, oid, e, n):
        for c in self.ctx:
            if oid in c.base and n < c.base[oid]:
                c.reads.append((oid, e, tuple(st.pc)))

    def match(self, st, w, e):
        """None when the element is certainly not written by w, else the values of w's variables"""
        if not w.vars:
            return {} if decide_eq(st, nsub(e, w.idx)) else None
        vs = [v for v, b in w.vars]
        mp = {}
        rest = e
        # variables with the largest multiplier first: e = i*C + j (C symbolic) is unique with 0 <= j < C
        todo = []
        r0 = w.idx
        for v in vs:
            cf = coef(r0, v)
            if cf is None or any(u in nvars(cf[0]) for u in vs):
                raise Unsupported('store pattern')
            todo.append((v, cf[0]))
            r0 = cf[1]
        rest = nsub(rest, r0)
        todo.sort(key=lambda x: -max([len(m) for m in x[1].c] or [0]))
        for v, c in todo[:-1]:
            if len(c.c) != 1:
                raise Unsupported('store pattern')
            (mono, k), = c.c.items()
            if not mono or k != 1:
                raise Unsupported('store pattern with constant stride')
            q, rest = divvar(rest, mono)
            mp[v] = q
        if todo:
            v, c = todo[-1]
            k = ncon(c)
            if k in (1, -1):
                mp[v] = nscale(rest, k)
            elif k:
                s = ndiv(rest, k)
                if s is None:
                    raise Unsupported('store stride')
                mp[v] = s
            elif len(c.c) == 1 and list(c.c.values()) == [1]:
                (mono, _), = c.c.items()
                q, rest = divvar(rest, mono)
                mp[v] = q
                if ncon(rest) != 0 and not decide_eq(st, rest):
                    # a single strided variable: 0 < |remainder| < stride
                    f = facts(st.pc)
                    for x in (rest, nscale(rest, -1)):
                        if f.prove(nsub(x, P_(1))) and f.prove(nsub(nsub(c, x), P_(1))):
                            return None
                    raise Unsupported('store stride')
            else:
                raise Unsupported('store stride')
        if len(w.vars) == 1 and len(todo) == 1:
            # a row of a matrix: x = q*m + r with 0 <= r < m = bound is inside exactly when q = 0
            v, b = w.vars[0]
            if len(b.c) == 1 and list(b.c.values()) == [1]:
                (mono, _), = b.c.items()
                q, r = divvar(mp[v], mono)
                f = facts(st.pc)
                if mono and q.c and f.prove(r) and f.prove(nsub(nsub(b, r), P_(1))):
                    if not decide_eq(st, q):
                        return None
                    mp[v] = r
        inside = True
        for v, b in w.vars:
            bb = nsubst(b, mp)
            x = mp[v]
            for q in (x, nsub(nsub(bb, x), P_(1))):
                if len(todo) > 1:
                    # decomposition is unique only when the low part is in range; then the high part decides
                    r = facts(st.pc).decide_ge(q)
                    if r is None or (r is False and v == todo[-1][0]):
                        if v == todo[-1][0] and r is False:
                            raise Unsupported('store pattern: low index out of range')
                        raise NeedSplit([ge0(q)], [ge0(nsub(nscale(q, -1), P_(1)))])
                    if not r:
                        inside = False
                elif not decide_ge(st, q):
                    inside = False
                if not inside:
                    break
            if not inside:
                break
        if not inside and len(todo) > 1:
            lo, c = todo[-1]
            f = facts(st.pc)
            bl = nsubst(dict(w.vars)[lo], mp)
            if not (f.prove(mp[lo]) and f.prove(nsub(nsub(bl, mp[lo]), P_(1))) and len(todo) == 2 and f.prove(nsub(todo[0][1], bl))):
                raise Unsupported('store pattern')
        return mp if inside else None

    def memcpy(self, st, d, s, n):
        so = isinstance(s, Ptr) and isinstance(st.mem.get(s.obj), SObj)
        do = isinstance(d, Ptr) and isinstance(st.mem.get(d.obj), SObj)
        if not (so or do or isinstance(n, N)):
            return symex.Exec.memcpy(self, st, d, s, n)
        n = self.num(n, 64)
        if ncon(n) == 0:
            return
        if not (so and do):
            raise Unsupported('copy between an array of symbolic length and other memory')
        if ncon(n) is None and not facts(st.pc).prove(nsub(n, P_(1))):
            if not decide_ge(st, nsub(n, P_(1))):
                return
        es = st.mem[s.obj].es or st.mem[d.obj].es or 8
        o, i0 = self.spos(st, s, es, 'read')
        _, _ = self.spos(st, self.pplus(s, nsub(n, P_(es))), es, 'read')
        q, j0 = self.spos(st, d, es, 'write')
        self.spos(st, self.pplus(d, nsub(n, P_(es))), es, 'write')
        cnt = ndiv(n, es)
        if cnt is None:
            raise Unsupported('copy length')
        k = self.fresh_k('c')
        s2 = st.fork()
        s2.assume(ge0(nvar(k)))
        s2.assume(ge0(nsub(nsub(cnt, nvar(k)), P_(1))))
        try:
            v = self.read(s2, s2.mem[s.obj], nadd(i0, nvar(k)), s2.mem[s.obj].esort or 'R')
            st.wobj(d.obj).esort = s2.mem[s.obj].esort or 'R'
        except NeedSplit:
            raise Unsupported('copy of an array with several parts')
        if v is UNDEF:
            self.nundef = getattr(self, 'nundef', 0) + 1
            v = el('undef!%d' % self.nundef, nvar(k), s2.mem[s.obj].esort or 'R')
        self.write(st, d.obj, W(((k, cnt),), nadd(j0, nvar(k)), v))

    # ---- control
    def obl(self, st, kind, goal, msg):
        if goal is tm.TRUE or not self.domains or goal in st.pcset:
            return
        if isindex(goal) and facts(st.pc).decide_ge(P_(0)) and self.idx(st, goal) is True:
            return
        self.allobls.append((kind, goal, tuple(st.pc), msg, st.ghost.get('forall', ())))

    def switchval(self, st, c, ins):
        w = ins[2][1]
        if not isinstance(c, N):
            raise Unsupported('switch on %r' % (c,))
        for k, lab in ins[5]:
            if decide_eq(st, nsub(self.num(c, w), P_(tm.signed(k & ((1 << w) - 1), w)))):
                return k
        return None

    def idx(self, st, c):
        """decides an index condition or returns None"""
        if c.op == 'not':
            r = self.idx(st, c.args[0])
            return None if r is None else not r
        if c.op == 'and':
            rs = [self.idx(st, x) for x in c.args]
            return False if False in rs else None if None in rs else True
        if c.op == 'c':
            return c.args[0]
        d = nsub(poly(c.args[1]), poly(c.args[0]))
        f = facts(st.pc)
        if c.op == '=':
            return f.decide_eq(d)
        return f.decide_ge(d if c.op == '<=' else nsub(d, P_(1)))

    def splitidx(self, st, x):
        """case split on an undecided index condition"""
        while x.op == 'not':
            x = x.args[0]
        if x.op == 'and':
            return self.splitidx(st, [y for y in x.args if self.idx(st, y) is None][0])
        d = nsub(poly(x.args[1]), poly(x.args[0]))
        if x.op == '=':
            decide_eq(st, d)
        decide_ge(st, d if x.op == '<=' else nsub(d, P_(1)))
        raise Unsupported('index condition %s' % tm.show(x))

    def branch(self, st, c):
        if c.op == 'c':
            return c.args[0]
        if isindex(c):
            r = self.idx(st, c)
            if r is not None:
                return r
            self.splitidx(st, c)
        if c in st.pcset:
            return True
        if tm.not_(c) in st.pcset:
            return False
        k = self.holds(st, c)
        if k is not None:
            return k
        # instances of quantified facts
        for x in self.instances(st, [c]):
            if x is c:
                return True
            if x is tm.not_(c):
                return False
        self.forks += 1
        if self.forks > 400:
            raise Unsupported('too many paths')
        return None

    def instances(self, st, terms):
        idx = set()
        for t in tm.subterms(list(terms) + [c for c in st.pc if not isindex(c)]):
            if t.op == 'app' and str(t.args[0]).startswith('el:'):
                p = poly(t.args[1])
                if p is not None:
                    idx.add(p)
        for v in sorted({v for c in st.pc for t in tm.subterms([c]) if t.op == 'var' and str(t.args[0]).startswith('#e') for v in [t.args[0]]}):
            idx.add(nvar(v))
        out = []
        fa = st.ghost.get('forall', ())
        if not fa:
            return out
        f = facts(st.pc)
        idx = [p for p in idx if not any(v.startswith('#b') for v in nvars(p))]
        one = sorted({v for p in idx for v in nvars(p)} | {v for c in st.pc if isindex(c) for q in facts([c]).ge for v in nvars(q)
                                                           if v.startswith(('#e', '#g'))})
        one = [nvar(v) for v in one]
        for vs, cond in fa:
            cands = idx if len(vs) == 1 else one + [P_(0)]
            n = 0
            for pt in itertools.product(cands, repeat=len(vs)):
                n += 1
                if n > 400:
                    break
                mp = {}
                for (k, b), p in zip(vs, pt):
                    if not (f.prove(p) and f.prove(nsub(nsub(nsubst(b, mp), p), P_(1)))):
                        break
                    mp[k] = p
                else:
                    x = subst(cond, mp)
                    out += list(x.args) if x.op == 'and' else [x]
        return out

    def simp(self, st, t, memo=None):
        """resolves conditional terms on index conditions"""
        memo = {} if memo is None else memo
        if t in memo:
            return memo[t]
        if t.op in ('=', '<', '<=') and isindex(t):
            c = self.idx(st, t)
            if c is None:
                self.splitidx(st, t)
            r = tm.TRUE if c else tm.FALSE
        elif t.op == 'ite' and isindex(t.args[0]):
            c = self.simp(st, t.args[0], memo)
            r = self.simp(st, t.args[1 if c is tm.TRUE else 2], memo)
        elif t.op in ('var', 'c') or t.op == 'app' and t.args[0] == 'sum':
            r = t
        else:
            a = tuple(self.simp(st, x, memo) if isinstance(x, T) else x for x in t.args)
            r = t if a == t.args else tm.mk('app', a, t.sort) if t.op == 'app' else solve.rebuild(t, a)
        memo[t] = r
        return r

    def run_path(self, st):
        while True:
            try:
                r = self.steps_loop(st)
            except PathError as e:
                self.outcomes.append(Outcome('error', (e.kind, e.msg), st))
                return
            except symex.NeedConcrete as e:
                raise Unsupported('symbolic value %s' % e.term)
            except NeedSplit as e:
                self.forks += 1
                if self.forks > 400:
                    raise Unsupported('too many paths')
                for alt in e.alts:
                    s = st.fork()
                    for c in alt:
                        s.assume(c)
                    if tm.FALSE in s.pcset or facts(s.pc).inconsistent():
                        continue
                    self.work.append(s)
                return
            if r is not None:
                if r != 'forked':
                    self.outcomes.append(r)
                return

    def loops(self, fn):
        r = self.loopsof.get(fn.name)
        if r is None:
            r = self.loopsof[fn.name] = natural_loops(fn)
        return r

    def jump(self, st, fr, target):
        lp = self.loops(fr.fn)
        c = self.ctx[-1] if self.ctx else None
        if c is not None and len(st.frames) == c.depth and not st.ghost.get(('exiting', c.id)):
            if target == c.header:
                fr.prev = fr.block
                fr.instrs = [('stop', 'back', target)]
                fr.idx = 0
                return
            if target not in c.blocks:
                fr.prev = fr.block
                fr.instrs = [('stop', 'exit', target)]
                fr.idx = 0
                return
        if target in lp:
            if fr.block in lp[target]:
                if st.ghost.get(('drop', len(st.frames), target)):
                    fr.instrs = [('stop', 'drop', target)]
                    fr.idx = 0
                    return
            elif any(i[0] == 'phi' for i in fr.fn.blocks[target]) or True:
                fr.instrs = [('loop', target)]
                fr.idx = 0
                return
        symex.Exec.jump(self, st, fr, target)

    def special(self, st, fr, ins):
        if ins[0] == 'stop':
            return Outcome('stop', ins, st)
        return self.enter(st, fr, ins[1])

    # ---- loops
    def phis(self, fr, header):
        out = []
        for i in fr.fn.blocks[header]:
            if i[0] != 'phi':
                break
            out.append(i)
        return out

    def dry(self, st, fr, v, t, defs, blocks, phin, depth=0):
        """(phi name or None, offset N) of an integer or pointer expression over the header's phis; None if anything else"""
        if v[0] == 'c':
            return (None, P_(tm.signed(v[1], t[1]))) if isinstance(v[1], int) and t[0] == 'i' else None
        if v[0] != 'l' or depth > 40:
            return None
        n = v[1]
        if n in phin:
            return (n, P_(0))
        ins = defs.get(n)
        if ins is None:
            x = fr.env.get(n)
            if isinstance(x, (int, N)):
                return (None, self.num(x, t[1] if t[0] == 'i' else 64))
            return None
        rec = lambda v, t: self.dry(st, fr, v, t, defs, blocks, phin, depth + 1)
        if ins[0] in ('add', 'sub'):
            a, b = rec(ins[3], ins[2]), rec(ins[4], ins[2])
            if a is None or b is None:
                return None
            if ins[0] == 'add':
                if a[0] is None:
                    a, b = b, a
                return (a[0], nadd(a[1], b[1])) if b[0] is None else None
            return (a[0], nsub(a[1], b[1])) if b[0] is None else None
        if ins[0] == 'gep' and len(ins[3]) == 2:
            a = rec(ins[3][0][1], ll.PTR)
            b = rec(ins[3][1][1], ins[3][1][0])
            if a is None or b is None or b[0] is not None:
                return None
            return (a[0], nadd(a[1], nscale(b[1], self.ty.size(ins[2]))))
        if ins[0] == 'cast' and ins[2] in ('sext', 'zext', 'trunc'):
            return rec(ins[4], ins[3])
        if ins[0] == 'phi':
            rs = [rec(x, ins[2]) for x, b in ins[3]]
            if rs and all(r is not None and r == rs[0] for r in rs):
                return rs[0]
        return None

    def enter(self, st, fr, header):
        blocks = self.loops(fr.fn)[header]
        prev = fr.block
        for k in [k for k in st.ghost if isinstance(k, tuple) and k[0] == 'drop' and k[1] == len(st.frames) and k[2] == header]:
            del st.ghost[k]
        phis = self.phis(fr, header)
        defs = {i[1]: i for b in blocks for i in fr.fn.blocks[b] if len(i) > 1 and isinstance(i[1], str)}
        init, step, kind = {}, {}, {}
        names = {i[1] for i in phis}
        for _, dst, t, inc in phis:
            for v, b in inc:
                if b == prev:
                    init[dst] = self.val(st, fr.env, t, v)
                    break
            else:
                raise Unsupported('phi')
            back = [v for v, b in inc if b in blocks]
            if t[0] == 'i' and t[1] > 1 or t == ll.PTR:
                rs = [self.dry(st, fr, v, t, defs, blocks, names) for v in back]
                if all(r is not None and r[0] == dst and r[1] == rs[0][1] for r in rs):
                    kind[dst] = 'lin'
                    step[dst] = rs[0][1]
                    continue
                kind[dst] = 'other'
            elif t[0] == 'f':
                kind[dst] = 'acc'
            else:
                kind[dst] = 'other'
        plan = dict(init=init, step=step, kind=kind, phis=phis, prev=prev, header=header, blocks=blocks)
        try:
            if self.constant_trip(st, fr, plan, defs, names):
                raise Unroll()
            r = self.summarise(st, fr, plan)
        except Unroll:
            r = None
        if r is None:
            symex.Exec.jump(self, st, fr, header)
            return None
        self.work.extend(r)
        return 'forked'

    def constant_trip(self, st, fr, plan, defs, names):
        """the test at the loop head compares a counter that starts and steps by numbers with a number"""
        last = fr.fn.blocks[plan['header']][-1]
        if last[0] != 'br' or last[2][0] != 'l':
            return False
        cmp = defs.get(last[2][1])
        if cmp is None or cmp[0] != 'icmp':
            return False
        for x, y in (cmp[4:6], cmp[5:3:-1]):
            i = plan['init'].get(x[1]) if x[0] == 'l' else None
            if isinstance(i, Ptr) and isinstance(i.off, int) and plan['kind'][x[1]] == 'lin' and ncon(plan['step'][x[1]]) is not None and y[0] == 'l' and y[1] not in defs:
                e = fr.env.get(y[1])
                if isinstance(e, Ptr) and e.obj == i.obj and isinstance(e.off, int):
                    return True
        a, b = [self.dry(st, fr, v, cmp[3], defs, plan['blocks'], names) for v in cmp[4:6]]
        if a is None or b is None:
            return False
        if a[0] is None:
            a, b = b, a
        if b[0] is None and ncon(b[1]) is None:
            b = (None, self.fixedby(st, b[1]))
        if a[0] is None or b[0] is not None or ncon(b[1]) is None or ncon(a[1]) is None or plan['kind'].get(a[0]) != 'lin':
            return False
        i = plan['init'][a[0]]
        if isinstance(i, Ptr):
            return False
        return (isinstance(i, int) or isinstance(i, N) and ncon(i) is not None) and ncon(plan['step'][a[0]]) is not None

    def fixedby(self, st, d):
        """the number the path fixes d to, if there is one"""
        f = facts(st.pc)
        if f.inconsistent():
            return d
        for m in f.models[:1]:
            if not all(v in m for v in nvars(d)):
                continue
            k = nval(d, m)
            if 0 <= k <= 16 and f.prove(nsub(d, P_(k))) and f.prove(nsub(P_(k), d)):
                return P_(k)
        return d

    def at(self, st, plan, k, acc):
        """positions the state at the loop head of iteration k (an N)"""
        fr = st.frames[-1]
        env = fr.env
        for _, dst, t, inc in plan['phis']:
            i = plan['init'][dst]
            kd = plan['kind'][dst]
            if kd == 'lin':
                d = nmul(plan['step'][dst], k)
                if isinstance(i, Ptr):
                    env[dst] = self.pplus(i, d)
                elif isinstance(i, (int, N)):
                    env[dst] = self.norm(nadd(self.num(i, t[1] if t[0] == 'i' else 64), d), t[1] if t[0] == 'i' else 64)
                else:
                    raise Unsupported('loop variable %r' % (i,))
            elif kd == 'acc':
                env[dst] = acc[dst]
            else:
                env[dst] = i if ncon(k) == 0 else UNDEF
        fr.block = plan['header']
        fr.prev = plan['prev']
        fr.instrs = fr.fn.blocks[plan['header']]
        fr.idx = len(plan['phis'])

    def body(self, st, plan, k, scratch, inv):
        """executes one generic iteration"""
        s = st.fork()
        s.assume(ge0(nvar(k)))
        if inv is not None:
            s.assume(ge0(nsub(inv, nvar(k))))
        for oid, offs in scratch.items():
            o = s.wobj(oid)
            for off in offs:
                if off in o.cells:
                    o.cells[off] = (o.cells[off][0], UNDEF)
        acc = {d: tm.var('acc!%s!%s' % (k, d)) for d, kd in plan['kind'].items() if kd == 'acc'}
        self.at(s, plan, nvar(k), acc)
        c = Ctx()
        c.id = k
        c.depth = len(s.frames)
        c.header = plan['header']
        c.blocks = plan['blocks']
        c.base = {o.id: len(o.writes) for o in s.mem.values() if isinstance(o, SObj)}
        c.reads = []
        self.ctx.append(c)
        ow, oo = self.work, self.outcomes
        self.work, self.outcomes = [s], []
        try:
            while self.work:
                x = self.work.pop()
                self.run_path(x)
                if len(self.outcomes) > 60:
                    raise Unsupported('too many paths in a loop body')
            outs = self.outcomes
        finally:
            self.work, self.outcomes = ow, oo
            self.ctx.pop()
        return outs, c, acc, len(s.pc)

    def summarise(self, st, fr, plan):
        self.loops_done += 1
        if self.loops_done > 300:
            raise Unsupported('loop limit')
        k = self.fresh_k()
        scratch = {}
        inv = None
        nobl = len(self.allobls)
        for attempt in range(6):
            del self.allobls[nobl:]
            outs, c, acc, npc = self.body(st, plan, k, scratch, inv)
            backs, exits = [], []
            err = None
            for o in outs:
                if o.kind == 'stop' and o.what[1] == 'drop':
                    continue
                if o.kind == 'error':
                    if o.what[0] == 'infeasible':
                        continue
                    err = o.what
                    continue
                if o.kind == 'stop' and o.what[1] == 'back':
                    backs.append(o)
                else:
                    exits.append(o)
            if not backs and err is None:
                raise Unroll()
            # exits that depend on the counter alone
            pure = []
            early = []
            for o in exits:
                new = [x for x in o.state.pc[npc:]]
                if all(isindex(x) for x in new):
                    pure.append((o, new))
                else:
                    early.append(o)
            bound, eqs = None, None
            for o, new in pure:
                for x in new:
                    b = self.exit_bound(x, k)
                    if b is not None:
                        if b[0] == 'eq':
                            eqs = b[1]
                        else:
                            bound = b[1] if bound is None else bound if bound == b[1] else 'many'
            if bound is None and eqs is not None and inv is None:
                if ncon(eqs) is None and not facts(st.pc).prove(eqs):
                    decide_ge(st, eqs)
                    raise Unsupported('loop bound')
                inv = eqs           # the test is k != T: k <= T is an invariant
                continue
            if bound is None and inv is not None:
                bound = inv
            if err is not None:
                raise Unsupported('loop body: %s' % (err,))
            if bound is None or bound == 'many':
                raise Unsupported('loop exit condition: %s' % [[tm.show(x) for x in n] for o, n in pure])
            if ncon(bound) is not None:
                raise Unroll()
            if not decide_ge(st, bound):
                raise Unroll()          # leaves at once
            for o in backs:
                if not facts(o.state.pc).prove(nsub(nsub(bound, nvar(k)), P_(1))):
                    raise Unsupported('a path continues past the loop bound')
            for o, new in pure:
                f = facts(o.state.pc)
                if not f.prove(nsub(nvar(k), bound)):
                    raise Unsupported('a path leaves before the loop bound')
            # concrete memory changed by the body is scratch
            more = False
            for o in backs:
                for oid, x in o.state.mem.items():
                    y = st.mem.get(oid)
                    if y is None:
                        if x.alive and x.kind not in ('global',):
                            raise Unsupported('object created in a loop survives the iteration')
                        continue
                    if x is y or isinstance(x, SObj):
                        if isinstance(x, SObj) and (x.alive != y.alive):
                            raise Unsupported('array released in a loop')
                        continue
                    if x.alive != y.alive:
                        raise Unsupported('lifetime changes in a loop')
                    if not x.alive:
                        continue
                    ch = {q for q in set(x.cells) | set(y.cells) if x.cells.get(q) != y.cells.get(q)}
                    ch -= scratch.get(oid, set())
                    if ch:
                        scratch.setdefault(oid, set()).update(ch)
                        more = True
            if not more:
                break
        else:
            raise Unsupported('loop memory')
        T = bound
        # the first evaluation order is fixed; merge the continuing paths
        conds = []
        for o in backs:
            conds.append(tm.and_(*[x for x in o.state.pc[npc:] if not self.implied(x, k, T, st)]))
        writes = self.merge_writes(st, backs, conds)
        final = {}
        for _, dst, t, inc in plan['phis']:
            if plan['kind'][dst] != 'acc':
                continue
            vs = []
            for o in backs:
                f = o.state.frames[-1]
                for v, b in inc:
                    if b == f.prev:
                        vs.append(self.val(o.state, f.env, t, v))
                        break
                else:
                    raise Unsupported('phi')
            final[dst] = self.summand(vs, conds, acc[dst], set(acc.values()), plan['init'][dst])
        for oid, ws in writes.items():
            for w in ws:
                if any(a in acc.values() for a in tm.subterms([w.val])):
                    raise Unsupported('running value stored in a loop')
        self.independent(st, k, T, writes, c.reads)
        contcond = tm.or_(*conds) if early else None
        inner = ()
        old = len(st.ghost.get('forall', ()))
        if len(backs) == 1:
            inner = backs[0].state.ghost.get('forall', ())[old:]
        if contcond is not None and any(a in acc.values() for a in tm.subterms([contcond])):
            raise Unsupported('exit on a running value')
        res = []

        def build(B, ex):
            s = st.fork()
            if ex:
                s.assume(ge0(B))
                s.assume(ge0(nsub(nsub(T, B), P_(1))))
            for oid, ws in writes.items():
                o = s.wobj(oid)
                o.writes = o.writes + tuple(W(((k, B),) + w.vars, w.idx, w.val) for w in ws)
            for oid, offs in scratch.items():
                o = s.wobj(oid)
                for off in offs:
                    if off in o.cells:
                        o.cells[off] = (o.cells[off][0], UNDEF)
            a = {d: self.accumulate(plan['init'][d], f, k, B) for d, f in final.items()}
            self.at(s, plan, B, a)
            if contcond is not None:
                s.ghost['forall'] = s.ghost.get('forall', ()) + ((((k, B),), contcond),)
            s.ghost['forall'] = s.ghost.get('forall', ()) + tuple((((k, B),) + vs, c) for vs, c in inner)
            s.ghost[('drop', len(s.frames), plan['header'])] = True
            return s
        res.append(build(T, False))
        if early:
            res.append(build(nvar(self.fresh_k('e')), True))
        return res

    def implied(self, x, k, T, st):
        if not isindex(x):
            return False
        s = list(st.pc) + [ge0(nvar(k)), ge0(nsub(nsub(T, nvar(k)), P_(1)))]
        f = facts(s)

        class S:
            pc = s
        return self.idx(S, x) is True

    def exit_bound(self, x, k):
        neg = x.op == 'not'
        if neg:
            x = x.args[0]
        if x.op not in ('<', '<=', '='):
            return None
        d = nsub(poly(x.args[1]), poly(x.args[0]))
        if x.op == '=':
            if neg:
                return None
            cf = coef(d, k)
            kk = ncon(cf[0]) if cf else None
            if kk in (1, -1):
                return ('eq', nscale(cf[1], -kk))
            if kk:
                q = ndiv(cf[1], kk)
                if q is not None:
                    return ('eq', nscale(q, -1))
            return None
        if neg:
            d = nsub(nscale(d, -1), P_(1)) if x.op == '<=' else nscale(d, -1)
        elif x.op == '<':
            d = nsub(d, P_(1))
        cf = coef(d, k)                 # d >= 0
        kk = ncon(cf[0]) if cf else None
        if not kk or kk < 0:
            return None
        if kk == 1:
            return ('ge', nscale(cf[1], -1))
        # c*k + r >= 0  <=>  k >= ceil(-r/c)
        r = cf[1]
        q = ndiv(N({m: x for m, x in r.c.items() if m}), kk)
        if q is None:
            return None
        return ('ge', nadd(nscale(q, -1), P_(-(r.c.get((), 0) // kk))))

    def merge_writes(self, st, backs, conds):
        per = []
        for o in backs:
            d = {}
            for oid, x in o.state.mem.items():
                y = st.mem.get(oid)
                if isinstance(x, SObj) and y is not None and x.writes is not y.writes:
                    if x.writes[:len(y.writes)] != y.writes:
                        raise Unsupported('overwritten store')
                    if len(x.writes) > len(y.writes):
                        d[oid] = x.writes[len(y.writes):]
            per.append(d)
        if len(per) == 1:
            return per[0]
        out = {}
        for oid in set().union(*per):
            ws = [d.get(oid) for d in per]
            if any(w is None or len(w) != len(ws[0]) for w in ws):
                raise Unsupported('paths of a loop body store different elements')
            res = []
            for col in zip(*ws):
                w0 = col[0]
                if any(w.vars != w0.vars or w.idx != w0.idx for w in col):
                    raise Unsupported('paths of a loop body store different elements')
                v = col[-1].val
                for w, c in list(zip(col, conds))[-2::-1]:
                    v = tm.ite(c, w.val, v)
                res.append(W(w0.vars, w0.idx, v))
            out[oid] = tuple(res)
        return out

    def summand(self, vs, conds, a, accs, init):
        fs = []
        for v in vs:
            if v is UNDEF or init is UNDEF:
                raise Unsupported('uninitialised running value')
            f = self.strip(v, a)
            if f is None or any(x in accs for x in tm.subterms([f])):
                raise Unsupported('running value is not a sum: %s' % tm.show(v))
            fs.append(f)
        f = fs[-1]
        for x, c in list(zip(fs, conds))[-2::-1]:
            f = tm.ite(c, x, f)
        return f

    def strip(self, v, a):
        """v - a when v is a sum that contains a once"""
        if v is a:
            return tm.const(0)
        if v.op == '+':
            x, y = v.args
            r = self.strip(x, a)
            if r is not None:
                return tm.add(r, y)
            r = self.strip(y, a)
            if r is not None:
                return tm.add(x, r)
        if v.op == '-':
            r = self.strip(v.args[0], a)
            if r is not None:
                return tm.sub(r, v.args[1])
        return None

    def accumulate(self, init, f, k, B):
        if B.c == {}:
            return init
        if init.op == 'c' and init.args[0] == 0:
            return mk_sum(k, B, f)
        g = subst(f, {k: nsub(nvar(k), P_(1))})
        try:
            ctx = self.solver.ctx
            if ctx.iszero(ctx.rf(tm.sub(init, subst(g, {k: P_(0)})))):
                return mk_sum(k, nadd(B, P_(1)), g)
        except (nf.TooBig, ZeroDivisionError):
            pass
        return tm.add(init, mk_sum(k, B, f))

    def independent(self, st, k, T, writes, reads):
        """stores of different iterations hit different elements; no iteration reads what an earlier one stored"""
        kk = self.fresh_k('q')
        ren = {k: nvar(kk)}
        base = list(st.pc) + [ge0(nvar(kk)), ge0(nvar(k)), ge0(nsub(nsub(nvar(k), nvar(kk)), P_(1))), ge0(nsub(nsub(T, nvar(k)), P_(1)))]
        for oid, ws in writes.items():
            for w in ws:
                r2 = dict(ren)
                fs = []
                for v, b in w.vars:
                    v2 = self.fresh_k('q')
                    fs += [ge0(nvar(v2)), ge0(nsub(nsub(nsubst(b, r2), nvar(v2)), P_(1)))]
                    r2[v] = nvar(v2)
                idx = nsubst(w.idx, r2)
                for w2 in ws:
                    f2 = []
                    for v, b in w2.vars:
                        f2 += [ge0(nvar(v)), ge0(nsub(nsub(b, nvar(v)), P_(1)))]
                    self.differ(base + fs + f2, idx, w2.idx, 'stores of different iterations')
                for ro, e, pc in reads:
                    if ro == oid:
                        self.differ(base + fs + [x for x in pc if isindex(x)], idx, e, 'a read of an element stored earlier')

    def differ(self, pc, a, b, what):
        f = facts(pc)
        d = nsub(a, b)
        if f.decide_eq(d) is not False and not f.inconsistent():
            raise Unsupported('loop: %s may overlap (%r, %r)' % (what, a, b))

    # ---- calls
    def builtin(self, st, fr, ins, name, args):
        n = name
        if n in ('@_Znwm', '@_Znam', '@malloc') and isinstance(args[0], N):
            if not facts(st.pc).prove(args[0]):
                raise Unsupported('allocation size may be negative')
            o = self.new_array(st, args[0], 'heap', n)
            return self.ret_to(st, fr, ins, Ptr(o.id, 0))
        if n.startswith('@llvm.memset') and (isinstance(args[2], N) or isinstance(args[0], Ptr) and isinstance(st.mem.get(args[0].obj), SObj)):
            ln = self.num(args[2], 64)
            if ncon(ln) == 0:
                return self.ret_to(st, fr, ins, None)
            if self.conc(st, args[1]) != 0:
                raise Unsupported('memset')
            if not decide_ge(st, nsub(ln, P_(1))):
                return self.ret_to(st, fr, ins, None)
            es = st.mem[args[0].obj].es or 8
            o, i0 = self.spos(st, args[0], es, 'write')
            self.spos(st, self.pplus(args[0], nsub(ln, P_(es))), es, 'write')
            cnt = ndiv(ln, es)
            k = self.fresh_k('z')
            self.write(st, args[0].obj, W(((k, cnt),), nadd(i0, nvar(k)), tm.const(0)))
            return self.ret_to(st, fr, ins, None)
        if '.with.overflow' in n and any(isinstance(a, N) for a in args):
            w = ins[4][0][0][1]
            r = self.binop(st, {'add': 'add', 'sub': 'sub', 'mul': 'mul'}[n.split('.')[1][1:]], ('i', w), args[0], args[1], ())
            return self.ret_to(st, fr, ins, (r, 0))
        return symex.Exec.builtin(self, st, fr, ins, name, args)

    def iminmax(self, st, fr, ins, k, args):
        a, b = args[0], args[1]
        if isinstance(a, N) or k != 'abs' and isinstance(b, N):
            w = ins[4][0][0][1]
            x = self.num(a, w)
            y = nscale(x, -1) if k == 'abs' else self.num(b, w)
            c = decide_ge(st, nsub(x, y))
            big = k == 'abs' or k.endswith('max')
            return self.ret_to(st, fr, ins, self.norm(x if c == big else y, w))
        return symex.Exec.iminmax(self, st, fr, ins, k, args)


class Unroll(Exception):
    pass


def succs(ins):
    op = ins[0]
    if op == 'jmp':
        return [ins[2]]
    if op == 'br':
        return [ins[3], ins[4]]
    if op == 'switch':
        return [ins[4]] + [l for _, l in ins[5]]
    if op == 'invoke':
        return [ins[5], ins[6]]
    return []


def natural_loops(fn):
    order = list(fn.order)
    suc = {b: succs(fn.blocks[b][-1]) for b in order}
    pred = {b: [] for b in order}
    for b in order:
        for s in suc[b]:
            pred[s].append(b)
    entry = order[0]
    dom = {b: set(order) for b in order}
    dom[entry] = {entry}
    ch = True
    while ch:
        ch = False
        for b in order:
            if b == entry:
                continue
            ps = [dom[p] for p in pred[b]]
            d = set.intersection(*ps) | {b} if ps else {b}
            if d != dom[b]:
                dom[b] = d
                ch = True
    loops = {}
    for b in order:
        for h in suc[b]:
            if h in dom[b]:
                body = loops.setdefault(h, {h})
                stack = [b]
                while stack:
                    x = stack.pop()
                    if x not in body:
                        body.add(x)
                        stack.extend(pred[x])
    return loops
