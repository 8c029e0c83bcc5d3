"""Discharging obligations: exact normal form first, then z3 (nlsat / bit-vectors), then cvc5."""
from fractions import Fraction
import math
import random
import subprocess
import time
import z3
import terms as tm
from terms import T
import nf

TIME = {'nf': 0.0, 'z3': 0.0, 'cvc5': 0.0}
COUNT = {'nf': 0, 'z3': 0, 'cvc5': 0, 'syntactic': 0}

_real = {}


def is_real(t):
    """does the boolean depend on a real-sorted term"""
    r = _real.get(t)
    if r is None:
        if t.sort == 'R':
            r = True
        else:
            r = any(is_real(a) for a in t.args if isinstance(a, T))
        _real[t] = r
    return r


_iv = {}


def has_intvar(t):
    """does the term depend on a machine-integer input"""
    r = _iv.get(t)
    if r is None:
        r = t.op == 'var' and isinstance(t.sort, int) or any(has_intvar(a) for a in t.args if isinstance(a, T))
        _iv[t] = r
    return r


def nonneg_term(t):
    """a real term that is >= 0 by its structure"""
    if t.op == 'c':
        return t.args[0] >= 0
    if t.op == '*':
        return t.args[0] is t.args[1] or nonneg_term(t.args[0]) and nonneg_term(t.args[1])
    if t.op == '+':
        return nonneg_term(t.args[0]) and nonneg_term(t.args[1])
    if t.op == '/':
        return nonneg_term(t.args[0]) and nonneg_term(t.args[1])
    if t.op == 'ite':
        return nonneg_term(t.args[1]) and nonneg_term(t.args[2])
    return t.op == 'app' and t.args[0] in ('sqrt', 'abs', 'exp', 'acos')


class Solver:
    def __init__(self, timeout_ms=8000):
        self.ctx = nf.Ctx()
        self.ctx.intrange = self.int_range
        self.hyps = []          # boolean terms assumed (requires)
        self.timeout = timeout_ms
        self.angles = False
        self.abstract = False
        self._abs = {}
        self.links = False
        self._bv = {}
        self._rb = {}
        self._pin = {}
        self._int_cache = {}
        self._zatom = {}
        self.qcache = {}
        self.stats = {'nf': 0, 'z3': 0, 'cvc5': 0, 'syntactic': 0, 'time': 0.0}

    is_real = staticmethod(is_real)

    # ------------------------------------------------------------ hypotheses
    def require(self, t):
        """t: boolean term"""
        if t.op == 'and':
            for a in t.args:
                self.require(a)
            return
        self.hyps.append(t)
        if t.op == '=' and t.args[0].sort == 'R':
            self.ctx.add_equality(tm.sub(t.args[0], t.args[1]))
        if t.op in ('<=', '<') and t.args[0].op == 'c' and t.args[0].args[0] >= 0 and t.args[1].op == 'var':
            # variable known nonnegative
            i = self.ctx.atom(('v', t.args[1]))
            self.ctx.nonneg.add(i)

    # ------------------------------------------------------------ integers (bit-vectors)
    def bv(self, t):
        r = self._bv.get(t)
        if r is not None:
            return r
        s = t.sort
        op = t.op
        a = t.args
        if s == 'B':
            if op == 'c':
                r = z3.BoolVal(a[0])
            elif op == 'not':
                r = z3.Not(self.bv(a[0]))
            elif op == 'and':
                r = z3.And([self.bv(x) for x in a])
            elif op == '=' and a[0].sort != 'R':
                r = self.bv(a[0]) == self.bv(a[1])
            elif op == 'islt':
                r = self.bv(a[0]) < self.bv(a[1])
            elif op == 'isle':
                r = self.bv(a[0]) <= self.bv(a[1])
            elif op == 'iult':
                r = z3.ULT(self.bv(a[0]), self.bv(a[1]))
            elif op == 'iule':
                r = z3.ULE(self.bv(a[0]), self.bv(a[1]))
            elif op == 'var':
                r = z3.Bool(a[0])
            else:
                # real comparison inside an integer query: opaque boolean (linked to its meaning in zsolve)
                r = z3.Bool('rb!%d' % t.id)
                self._rb[t] = r
        else:
            w = s
            if op == 'c':
                r = z3.BitVecVal(a[0], w)
            elif op == 'var':
                r = z3.BitVec(a[0], w)
            elif op == '+':
                r = self.bv(a[0]) + self.bv(a[1])
            elif op == '-':
                r = self.bv(a[0]) - self.bv(a[1])
            elif op == '*':
                r = self.bv(a[0]) * self.bv(a[1])
            elif op == 'neg':
                r = -self.bv(a[0])
            elif op == 'sdiv':
                r = self.bv(a[0]) / self.bv(a[1])
            elif op == 'srem':
                r = z3.SRem(self.bv(a[0]), self.bv(a[1]))
            elif op == 'udiv':
                r = z3.UDiv(self.bv(a[0]), self.bv(a[1]))
            elif op == 'urem':
                r = z3.URem(self.bv(a[0]), self.bv(a[1]))
            elif op == 'and':
                r = self.bv(a[0]) & self.bv(a[1])
            elif op == 'or':
                r = self.bv(a[0]) | self.bv(a[1])
            elif op == 'xor':
                r = self.bv(a[0]) ^ self.bv(a[1])
            elif op == 'shl':
                r = self.bv(a[0]) << self.bv(a[1])
            elif op == 'lshr':
                r = z3.LShR(self.bv(a[0]), self.bv(a[1]))
            elif op == 'ashr':
                r = self.bv(a[0]) >> self.bv(a[1])
            elif op == 'sext':
                r = z3.SignExt(w - a[0].sort, self.bv(a[0]))
            elif op == 'zext':
                r = z3.ZeroExt(w - a[0].sort, self.bv(a[0]))
            elif op == 'trunc':
                r = z3.Extract(w - 1, 0, self.bv(a[0]))
            elif op == 'b2i':
                r = z3.If(self.bv(a[0]), z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
            elif op == 'ite':
                r = z3.If(self.bv(a[0]), self.bv(a[1]), self.bv(a[2]))
            else:
                r = z3.BitVec('op!%d' % t.id, w)
        self._bv[t] = r
        return r

    def intpart(self, pc):
        return [c for c in self.hyps + list(pc) if not is_real(c)]

    def pinned(self, pc):
        """integer inputs whose value the path condition determines"""
        cs = tuple(self.intpart(pc))
        r = self._pin.get(cs)
        if r is None:
            r = {}
            s = z3.Solver()
            s.set('timeout', 5000)
            for x in cs:
                s.add(self.bv(x))
            if s.check() == z3.sat:
                m = s.model()
                for v in {t for t in tm.subterms(cs) if t.op == 'var' and isinstance(t.sort, int)}:
                    e = self.bv(v)
                    k = m.eval(e, model_completion=True)
                    s.push()
                    s.add(e != k)
                    if s.check() == z3.unsat:
                        r[v] = tm.const(k.as_long(), v.sort)
                    s.pop()
            self._pin[cs] = r
        return r

    def int_range(self, t):
        r = self.bounds().get(t)
        return r if r and None not in r else None

    def bounds(self):
        b, n = getattr(self, '_bounds', (None, -1))
        if n != len(self.hyps):
            b = {}
            todo = list(self.hyps)
            while todo:
                h = todo.pop()
                if h.op == 'and':
                    todo += h.args
                elif h.op in ('isle', 'islt'):
                    x, y = h.args
                    d = 1 if h.op == 'islt' else 0
                    if x.op == 'c' and y.op == 'var':
                        lo, hi = b.get(y, (None, None))
                        v = tm.signed(x.args[0], y.sort) + d
                        b[y] = (v if lo is None else max(lo, v), hi)
                    elif y.op == 'c' and x.op == 'var':
                        lo, hi = b.get(x, (None, None))
                        v = tm.signed(y.args[0], x.sort) - d
                        b[x] = (lo, v if hi is None else min(hi, v))
            self._bounds = (b, len(self.hyps))
        return b

    def decide_ints(self, goal, pc):
        """replaces integer inputs and conditions that the path condition determines"""
        p = self.pinned(pc)
        g = subst(goal, p) if p else goal
        if not has_intvar(g):
            return g
        mp = {}
        for c in tm.subterms([g]):
            if c.sort == 'B' and c.op not in ('and', 'not', 'c', 'or') and not is_real(c) and c.op != 'var':
                if not self.int_feasible(pc, c):
                    mp[c] = tm.FALSE
                elif not self.int_feasible(pc, tm.not_(c)):
                    mp[c] = tm.TRUE
        return subst(g, mp) if mp else g

    def int_feasible(self, pc, c):
        if c.op == 'c':
            return c.args[0]
        cs = self.intpart(pc)
        key = (frozenset(cs), c)
        r = self._int_cache.get(key)
        if r is None:
            s = z3.Solver()
            s.set('timeout', 5000)
            for x in cs:
                s.add(self.bv(x))
            s.add(self.bv(c))
            r = s.check() != z3.unsat
            self._int_cache[key] = r
        return r

    def int_values(self, pc, t, limit):
        s = z3.Solver()
        s.set('timeout', 5000)
        for x in self.intpart(pc):
            s.add(self.bv(x))
        e = self.bv(t)
        out = []
        while True:
            r = s.check()
            if r == z3.unsat:
                return out
            if r != z3.sat:
                return None
            v = s.model().eval(e, model_completion=True).as_long()
            out.append(v)
            if len(out) > limit:
                return None
            s.add(e != v)

    # ------------------------------------------------------------ cheap decisions on real conditions
    def sign(self, rf):
        """'0','+','-','>=','<=' or None from syntactic information"""
        n, d = self.ctx.reduce(rf)
        if not n:
            return '0'
        # denominators: assume only even powers or nonneg factors keep sign
        flip = 1
        for f, e in d:
            if e % 2:
                q = self.ctx.factors[f]
                if self.ctx.is_nonneg_poly(q):
                    continue
                if self.ctx.is_nonneg_poly(nf.pneg(q)):
                    flip = -flip
                    continue
                return None
        pos = self.ctx.is_nonneg_poly(n)
        neg = self.ctx.is_nonneg_poly(nf.pneg(n))
        if not pos and not neg:
            return None
        strict = 0 in n
        r = ('+' if strict else '>=') if pos else ('-' if strict else '<=')
        if flip < 0:
            r = {'+': '-', '-': '+', '>=': '<=', '<=': '>='}[r]
        return r

    def quick(self, c, st=None):
        r = self.qcache.get(c, 0)
        if r != 0:
            return r
        r = self._quick(c)
        self.qcache[c] = r
        return r

    def _quick(self, c):
        op = c.op
        if op == 'c':
            return c.args[0]
        if op == 'not':
            r = self.quick(c.args[0])
            return None if r is None else not r
        if op == 'and':
            rs = [self.quick(x) for x in c.args]
            if any(r is False for r in rs):
                return False
            if all(r is True for r in rs):
                return True
            return None
        if op == '<=' and c.args[0].op == 'c' and c.args[0].args[0] <= 0 and nonneg_term(c.args[1]):
            return True
        if op in ('<', '<=', '=') and c.args[0].sort == 'R':
            try:
                d = self.ctx.rf(tm.sub(c.args[1], c.args[0]))
                s = self.sign(d)
            except (nf.TooBig, ZeroDivisionError):
                return None
            if s is None:
                return None
            if op == '<':
                return {'+': True, '0': False, '-': False, '<=': False}.get(s)
            if op == '<=':
                return {'+': True, '0': True, '>=': True, '-': False}.get(s)
            return {'0': True, '+': False, '-': False}.get(s)
        return None

    # ------------------------------------------------------------ z3 encoding of reals
    def zpoly(self, p, need):
        if not p:
            return z3.RealVal(0)
        if self.abstract and sum(1 for m in p if sum(e for _, e in nf.exps(m)) > 1) > 2:
            # large polynomials up to a factor and a constant become variables (a weaker query)
            c0 = Fraction(p.get(0, 0))
            q = {m: c for m, c in p.items() if m}
            L = Fraction(q[max(q)])
            k = frozenset((m, Fraction(c) / L) for m, c in q.items())
            v = self._abs.get(k)
            if v is None:
                v = self._abs[k] = z3.Real('p!%d' % len(self._abs))
            r = v if L == 1 else z3.RealVal(str(L)) * v
            return r if c0 == 0 else r + z3.RealVal(str(c0))
        tot = None
        for m, c in p.items():
            term = None
            for i, e in nf.exps(m):
                need.add(i)
                v = self.zatom(i)
                for _ in range(e):
                    term = v if term is None else term * v
            c = Fraction(c)
            cv = z3.RealVal(str(c))
            if term is None:
                term = cv
            elif c != 1:
                term = cv * term
            tot = term if tot is None else tot + term
        return tot

    def zatom(self, i):
        v = self._zatom.get(i)
        if v is None:
            v = z3.Real('x!%d' % i)
            self._zatom[i] = v
        return v

    def zden(self, d, need, cons):
        out = None
        for f, e in d:
            q = self.zpoly(self.ctx.factors[f], need)
            cons.append(q != 0)
            for _ in range(e):
                out = q if out is None else out * q
        return out

    def zcmp(self, c, need, cons):
        """boolean term -> z3"""
        op = c.op
        if op == 'c':
            return z3.BoolVal(c.args[0])
        if op == 'not':
            return z3.Not(self.zcmp(c.args[0], need, cons))
        if op == 'and':
            return z3.And([self.zcmp(x, need, cons) for x in c.args])
        if op in ('<', '<=', '=') and c.args[0].sort == 'R':
            n, d = self.ctx.reduce(self.ctx.rf(tm.sub(c.args[0], c.args[1])))
            zn = self.zpoly(n, need)
            if op == '=':
                for f, e in d:
                    cons.append(self.zpoly(self.ctx.factors[f], need) != 0)
                return zn == 0
            od = tuple((f, 1) for f, e in d if e % 2)
            for f, e in d:
                cons.append(self.zpoly(self.ctx.factors[f], need) != 0)
            if od:
                zn = zn * self.zden(od, need, cons)
            return zn < 0 if op == '<' else zn <= 0
        return self.bv(c)

    def zfacts(self, need, cons, done, depth=0):
        """facts about the atoms occurring"""
        ctx = self.ctx
        angled, self._cosines = set(), []
        while True:
            todo = [i for i in need if i not in done]
            if not todo:
                if not self.angles or not self.anglefacts(need, cons, done, angled):
                    return
                continue
            for i in todo:
                done.add(i)
                k = ctx.atoms[i]
                v = self.zatom(i)
                if i in ctx.nonneg:
                    cons.append(v >= 0)
                if k[0] == 'cos':
                    b = ctx.akey.get(('sin', k[1], k[2]))
                    cons.append(v * v <= 1)
                    if b is not None:
                        need.add(b)
                elif k[0] == 'sin':
                    a = ctx.akey.get(('cos', k[1], k[2]))
                    cons.append(v * v + self.zatom(a) * self.zatom(a) == 1)
                    need.add(a)
                elif k == ('pi',):
                    cons.append(v > z3.Q(314159, 100000))
                    cons.append(v < z3.Q(31416, 10000))
                elif k[0] == 'v':
                    if i in ctx.sqrule:
                        n, d = ctx.sqrule[i]
                        cons.append(v * v == self.zpoly(n, need))
                    if self.links:    # variables eliminated by a square rule still bound the others
                        for j, (n, d) in ctx.sqrule.items():
                            if ctx.atoms[j][0] == 'v' and any(x == i for m in n for x, _ in nf.exps(m)):
                                need.add(j)
                elif k[0] == 't':
                    t = k[1]
                    if t.op == 'ite':
                        c = self.zcmp(t.args[0], need, cons)
                        for cc, x in ((c, t.args[1]), (z3.Not(c), t.args[2])):
                            n, d = ctx.reduce(ctx.rf(x))
                            zn = self.zpoly(n, need)
                            zd = self.zden(d, need, cons)
                            cons.append(z3.Implies(cc, (v if zd is None else v * zd) == zn))
                elif k[0] == 'f':
                    f = k[1]
                    if f == 'sqrt':
                        n, d = ctx.sqrule[i]
                        zn = self.zpoly(n, need)
                        zd = self.zden(d, need, cons)
                        cons.append((v * v if zd is None else v * v * zd) == zn)
                    elif f == 'abs':
                        q = self.zpoly(ctx.absarg[i], need)
                        cons.append(z3.Or(v == q, v == -q))
                    elif f == 'exp':
                        cons.append(v > 0)
                    elif f in ('acos', 'atan2', 'asin', 'atan'):
                        need.add(ctx.atom(('pi',)))
                        pi = self.zatom(ctx.atom(('pi',)))
                        if f == 'acos':
                            cons += [v >= 0, v <= pi]
                            x = self.znum(ctx.ratio[i], need, cons)
                            x1 = self.znum(ctx.radd(ctx.ratio[i], ({0: -1}, ())), need, cons)
                            x2 = self.znum(ctx.radd(ctx.ratio[i], (nf.ONE, ())), need, cons)
                            cons += [z3.Implies(x1 >= 0, v == 0), z3.Implies(x1 < 0, v > 0),
                                     z3.Implies(x > 0, 2 * v < pi), z3.Implies(x < 0, 2 * v > pi),
                                     z3.Implies(x == 0, 2 * v == pi), z3.Implies(x2 <= 0, v == pi)]
                        elif f in ('asin', 'atan'):
                            cons += [2 * v >= -pi, 2 * v <= pi]
                            x = self.znum(ctx.ratio[i], need, cons)
                            cons += [z3.Implies(x > 0, v > 0), z3.Implies(x < 0, v < 0), z3.Implies(x == 0, v == 0)]
                        else:
                            y, x = ctx.ratio[i]
                            y = self.znum(y, need, cons)
                            x = self.znum(x, need, cons)
                            cons += [v > -pi, v <= pi, z3.Implies(y > 0, z3.And(v > 0, v < pi)),
                                     z3.Implies(y < 0, v < 0), z3.Implies(z3.And(y == 0, x >= 0), v == 0),
                                     z3.Implies(z3.And(y == 0, x < 0), v == pi),
                                     z3.Implies(x > 0, z3.And(2 * v < pi, 2 * v > -pi)),
                                     z3.Implies(z3.And(x < 0, y > 0), 2 * v > pi),
                                     z3.Implies(z3.And(x < 0, y < 0), 2 * v < -pi),
                                     z3.Implies(z3.And(x == 0, y > 0), 2 * v == pi),
                                     z3.Implies(z3.And(x == 0, y < 0), 2 * v == -pi)]
                    elif f == 'fmod':
                        x, y = ctx.ratio[i]
                        x = self.zr(x, need, cons)
                        y = self.zr(y, need, cons)
                        kq = z3.Int('q!%d' % i)
                        cons += [v == x - y * z3.ToReal(kq), z3.Implies(x >= 0, v >= 0), z3.Implies(x <= 0, v <= 0),
                                 z3.Implies(y > 0, z3.And(v < y, v > -y)), z3.Implies(y < 0, z3.And(v < -y, v > y))]

    def anglefacts(self, need, cons, done, angled):
        """signs of sines and cosines over ranges of angles that occur in the query themselves; acos(cos x)"""
        ctx = self.ctx
        new = False
        cosines = self._cosines
        for i in list(done):
            k = ctx.atoms[i]
            if i in angled or not (k[0] in ('sin', 'cos') or k[0] == 'f' and k[1] == 'acos'):
                continue
            if k[0] == 'f':
                q = ctx.ratio[i]
                if q[1] or len(q[0]) != 1:
                    continue
                (m, c), = q[0].items()
                es = nf.exps(m)
                if len(es) != 1 or es[0][1] != 1 or abs(c) != 1 or ctx.atoms[es[0][0]][0] != 'cos':
                    continue
                j = es[0][0]
            else:
                j = i
            base = ctx.ratio.get(j)
            if base is None:
                continue
            at = set(x for m in base[0] for x, e in nf.exps(m)) | set(x for f, e in base[1] for m in ctx.factors[f] for x, _ in nf.exps(m))
            if not at <= done or not at:
                if k[0] == 'cos' and k[1][0] == 'rf' and not at <= need:
                    need |= at
                    new = True
                continue
            angled.add(i)
            new = True
            pn = ctx.atom(('pi',))
            need.add(pn)
            pi, v, a = self.zatom(pn), self.zatom(i), self.zr(base, need, cons)
            if k[0] == 'f':
                r = a if c == 1 else pi - a
                cons += [z3.Implies(z3.And(a >= 0, a <= pi), v == r), z3.Implies(z3.And(a <= 0, a >= -pi), v == (-a if c == 1 else pi + a))]
            elif k[0] == 'sin':
                cons += [z3.Implies(z3.And(a > 0, a < pi), v > 0), z3.Implies(z3.And(a < 0, a > -pi), v < 0), z3.Implies(a == 0, v == 0)]
            else:
                cons += [z3.Implies(z3.And(2 * a > -pi, 2 * a < pi), v > 0), z3.Implies(z3.And(2 * a > pi, a <= pi), v < 0),
                         z3.Implies(z3.And(2 * a < -pi, a >= -pi), v < 0)]
                # the cosine is even and decreasing on [0, pi]
                for b, w in [(a, v)] + ([(2 * a, 2 * v * v - 1)] if k[1][0] == 'rf' else []):
                    for b2, w2 in cosines:
                        cons += [z3.Implies(z3.And(x <= y, -y <= x, y <= pi), u >= t) for x, u, y, t in ((b, w, b2, w2), (b2, w2, b, w))]
                cosines += [(a, v)] + ([(2 * a, 2 * v * v - 1)] if k[1][0] == 'rf' else [])
        return new

    def znum(self, rf, need, cons):
        """a polynomial with the sign of rf"""
        n, d = self.ctx.reduce(rf)
        zn = self.zpoly(n, need)
        for f, e in d:
            cons.append(self.zpoly(self.ctx.factors[f], need) != 0)
        od = tuple((f, 1) for f, e in d if e % 2)
        return zn * self.zden(od, need, cons) if od else zn

    def zr(self, rf, need, cons):
        n, d = rf
        zn = self.zpoly(n, need)
        zd = self.zden(d, need, cons)
        return zn if zd is None else zn / zd

    def zsolve(self, pos, timeout):
        """satisfiability of a list of boolean terms; returns (result, model or None, smt2)"""
        need, cons = set(), []
        zs = [self.zcmp(c, need, cons) for c in pos]
        if self._rb:
            for t in tm.subterms(pos):
                if t in self._rb:
                    cons.append(self._rb[t] == self.zcmp(t, need, cons))
        self.zfacts(need, cons, set())
        s = z3.SolverFor('QF_NRA') if not any(z3_is_bv(z) for z in zs) and not has_int(cons) else z3.Solver()
        s.set('timeout', timeout)
        for z in zs + cons:
            s.add(z)
        t = time.time()
        r = s.check()
        TIME['z3'] += time.time() - t
        m = None
        if r == z3.sat:
            m = (s.model(), need)
        return r, m, s

    def relevant(self, hyps, goal):
        return hyps

    def real_infeasible(self, conds, timeout=300):
        try:
            r, m, s = self.zsolve([h for h in self.hyps if is_real(h)] + list(conds), timeout)
            return r == z3.unsat
        except (nf.TooBig, ZeroDivisionError, z3.Z3Exception):
            return False

    # ------------------------------------------------------------ proving
    def prove(self, goal, pc, use_cvc5=True):
        """-> (status, backend, info): 'proved' | 'refuted' (solver model, possibly spurious) | 'unknown'"""
        t0 = time.time()
        try:
            return self._prove(goal, pc, use_cvc5)
        finally:
            self.stats['time'] += time.time() - t0

    def _prove(self, goal, pc, use_cvc5):
        if goal is tm.TRUE:
            self.stats['syntactic'] += 1
            return 'proved', 'syntactic', None
        if goal.op == 'and':
            worst = ('proved', 'syntactic', None)
            for g in goal.args:
                r = self._prove(g, pc, use_cvc5)
                if r[0] != 'proved':
                    return r
                if r[1] != 'syntactic':
                    worst = r
            return worst
        if goal in pc:
            self.stats['syntactic'] += 1
            return 'proved', 'syntactic', None
        if not is_real(goal):
            if goal is tm.FALSE and any(is_real(c) for c in pc):     # the path must be infeasible
                try:
                    self.links = True
                    r, m, s = self.zsolve(self.hyps + list(pc), self.timeout)
                except (nf.TooBig, ZeroDivisionError, z3.Z3Exception):
                    r = None
                finally:
                    self.links = False
                if r == z3.unsat:
                    self.stats['z3'] += 1
                    return 'proved', 'z3', None
            return self.prove_int(goal, pc)
        if has_intvar(goal):
            g2 = self.decide_ints(goal, pc)
            if g2 is not goal:
                return self._prove(g2, pc, use_cvc5)
        if goal.op == '=' and goal.args[0].op == 'app' and goal.args[1].op == 'app' and goal.args[0].args[0] == goal.args[1].args[0] \
                and goal.args[0].args[0] in ('r2s', 'r2u'):
            r = self._prove(tm.eq(goal.args[0].args[1], goal.args[1].args[1]), pc, False)    # congruence
            if r[0] == 'proved':
                return r
        if goal.op == '=' and goal.args[0].sort == 'R':
            t = time.time()
            ns = len(self.ctx.sides)
            try:
                z = self.ctx.iszero(self.ctx.rf(tm.sub(goal.args[0], goal.args[1])))
            except (nf.TooBig, ZeroDivisionError):
                z = False
            TIME['nf'] += time.time() - t
            if z:
                self.stats['nf'] += 1
                return 'proved', 'nf', None
        elif goal.op in ('<', '<=') or (goal.op == 'not' and goal.args[0].op == '='):
            if self.quick(goal):
                self.stats['nf'] += 1
                return 'proved', 'nf', None
        r = self.with_pc_rules(goal, pc) or self.by_hypothesis(goal, pc)
        if r:
            self.stats['nf'] += 1
            return 'proved', 'nf', None
        # z3
        hy = [h for h in self.hyps if is_real(h)] + [c for c in pc]
        if has_intvar(goal):
            hy = self.hyps + list(pc)
        try:
            r, m, s = self.zsolve(hy + [tm.not_(goal)], self.timeout)
        except (nf.TooBig, ZeroDivisionError) as e:
            return 'unknown', 'z3', 'encoding: %r' % e
        if r != z3.unsat and any(k[0] == 'sin' for k in self.ctx.atoms):
            self.angles = True
            try:
                self.abstract = True
                r2, m2, s2 = self.zsolve(hy + [tm.not_(goal)], min(2000, self.timeout))
                self.abstract = False
                if r2 != z3.unsat:
                    r2, m2, s2 = self.zsolve(hy + [tm.not_(goal)], self.timeout)
                if r2 == z3.unsat:
                    r = r2
            finally:
                self.angles = self.abstract = False
        if r == z3.sat:
            self.links = True
            try:
                r, m, s = self.zsolve(hy + [tm.not_(goal)], self.timeout)
            finally:
                self.links = False
        if r == z3.unsat:
            self.stats['z3'] += 1
            return 'proved', 'z3', None
        if r == z3.sat:
            return 'refuted', 'z3', self.model(m)
        if use_cvc5:
            rr = self.cvc5(s)
            if rr == 'unsat':
                self.stats['cvc5'] += 1
                return 'proved', 'cvc5', None
        return 'unknown', 'z3', s.reason_unknown()

    def by_hypothesis(self, goal, pc):
        """x != 0, sqrt(x) != 0 or 0 < x from a hypothesis 0 < p or p != 0 with p equal to x (or -x) as a polynomial"""
        zero = tm.const(0)
        strict = goal.op == '<' and goal.args[0] is zero
        if strict:
            x = goal.args[1]
        elif goal.op == 'not' and goal.args[0].op == '=' and goal.args[0].args[0].sort == 'R':
            x = tm.sub(*goal.args[0].args)
            for i in (0, 1):
                if goal.args[0].args[i] is zero:
                    x = goal.args[0].args[1 - i]
        else:
            return False
        if x.op == 'app' and x.args[0] == 'sqrt' and not has_intvar(x):
            x, strict = x.args[1], True
        for h in list(self.hyps) + list(pc):
            signs = (1,)
            if h.op == '<' and h.args[0].sort == 'R':
                p = tm.sub(h.args[1], h.args[0])
                signs = (1,) if strict else (1, -1)
            elif not strict and h.op == 'not' and h.args[0].op == '=' and h.args[0].args[0].sort == 'R':
                p = tm.sub(*h.args[0].args)
                signs = (1, -1)
            else:
                continue
            try:
                for s in signs:
                    if self.ctx.iszero(self.ctx.rf(tm.sub(x, p) if s > 0 else tm.add(x, p))):
                        return True
            except (nf.TooBig, ZeroDivisionError):
                continue
        return False

    def with_pc_rules(self, goal, pc):
        """retry the normal form with equalities of the path condition used as rewrite rules"""
        eqs = [c for c in pc if c.op == '=' and c.args[0].sort == 'R']
        if not eqs or goal.op != '=' or goal.args[0].sort != 'R':
            return False
        ctx = nf.Ctx()
        try:
            for h in eqs + [h for h in self.hyps if h.op == '=' and h.args[0].sort == 'R']:
                ctx.add_equality(tm.sub(h.args[0], h.args[1]))
            return ctx.iszero(ctx.rf(tm.sub(goal.args[0], goal.args[1])))
        except (nf.TooBig, ZeroDivisionError):
            return False

    def prove_int(self, goal, pc):
        if goal.op == '=' and isinstance(goal.args[0].sort, int) and nf.int_equal(goal.args[0], goal.args[1]):
            self.stats['nf'] += 1
            return 'proved', 'nf', None
        s = z3.Solver()
        s.set('timeout', self.timeout)
        for x in self.intpart(pc):
            s.add(self.bv(x))
        s.add(z3.Not(self.bv(goal)))
        t = time.time()
        r = s.check()
        TIME['z3'] += time.time() - t
        if r == z3.unsat:
            self.stats['z3'] += 1
            return 'proved', 'z3', None
        if r == z3.sat:
            m = s.model()
            d = {}
            for v in m.decls():
                x = m[v]
                try:
                    d[v.name()] = x.as_signed_long()
                except Exception:
                    pass
            return 'refuted', 'z3', d
        return 'unknown', 'z3', s.reason_unknown()

    def model(self, mn):
        m, need = mn
        d = {}
        for i in need:
            k = self.ctx.atoms[i]
            if k[0] == 'v':
                x = m.eval(self.zatom(i), model_completion=True)
                try:
                    if z3.is_algebraic_value(x):
                        x = x.approx(20)
                    d[k[1].args[0]] = float(x.as_fraction())
                except Exception:
                    pass
        for v in m.decls():
            if not v.name().startswith(('x!', 'q!', 'op!', 'rb!')):
                try:
                    d[v.name()] = m[v].as_signed_long()
                except Exception:
                    pass
        return d

    def cvc5(self, s):
        t = time.time()
        try:
            txt = "(set-logic ALL)\n" + s.to_smt2()
            p = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=%d' % self.timeout, '--nl-cov'],
                               input=txt, capture_output=True, text=True, timeout=self.timeout / 1000 + 5)
            return p.stdout.split('\n')[0].strip()
        except Exception:
            return 'unknown'
        finally:
            TIME['cvc5'] += time.time() - t

    def satisfiable(self, conds, timeout=4000):
        """'sat' / 'unsat' / 'unknown' for requires (+ path condition)"""
        allc = list(conds)
        if not allc:
            return 'sat'
        try:
            r, m, s = self.zsolve(allc, timeout)
            return str(r)
        except (nf.TooBig, ZeroDivisionError):
            return 'unknown'


def z3_is_bv(e):
    st = [e]
    seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_bv(x):
            return True
        st.extend(x.children())
    return False


def has_int(cs):
    for e in cs:
        st = [e]
        while st:
            x = st.pop()
            if z3.is_int(x):
                return True
            st.extend(x.children())
    return False


# ------------------------------------------------------------------ numeric evaluation

class EvalError(Exception):
    pass


def evalf(t, env, memo=None):
    """floating-point value of a term (ints: signed python ints, bools)"""
    if memo is None:
        memo = {}
    st = [t]
    while st:
        x = st[-1]
        if x in memo:
            st.pop()
            continue
        pend = [a for a in x.args if isinstance(a, T) and a not in memo]
        if pend:
            st.extend(pend)
            continue
        st.pop()
        memo[x] = _ev(x, env, memo)
    return memo[t]


def _ev(t, env, m):
    op = t.op
    a = t.args
    if op == 'var':
        return env[a[0]]
    if op == 'c':
        if t.sort == 'R':
            return float(a[0])
        if t.sort == 'B':
            return a[0]
        return tm.signed(a[0], t.sort) if t.sort > 1 else a[0]
    if t.sort == 'R':
        try:
            if op == '+':
                return m[a[0]] + m[a[1]]
            if op == '-':
                return m[a[0]] - m[a[1]]
            if op == '*':
                return m[a[0]] * m[a[1]]
            if op == '/':
                return m[a[0]] / m[a[1]]
            if op == 'neg':
                return -m[a[0]]
            if op == 'ite':
                return m[a[1]] if m[a[0]] else m[a[2]]
            if op == 'app':
                f = a[0]
                x = [m[y] for y in a[1:]]
                return FN[f](*x)
        except (ZeroDivisionError, ValueError, OverflowError):
            return float('nan')
        raise EvalError(op)
    if t.sort == 'B':
        x = [m[y] for y in a]
        if op == 'not':
            return not x[0]
        if op == 'and':
            return all(x)
        if op == '=':
            return x[0] == x[1]
        if op == '<' or op == 'islt':
            return x[0] < x[1]
        if op == '<=' or op == 'isle':
            return x[0] <= x[1]
        if op in ('iult', 'iule'):
            w = a[0].sort
            p, q = x[0] & ((1 << w) - 1), x[1] & ((1 << w) - 1)
            return p < q if op == 'iult' else p <= q
        raise EvalError(op)
    w = t.sort
    M = (1 << w) - 1
    x = [m[y] if isinstance(y, T) else y for y in a]
    if op == '+':
        r = x[0] + x[1]
    elif op == '-':
        r = x[0] - x[1]
    elif op == '*':
        r = x[0] * x[1]
    elif op == 'neg':
        r = -x[0]
    elif op == 'b2i':
        r = int(x[0])
    elif op == 'ite':
        r = x[1] if x[0] else x[2]
    elif op == 'app':
        if a[0] in ('r2s', 'r2u'):
            r = int(x[1])
        else:
            raise EvalError(a[0])
    else:
        wi = a[0].sort
        r = tm.ifold(op, wi, w, [v & ((1 << (y.sort)) - 1) for v, y in zip(x, a)])
        if r is None:
            raise EvalError(op)
    r &= M
    return tm.signed(r, w) if w > 1 else r


def _rnd32(x):
    import struct
    try:
        return struct.unpack('f', struct.pack('f', x))[0]
    except OverflowError:
        return math.copysign(float('inf'), x)


FN = {'sqrt': math.sqrt, 'abs': abs, 'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'acos': math.acos,
      'asin': math.asin, 'atan': math.atan, 'atan2': math.atan2, 'exp': math.exp, 'log': math.log,
      'pow': math.pow, 'fmod': math.fmod, 'pi': lambda: math.pi, 's2r': float, 'u2r': float, 'rnd32': _rnd32,
      'floor': math.floor, 'ceil': math.ceil, 'inf': lambda: float('inf'), 'nan': lambda: float('nan'),
      'round': lambda x: math.copysign(math.floor(abs(x) + 0.5), x), 'trunc': math.trunc,
      'copysign': math.copysign, 'r2r': lambda x: x}


def subst(t, mp, memo=None):
    """substitute variables (by term) in a DAG"""
    if memo is None:
        memo = {}
    st = [t]
    while st:
        x = st[-1]
        if x in memo:
            st.pop()
            continue
        if x in mp:
            memo[x] = mp[x]
            st.pop()
            continue
        pend = [a for a in x.args if isinstance(a, T) and a not in memo]
        if pend:
            st.extend(pend)
            continue
        st.pop()
        memo[x] = rebuild(x, [memo[a] if isinstance(a, T) else a for a in x.args])
    return memo[t]


def rebuild(x, a):
    op = x.op
    if op in ('var', 'c'):
        return x
    if all(p is q for p, q in zip(a, x.args)):
        return x
    if op == '+':
        return tm.add(*a)
    if op == '-':
        return tm.sub(*a)
    if op == '*':
        return tm.mul(*a)
    if op == '/':
        return tm.div(*a)
    if op == 'neg':
        return tm.neg(a[0])
    if op == 'app':
        f = a[0]
        if f == 'sqrt':
            return tm.sqrt(a[1])
        if f == 'abs':
            return tm.fabs(a[1])
        if f == 'sin':
            return tm.sin(a[1])
        if f == 'cos':
            return tm.cos(a[1])
        return tm.mk('app', tuple(a), x.sort)
    if op == 'not':
        return tm.not_(a[0])
    if op == 'and':
        return tm.and_(*a)
    if op == '=':
        return tm.eq(*a)
    if op == '<':
        return tm.lt(*a)
    if op == '<=':
        return tm.le(*a)
    if op in ('islt', 'isle', 'iult', 'iule'):
        return tm.icmp(op[1:], *a)
    if op == 'ite':
        return tm.ite(*a)
    if op == 'b2i':
        b = a[0]
        return tm.const(1 if b.args[0] else 0, 1) if b.op == 'c' else tm.mk('b2i', (b,), 1)
    return tm.imk(op, x.sort, *a)
