"""Exact normal forms for real terms: quotients of polynomials over 'atoms'
(variables, function applications with normalised arguments), modulo
  sqrt(t)^2 = t,  abs(t)^2 = t^2,  sin^2 = 1 - cos^2,  and rules from equality hypotheses.
Identity of two terms is decided by reducing the numerator of their difference to 0.
"""
from fractions import Fraction
from math import gcd
import terms as tm
from terms import T

BITS = 10
MASK = (1 << BITS) - 1


class TooBig(Exception):
    pass


class Restart(Exception):
    pass


MAXTERMS = 400000


def pmul(a, b):
    if len(a) > len(b):
        a, b = b, a
    if len(a) * len(b) > 40 * MAXTERMS:
        raise TooBig()
    out = {}
    get = out.get
    for ma, ca in a.items():
        for mb, cb in b.items():
            m = ma + mb
            out[m] = get(m, 0) + ca * cb
    if len(out) > MAXTERMS:
        raise TooBig()
    return {m: c for m, c in out.items() if c}


def padd(a, b):
    if len(a) < len(b):
        a, b = b, a
    out = dict(a)
    for m, c in b.items():
        v = out.get(m, 0) + c
        if v:
            out[m] = v
        else:
            out.pop(m, None)
    return out


def pscale(a, k):
    if k == 1:
        return a
    return {m: c * k for m, c in a.items()} if k else {}


def pneg(a):
    return {m: -c for m, c in a.items()}


def norm_coeff(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


def pconst(v):
    v = norm_coeff(v)
    return {0: v} if v else {}


def exps(m):
    out = []
    i = 0
    while m:
        e = m & MASK
        if e:
            out.append((i, e))
        m >>= BITS
        i += 1
    return out


ONE = {0: 1}


class Ctx:
    def __init__(self):
        self.atoms = []        # index -> key
        self.akey = {}         # key -> index
        self.memo = {}         # T -> RF
        self.sqrule = {}       # atom index -> RF for atom^2  (num, den)
        self.linrule = {}      # atom index -> RF
        self.factors = []      # id -> poly
        self.fkey = {}
        self.adiv = {}         # angle monomial -> divisor
        self.sides = []        # terms required nonzero: list of RF numerators (poly)
        self.sideterms = []
        self.nonneg = set()    # atoms known >= 0
        self.absarg = {}
        self.ratio = {}
        self.ip = ({}, {}, {})
        self.intrange = None

    def intpoly_real(self, ip, w):
        """a signed machine integer polynomial that cannot leave its range under the preconditions, as a real term"""
        lo = hi = 0
        tot = tm.const(0)
        for m, c in ip.items():
            c = c - (1 << w) if c >> (w - 1) else c
            l = h = c
            x = tm.const(c)
            for i in m:
                a = self.ip[1][('term', i)]
                r = self.intrange(a)
                if r is None:
                    return None
                e = [l * r[0], l * r[1], h * r[0], h * r[1]]
                l, h = min(e), max(e)
                x = tm.mul(x, tm.mk('app', ('s2r', a), 'R'))
            lo, hi = lo + l, hi + h
            tot = tm.add(tot, x)
        if lo < -(1 << (w - 1)) or hi >= 1 << (w - 1):
            return None
        return tot

    # ---- atoms
    def atom(self, key):
        i = self.akey.get(key)
        if i is None:
            i = len(self.atoms)
            self.atoms.append(key)
            self.akey[key] = i
        return i

    def mono(self, i):
        return {1 << (BITS * i): 1}

    def maxexp(self, p, i):
        sh = BITS * i
        e = 0
        for m in p:
            x = (m >> sh) & MASK
            if x > e:
                e = x
        return e

    # ---- rational functions  (num, den) den: tuple of (fid, exp) sorted
    def factor(self, p):
        """intern polynomial p (non constant) up to scalar; returns (fid, scalar)"""
        lead = max(p)
        c = p[lead]
        if c != 1:
            q = {m: norm_coeff(Fraction(v) / c) for m, v in p.items()}
        else:
            q = p
        k = frozenset(q.items())
        f = self.fkey.get(k)
        if f is None:
            f = len(self.factors)
            self.factors.append(q)
            self.fkey[k] = f
        return f, c

    def radd(self, a, b):
        (na, da), (nb, db) = a, b
        if da == db:
            return self.cancel(padd(na, nb), da)
        A, B = dict(da), dict(db)
        D = dict(A)
        for f, e in B.items():
            if D.get(f, 0) < e:
                D[f] = e
        for f, e in D.items():
            for _ in range(e - A.get(f, 0)):
                na = pmul(na, self.factors[f])
            for _ in range(e - B.get(f, 0)):
                nb = pmul(nb, self.factors[f])
        return self.cancel(padd(na, nb), tuple(sorted(D.items())))

    def rneg(self, a):
        return (pneg(a[0]), a[1])

    def rmul(self, a, b):
        (na, da), (nb, db) = a, b
        if not na or not nb:
            return ({}, ())
        # cheap cross cancellation
        if da or db:
            na, db = self.cross(na, db)
            nb, da = self.cross(nb, da)
        if not da:
            d = db
        elif not db:
            d = da
        else:
            D = dict(da)
            for f, e in db:
                D[f] = D.get(f, 0) + e
            d = tuple(sorted(D.items()))
        return self.cancel(self.red1(pmul(na, nb)), d)

    def cross(self, n, d):
        """cancel factor f of d when n is a scalar multiple of f or divisible as a monomial"""
        if not d:
            return n, d
        out = []
        for f, e in d:
            q = self.factors[f]
            if len(q) == 1:
                (m, c), = q.items()
                i = exps(m)[0][0]
                sh = BITS * i
                k = min(((x >> sh) & MASK) for x in n)
                k = min(k, e)
                if k:
                    n = {x - (k << sh): v for x, v in n.items()}
                    e -= k
            elif len(q) == len(n):
                while e and len(q) == len(n):
                    L = max(n)
                    if L != max(q):
                        break
                    c = n[L]
                    ok = True
                    for m, v in q.items():
                        if n.get(m) != v * c:
                            ok = False
                            break
                    if not ok:
                        break
                    n = pconst(c)
                    e -= 1
            if e:
                out.append((f, e))
        return n, tuple(out)

    def cancel(self, n, d):
        if not n:
            return ({}, ())
        if d:
            n, d = self.cross(n, d)
        return (n, d)

    def rinv(self, a):
        n, d = a
        if not n:
            raise ZeroDivisionError
        num = ONE
        for f, e in d:
            for _ in range(e):
                num = pmul(num, self.factors[f])
        if len(n) == 1:
            (m, c), = n.items()
            den = []
            for i, e in exps(m):
                f, s = self.factor(self.mono(i))
                den.append((f, e))
            num = pscale(num, norm_coeff(Fraction(1) / c))
            return self.cancel(num, tuple(sorted(den)))
        # pull out common monomial
        common = None
        for m in n:
            es = dict(exps(m))
            if common is None:
                common = es
            else:
                common = {i: min(e, es.get(i, 0)) for i, e in common.items() if es.get(i, 0)}
            if not common:
                break
        den = {}
        if common:
            sh = 0
            for i, e in common.items():
                sh += e << (BITS * i)
                f, s = self.factor(self.mono(i))
                den[f] = den.get(f, 0) + e
            n = {m - sh: c for m, c in n.items()}
        f, c = self.factor(n)
        den[f] = den.get(f, 0) + 1
        num = pscale(num, norm_coeff(Fraction(1) / c))
        return self.cancel(num, tuple(sorted(den.items())))

    # ---- reduction
    def red1(self, p):
        """eager reduction by polynomial square rules"""
        if not self.sqrule:
            return p
        for i, (rn, rd) in self.sqrule.items():
            if rd:
                continue
            sh = BITS * i
            hit = False
            for m in p:
                if (m >> sh) & MASK > 1:
                    hit = True
                    break
            if hit:
                p = self.subsq(p, i, rn)
        return p

    def subsq(self, p, i, rn):
        sh = BITS * i
        groups = {}
        for m, c in p.items():
            e = (m >> sh) & MASK
            k = e >> 1
            groups.setdefault(k, {})[m - ((2 * k) << sh)] = c
        out = groups.pop(0, {})
        pw = ONE
        kk = 0
        for k in sorted(groups):
            while kk < k:
                pw = self.red1(pmul(pw, rn))
                kk += 1
            out = padd(out, pmul(groups[k], pw))
        return out

    def reduce(self, rf):
        """full reduction; returns RF"""
        n, d = rf
        for _ in range(60):
            changed = False
            # highest atoms first
            for i in sorted(self.sqrule, reverse=True):
                if not n:
                    return ({}, ())
                e = self.maxexp(n, i)
                if e < 2:
                    continue
                rn, rd = self.sqrule[i]
                changed = True
                if not rd:
                    n = self.subsq(n, i, rn)
                    continue
                dp = ONE
                for f, x in rd:
                    for _k in range(x):
                        dp = pmul(dp, self.factors[f])
                K = e >> 1
                sh = BITS * i
                groups = {}
                for m, c in n.items():
                    ee = (m >> sh) & MASK
                    k = ee >> 1
                    groups.setdefault(k, {})[m - ((2 * k) << sh)] = c
                # sum_k g_k rn^k dp^(K-k) / dp^K
                tot = {}
                for k, g in groups.items():
                    t = g
                    for _k in range(k):
                        t = pmul(t, rn)
                    for _k in range(K - k):
                        t = pmul(t, dp)
                    tot = padd(tot, t)
                n = tot
                D = dict(d)
                for f, x in rd:
                    D[f] = D.get(f, 0) + x * K
                d = tuple(sorted(D.items()))
                n, d = self.cancel(n, d)
            if not changed:
                break
        return (n, d)

    def iszero(self, rf):
        if not rf[0]:
            return True
        return not self.reduce(rf)[0]

    # ---- terms to RF
    def rf(self, t):
        while True:
            try:
                return self._rf(t)
            except Restart:
                self.memo.clear()

    def _rf(self, t):
        memo = self.memo
        r = memo.get(t)
        if r is not None:
            return r
        # iterative post-order to avoid recursion limits
        stack = [(t, False)]
        while stack:
            x, done = stack.pop()
            if x in memo:
                continue
            if not done:
                stack.append((x, True))
                for a in x.args:
                    if isinstance(a, T) and a not in memo and a.sort == 'R' and x.op != 'ite':
                        stack.append((a, False))
            else:
                memo[x] = self.build(x)
        return memo[t]

    def key(self, rf):
        return (frozenset(rf[0].items()), rf[1])

    def const_of(self, rf):
        n, d = rf
        if d:
            return None
        if not n:
            return 0
        if len(n) == 1 and 0 in n:
            return n[0]
        return None

    def avar(self, key):
        i = self.atom(key)
        if i in self.linrule:
            return self.linrule[i]
        return (self.mono(i), ())

    def build(self, t):
        op = t.op
        memo = self.memo
        if op == 'c':
            return (pconst(t.args[0]), ())
        if op == 'var':
            return self.avar(('v', t))
        if op == '+':
            return self.radd(memo[t.args[0]], memo[t.args[1]])
        if op == '-':
            return self.radd(memo[t.args[0]], self.rneg(memo[t.args[1]]))
        if op == 'neg':
            return self.rneg(memo[t.args[0]])
        if op == '*':
            return self.rmul(memo[t.args[0]], memo[t.args[1]])
        if op == '/':
            return self.rmul(memo[t.args[0]], self.rinv_red(memo[t.args[1]]))
        if op == 'app':
            f = t.args[0]
            if f in ('s2r', 'u2r') and isinstance(t.args[1], T) and isinstance(t.args[1].sort, int):
                # machine-integer arguments that agree as polynomials share one representative
                try:
                    ip = int_poly(t.args[1], self.ip[0], self.ip[1])
                    if f == 's2r' and self.intrange and t.args[1].op in ('+', '-', '*', 'neg', 'c'):
                        x = self.intpoly_real(ip, t.args[1].sort)
                        if x is not None:
                            return self.rf(x)
                    k = (f, t.args[1].sort, frozenset(ip.items()))
                    return self.avar(('f', f, self.ip[2].setdefault(k, t.args[1])))
                except RecursionError:
                    pass
            if any(not isinstance(a, T) or a.sort != 'R' for a in t.args[1:]):
                return self.avar(('f', f) + t.args[1:])
            args = [memo[a] for a in t.args[1:]]
            return self.app(f, args, t)
        return self.avar(('t', t))     # ite, conversions: opaque

    def rinv_red(self, rf):
        r = self.reduce(rf)
        if not r[0]:
            raise ZeroDivisionError
        return self.rinv(r)

    def app(self, f, args, t=None):
        if f == 'sqrt':
            return self.sqrt(args[0])
        if f == 'abs':
            return self.abs(args[0])
        if f == 'pi':
            return self.avar(('pi',))
        if f in ('sin', 'cos'):
            s, c = self.sincos(args[0])
            return s if f == 'sin' else c
        if f == 'tan':
            s, c = self.sincos(args[0])
            self.side(c)
            return self.rmul(s, self.rinv_red(c))
        if f in ('exp', 'log'):
            a = self.reduce(args[0])
            k = self.const_of(a)
            if f == 'exp' and k == 0:
                return (ONE, ())
            if f == 'log' and k == 1:
                return ({}, ())
            if len(a[0]) == 1 and not a[1]:
                (m, c), = a[0].items()
                es = exps(m)
                if c == 1 and len(es) == 1 and es[0][1] == 1:
                    kk = self.atoms[es[0][0]]
                    inv = 'log' if f == 'exp' else 'exp'
                    if kk[0] == 'f' and kk[1] == inv:
                        return self.ratio[es[0][0]]
            i = self.atom(('f', f, self.key(a)))
            self.ratio[i] = a
            if f == 'exp':
                self.nonneg.add(i)
            return (self.mono(i), ())
        if f == 'atan2':
            return self.fatom('atan2', args)
        if f in ('rnd32', 'acos', 'asin', 'atan'):
            return self.fatom(f, args)
        return self.fatom(f, args)

    def fatom(self, f, args):
        args = [self.reduce(a) for a in args]
        i = self.atom(('f', f) + tuple(self.key(a) for a in args))
        self.ratio[i] = args if len(args) > 1 else args[0]
        if f == 'acos':
            self.nonneg.add(i)
        return (self.mono(i), ())

    def side(self, rf):
        """record that rf must be nonzero for the rewriting to be valid"""
        k = self.const_of(rf)
        if k is None:
            self.sides.append(rf)

    def sqrt(self, a):
        a = self.reduce(a)
        n, d = a
        k = self.const_of(a)
        if k is not None and k >= 0:
            import math
            k = Fraction(k)
            p, q = math.isqrt(k.numerator), math.isqrt(k.denominator)
            if p * p == k.numerator and q * q == k.denominator:
                return (pconst(Fraction(p, q)), ())
        # split constant square and perfect squares of monomials / denominators with even powers
        out = (ONE, ())
        D = []
        for f, e in d:
            D.append((f, e))
        # pull even powers of denominator factors: sqrt(n/f^2) = sqrt(n)/|f|
        rest = []
        for f, e in D:
            h = e // 2
            if h:
                af = self.abs((self.factors[f], ()))
                for _ in range(h):
                    out = self.rmul(out, self.rinv(af))
            if e % 2:
                rest.append((f, 1))
        d = tuple(rest)
        # common monomial square in n
        if n:
            common = None
            for m in n:
                es = dict(exps(m))
                common = es if common is None else {i: min(e, es[i]) for i, e in common.items() if i in es}
            for i, e in (common or {}).items():
                h = e // 2
                if h:
                    sh = (2 * h) << (BITS * i)
                    n = {m - sh: c for m, c in n.items()}
                    ai = self.abs((self.mono(i), ()))
                    for _ in range(h):
                        out = self.rmul(out, ai)
            # content
            g = 0
            for c in n.values():
                c = Fraction(c)
                g = Fraction(gcd(int((g if g else c).numerator), c.numerator),
                             ((g if g else c).denominator * c.denominator //
                              gcd((g if g else c).denominator, c.denominator))) if g else abs(c)
            import math
            p, q = math.isqrt(g.numerator), math.isqrt(g.denominator)
            # take the largest square divisor that is cheap: whole content, or powers of 4
            if p * p == g.numerator and q * q == g.denominator:
                s = Fraction(p, q)
            else:
                s = Fraction(1)
                gg = g
                while gg.denominator % 4 == 0:
                    gg *= 4
                    s /= 2
                while gg.numerator % 4 == 0:
                    gg /= 4
                    s *= 2
            if s != 1:
                n = {m: norm_coeff(Fraction(c) / (s * s)) for m, c in n.items()}
                out = self.rmul(out, (pconst(s), ()))
            # perfect square of a linear/any polynomial?
            if not d:
                r = self.psqrt(n)
                if r is not None:
                    return self.rmul(out, self.abs((r, ())))
        k = self.const_of((n, d))
        if k == 1:
            return out
        # product form: split off known factors?  keep as a single atom
        key = ('f', 'sqrt', self.key((n, d)))
        i = self.atom(key)
        if i not in self.sqrule:
            self.sqrule[i] = (n, d)
            self.ratio[i] = (n, d)
            self.nonneg.add(i)
        return self.rmul(out, (self.mono(i), ()))

    def psqrt(self, n):
        """polynomial square root (exact) or None"""
        if not n:
            return {}
        L = max(n)
        c = Fraction(n[L])
        es = exps(L)
        if any(e % 2 for _, e in es) or c < 0:
            return None
        import math
        p, q = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if p * p != c.numerator or q * q != c.denominator:
            return None
        if len(n) > 60:
            return None
        lead = sum((e // 2) << (BITS * i) for i, e in es)
        lc = Fraction(p, q)
        r = {lead: norm_coeff(lc)}
        rem = padd(n, pneg(pmul(r, r)))
        for _ in range(40):
            if not rem:
                return r
            M = max(rem)
            # M / lead must be a monomial
            x = M
            ok = True
            le = dict(exps(lead))
            me = dict(exps(M))
            for i, e in le.items():
                if me.get(i, 0) < e:
                    ok = False
            if not ok:
                return None
            nm = M - lead
            nc = norm_coeff(Fraction(rem[M]) / (2 * lc))
            if nm >= lead or nm in r:
                return None
            tmono = {nm: nc}
            rem = padd(rem, pneg(padd(pscale(pmul(r, tmono), 2), pmul(tmono, tmono))))
            r = padd(r, tmono)
        return None

    def is_nonneg_poly(self, n):
        """syntactically >= 0: positive coefficients, every monomial a product of squares / nonneg atoms"""
        for m, c in n.items():
            if c < 0:
                return False
            for i, e in exps(m):
                if e % 2 and i not in self.nonneg:
                    return False
        return True

    def abs(self, a):
        a = self.reduce(a)
        n, d = a
        if not n:
            return a
        k = self.const_of(a)
        if k is not None:
            return (pconst(abs(k)), ())
        out = (ONE, ())
        if d:
            for f, e in d:
                af = self.abs((self.factors[f], ())) if e % 2 else (self.factors[f], ())
                if e % 2 == 0:
                    inv = self.rinv((self.factors[f], ()))
                    for _ in range(e):
                        out = self.rmul(out, inv)
                else:
                    inv = self.rinv(af)
                    inv0 = self.rinv((self.factors[f], ()))
                    out = self.rmul(out, inv)
                    for _ in range(e - 1):
                        out = self.rmul(out, inv0)
            return self.rmul(out, self.abs((n, ())))
        if self.is_nonneg_poly(n):
            return (n, ())
        if self.is_nonneg_poly(pneg(n)):
            return (pneg(n), ())
        # monomial factors and content
        common = None
        for m in n:
            es = dict(exps(m))
            common = es if common is None else {i: min(e, es[i]) for i, e in common.items() if i in es}
        if common and len(n) == 1:
            (m, c), = n.items()
            out = (pconst(abs(c)), ())
            for i, e in exps(m):
                base = (self.mono(i), ())
                if e % 2 and i not in self.nonneg:
                    base1 = self.absatom({1 << (BITS * i): 1})
                    out = self.rmul(out, base1)
                    e -= 1
                for _ in range(e):
                    out = self.rmul(out, base)
            return out
        if common:
            sh = sum(e << (BITS * i) for i, e in common.items())
            return self.rmul(self.abs(({sh: 1}, ())), self.abs(({m - sh: c for m, c in n.items()}, ())))
        L = max(n)
        c = n[L]
        q = {m: norm_coeff(Fraction(v) / c) for m, v in n.items()} if c != 1 else n
        return self.rmul((pconst(abs(c)), ()), self.absatom(q))

    def absatom(self, q):
        i = self.atom(('f', 'abs', self.key((q, ()))))
        if i not in self.sqrule:
            self.sqrule[i] = (self.red1(pmul(q, q)), ())
            self.nonneg.add(i)
            self.absarg[i] = q
        return (self.mono(i), ())

    # ---- trigonometry
    def sincos(self, a):
        a = self.reduce(a)
        n, d = a
        S, C = ({}, ()), (ONE, ())
        if not n:
            return S, C
        if d:
            if len(n) == 1:
                (m, c), = n.items()
                b = ({m: 1}, d)
                parts = [(('rf', self.key(b)), b, Fraction(c))]
            else:
                parts = [(('rf', self.key(a)), a, Fraction(1))]      # (pi*a - 2*a*b)/pi: terms over the common denominator that simplify become separate angles
                sp = [(self.reduce(self.cancel({m: 1}, d)), Fraction(c)) for m, c in n.items()]
                if any(not p[1] for p, c in sp):
                    parts = []
                    for p, c in sp:
                        if p[1]:
                            parts.append((('rf', self.key(p)), p, c))
                        else:
                            parts += [(('m', m), ({m: 1}, ()), c * Fraction(k)) for m, k in p[0].items()]
        else:
            parts = [(('m', m), ({m: 1}, ()), Fraction(c)) for m, c in n.items()]
        for key, base, q in sorted(parts, key=lambda z: str(z[0])):
            s, c = self.sc_part(key, base, q)
            S, C = (self.radd(self.rmul(S, c), self.rmul(C, s)),
                    self.radd(self.rmul(C, c), self.rneg(self.rmul(S, s))))
        return S, C

    def sc_part(self, key, base, q):
        if key[0] == 'm':
            es = exps(key[1])
            if len(es) == 1 and es[0][1] == 1:
                ak = self.atoms[es[0][0]]
                if ak == ('pi',):
                    k = q * 2
                    if k.denominator == 1:
                        k = int(k) % 4
                        return [(({}, ()), (ONE, ())), ((ONE, ()), ({}, ())), (({}, ()), ({0: -1}, ())),
                                (({0: -1}, ()), ({}, ()))][k]
                elif ak[0] == 'f' and ak[1] in ('atan2', 'acos', 'asin', 'atan'):
                    r = self.invtrig(es[0][0], ak[1], q)
                    if r is not None:
                        return r
            elif not es:
                pass
        dv = self.adiv.get(key, 1)
        k = q * dv
        if k.denominator != 1:
            self.adiv[key] = dv * k.denominator
            raise Restart()
        k = int(k)
        kk = key if key[0] == 'rf' else ('m', key[1])
        ai = self.atom(('cos', kk, dv))
        bi = self.atom(('sin', kk, dv))
        if bi not in self.sqrule:
            self.ratio[ai] = self.ratio[bi] = self.rmul(base, ({0: norm_coeff(Fraction(1, dv))}, ()))
            self.sqrule[bi] = ({0: 1, 2 << (BITS * ai): -1}, ())
        s, c = (self.mono(bi), ()), (self.mono(ai), ())
        return self.multi(s, c, k)

    def multi(self, s, c, k):
        S, C = ({}, ()), (ONE, ())
        for _ in range(abs(k)):
            S, C = (self.radd(self.rmul(S, c), self.rmul(C, s)),
                    self.radd(self.rmul(C, c), self.rneg(self.rmul(S, s))))
        if k < 0:
            S = self.rneg(S)
        return S, C

    def invtrig(self, i, f, q):
        if f == 'atan2':
            y, x = self.ratio[i]
            r2 = self.radd(self.rmul(x, x), self.rmul(y, y))
            r = self.sqrt(r2)
            self.side(r)
            ri = self.rinv_red(r)
            s, c = self.rmul(y, ri), self.rmul(x, ri)
        elif f == 'atan':
            x = self.ratio[i]
            r = self.sqrt(self.radd((ONE, ()), self.rmul(x, x)))
            ri = self.rinv_red(r)
            s, c = self.rmul(x, ri), ri
        elif f == 'acos':
            c = self.ratio[i]
            s = self.sqrt(self.radd((ONE, ()), self.rneg(self.rmul(c, c))))
        elif f == 'asin':
            s = self.ratio[i]
            c = self.sqrt(self.radd((ONE, ()), self.rneg(self.rmul(s, s))))
        if q.denominator == 1:
            return self.multi(s, c, int(q))
        if q.denominator == 2:
            half = {0: Fraction(1, 2)}
            if f == 'acos':     # angle in [0,pi] -> half in [0,pi/2]
                hc = self.sqrt(self.rmul((half, ()), self.radd((ONE, ()), c)))
                hs = self.sqrt(self.rmul((half, ()), self.radd((ONE, ()), self.rneg(c))))
                return self.multi(hs, hc, int(q * 2))
            # angle in (-pi,pi]: half in (-pi/2,pi/2]; cos(half) = sqrt((1+c)/2) >= 0, sin(half) = s/(2 cos half)
            hc = self.sqrt(self.rmul((half, ()), self.radd((ONE, ()), c)))
            self.side(hc)
            hs = self.rmul(s, self.rmul((half, ()), self.rinv_red(hc)))
            return self.multi(hs, hc, int(q * 2))
        return None

    # ---- hypotheses
    def add_equality(self, t):
        """use hypothesis  t == 0  as a rewrite rule when it has a usable shape; True if used"""
        n, d = self.reduce(self.rf(t))
        if not n:
            return True
        # a square with constant coefficient and otherwise absent, or a linear occurrence
        cand = {}
        for m in n:
            for i, e in exps(m):
                cand.setdefault(i, []).append((e, m))
        for i in sorted(cand, reverse=True):
            occ = cand[i]
            k = self.atoms[i]
            if k[0] != 'v' or i in self.sqrule or i in self.linrule:
                continue
            if len(occ) == 1:
                e, m = occ[0]
                if m == (e << (BITS * i)) and e in (1, 2):
                    c = n[m]
                    rest = {mm: norm_coeff(Fraction(-v) / c) for mm, v in n.items() if mm != m}
                    if e == 2:
                        self.sqrule[i] = (rest, ())
                    else:
                        self.linrule[i] = (rest, ())
                    self.memo.clear()
                    return True
        return False


# ------------------------------------------------------------------ machine-int ring normal form

def int_poly(t, memo, atoms):
    """polynomial over atoms for int term t (mod 2**w) -- monomials as sorted tuples"""
    r = memo.get(t)
    if r is not None:
        return r
    w = t.sort
    M = (1 << w) - 1
    if t.op == 'c':
        r = {(): t.args[0]} if t.args[0] else {}
    elif t.op in ('+', '-'):
        a = int_poly(t.args[0], memo, atoms)
        b = int_poly(t.args[1], memo, atoms)
        r = dict(a)
        for m, c in b.items():
            v = (r.get(m, 0) + (c if t.op == '+' else -c)) & M
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    elif t.op == 'neg':
        r = {m: (-c) & M for m, c in int_poly(t.args[0], memo, atoms).items()}
    elif t.op == '*':
        a = int_poly(t.args[0], memo, atoms)
        b = int_poly(t.args[1], memo, atoms)
        r = {}
        for ma, ca in a.items():
            for mb, cb in b.items():
                m = tuple(sorted(ma + mb))
                v = (r.get(m, 0) + ca * cb) & M
                if v:
                    r[m] = v
                else:
                    r.pop(m, None)
    else:
        if t.op == 'var':
            k = t.id
        else:
            ks = []
            for a in t.args:
                if isinstance(a, T) and isinstance(a.sort, int):
                    ks.append(frozenset(int_poly(a, memo, atoms).items()))
                elif isinstance(a, T):
                    ks.append(a.id)
                else:
                    ks.append(a)
            k = (t.op, tuple(ks))
            k = atoms.setdefault(k, t.id)
        atoms.setdefault(('term', k), t)
        r = {(k,): 1}
    memo[t] = r
    return r


def int_equal(a, b):
    memo, atoms = {}, {}
    return int_poly(a, memo, atoms) == int_poly(b, memo, atoms)
