"""Domain obligations under rounding.  Every floating-point operation is a fresh value constrained only by what holds for
every correctly rounded format when nothing overflows or underflows:
  - rounding is monotone and leaves representable values unchanged: for a result r = fl(e) and any value t of the query
    (an input, another result, or a small constant) e <= t implies r <= t and e >= t implies r >= t;
  - negation, absolute value, comparison and selection are exact;
  - products and quotients have the sign of the exact result, y*y > 0 for y != 0, |a| <= |b| implies |a/b| <= 1,
    |a| <= 1 implies |a*b| <= |b|;
  - fl(sqrt(fl(y*y))) = |y| in radix 2 (so x >= fl(y*y) implies fl(sqrt(x)) >= |y|), sqrt is monotone;
  - sine and cosine lie in [-1,1], acos, asin, atan, atan2 are finite.
A goal is proved when it follows from these facts and the path condition by linear arithmetic (z3)."""
import z3
import terms as tm


class Q:
    def __init__(self, keep=None):
        self.keep = keep      # terms modelled by their operation; others are arbitrary values
        self.v = {}
        self.facts = []
        self.rounded = []     # (value, exact)
        self.vals = []        # float values of the query
        self.sq = []          # (value of fl(y*y), y)
        self.roots = []       # (x, fl(sqrt x))
        self.n = 0

    def fresh(self, p):
        self.n += 1
        return z3.Real('%s%d' % (p, self.n))

    def rnd(self, e):
        r = self.fresh('r')
        self.rounded.append((r, e))
        self.vals.append(r)
        return r

    def abs(self, x):
        return z3.If(x >= 0, x, -x)

    def term(self, t):
        st = [t]
        while st:
            x = st[-1]
            if x in self.v:
                st.pop()
                continue
            pend = [a for a in self.kids(x) if a not in self.v]
            if pend:
                st.extend(pend)
                continue
            st.pop()
            self.v[x] = self.build(x)
        return self.v[t]

    def kids(self, x):
        if self.keep is not None and x not in self.keep:
            return []
        if x.op == 'ite':
            return [a for a in x.args[1:]] + [a for a in tm_real_args(x.args[0])]
        return [a for a in x.args if isinstance(a, tm.T) and a.sort == 'R']

    def build(self, t):
        op, a = t.op, t.args
        F = self.facts
        if op != 'c' and self.keep is not None and t not in self.keep:
            op = 'var'
        if op == 'c':
            return z3.Q(a[0].numerator, a[0].denominator) if hasattr(a[0], 'numerator') else z3.RealVal(str(a[0]))
        if op == 'var':
            r = self.fresh('i')
            self.vals.append(r)
            return r
        if op == 'ite':
            return z3.If(self.bool(a[0]), self.v[a[1]], self.v[a[2]])
        xs = [self.v[x] for x in a if isinstance(x, tm.T) and x.sort == 'R']
        if op == 'neg':
            return -xs[0]
        if op in ('+', '-'):
            e = xs[0] + xs[1] if op == '+' else xs[0] - xs[1]
            r = self.rnd(e)
            F += [z3.Implies(e > 0, r > 0), z3.Implies(e < 0, r < 0)]
            return r
        if op == '*':
            if a[0].op == 'c' or a[1].op == 'c':
                e = xs[0] * xs[1]
                r = self.rnd(e)
                F += [z3.Implies(e > 0, r > 0), z3.Implies(e < 0, r < 0)]
                return r
            x, y = xs
            e = self.fresh('p')
            r = self.rnd(e)
            if a[0] is a[1]:
                F += [e >= 0, z3.Implies(x != 0, r > 0), z3.Implies(x == 0, r == 0)]
                self.sq.append((r, x))
            else:
                F += [z3.Implies(z3.Or(x == 0, y == 0), r == 0), z3.Implies(z3.Or(z3.And(x > 0, y > 0), z3.And(x < 0, y < 0)), r > 0),
                      z3.Implies(z3.Or(z3.And(x > 0, y < 0), z3.And(x < 0, y > 0)), r < 0)]
            ax, ay, ae = self.abs(x), self.abs(y), self.abs(e)
            F += [z3.Implies(ax <= 1, ae <= ay), z3.Implies(ay <= 1, ae <= ax), z3.Implies(ax >= 1, ae >= ay), z3.Implies(ay >= 1, ae >= ax)]
            return r
        if op == '/':
            x, y = xs
            e = self.fresh('q')
            r = self.rnd(e)
            ax, ay, ae = self.abs(x), self.abs(y), self.abs(e)
            F += [z3.Implies(z3.And(x == 0, y != 0), r == 0), z3.Implies(z3.Or(z3.And(x > 0, y > 0), z3.And(x < 0, y < 0)), r > 0),
                  z3.Implies(z3.Or(z3.And(x > 0, y < 0), z3.And(x < 0, y > 0)), r < 0),
                  z3.Implies(z3.And(y != 0, ax <= ay), ae <= 1), z3.Implies(z3.And(y != 0, ax >= ay), ae >= 1)]
            return r
        if op == 'app':
            f = a[0]
            if f == 'abs':
                return self.abs(xs[0])
            if f == 'pi':
                r = self.fresh('pi')
                F += [r > z3.Q(314159, 100000), r < z3.Q(31416, 10000)]
                return r
            r = self.fresh('f')
            self.vals.append(r)
            if f == 'sqrt':
                x = xs[0]
                F += [r >= 0, z3.Implies(x > 0, r > 0), z3.Implies(x == 0, r == 0), z3.Implies(x <= 1, r <= 1), z3.Implies(x >= 1, r >= 1)]
                for x2, r2 in self.roots:
                    F += [z3.Implies(x <= x2, r <= r2), z3.Implies(x2 <= x, r2 <= r)]
                self.roots.append((x, r))
            elif f in ('sin', 'cos'):
                F += [r >= -1, r <= 1]
            elif f == 'acos':
                F += [r >= 0]
            elif f == 'exp':
                F += [r > 0]
            return r
        r = self.fresh('o')
        self.vals.append(r)
        return r

    def bool(self, c):
        op = c.op
        if op == 'c':
            return z3.BoolVal(c.args[0])
        if op == 'not':
            return z3.Not(self.bool(c.args[0]))
        if op == 'and':
            return z3.And([self.bool(x) for x in c.args])
        if op in ('<', '<=', '=') and c.args[0].sort == 'R':
            x, y = self.term(c.args[0]), self.term(c.args[1])
            return x < y if op == '<' else x <= y if op == '<=' else x == y
        return z3.Bool('b%d' % c.id)

    def finish(self):
        vals = self.vals + [z3.RealVal(k) for k in (-1, 0, 1)]
        for r, e in self.rounded:
            for t in vals:
                if t is not r:
                    for u in ([t, -t] if not z3.is_rational_value(t) else [t]):
                        self.facts += [z3.Implies(e <= u, r <= u), z3.Implies(e >= u, r >= u)]
        for x, s in self.roots:
            for q, y in self.sq:
                self.facts += [z3.Implies(x >= q, z3.And(s >= y, s >= -y)), z3.Implies(x <= q, s <= self.abs(y))]


def tm_real_args(c):
    out = []
    st = [c]
    while st:
        x = st.pop()
        if x.sort == 'R':
            out.append(x)
        else:
            st += [y for y in x.args if isinstance(y, tm.T)]
    return out


def atoms(t):
    return {x for x in tm.subterms([t]) if x.sort == 'R' and x.op not in ('c',)}


def near(goal, depth):
    """the real terms within `depth` operations of the goal"""
    cur = set(tm_real_args(goal))
    out = set(cur)
    for _ in range(depth):
        cur = {a for x in cur for a in (x.args if x.op != 'ite' else list(x.args[1:]) + tm_real_args(x.args[0])) if isinstance(a, tm.T) and a.sort == 'R'} - out
        out |= cur
    return out


def prove(goal, pc, timeout=8000):
    """-> (status, backend, info)"""
    if goal is tm.TRUE or goal in pc:
        return 'proved', 'syntactic', None
    ga = atoms(goal)
    real = [c for c in pc if any(x.sort == 'R' for x in tm.subterms([c]))]
    # first the facts of the goal alone, then the conditions over its subterms, then everything
    last = None
    for level in (-2, -1, 0, 1, 2):
        keep = near(goal, 4) if level < 0 else None
        if level in (-2, 0):
            hy = []
        elif level == -1:
            keep = near(goal, 3)
            hy = [(c, near(c, 2)) for c in real if c is not goal]
            hy = [(c, n) for c, n in hy if all(x.op in ('c', '+', '-') or x in keep for x in tm_real_args(c)) and any(x.op != 'c' and x in keep for x in n)]
            keep |= {x for c, n in hy for x in n if x.op in ('+', '-')}
            hy = [c for c, n in hy]
            if not hy:
                continue
        elif level == 1:
            hy = [c for c in real if all(x.op == 'c' or x in ga for x in tm_real_args(c))]
        else:
            gv = {x for x in ga if x.op == 'var'}
            hy = [c for c in real if atoms(c) & gv]
        if level > 0 and len(hy) == last:
            continue
        last = len(hy)
        q = Q(keep)
        g = q.bool(goal)
        hs = [q.bool(c) for c in hy]
        q.finish()
        s = z3.Solver()
        s.set('timeout', timeout if level >= 0 else 1000)
        s.add(*q.facts)
        s.add(*hs)
        s.add(z3.Not(g))
        r = s.check()
        if r == z3.unsat:
            return 'proved', 'z3', None
    return 'unknown', 'z3', str(r)
