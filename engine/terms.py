"""Hash-consed term DAG used by the VC generator.

Sorts:  'R' (mathematical real, stands for every IEEE type), 'B' (bool),
        int w (machine integer of w bits; ring operations are taken modulo 2**w).
"""
from fractions import Fraction


class T:
    __slots__ = ("op", "args", "sort", "id", "__weakref__")

    def __init__(self, op, args, sort, id):
        self.op = op
        self.args = args
        self.sort = sort
        self.id = id

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, other):
        return self is other

    def __ne__(self, other):
        return self is not other

    # arithmetic sugar for spec functions (real sort or machine ints)
    def __add__(self, o): return add(self, o)
    def __radd__(self, o): return add(o, self)
    def __sub__(self, o): return sub(self, o)
    def __rsub__(self, o): return sub(o, self)
    def __mul__(self, o): return mul(self, o)
    def __rmul__(self, o): return mul(o, self)
    def __truediv__(self, o): return div(self, o)
    def __rtruediv__(self, o): return div(o, self)
    def __neg__(self): return neg(self)
    def __pow__(self, k):
        assert isinstance(k, int) and k >= 0
        r = const(1)
        for _ in range(k):
            r = r * self
        return r

    def __bool__(self):
        raise TypeError("symbolic term used as a Python truth value: " + show(self))


_tab = {}
_n = [0]


def mk(op, args, sort):
    key = (op, args, sort)
    t = _tab.get(key)
    if t is None:
        t = T(op, args, sort, _n[0])
        _n[0] += 1
        _tab[key] = t
    return t


def reset():
    _tab.clear()


def var(name, sort="R"):
    return mk("var", (name,), sort)


def const(v, sort="R"):
    if isinstance(v, T):
        return v
    if sort == "R":
        if isinstance(v, float):
            v = Fraction(v)
        elif not isinstance(v, Fraction):
            v = Fraction(v)
        return mk("c", (v,), "R")
    if sort == "B":
        return TRUE if v else FALSE
    return mk("c", (v & ((1 << sort) - 1),), sort)


TRUE = mk("c", (True,), "B")
FALSE = mk("c", (False,), "B")


def is_const(t):
    return t.op == "c"


def cval(t):
    return t.args[0]


def signed(v, w):
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) else v


def _coerce(a, b):
    if isinstance(a, T):
        if not isinstance(b, T):
            b = const(b, a.sort)
    elif isinstance(b, T):
        a = const(a, b.sort)
    else:
        a = const(a)
        b = const(b)
    if a.sort != b.sort:
        raise TypeError("sort mismatch %s %s" % (a.sort, b.sort))
    return a, b


def _k(v, s):
    return const(v, s)


def add(a, b):
    a, b = _coerce(a, b)
    s = a.sort
    if a.op == "c":
        if a.args[0] == 0:
            return b
        if b.op == "c":
            return _k(a.args[0] + b.args[0], s)
        a, b = b, a
    elif b.op == "c" and b.args[0] == 0:
        return a
    return mk("+", (a, b), s)


def neg(a):
    if a.op == "c":
        return _k(-a.args[0], a.sort)
    if a.op == "neg":
        return a.args[0]
    return mk("neg", (a,), a.sort)


def sub(a, b):
    a, b = _coerce(a, b)
    s = a.sort
    if b.op == "c":
        if b.args[0] == 0:
            return a
        if a.op == "c":
            return _k(a.args[0] - b.args[0], s)
    if a.op == "c" and a.args[0] == 0:
        return neg(b)
    if a is b:
        return _k(0, s)
    return mk("-", (a, b), s)


def mul(a, b):
    a, b = _coerce(a, b)
    s = a.sort
    if b.op == "c":
        a, b = b, a
    if a.op == "c":
        v = a.args[0]
        if v == 0:
            return a
        if v == 1:
            return b
        if b.op == "c":
            return _k(v * b.args[0], s)
        if s == "R" and v == -1:
            return neg(b)
    return mk("*", (a, b), s)


def div(a, b):
    """real division"""
    a, b = _coerce(a, b)
    assert a.sort == "R"
    if b.op == "c":
        v = b.args[0]
        if v == 1:
            return a
        if v != 0:
            return mul(const(Fraction(1) / v), a)
    if a.op == "c" and a.args[0] == 0 and not (b.op == "c"):
        return a
    return mk("/", (a, b), "R")


def app(f, *args):
    """uninterpreted / interpreted real function application"""
    return mk("app", (f,) + tuple(const(x) for x in args), "R")


def iapp(f, w, *args):
    return mk("app", (f,) + tuple(args), w)


def sqrt(x):
    x = const(x)
    if x.op == "c" and x.args[0] >= 0:
        import math
        n, d = x.args[0].numerator, x.args[0].denominator
        rn, rd = math.isqrt(n), math.isqrt(d)
        if rn * rn == n and rd * rd == d:
            return const(Fraction(rn, rd))
    return app("sqrt", x)


def fabs(x):
    x = const(x)
    if x.op == "c":
        return const(abs(x.args[0]))
    if x.op == "neg":
        x = x.args[0]
    if x.op == "app" and x.args[0] in ("abs", "sqrt"):
        return x
    return app("abs", x)


def sin(x):
    x = const(x)
    if x.op == "c" and x.args[0] == 0:
        return const(0)
    return app("sin", x)


def cos(x):
    x = const(x)
    if x.op == "c" and x.args[0] == 0:
        return const(1)
    while x.op == "app" and x.args[0] == "abs" or x.op == "neg":
        x = x.args[-1]      # the cosine is even
    return app("cos", x)


def tan(x):
    return app("tan", const(x))


PI = app("pi")


# ---- boolean -------------------------------------------------------------

def not_(a):
    if a.op == "c":
        return FALSE if a.args[0] else TRUE
    if a.op == "not":
        return a.args[0]
    if a.op == "<":
        return mk("<=", (a.args[1], a.args[0]), "B")
    if a.op == "<=":
        return mk("<", (a.args[1], a.args[0]), "B")
    return mk("not", (a,), "B")


def and_(*xs):
    out = []
    for x in xs:
        if isinstance(x, bool):
            x = TRUE if x else FALSE
        if x is FALSE:
            return FALSE
        if x is TRUE:
            continue
        if x.op == "and":
            for y in x.args:
                if y not in out:
                    out.append(y)
        elif x not in out:
            out.append(x)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk("and", tuple(out), "B")


def or_(*xs):
    return not_(and_(*[not_(const(x, "B")) if not isinstance(x, T) else not_(x) for x in xs]))


def implies(a, b):
    return or_(not_(a), b)


def eq(a, b):
    a, b = _coerce(a, b)
    if a is b:
        return TRUE
    if a.op == "c" and b.op == "c":
        return TRUE if a.args[0] == b.args[0] else FALSE
    if a.id > b.id:
        a, b = b, a
    if a.sort == "B":
        if a.op == "c":
            return b if a.args[0] else not_(b)
        if b.op == "c":
            return a if b.args[0] else not_(a)
        return and_(implies(a, b), implies(b, a))
    if a.sort != "R" and (a.op in BV_OPS or b.op in BV_OPS):
        x, y = boolval(a), boolval(b)
        if x and b.op == "c":
            y = (TRUE, b.args[0], b.args[0])
        elif y and a.op == "c":
            x = (TRUE, a.args[0], a.args[0])
        if x and y:
            r = []
            for c1, k1 in ((x[0], x[1]), (not_(x[0]), x[2])):
                for c2, k2 in ((y[0], y[1]), (not_(y[0]), y[2])):
                    if k1 != k2:
                        r.append(not_(and_(c1, c2)))
            return and_(*r)
    return mk("=", (a, b), "B")


BV_OPS = ("b2i", "zext", "ite")


def boolval(t):
    """(condition, value if true, value if false) of a term that only takes two constant values"""
    if t.op == "b2i":
        return t.args[0], 1, 0
    if t.op == "zext":
        return boolval(t.args[0])
    if t.op == "ite" and t.args[1].op == "c" and t.args[2].op == "c":
        return t.args[0], t.args[1].args[0], t.args[2].args[0]
    return None


def ne(a, b):
    return not_(eq(a, b))


def lt(a, b):
    """real <"""
    a, b = _coerce(a, b)
    assert a.sort == "R"
    if a is b:
        return FALSE
    if a.op == "c" and b.op == "c":
        return TRUE if a.args[0] < b.args[0] else FALSE
    return mk("<", (a, b), "B")


def le(a, b):
    a, b = _coerce(a, b)
    assert a.sort == "R"
    if a is b:
        return TRUE
    if a.op == "c" and b.op == "c":
        return TRUE if a.args[0] <= b.args[0] else FALSE
    return mk("<=", (a, b), "B")


def gt(a, b): return lt(b, a)
def ge(a, b): return le(b, a)


def icmp(pred, a, b):
    """machine integer comparison; pred in slt sle ult ule eq"""
    a, b = _coerce(a, b)
    w = a.sort
    if pred == "eq":
        return eq(a, b)
    if a is b:
        return TRUE if pred in ("sle", "ule") else FALSE
    if a.op == "c" and b.op == "c":
        x, y = a.args[0], b.args[0]
        if pred[0] == "s":
            x, y = signed(x, w), signed(y, w)
        r = x < y if pred[1:] == "lt" else x <= y
        return TRUE if r else FALSE
    return mk("i" + pred, (a, b), "B")


def ite(c, a, b):
    if isinstance(c, bool):
        c = TRUE if c else FALSE
    if c.op == "c":
        return a if c.args[0] else b
    a, b = _coerce(a, b)
    if a is b:
        return a
    if a.sort == "B":
        return or_(and_(c, a), and_(not_(c), b))
    return mk("ite", (c, a, b), a.sort)


def imk(op, w, *args):
    """machine integer op; folds constants"""
    args = tuple(const(a, w) if not isinstance(a, T) else a for a in args)
    if all(a.op == "c" for a in args):
        v = [a.args[0] for a in args]
        r = ifold(op, args[0].sort, w, v)
        if r is not None:
            return const(r, w)
    return mk(op, args, w)


def cut(t, lo, w):
    """bits [lo, lo+w) of a machine integer"""
    n = t.sort
    if lo == 0 and w == n:
        return t
    if t.op == "c":
        return const((t.args[0] >> lo) & ((1 << w) - 1), w)
    if t.op == "zext":
        x = t.args[0]
        if isinstance(x, T) and isinstance(x.sort, int):
            if lo >= x.sort:
                return const(0, w)
            if lo + w <= x.sort:
                return cut(x, lo, w)
    elif t.op == "trunc":
        return cut(t.args[0], lo, w)
    elif t.op == "and":
        for a, b in (t.args, t.args[::-1]):
            if b.op == "c":
                m = (b.args[0] >> lo) & ((1 << w) - 1)
                if m == (1 << w) - 1:
                    return cut(a, lo, w)
                if m == 0:
                    return const(0, w)
    elif t.op == "or":
        a, b = cut(t.args[0], lo, w), cut(t.args[1], lo, w)
        if a.op == "c" and a.args[0] == 0:
            return b
        if b.op == "c" and b.args[0] == 0:
            return a
    elif t.op in ("shl", "lshr") and t.args[1].op == "c":
        k = t.args[1].args[0]
        if t.op == "shl":
            if lo >= k:
                return cut(t.args[0], lo - k, w)
            if lo + w <= k:
                return const(0, w)
        elif lo + k + w <= n:
            return cut(t.args[0], lo + k, w)
    return imk("trunc", w, imk("lshr", n, t, const(lo, n)) if lo else t)


def ifold(op, wi, w, v):
    if op == "sdiv":
        a, b = signed(v[0], w), signed(v[1], w)
        if b == 0:
            return None
        q = abs(a) // abs(b)
        return -q if (a < 0) != (b < 0) else q
    if op == "srem":
        a, b = signed(v[0], w), signed(v[1], w)
        if b == 0:
            return None
        r = abs(a) % abs(b)
        return -r if a < 0 else r
    if op == "udiv":
        return v[0] // v[1] if v[1] else None
    if op == "urem":
        return v[0] % v[1] if v[1] else None
    if op == "and":
        return v[0] & v[1]
    if op == "or":
        return v[0] | v[1]
    if op == "xor":
        return v[0] ^ v[1]
    if op == "shl":
        return v[0] << v[1] if v[1] < w else None
    if op == "lshr":
        return v[0] >> v[1] if v[1] < w else None
    if op == "ashr":
        return signed(v[0], w) >> v[1] if v[1] < w else None
    if op == "sext":
        return signed(v[0], wi)
    if op == "zext":
        return v[0]
    if op == "trunc":
        return v[0]
    return None


def show(t, depth=6):
    if not isinstance(t, T):
        return str(t)
    if t.op == "var":
        return t.args[0]
    if t.op == "c":
        v = t.args[0]
        if isinstance(v, Fraction) and v.denominator > 10**6:
            return repr(float(v))
        if isinstance(t.sort, int):
            return str(signed(v, t.sort))
        return str(v)
    if depth == 0:
        return "..."
    if t.op == "app":
        return "%s(%s)" % (t.args[0], ",".join(show(a, depth - 1) for a in t.args[1:]))
    if t.op in ("+", "-", "*", "/", "<", "<=", "="):
        return "(%s %s %s)" % (show(t.args[0], depth - 1), t.op, show(t.args[1], depth - 1))
    return "%s(%s)" % (t.op, ",".join(show(a, depth - 1) for a in t.args))


def subterms(ts):
    seen = set()
    st = [t for t in ts]
    while st:
        t = st.pop()
        if t in seen:
            continue
        seen.add(t)
        for a in t.args:
            if isinstance(a, T):
                st.append(a)
    return seen
