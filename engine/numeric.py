"""Numeric evaluation of contract formulas on concrete runs of the natively compiled code, with a running error
bound so that rounding never counts as a violation.  Values: (value, err) for reals, ints, and True/False/None."""
import ctypes
import json
import math
import os
import random
import signal
import struct
import sys
import terms as tm
from terms import T
from dsl import CT

NAN = float('nan')


class Ev:
    def __init__(self, env, eps):
        self.env = env
        self.eps = eps
        self.m = {}

    def ev(self, t):
        m = self.m
        st = [t]
        while st:
            x = st[-1]
            if x in m:
                st.pop()
                continue
            pend = [a for a in x.args if isinstance(a, T) and a not in m]
            if pend:
                st.extend(pend)
                continue
            st.pop()
            try:
                m[x] = self._ev(x)
            except (ZeroDivisionError, ValueError, OverflowError, TypeError):
                m[x] = None
        return m[t]

    def _ev(self, t):
        op, a, m, eps = t.op, t.args, self.m, self.eps
        if op == 'var':
            return self.env[a[0]]
        if t.sort == 'B':
            if op == 'c':
                return a[0]
            if op == 'not':
                x = m[a[0]]
                return None if x is None else not x
            if op == 'and':
                xs = [m[y] for y in a]
                if any(x is False for x in xs):
                    return False
                return None if any(x is None for x in xs) else True
            x, y = m[a[0]], m[a[1]]
            if x is None or y is None:
                return None
            if op in ('=', '<', '<=') and a[0].sort == 'R':
                (p, e), (q, f) = x, y
                if p != p or q != q:
                    return None
                if math.isinf(p) or math.isinf(q):
                    return None
                d, tol = p - q, e + f + 1e-290
                if op == '=':
                    if abs(d) > tol:
                        return False
                    return True if tol <= 1e-280 else None
                if d < -tol:
                    return True
                if d > tol:
                    return False
                if tol <= 1e-280:
                    return d < 0 if op == '<' else d <= 0
                return None
            if op == '=':
                return x == y
            if op in ('islt', 'isle'):
                return x < y if op == 'islt' else x <= y
            if op in ('iult', 'iule'):
                M = (1 << a[0].sort) - 1
                return (x & M) < (y & M) if op == 'iult' else (x & M) <= (y & M)
            return None
        if t.sort == 'R':
            if op == 'c':
                v = float(a[0])
                return (v, 0.0)
            if op == 'app' and a[0] == 'pi':
                return (math.pi, 0.0)
            if op == 'app' and a[0] in ('s2r', 'u2r'):
                x = m[a[1]]
                if a[0] == 'u2r':
                    x &= (1 << a[1].sort) - 1
                return (float(x), 0.0)
            if op == 'ite':
                c = m[a[0]]
                if c is None:
                    return None
                return m[a[1]] if c else m[a[2]]
            xs = [m[y] for y in a if isinstance(y, T)]
            if any(x is None for x in xs):
                return None
            v = [x[0] for x in xs]
            e = [x[1] for x in xs]
            if op == '+' or op == '-':
                r = v[0] + v[1] if op == '+' else v[0] - v[1]
                er = e[0] + e[1] + eps * (abs(v[0]) + abs(v[1]))
            elif op == 'neg':
                return (-v[0], e[0])
            elif op == '*':
                r = v[0] * v[1]
                er = abs(v[0]) * e[1] + abs(v[1]) * e[0] + e[0] * e[1] + eps * abs(r)
            elif op == '/':
                if abs(v[1]) <= 2 * e[1] or v[1] == 0:
                    return None
                r = v[0] / v[1]
                er = (e[0] + abs(r) * e[1]) / (abs(v[1]) - e[1]) + eps * abs(r)
            else:
                return self.fn(a[0], v, e)
            return (r, er)
        # machine ints
        if op == 'c':
            return tm.signed(a[0], t.sort) if t.sort > 1 else a[0]
        xs = [m[y] if isinstance(y, T) else y for y in a]
        if op == 'ite':
            return None if xs[0] is None else (xs[1] if xs[0] else xs[2])
        if any(x is None for x in xs):
            return None
        w = t.sort
        M = (1 << w) - 1
        if op == '+':
            r = xs[0] + xs[1]
        elif op == '-':
            r = xs[0] - xs[1]
        elif op == '*':
            r = xs[0] * xs[1]
        elif op == 'neg':
            r = -xs[0]
        elif op == 'b2i':
            r = int(xs[0])
        elif op == 'app':
            if a[0] in ('r2s', 'r2u'):
                v, e = xs[1]
                if e and math.trunc(v - e) != math.trunc(v + e):
                    return None
                r = int(v)
            else:
                return None
        else:
            r = tm.ifold(op, a[0].sort, w, [x & ((1 << y.sort) - 1) for x, y in zip(xs, a)])
            if r is None:
                return None
        r &= M
        return tm.signed(r, w) if w > 1 else r

    def fn(self, f, v, e):
        eps = self.eps
        x, ex = v[0], e[0]
        if f == 'sqrt':
            if x < -ex:
                return None
            x = max(x, 0.0)
            r = math.sqrt(x)
            er = ex / r if r > 0 and ex / r < math.sqrt(ex) else math.sqrt(ex)
            return (r, er + eps * r)
        if f == 'abs':
            return (abs(x), ex)
        if f == 'sin':
            return (math.sin(x), min(ex + eps * (1 + abs(x)), 2))
        if f == 'cos':
            return (math.cos(x), min(ex + eps * (1 + abs(x)), 2))
        if f == 'tan':
            r = math.tan(x)
            return (r, (1 + r * r) * (ex + eps * (1 + abs(x))) * 2)
        if f in ('acos', 'asin'):
            if abs(x) > 1 + ex + 1e-12:
                return None
            x = max(-1.0, min(1.0, x))
            r = math.acos(x) if f == 'acos' else math.asin(x)
            s = math.sqrt(max(0.0, 1 - x * x))
            tot = ex + eps
            er = tot / s if s > 0 and tot / s < math.sqrt(tot) else math.sqrt(2 * tot)
            return (r, er + eps)
        if f == 'atan':
            return (math.atan(x), ex + eps)
        if f == 'atan2':
            y, xx = v
            r2 = math.hypot(y, xx)
            if r2 <= (e[0] + e[1]) * 4:
                return None
            er = (e[0] + e[1]) / r2 + eps * 4
            r = math.atan2(y, xx)
            if xx < 0 and abs(y) <= e[0] + eps:
                return None      # on the branch cut
            return (r, er)
        if f == 'exp':
            r = math.exp(x)
            return (r, r * (ex + eps * (1 + abs(x))) * 2)
        if f == 'log':
            if x <= 2 * ex:
                return None
            return (math.log(x), ex / (x - ex) + eps)
        if f == 'fmod':
            r = math.fmod(v[0], v[1])
            er = e[0] + abs(v[0] / v[1]) * e[1] + eps * abs(v[0])
            if r - er < 0 < r + er and v[0] != 0 or abs(r) + er >= abs(v[1]):
                return None
            return (r, er)
        if f == 'pow':
            r = math.pow(v[0], v[1])
            return (r, abs(r) * eps * 10 + abs(r) * (e[0] / abs(v[0]) * abs(v[1]) + e[1] * abs(math.log(abs(v[0])))))
        if f == 'rnd32':
            try:
                r = struct.unpack('f', struct.pack('f', x))[0]
            except OverflowError:
                return None
            return (r, ex + abs(x) * 1e-7)
        return None


# ------------------------------------------------------------------ input generation

SPECIAL = [0.0, 1.0, -1.0, 2.0, -2.0, 0.5, -0.5, 3.0, -3.0, 0.25, 1.5, 10.0, -10.0]


def f32(x):
    return struct.unpack('f', struct.pack('f', x))[0]


def gen_real(rng, p):
    r = rng.random()
    if p.values:
        return float(rng.choice(p.values))
    if p.lo is not None:
        lo, hi = p.lo, p.hi
        if r < 0.15:
            c = [s for s in SPECIAL if lo <= s <= hi] + [lo, hi]
            return rng.choice(c)
        if r < 0.3:
            k = rng.randint(-8, 8) * math.pi / 4
            if lo <= k <= hi:
                return k
        return rng.uniform(lo, hi)
    if r < 0.3:
        return rng.choice(SPECIAL)
    if r < 0.9:
        return rng.uniform(-4, 4)
    return rng.uniform(-1, 1) * 10 ** rng.randint(-3, 3)


def norm(v):
    n = math.sqrt(sum(x * x for x in v))
    return [x / n for x in v] if n > 1e-6 else None


def rand_unit(rng, n):
    if rng.random() < 0.25:
        v = [0.0] * n
        v[rng.randrange(n)] = rng.choice([1.0, -1.0])
        if rng.random() < 0.5 and n > 1:
            v[rng.randrange(n)] = rng.choice([1.0, -1.0])
        v = norm(v)
        if v:
            return v
    while True:
        v = norm([rng.gauss(0, 1) for _ in range(n)])
        if v:
            return v


def quat_rot(q):
    w, x, y, z = q
    return [[1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)],
            [2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)],
            [2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)]]


def gen_param(rng, p):
    g = p.gen
    n = p.n
    if callable(g):
        return list(g(rng))
    isint = CT[p.ct][1] != 'R'
    if g == 'ties':            # few distinct values, so that equal elements are common
        return [rng.choice((0, 1, -1)) if isint else rng.choice((0.0, 1.0, -1.0, -0.0, 2.5)) for _ in range(n)]
    if isint:
        out = []
        for _ in range(n):
            if p.values:
                out.append(rng.choice(p.values))
            elif p.lo is not None:
                out.append(rng.randint(p.lo, p.hi))
            else:
                out.append(rng.randint(-9, 9) if p.ct not in ('uint', 'ulong', 'uchar', 'bool') else
                           rng.randint(0, 9) if p.ct != 'bool' else rng.randint(0, 1))
        return out
    if g == 'unit':
        v = rand_unit(rng, n)
    elif g == 'rot3':          # 3x3 rotation acting on columns, row-major
        v = [x for r in quat_rot(rand_unit(rng, 4)) for x in r]
    elif g == 'rot2':
        a = rng.uniform(-7, 7) if rng.random() < 0.7 else rng.randint(-4, 4) * math.pi / 2
        v = [math.cos(a), -math.sin(a), math.sin(a), math.cos(a)]
    elif g == 'pos':
        v = [abs(gen_real(rng, p)) + 1e-3 for _ in range(n)]
    elif g == 'dense':
        v = [rng.uniform(-3, 3) for _ in range(n)]
    elif g == 'angle':
        v = [rng.uniform(-7, 7) if rng.random() < 0.7 else rng.randint(-4, 4) * math.pi / 4 for _ in range(n)]
    else:
        r = rng.random()
        if r < 0.15:
            v = [float(rng.choice([0, 1, -1, 2])) for _ in range(n)]
        elif r < 0.25:
            x = gen_real(rng, p)
            v = [x] * n
        elif r < 0.35 and p.shape and len(p.shape) == 2:
            x = gen_real(rng, p)
            v = [x if (k // p.shape[1]) == (k % p.shape[1]) else 0.0 for k in range(n)]
        else:
            v = [gen_real(rng, p) for _ in range(n)]
    if p.ct == 'float':
        v = [f32(x) for x in v]
    return v


CTY = {'double': ctypes.c_double, 'float': ctypes.c_float, 'int': ctypes.c_int32, 'long': ctypes.c_int64,
       'uint': ctypes.c_uint32, 'ulong': ctypes.c_uint64, 'bool': ctypes.c_uint8, 'uchar': ctypes.c_uint8,
       'short': ctypes.c_int16}
POISON = {'double': 1.2345678e77, 'float': f32(1.2345678e30), 'int': 1987654321, 'long': 1987654321987, 'uint': 1987654321,
          'ulong': 1987654321987, 'bool': 77, 'uchar': 77, 'short': 12345}


class Native:
    def __init__(self, so, case):
        self.lib = ctypes.CDLL(so)
        self.case = case
        self.fn = getattr(self.lib, 'rc_' + case.name)
        self.fn.restype = ctypes.c_int
        self.eps = 1e-10
        for p in case.params:
            if p.ct == 'float':
                self.eps = 2e-5
        if case.ret == 'float' or case.opts.get('float'):
            self.eps = 2e-5
        self.eps = case.opts.get('eps', self.eps)
        self.I, self.flat = case.inputs()
        self.O = case.out_ns(lambda p, k: tm.var(('out!ret' if p is None else 'out!%s_%d' % (p.name, k)),
                                                 CT[case.ret if p is None else p.ct][1]))
        self.requires = list(case.requires(self.I))
        self.ensures = list(case.ensures(self.I, self.O))
        self.throws = list(case.throws(self.I)) if case.throws else []

    def envval(self, ct, v):
        if CT[ct][1] == 'R':
            return (float(v), 0.0)
        w = CT[ct][1]
        v = int(v) & ((1 << w) - 1)
        return tm.signed(v, w)

    def call(self, ins):
        """ins: dict param name -> list of values; returns (rc, exc, outs)"""
        c = self.case
        bufs, ptrs = [], (ctypes.c_void_p * (len(c.params) + 1))()
        for k, p in enumerate(c.params):
            ty = CTY[p.ct]
            n = max(p.n, 1)
            b = (ty * n)()
            if p.mode == 'out':
                for j in range(n):
                    b[j] = POISON[p.ct]
            else:
                for j, v in enumerate(ins[p.name]):
                    b[j] = v if CT[p.ct][1] == 'R' else int(v)
            bufs.append(b)
            ptrs[k] = ctypes.cast(b, ctypes.c_void_p)
        if c.ret:
            b = (CTY[c.ret] * 1)()
            bufs.append(b)
            ptrs[len(c.params)] = ctypes.cast(b, ctypes.c_void_p)
        err = ctypes.create_string_buffer(256)
        rc = self.fn(ptrs, err)
        outs = {}
        frame = []
        for k, p in enumerate(c.params):
            if p.mode in ('out', 'inout'):
                outs[p.name] = list(bufs[k])
            elif p.shape is not None:
                ty = CTY[p.ct]
                if [ty(v if CT[p.ct][1] == 'R' else int(v)).value for v in ins[p.name]] != list(bufs[k])[:p.n]:
                    frame.append(p.name)
        if c.ret:
            outs['ret'] = list(bufs[-1])
        return rc, err.value.decode(), outs, frame

    def admissible(self, ins):
        env = {}
        for nm, v, p in self.flat:
            j = 0 if p.shape is None else int(nm.rsplit('_', 1)[1])
            env[nm] = self.envval(p.ct, ins[p.name][j])
        ev = Ev(env, self.eps)
        for r in self.requires:
            x = ev.ev(r)
            if x is False:
                return None
            if x is None and not self.eqlike(r):
                return None
        return env

    def eqlike(self, r):
        if r.op == 'and':
            return all(self.eqlike(x) for x in r.args)
        return r.op == '='

    def check(self, ins, env=None):
        """None if not admissible; else list of (label, detail) of violated clauses"""
        if env is None:
            env = self.admissible(ins)
            if env is None:
                return None
        rc, exc, outs, frame = self.call(ins)
        bad = []
        ev = Ev(env, self.eps)
        expect = None
        unsure = False
        for ty, cond in self.throws:
            x = ev.ev(cond)
            if x:
                expect = ty
                break
            if x is None:
                unsure = True
        if frame:
            bad.append(('frame', 'input %s modified' % ','.join(frame)))
        if rc:
            if not unsure and (expect is None or not match_exc(exc, expect)):
                bad.append(('throws', 'unexpected exception %s (expected %s)' % (exc, expect)))
            return bad
        if expect is not None:
            bad.append(('throws', 'expected exception %s was not thrown' % expect))
            return bad
        e2 = dict(env)
        mags = [abs(v[0]) for v in env.values() if isinstance(v, tuple)] or [0.0]
        for p in self.case.params:
            if p.mode in ('out', 'inout'):
                # cancellation: an element carries the rounding of the largest element of its array
                big = max([abs(v) for v in outs[p.name] if abs(v) < 1e300] or [0]) if CT[p.ct][1] == 'R' else 0
                for k, v in enumerate(outs[p.name]):
                    self.setout(e2, 'out!%s_%d' % (p.name, k), p.ct, v, big)
        if self.case.ret:
            self.setout(e2, 'out!ret', self.case.ret, outs['ret'][0])
        for attempt in (0, 1):
            ev = Ev(e2, self.eps)
            bad = []
            for lab, f in self.ensures:
                if lab.startswith('lemma:'):      # exact identity, meaningless under rounding
                    continue
                if ev.ev(f) is False:
                    bad.append((lab, {'observed': {k: v for k, v in outs.items()}}))
            if not bad or frame or attempt:
                break
            self.widen(e2, ins, outs)             # ill-conditioned input: allow what rounding of the inputs changes
        if frame:
            bad.append(('frame', 'input %s modified' % ','.join(frame)))
        # NaN results
        if not bad:
            for p in self.case.params:
                if p.mode in ('out', 'inout') and CT[p.ct][1] == 'R':
                    if any(v != v for v in outs[p.name]) and not self.case.opts.get('nan_ok'):
                        bad.append(('finite', {'observed': outs[p.name]}))
            if self.case.ret and CT[self.case.ret][1] == 'R' and outs['ret'][0] != outs['ret'][0] \
                    and not self.case.opts.get('nan_ok'):
                bad.append(('finite', {'observed': outs['ret']}))
        return bad

    def widen(self, env, ins, outs):
        """enlarges the error bounds of the outputs by the spread observed when the inputs change by a few units of rounding"""
        rng = random.Random(7)
        for trial in range(6):
            pert = {}
            for p in self.case.params:
                if p.mode == 'out':
                    continue
                v = list(ins[p.name])
                if CT[p.ct][1] == 'R':
                    u = 2.4e-7 if p.ct == 'float' else 4.5e-16
                    v = [x * (1 + rng.choice((-1, 1, 0.5, -0.5)) * u) for x in v]
                    if p.ct == 'float':
                        v = [f32(x) for x in v]
                pert[p.name] = v
            rc, _, o2, _ = self.call(pert)
            if rc:
                continue
            for nm, vs in o2.items():
                for k, v in enumerate(vs):
                    key = 'out!ret' if nm == 'ret' else 'out!%s_%d' % (nm, k)
                    if isinstance(env.get(key), tuple) and v == v and outs[nm][k] == outs[nm][k]:
                        x, e = env[key]
                        env[key] = (x, max(e, 50 * abs(v - x)))

    def setout(self, env, nm, ct, v, big=0):
        if CT[ct][1] == 'R':
            env[nm] = (float(v), self.eps * max(abs(v), big))
        else:
            env[nm] = self.envval(ct, v)

    def sample(self, rng):
        ins = {p.name: gen_param(rng, p) for p in self.case.params if p.mode != 'out'}
        arr = [p for p in self.case.params if p.mode != 'out' and p.shape is not None and not callable(p.gen)]
        if len(arr) > 1 and rng.random() < 0.3:
            # operands that are equal, or differ in a single element
            a, b = rng.sample(arr, 2)
            if a.ct == b.ct and a.n == b.n and a.n > 1 and (a.gen == b.gen):
                v = list(ins[a.name])
                if a.shape != b.shape or rng.random() < 0.25:
                    m = a.shape[0] if len(a.shape) == 2 else int(a.n ** 0.5)
                    if m * (a.n // m) == a.n:      # the same matrix stored the other way round
                        v = [v[j * (a.n // m) + i] for i in range(a.n // m) for j in range(m)]
                r = rng.random()
                if r < 0.7 and a.gen != 'unit' and a.gen != 'rot3' and a.gen != 'rot2':
                    k = a.n - 1 if r < 0.1 else rng.randrange(a.n)
                    v[k] = ins[b.name][k]
                ins[b.name] = v
        fill = self.case.opts.get('fill')     # inputs determined by other inputs (so that sampled inputs are admissible)
        if fill:
            I = self.case.inputs()[0]
            env = {}
            for nm, v, p in self.flat:
                env[nm] = self.envval(p.ct, ins[p.name][0 if p.shape is None else int(nm.rsplit('_', 1)[1])])
            ev = Ev(env, self.eps)
            for nm, ts in fill(I).items():
                for k, t in enumerate(ts):
                    if t is not None:
                        x = ev.ev(t)
                        if x is not None:
                            ins[nm][k] = x[0]
        return ins


def match_exc(name, expect):
    """name: typeid name; expect: '@_ZTI...' or tuple of them"""
    if isinstance(expect, (tuple, list)):
        return any(match_exc(name, e) for e in expect)
    return expect.replace('@_ZTI', '') == name or expect == '*'


def in_child(fn, timeout):
    """run fn() in a forked child; -> ('ok', result) | ('crash', signal) | ('timeout', None)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(0)
            try:
                devnull = os.open('/dev/null', os.O_WRONLY)
                os.dup2(devnull, 1)
                os.dup2(devnull, 2)
            except OSError:
                pass
            res = fn(w)
            os.write(w, b'R' + json.dumps(res).encode() + b'\n')
        except BaseException as e:
            try:
                os.write(w, b'X' + repr(e).encode() + b'\n')
            except OSError:
                pass
            code = 3
        os._exit(code)
    os.close(w)
    import select
    import time
    end = time.time() + timeout
    buf = b''
    timed = False
    while True:
        left = end - time.time()
        if left <= 0:
            timed = True
            os.kill(pid, 9)
            break
        rr, _, _ = select.select([r], [], [], left)
        if not rr:
            continue
        d = os.read(r, 1 << 16)
        if not d:
            break
        buf += d
    os.close(r)
    _, st = os.waitpid(pid, 0)
    lines = buf.decode(errors='replace').split('\n')
    last_in = None
    res = None
    for l in lines:
        if l.startswith('I'):
            last_in = l[1:]
        elif l.startswith('R'):
            res = json.loads(l[1:])
        elif l.startswith('X'):
            return 'error', l[1:], last_in
    if timed:
        return 'timeout', None, last_in
    if res is None:
        return 'crash', os.WTERMSIG(st) if os.WIFSIGNALED(st) else st, last_in
    return 'ok', res, last_in


def search(so, case, seed, budget, tries=4000, seeds=(), want=None):
    """look for an input on which the natively compiled code violates the contract"""
    def run(w):
        import time
        nat = Native(so, case)
        rng = random.Random(seed)
        t0 = time.time()
        n = adm = 0
        last = 0

        def one(ins):
            env = nat.admissible(ins)
            if env is None:
                return None
            # announce the input so that a crash can be attributed
            os.write(w, b'I' + json.dumps(ins).encode() + b'\n')
            return nat.check(ins, env)
        for ins in seeds:
            b = one(ins)
            if b is not None:
                adm += 1
                if b:
                    return {'bad': b, 'ins': ins, 'n': n, 'adm': adm}
        while (n < tries or (adm < min(tries, 4) and n < 60 * tries)) and time.time() - t0 < budget:
            n += 1
            ins = nat.sample(rng)
            b = one(ins)
            if b is None:
                continue
            adm += 1
            if b:
                return {'bad': b, 'ins': ins, 'n': n, 'adm': adm}
        return {'bad': None, 'n': n, 'adm': adm}
    kind, res, last = in_child(run, budget + 20)
    if kind == 'ok':
        return res
    if kind == 'crash':
        try:
            ins = json.loads(last) if last else None
        except ValueError:
            ins = None
        return {'bad': [('crash', 'native code crashed (signal %s)' % res)], 'ins': ins, 'n': 0, 'adm': 1}
    return {'bad': None, 'n': 0, 'adm': 0, 'note': '%s %s' % (kind, res)}
