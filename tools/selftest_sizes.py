"""Negative tests of the unbounded-size engine: every case states something false (or true); prints what the engine says.
Run: python3-vt tools/selftest_sizes.py.  Exits 1 when a false statement is proved."""
import os
import sys
import tempfile
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [R, R + '/engine']
import driver
from contracts.common import *
from contracts.sized import *
from dsl import Prop

A = [P('a', 'double', 'n', 'inout'), P('o', 'double', 'n', 'out'), S_('n', lo=1), P('s', 'double', 1, 'out')]
lambda_ = lambda f: Prop('lazy', f)
T_ = lambda f: (lambda I, O: each('x', I.n, lambda k: f(I, O, k)))
CASES = [
    # body, ensures, true?
    ('for (int i=0;i<n;++i) o[i] = a[i];', T_(lambda I, O, k: eq(O.o[k], I.a[k])), True),
    ('for (int i=0;i<n;++i) o[i] = a[i];', T_(lambda I, O, k: eq(O.o[k], 2 * I.a[k])), False),
    ('for (int i=1;i<n;++i) o[i] = a[i]; o[0] = 0;', T_(lambda I, O, k: eq(O.o[k], I.a[k])), False),
    ('for (int i=0;i<n-1;++i) o[i] = a[i];', T_(lambda I, O, k: eq(O.o[k], I.a[k])), False),
    ('for (int i=0;i<n;++i) o[i] = a[0];', T_(lambda I, O, k: eq(O.o[k], I.a[k])), False),
    ('for (int i=0;i<n;++i) o[n-1-i] = a[i];', T_(lambda I, O, k: eq(O.o[k], I.a[k])), False),
    ('for (int i=0;i<n;++i) o[n-1-i] = a[i];', T_(lambda I, O, k: eq(O.o[I.n - 1 - k], I.a[k])), True),
    ('for (int i=0;i<n;++i) o[i] = a[n-1-i];', T_(lambda I, O, k: eq(O.o[k], I.a[k])), False),
    # loop-carried dependence through memory
    ('for (int i=1;i<n;++i) a[i] = a[i-1]; for (int i=0;i<n;++i) o[i] = a[i];', T_(lambda I, O, k: pick(ieq(k, 0), lambda: eq(O.o[k], I.a[k]), lambda: eq(O.o[k], I.a[k - 1]))), False),
    ('for (int i=0;i+1<n;++i) a[i] = a[i+1]; for (int i=0;i<n;++i) o[i] = a[i];', T_(lambda I, O, k: pick(ieq(k, I.n - 1), lambda: eq(O.o[k], I.a[k]), lambda: eq(O.o[k], I.a[k + 1]))), True),
    ('for (int i=0;i<n;++i) a[i] = 2*a[i]; for (int i=0;i<n;++i) o[i] = a[i];', T_(lambda I, O, k: eq(O.o[k], 2 * I.a[k])), True),
    ('for (int i=0;i<n;++i) { a[i] = 2*a[i]; a[i] = a[i] + 1; } for (int i=0;i<n;++i) o[i] = a[i];', T_(lambda I, O, k: eq(O.o[k], 2 * I.a[k] + 1)), True),
    ('for (int i=0;i<n;++i) { o[i] = a[i]; o[0] = 0; }', T_(lambda I, O, k: eq(O.o[k], I.a[k])), False),
    ('s[0] = 0; switch (n) { case 2: s[0] = a[0]; break; case 3: s[0] = a[1]; break; case 7: s[0] = a[2]; break; default: ; }', lambda I, O: [('s', eq(O.s[0], const(0)))], False),
    ('s[0] = 0; switch (n) { case 2: s[0] = a[0]; break; case 3: s[0] = a[1]; break; case 7: s[0] = a[2]; break; default: ; }', lambda I, O: [('s', when(ieq(I.n, 7), lambda_(lambda: eq(O.s[0], I.a[2]))))], True),
    ('for (int i=0;i<n;++i) switch (i) { case 0: o[i] = 1; break; default: o[i] = 2; }', T_(lambda I, O, k: eq(O.o[k], const(2))), False),
    # sums
    ('double t = 0; for (int i=0;i<n;++i) t += a[i]; s[0] = t;', lambda I, O: [('s', eq(O.s[0], total(I.n, lambda k: I.a[k])))], True),
    ('double t = 0; for (int i=1;i<n;++i) t += a[i]; s[0] = t;', lambda I, O: [('s', eq(O.s[0], total(I.n, lambda k: I.a[k])))], False),
    ('double t = 0; for (int i=0;i<n;++i) t += a[i]; s[0] = t;', lambda I, O: [('s', eq(O.s[0], total(I.n - 1, lambda k: I.a[k])))], False),
    ('double t = 1; for (int i=0;i<n;++i) t += a[i]; s[0] = t;', lambda I, O: [('s', eq(O.s[0], total(I.n, lambda k: I.a[k])))], False),
    ('double t = 0; for (int i=0;i<n;++i) t += t + a[i]; s[0] = t;', lambda I, O: [('s', eq(O.s[0], total(I.n, lambda k: I.a[k])))], False),
    ('double t = 0; for (int i=0;i<n;++i) { t += a[i]; o[i] = t; } s[0] = t;', T_(lambda I, O, k: eq(O.o[k], I.a[k])), False),
    ('double t = 0, u = 0; for (int i=0;i<n;++i) { u += t; t += a[i]; } s[0] = u;', lambda I, O: [('s', eq(O.s[0], total(I.n, lambda k: I.a[k])))], False),
    # searches
    ('int r = 1; for (int i=0;i<n;++i) if (a[i] < 0) { r = 0; break; } s[0] = r;', lambda I, O: [('s', disj([conj([eq(O.s[0], const(1)), forall(I.n, lambda k: ge(I.a[k], const(0)))]),
     conj([eq(O.s[0], const(0)), exists(I.n, lambda k: lt(I.a[k], const(0)))])]))], True),
    ('int r = 1; for (int i=0;i<n;++i) if (a[i] < 0) { r = 0; break; } s[0] = r;', lambda I, O: [('s', disj([conj([eq(O.s[0], const(1)), forall(I.n, lambda k: gt(I.a[k], const(0)))]),
     conj([eq(O.s[0], const(0)), exists(I.n, lambda k: lt(I.a[k], const(0)))])]))], False),
    ('int r = 1; for (int i=0;i<n-1;++i) if (a[i] < 0) { r = 0; break; } s[0] = r;', lambda I, O: [('s', disj([conj([eq(O.s[0], const(1)), forall(I.n, lambda k: ge(I.a[k], const(0)))]),
     conj([eq(O.s[0], const(0)), exists(I.n, lambda k: lt(I.a[k], const(0)))])]))], False),
    ('int r = 1; for (int i=0;i<n;++i) { if (a[i] < 0) r = 0; } s[0] = r;', lambda I, O: [('s', disj([conj([eq(O.s[0], const(1)), forall(I.n, lambda k: ge(I.a[k], const(0)))]),
     conj([eq(O.s[0], const(0)), exists(I.n, lambda k: lt(I.a[k], const(0)))])]))], None),
    # out of bounds
    ('for (int i=0;i<=n;++i) o[i] = 0;', T_(lambda I, O, k: eq(O.o[k], const(0))), False),
    ('o[n/1] = 0; for (int i=0;i<n;++i) o[i] = 0;', T_(lambda I, O, k: eq(O.o[k], const(0))), False),
    ('double* p = new double[n]; for (int i=0;i<n;++i) p[i] = a[i]; for (int i=0;i<n;++i) o[i] = p[i];', T_(lambda I, O, k: eq(O.o[k], I.a[k])), False),
    ('double* p = new double[n]; for (int i=0;i<n;++i) p[i] = a[i]; for (int i=0;i<n;++i) o[i] = p[i]; delete[] p;', T_(lambda I, O, k: eq(O.o[k], I.a[k])), True),
    ('double* p = new double[n]; for (int i=1;i<n;++i) p[i] = a[i]; for (int i=0;i<n;++i) o[i] = p[i]; delete[] p;', T_(lambda I, O, k: eq(O.o[k], I.a[k])), False),
    ('double* p = new double[n]; for (int i=0;i<n;++i) p[i] = a[i]; delete[] p; for (int i=0;i<n;++i) o[i] = p[i];', T_(lambda I, O, k: eq(O.o[k], I.a[k])), False),
    # unrolled with remainder
    ('int i = 0; for (; i + 4 <= n; i += 4) { o[i] = a[i]; o[i+1] = a[i+1]; o[i+2] = a[i+2]; o[i+3] = a[i+3]; } for (; i < n; ++i) o[i] = a[i];', T_(lambda I, O, k: eq(O.o[k], I.a[k])), None),
    ('int i = 0; for (; i + 4 <= n; i += 4) { o[i] = a[i]; o[i+1] = a[i+1]; o[i+2] = a[i+2]; o[i+3] = a[i+2]; } for (; i < n; ++i) o[i] = a[i];', T_(lambda I, O, k: eq(O.o[k], I.a[k])), False),
    # conditional stores
    ('for (int i=0;i<n;++i) if (a[i] > 0) o[i] = a[i]; else o[i] = 0;', T_(lambda I, O, k: and_(ge(O.o[k], const(0)), ge(O.o[k], I.a[k]))), True),
    ('for (int i=0;i<n;++i) { o[i] = 1; if (a[i] > 0) o[i] = a[i]; }', T_(lambda I, O, k: eq(O.o[k], const(1))), False),
    ('for (int i=0;i<n;++i) for (int j=0;j<n;++j) o[j] = a[i];', T_(lambda I, O, k: eq(O.o[k], I.a[k])), False),
    ('for (int i=0;i<n;++i) for (int j=i;j<n;++j) o[j] = a[i];', T_(lambda I, O, k: eq(O.o[k], I.a[k])), None),
    ('for (int i=0;i<n/2;++i) { double t = a[i]; a[i] = a[n-1-i]; a[n-1-i] = t; } for (int i=0;i<n;++i) o[i] = a[i];', T_(lambda I, O, k: eq(O.o[k], I.a[k])), False),
    ('int c = 0; for (int i=0;i<n;++i) { c = i; o[i] = a[i]; } o[c] = 0;', T_(lambda I, O, k: eq(O.o[k], I.a[k])), False),
    ('int c = 0; for (int i=0;i<n;++i) { o[c] = a[i]; c = i + 1; }', T_(lambda I, O, k: eq(O.o[k], 2 * I.a[k])), False),
    ('int c = 0; for (int i=0;i<n;++i) { o[c] = a[i]; if (a[i] > 0) c = i; } for (int i=0;i<n;++i) o[i] = a[i];', T_(lambda I, O, k: eq(O.o[k], I.a[k])), None),
    ('volatile int z = 0; for (int i=0;i<n;++i) { o[i] = a[i]; z = i; } o[z] = a[z];', T_(lambda I, O, k: eq(O.o[k], 3 * I.a[k])), False),
    ('static double g; g = 0; for (int i=0;i<n;++i) { o[i] = a[i] + g; g = a[i]; }', T_(lambda I, O, k: eq(O.o[k], I.a[k])), False),
]
bad = 0
d = tempfile.mkdtemp()
for i, (b, e, want) in enumerate(CASES):
    c = SizeCase('st%d' % i, b, [P(p.name, p.ct, p.shape, p.mode, p.gen, p.lo, p.hi) for p in A], e)
    u = Unit('st%d' % i, [c], pre=PRE)
    r = driver.extract((u, d))
    cr = driver.CaseRun(u, c, '%s/st%d.ll' % (d, i), None, 1, 'quick')
    try:
        cr.run()
        got = not cr.failed
        msg = '' if got else cr.failed[0]['label'][:60]
    except Exception as x:
        got, msg = None, repr(x)[:90]
    flag = ''
    if want is False and got or want and not got:
        flag = 'WRONG'
        bad += want is False
    print('%-5s want %-5s got %-5s %s  %s' % (flag, want, got, b[:70], msg))
sys.exit(1 if bad else 0)
