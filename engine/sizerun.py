"""Discharges contract units with symbolic sizes (sizes.py) and runs them natively at sampled sizes."""
import json
import os
import random
import re
import terms as tm
import symex
import sizes as sz
import numeric
from terms import T
from dsl import CT, NS, Prop, P
from sizes import N, ge0, facts, poly, term, nsub, P_, nvar


class Arr:
    """array parameter with symbolic dimensions, indexed by terms"""

    def __init__(self, dims, get, pre=()):
        self.dims, self.get, self.pre = dims, get, pre

    def __getitem__(self, i):
        p = poly(i)
        if p is None:
            raise TypeError('index')
        idx = self.pre + (p,)
        if len(idx) < len(self.dims):
            return Arr(self.dims, self.get, idx)
        e = idx[0]
        for d, x in zip(self.dims[1:], idx[1:]):
            e = sz.nadd(sz.nmul(e, d), x)
        return self.get(e)


class SizeRun:
    def __init__(self, cr, module):
        self.cr, self.m = cr, module
        self.case = cr.case
        self.nf = 0
        self.sg = {}

    def run(self):
        cr, case = self.cr, self.case
        ex = sz.SizeExec(self.m, cr.solver, maxpaths=300, maxsteps=400000)
        ex.nofloat = not any(p.ct == 'float' for p in case.params)
        self.ex = ex
        cr.ex = ex
        st = symex.State()
        args, I = [], NS()
        dims = {}
        for p in case.sizes():
            dims[p.name] = nvar('#' + p.name)
            st.assume(ge0(nsub(dims[p.name], P_(p.lo or 0))))
        cells = {}
        for p in case.params:
            size, sort, _ = CT[p.ct]
            if p.gen == 'size':
                args.append(dims[p.name])
                I[p.name] = term(dims[p.name])
                continue
            if p.shape is None:
                v = tm.var(p.name, sort)
                args.append(tm.imk('trunc', 1, v) if p.ct == 'bool' else v)
                I[p.name] = v
                continue
            if not any(not isinstance(d, int) for d in p.shape):
                o = st.new(size * p.n, 'arg', p.name)
                if p.mode != 'out':
                    vs = []
                    for k, nm in enumerate(p.elem_names()):
                        v = tm.var(nm, sort)
                        vs.append(v)
                        o.cells[k * size] = (size, v)
                    I[p.name] = p.nest(vs)
                args.append(symex.Ptr(o.id, 0))
                cells[p.name] = o.id
                continue
            ds = [P_(d) if isinstance(d, int) else dims[d] if isinstance(d, str) else poly(d({k: term(v) for k, v in dims.items()})) for d in p.shape]
            n = ds[0]
            for d in ds[1:]:
                n = sz.nmul(n, d)
            o = ex.new_array(st, sz.nscale(n, size), 'arg', p.name, None if p.mode == 'out' else p.name, size)
            o.esort = sort
            o.const = p.mode == 'in'
            cells[p.name] = o.id
            args.append(symex.Ptr(o.id, 0))
            if p.mode != 'out':
                I[p.name] = Arr(ds, lambda e, nm=p.name, so=sort: sz.el(nm, e, so))
            p.symdims = ds
        self.I, self.cells = I, cells
        for r in case.requires(I):
            if isinstance(r, Prop):
                raise symex.Unsupported('quantified precondition')
            st.assume(r)
        outs = ex.run('@' + case.name, st, args)
        throws = list(case.throws(I)) if case.throws else []
        n = 0
        for kind, goal, pc, msg, fa in ex.allobls:
            s = symex.State()
            s.ghost['forall'] = fa
            for c in pc:
                s.assume(c)
            self.check('%s: %s' % (kind, msg), goal, s)
        for oc in outs:
            if oc.kind == 'stop':
                continue
            n += 1
            s = oc.state
            if oc.kind == 'error':
                if oc.what[0] != 'infeasible':
                    self.fail('safety: %s' % oc.what[1], s)
                continue
            if oc.kind == 'throw':
                conds = [c for t, c in throws if self.matches(oc.what, t)]
                self.check('throws %s only when specified' % oc.what, tm.or_(*conds) if conds else tm.FALSE, s)
                self.heap(s)
                continue
            for t, c in throws:
                self.check('throws %s when required' % (t,), tm.not_(c), s)
            self.heap(s)
            O = NS()
            for p in case.params:
                if p.mode not in ('out', 'inout') or p.shape is None:
                    continue
                oid = cells[p.name]
                if any(not isinstance(d, int) for d in p.shape):
                    O[p.name] = Arr(p.symdims, lambda e, oid=oid, so=CT[p.ct][1]: self.read(oid, e, so))
                else:
                    size, sort, _ = CT[p.ct]
                    vals = []
                    for k in range(p.n):
                        c = s.mem[oid].cells.get(k * size)
                        vals.append(self.value(c[1] if c and c[0] == size else symex.UNDEF, sort, '%s_%d' % (p.name, k)))
                    O[p.name] = p.nest(vals)
            if case.ret:
                v = oc.ret
                if case.ret == 'bool' and isinstance(v, T):
                    b = ex.tobool(v)
                    v = tm.const(1 if b.args[0] else 0, 8) if b.op == 'c' else tm.imk('zext', 8, ex.frombool(b))
                O['ret'] = self.value(v, CT[case.ret][1], 'ret')
            self.cur = s
            for lab, g in case.ensures(I, O):
                if not lab.startswith('test:'):
                    self.check('ensures ' + lab, g, s)
        cr.paths = n
        if not n:
            raise symex.Unsupported('no complete path')
        return cr

    def hints(self):
        """sizes that lead to the obligations that were not discharged"""
        import time
        out = []
        t0 = time.time()
        names = [p.name for p in self.case.sizes()]
        for pc, q in self.ex.suspects[:12]:
            if time.time() - t0 > 12:
                break
            try:
                m = sz.Facts([c for c in pc if sz.isindex(c)]).small(q, names)
            except Exception:
                continue
            if m:
                c = {n: max(m.get(n, 1), p.lo or 0) for n, p in zip(names, self.case.sizes())}
                if c not in out:
                    out.append(c)
        return out

    def matches(self, ty, t):
        if isinstance(t, (tuple, list)):
            return any(self.matches(ty, x) for x in t)
        return t == '*' or ty == t or self.ex.derives(ty, t)

    def value(self, v, sort, nm):
        if isinstance(v, N):
            return term(v)
        if isinstance(v, int):
            return tm.const(tm.signed(v, sort) if sort != 'R' and sort != 8 else v)
        if isinstance(v, T):
            if v.op == 'c' and v.sort not in ('R', 'B'):
                return tm.const(tm.signed(v.args[0], v.sort))
            return v
        return tm.var('undef!' + nm)

    def read(self, oid, e, so):
        v = self.ex.read(self.cur, self.cur.mem[oid], e, so)
        if v is symex.UNDEF:
            self.nf += 1
            return tm.var('undef!%d' % self.nf, so)
        return v

    def heap(self, s):
        cr = self.cr
        cr.obls += 1
        if any(o.kind == 'heap' and o.alive for o in s.mem.values()):
            cr.obls -= 1
            self.fail('heap: allocation not released', s)
        else:
            cr.done += 1
            cr.backends['syntactic'] = cr.backends.get('syntactic', 0) + 1

    def fail(self, label, s, info='', goal=None):
        if facts(s.pc).inconsistent():
            return
        pc = list(s.pc)
        if goal is not None and isinstance(goal, T) and sz.isindex(goal):
            pc.append(tm.not_(goal))
        self.ex.suspects.append((pc, P_(-1)))
        self.cr.obls += 1
        self.cr.failed.append({'label': label, 'status': 'unknown', 'backend': 'sizes', 'model': None, 'info': str(info), 'goal': '', 'path': ' && '.join(
            tm.show(c, 5) for c in s.pc[:8]), 'exact': False, 'pc': [], 'g': tm.FALSE})

    def check(self, label, goal, s):
        cr = self.cr
        try:
            ok, be = self.prove(goal, s)
        except symex.Unsupported as e:
            ok, be = False, str(e)
        if ok:
            cr.obls += 1
            cr.done += 1
            cr.backends[be] = cr.backends.get(be, 0) + 1
        else:
            self.fail(label, s, be, goal)

    # ---- quantified goals
    def split(self, e, s, k):
        be = 'syntactic'
        for alt in e.alts:
            x = s.fork()
            for c in alt:
                x.assume(c)
            if tm.FALSE in x.pcset or facts(x.pc).inconsistent():
                continue
            r = k(x)
            if not r[0]:
                return r
            be = r[1]
        return True, be

    def prove(self, g, s, depth=0):
        if depth > 28:
            return False, 'depth'
        old = getattr(self, 'cur', None)
        self.cur = s
        try:
            return self._prove(g, s, depth)
        except sz.NeedSplit as e:
            return self.split(e, s, lambda x: self.prove(g, x, depth + 1))
        finally:
            self.cur = old

    def candidates(self, s):
        vs = sorted({v for c in s.pc if sz.isindex(c) for f in facts([c]).ge for v in sz.nvars(f) if v.startswith(('#e', '#g'))})
        return [nvar(v) for v in vs] + [P_(0)]

    def _prove(self, g, s, depth):
        if isinstance(g, T):
            return self.ground(g, s)
        k, a = g.kind, g.args
        if k == 'forall':
            self.nf += 1
            v = nvar('#g%d' % self.nf)
            x = s.fork()
            x.assume(ge0(v))
            x.assume(ge0(nsub(nsub(poly(a[0]), v), P_(1))))
            if facts(x.pc).inconsistent():
                return True, 'index'
            f = a[1]
            return self.prove(Prop('lazy', lambda: f(term(v))), x, depth + 1)
        if k == 'lazy':
            return self.prove(a[0](), s, depth + 1)
        if k == 'and':
            be = 'syntactic'
            for x in a[0]:
                r = self.prove(x, s, depth + 1)
                if not r[0]:
                    return r
                be = r[1]
            return True, be
        if k == 'or':
            for x in a[0]:
                r = self.prove(x, s, depth + 1)
                if r[0]:
                    return r
            return False, 'no disjunct'
        if k == 'imp':
            c = a[0]
            if c is tm.FALSE:
                return True, 'syntactic'
            if sz.isindex(c) and self.ex.idx(s, c) is None:
                self.ex.splitidx(s, c)
            x = s.fork()
            x.assume(c)
            if tm.not_(c) in s.pcset or tm.FALSE in x.pcset or sz.isindex(c) and facts(x.pc).inconsistent():
                return True, 'syntactic'
            return self.prove(a[1], x, depth + 1)
        if k == 'exists':
            for w in self.candidates(s):
                f = facts(s.pc)
                if f.prove(w) and f.prove(nsub(nsub(poly(a[0]), w), P_(1))):
                    r = self.prove(Prop('lazy', lambda: a[1](term(w))), s, depth + 1)
                    if r[0]:
                        return r
            return False, 'no witness'
        raise symex.Unsupported(k)

    def equalities(self, s):
        """substitution that solves the index equations of the path"""
        mp = {}
        for c in s.pc:
            if c.op != '=' or not sz.isindex(c):
                continue
            d = sz.nsubst(nsub(poly(c.args[0]), poly(c.args[1])), mp)
            for v in sorted(sz.nvars(d), key=lambda v: (not v.startswith('#g'), not v.startswith('#e'), v)):
                cf = sz.coef(d, v)
                k = sz.ncon(cf[0]) if cf else None
                if k in (1, -1):
                    x = sz.nscale(cf[1], -k)
                    mp = {a: sz.nsubst(b, {v: x}) for a, b in mp.items()}
                    mp[v] = x
                    break
        return mp

    def signs(self, ts):
        """a sum of nonnegative terms is nonnegative"""
        out = []
        for t in tm.subterms(ts):
            if t.op == 'app' and t.args[0] == 'sum':
                k = t.args[3]
                r = self.sg.get(k)
                if r is None:
                    r = self.sg[k] = self.cr.solver.prove(tm.le(tm.const(0), k), [])[0] == 'proved'
                if r:
                    out.append(tm.le(tm.const(0), t))
        return out

    def ground(self, g, s):
        if g is tm.TRUE:
            return True, 'syntactic'
        if sz.isindex(g):
            r = self.ex.idx(s, g)
            if r is True:
                return True, 'index'
        g = self.ex.simp(s, g)
        if g is tm.TRUE:
            return True, 'syntactic'
        mp = self.equalities(s)
        if mp:
            s = s.fork()
            g = sz.subst(g, mp)
            cs = [sz.subst(c, mp) for c in s.pc]
            s.pc, s.pcset = [], set()
            for c in cs:
                s.assume(c)
            if g is tm.TRUE:
                return True, 'syntactic'
        if g is tm.FALSE and facts(s.pc).inconsistent():
            return True, 'index'
        real = [c for c in s.pc if not sz.isindex(c)]
        pc = real + self.ex.instances(s, [g])
        pc = pc + self.signs([g] + pc)
        r = self.cr.solver.prove(g, pc)
        if r[0] != 'proved' and len(pc) < len(s.pc):
            r = self.cr.solver.prove(g, pc + [c for c in s.pc if sz.isindex(c)])
        if r[0] != 'proved' and os.environ.get('SHOWG'):
            print('GOAL', tm.show(g, 12), '\n   PC', [tm.show(c, 8) for c in s.pc], [tm.show(c, 8) for c in pc])
        return r[0] == 'proved', r[1]


SIZES1 = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 19, 23, 31, 33]


def dictionary(ll):
    """sizes next to the constants that the code compares integers with: where its behaviour may change"""
    out = set()
    try:
        for m in re.finditer(r'icmp \w+ i(?:32|64) [^,\n]+, (\d+)', open(ll).read()):
            c = int(m.group(1))
            if 4 < c <= 130:
                out.update((c - 1, c, c + 1, c + 2, c + 3))
    except OSError:
        pass
    return sorted(out)


def native(so, case, seed, budget, tries, thorough, ll=None, hints=()):
    """conformance of the compiled code at sampled sizes"""
    import time
    t0 = time.time()
    rng = random.Random(seed)
    ps = case.sizes()
    szok = case.opts.get('szok') or (lambda z: True)
    combos = []
    if len(ps) == 1:
        p = ps[0]
        combos = [{p.name: n} for n in SIZES1 if (p.lo or 0) <= n <= (p.hi or 33)]
    else:
        for n in range(1, 5):
            combos.append({p.name: max(n, p.lo or 0) for p in ps})
        for _ in range(20):
            for _ in range(50):
                c = {p.name: rng.choice([x for x in SIZES1 if (p.lo or 0) <= x <= (p.hi or 9)]) for p in ps}
                if szok(c):
                    combos.append(c)
                    break
    if ll:
        extra = []
        for v in dictionary(ll)[:24] + [9, 10, 11, 13, 17, 18]:
            if len(ps) < 3 or v < 14:
                extra.append({p.name: v for p in ps})
            for q in ps:
                extra.append({p.name: v if p is q else rng.choice((1, 2, 3)) for p in ps})
        combos = combos[:6] + [c for c in extra if all((p.lo or 0) <= c[p.name] for p in ps)] + combos[6:]
    combos = [c for c in list(hints) + combos if szok(c)]
    tot = {'bad': None, 'n': 0, 'adm': 0}
    for i in range(max(1, tries)):
        for c in combos:
            r = numeric.search(so, case.at(c), '%s-%s-%d' % (seed, json.dumps(c, sort_keys=True), i), 5, tries=20 if c in hints else 2)
            tot['n'] += r['n']
            tot['adm'] += r['adm']
            if r.get('note'):
                tot['note'] = r['note']
            if r['bad']:
                r['ins'] = dict(r['ins'] or {}, **{'sizes': c})
                r['adm'] += tot['adm']
                return r
            if time.time() - t0 > budget:
                return tot
    return tot
