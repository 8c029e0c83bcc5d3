"""Discharges the contracts of one property against /repo's current source."""
import hashlib
import json
import multiprocessing as mp
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
EVDIR = os.environ.get('VERIF_EV') or os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'evidence')
CLANG = '/usr/bin/clang++-18'
OPT = '/usr/lib/llvm-18/bin/opt'
FILT = '/usr/lib/llvm-18/bin/llvm-cxxfilt'
CXX = ['-std=c++17', '-I' + REPO, '-I' + os.path.join(VERIF, 'units')]
FRONT = ['-O1', '-Xclang', '-disable-llvm-passes', '-fno-math-errno', '-ffp-contract=off', '-S', '-emit-llvm']
PASSES = ('function(sroa,early-cse,simplifycfg),cgscc(inline),function(sroa,early-cse,simplifycfg),globaldce,'
          'strip-dead-prototypes')

sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
import terms as tm
import llparse
import nf
import stdstubs
import symex
import solve
import fpdom
import numeric
import sizerun
from dsl import CT, SizeCase


class Alarm(Exception):
    pass


sys.unraisablehook = lambda *a: None


def _alarm(*a):
    raise Alarm()


# ------------------------------------------------------------------ extraction

def extract(args):
    unit, tmp = args
    t0 = time.time()
    base = os.path.join(tmp, unit.name)
    src = unit.source()
    with open(base + '.cpp', 'w') as f:
        f.write(src)
    p = subprocess.run([CLANG] + CXX + FRONT + [base + '.cpp', '-o', base + '.0.ll'], capture_output=True, text=True)
    if p.returncode:
        return unit.name, 'compile', p.stderr[:6000], None
    txt = open(base + '.0.ll').read()
    ni = list(unit.opts.get('noinline') or [])
    if unit.opts.get('random'):
        ni += stdstubs.NOINLINE
    if unit.opts.get('streams'):
        ni += stdstubs.STREAM_NOINLINE
    if ni:
        txt = add_noinline(txt, ni)
        open(base + '.0.ll', 'w').write(txt)
    p = subprocess.run([OPT, '-S', '-passes=' + PASSES, '-inline-threshold=1000000', base + '.0.ll', '-o', base + '.ll'],
                       capture_output=True, text=True)
    if p.returncode:
        return unit.name, 'opt', p.stderr[:6000], None
    funcs = reached(txt, ['@' + c.name for c in unit.cases])
    os.unlink(base + '.0.ll')
    return unit.name, 'ok', funcs, time.time() - t0


def native_build(args):
    unit, tmp = args
    base = os.path.join(tmp, unit.name)
    p = subprocess.run([CLANG] + CXX + ['-O1', '-shared', '-fPIC', '-ffp-contract=off', base + '.n.cpp', '-o', base + '.so'],
                       capture_output=True, text=True)
    return unit.name, p.returncode, p.stderr[:4000]


def add_noinline(txt, names):
    out = []
    for l in txt.split('\n'):
        if l.startswith('define '):
            m = re.search(r'@("[^"]+"|[\w.$]+)\(', l)
            if m and any(re.search(n, m.group(1)) for n in names):
                l = re.sub(r'\)( local_unnamed_addr| unnamed_addr)?', lambda q: q.group(0), l)
                i = l.rfind('{')
                j = l.rfind('#')
                l = l[:j] + 'noinline ' + l[j:] if j > 0 else l[:i] + 'noinline {'
        out.append(l)
    return '\n'.join(out)


def reached(txt, roots):
    """library functions reachable from each contract unit in the un-inlined module (the code under contract)"""
    calls, cur = {}, None
    for l in txt.split('\n'):
        if l.startswith('define '):
            m = re.search(r'@("[^"]+"|[\w.$]+)\(', l)
            cur = '@' + m.group(1)
            calls[cur] = set()
        elif cur is not None:
            if l == '}':
                cur = None
            elif ' call ' in l or ' invoke ' in l or l.startswith('  invoke') or l.startswith('  call'):
                for m in re.finditer(r'@([\w.$]+)\(', l):
                    calls[cur].add('@' + m.group(1))
    out = {}
    for r in roots:
        seen, st = set(), [r]
        while st:
            x = st.pop()
            if x in seen or x not in calls:
                continue
            seen.add(x)
            st.extend(calls[x])
        seen.discard(r)
        out[r[1:]] = sorted(x[1:] for x in seen if 'cml' in x)
    return out


# ------------------------------------------------------------------ one case

_mods = {}


def load_module(path):
    m = _mods.get(path)
    if m is None:
        m = llparse.parse_module(open(path).read())
        _mods[path] = m
    return m


def setup_state(ex, case):
    st = symex.State()
    args = []
    cells = {}
    for p in case.params:
        size, sort, _ = CT[p.ct]
        if p.shape is None:
            v = tm.var(p.name, sort)
            if p.ct == 'bool':
                args.append(tm.imk('trunc', 1, v))
            else:
                args.append(v)
            continue
        o = st.new(size * p.n, 'arg', p.name)
        if p.mode != 'out':
            for k, nm in enumerate(p.elem_names()):
                o.cells[k * size] = (size, tm.var(nm, sort))
        args.append(symex.Ptr(o.id, 0))
        cells[p.name] = o.id
    return st, args, cells


def describe_pc(pc, n=6):
    return ' && '.join(tm.show(c, 4) for c in pc[:n]) + (' && …' if len(pc) > n else '')


class CaseRun:
    def __init__(self, unit, case, ll, so, seed, tier):
        self.unit, self.case, self.ll, self.so, self.seed, self.tier = unit, case, ll, so, seed, tier
        self.obls = 0
        self.done = 0
        self.failed = []      # dicts
        self.backends = {}
        self.paths = 0
        self.notes = []
        self.slow = 1

    def prove(self, label, goal, pc, st=None):
        self.obls += 1
        if st is not None and goal is not tm.TRUE and self.ex.holds(st, goal):
            self.done += 1
            self.backends['order'] = self.backends.get('order', 0) + 1
            return True
        s, b, info = self.solver.prove(goal, pc)
        if s == 'proved':
            self.done += 1
            self.backends[b] = self.backends.get(b, 0) + 1
            return True
        self.failed.append({'label': label, 'status': s, 'backend': b,
                            'model': info if isinstance(info, dict) else None,
                            'info': None if isinstance(info, dict) else str(info),
                            'goal': tm.show(goal, 5)[:600], 'path': describe_pc(pc)[:600],
                            'exact': self.exact(goal, pc), 'pc': list(pc), 'g': goal})
        return False

    def exact(self, goal, pc):
        """is the query free of uninterpreted operations (a model is then a real counterexample over the reals)"""
        for t in tm.subterms([goal] + list(pc)):
            if t.op == 'app' and t.args[0] not in ('sqrt', 'abs'):
                return False
        return True

    def run(self):
        case = self.case
        opts = dict(self.unit.opts)
        opts.update(case.opts)
        self.solver = solve.Solver(timeout_ms=opts.get('timeout', 6000 if self.tier == 'quick' else 30000) * self.slow)
        self.opts = opts
        if isinstance(case, SizeCase):
            self.szrun = sizerun.SizeRun(self, load_module(self.ll))
            return self.szrun.run()
        I, flat = case.inputs()
        # bool arguments are 0 or 1
        req = list(case.requires(I))
        for nm, v, p in flat:
            if p.ct == 'bool':
                req.append(tm.icmp('ule', v, tm.const(1, 8)))
        self.reqs = req
        for r in req:
            self.solver.require(r)
        for p in case.params:
            if p.gen == 'unit' and opts.get('unit_rule', True):
                pass
        m = load_module(self.ll)
        ex = symex.Exec(m, self.solver, fptrunc=opts.get('fptrunc', 'identity'), maxpaths=opts.get('maxpaths', 3000),
                        maxsteps=opts.get('maxsteps', 6000000), prune_real=opts.get('prune', False),
                        domains=opts.get('domains', True))
        ex.nofloat = not (opts.get('float') or case.ret == 'float' or any(p.ct == 'float' for p in case.params))
        self.ex = ex
        ex.fp = bool(opts.get('fp'))
        ex.maxdraws = opts.get('maxdraws', 64)
        st, args, cells = setup_state(ex, case)
        outs = ex.run('@' + case.name, st, args)
        self.paths = len(outs)
        if opts.get('fp'):
            return self.run_fp(outs)
        throws = list(case.throws(I)) if case.throws else []
        nret = 0
        seen_obl = set()
        for oc in outs:
            s = oc.state
            pc = s.pc
            # definedness obligations along the path (proved once per shared prefix)
            for kind, goal, k, msg in s.obls:
                key = (goal, tuple(pc[:k]))
                if key in seen_obl:
                    continue
                seen_obl.add(key)
                self.prove('%s: %s' % (kind, msg), goal, pc[:k])
            if oc.kind == 'error':
                kind, msg = oc.what
                if kind == 'infeasible':
                    continue
                self.prove('safety: %s' % msg, tm.FALSE, pc)
                continue
            if oc.kind == 'throw':
                ty = oc.what
                conds = [c for t, c in throws if numeric_match(ty, t, ex)]
                self.prove('throws %s only when specified' % ty, tm.or_(*conds) if conds else tm.FALSE, pc)
                self.frame(s, cells)
                self.leaks(s)
                continue
            nret += 1
            for t, c in throws:
                self.prove('throws %s when required' % (t if isinstance(t, str) else t[0]), tm.not_(c), pc)
            self.frame(s, cells)
            self.leaks(s)
            O = self.outputs(oc, cells)
            if O is None:
                continue
            for lab, g in case.ensures(I, O):
                if lab.startswith('test:'):      # rounding-tolerant form of a proved lemma, for native runs only
                    continue
                self.prove('ensures %s' % lab, g, pc, s)
        if opts.get('sides', True):
            self.side_obligations()
        return self

    def run_fp(self, outs):
        """domain obligations only, every operation rounded arbitrarily (fpdom)"""
        memo = {}
        for oc in outs:
            s = oc.state
            for kind, goal, k, msg in s.obls:
                if kind not in ('sqrt', 'acos', 'asin', 'log'):
                    continue
                pc = s.pc[:k]
                key = (goal, tuple(pc))
                if key in memo:
                    continue
                self.obls += 1
                memo[key] = r = fpdom.prove(goal, self.reqs + pc)
                if r[0] == 'proved':
                    self.done += 1
                    self.backends[r[1]] = self.backends.get(r[1], 0) + 1
                else:
                    self.failed.append({'label': 'under rounding: ' + msg, 'status': r[0], 'backend': r[1], 'model': None, 'info': r[2],
                                        'goal': tm.show(goal, 6)[:600], 'path': describe_pc(pc)[:600], 'exact': False, 'pc': pc, 'g': goal})
            if oc.kind == 'error' and oc.what[0] not in ('infeasible',):
                self.notes.append(oc.what[1])
        return self

    def side_obligations(self):
        pass

    def frame(self, s, cells):
        for p in self.case.params:
            if p.mode != 'in' or p.shape is None:
                continue
            size, sort, _ = CT[p.ct]
            o = s.mem[cells[p.name]]
            for k, nm in enumerate(p.elem_names()):
                c = o.cells.get(k * size)
                v = tm.var(nm, sort)
                if c is not None and c[1] is v:
                    self.obls += 1
                    self.done += 1
                    self.backends['syntactic'] = self.backends.get('syntactic', 0) + 1
                    continue
                x = self.cellterm(c, p)
                self.prove('frame: input %s unchanged' % nm, tm.FALSE if x is None else tm.eq(x, v), s.pc)

    def leaks(self, s):
        live = [o for o in s.mem.values() if o.kind == 'heap' and o.alive]
        self.obls += 1
        if live:
            self.obls -= 1
            self.prove('heap: %d allocation(s) not released' % len(live), tm.FALSE, s.pc)
        else:
            self.done += 1
            self.backends['syntactic'] = self.backends.get('syntactic', 0) + 1

    def cellterm(self, c, p):
        size, sort, _ = CT[p.ct]
        if c is None or c[0] != size or c[1] is symex.UNDEF:
            return None
        v = c[1]
        if isinstance(v, symex.Bits):
            v = v.val
        if isinstance(v, int):
            v = tm.const(v, sort) if sort != 'R' else (tm.const(0) if v == 0 else None)
        return v

    def outputs(self, oc, cells):
        s = oc.state
        bad = []

        def get(p, k):
            if p is None:
                v = oc.ret
                sort = CT[self.case.ret][1]
                if v is symex.UNDEF or v is None:
                    bad.append('return value')
                    return tm.var('undef!ret', sort)
                if isinstance(v, int):
                    return tm.const(v, sort) if sort != 'R' else tm.const(v)
                if self.case.ret == 'bool' and v.sort == 1:
                    return tm.imk('zext', 8, v) if v.op != 'c' else tm.const(v.args[0], 8)
                return v
            size, sort, _ = CT[p.ct]
            o = s.mem[cells[p.name]]
            c = o.cells.get(k * size)
            v = None
            if c is None or c[0] != size:
                try:
                    ty = {8: ('f', 64), 4: ('f', 32)}[size] if sort == 'R' else ('i', size * 8)
                    x = None
                    if o.cells:
                        ex = symex.Exec(load_module(self.ll), self.solver)
                        x = ex.load_obj(o, k * size, size, ty)
                    if x is not symex.UNDEF and x is not None:
                        v = self.cellterm((size, x), p)
                except Exception:
                    v = None
            else:
                v = self.cellterm(c, p)
            if v is None:
                if not p.opt:
                    bad.append('%s[%d]' % (p.name, k))
                return tm.var('undef!%s%d' % (p.name, k), sort)
            return v
        O = self.case.out_ns(get)
        if bad:
            self.prove('output %s is written' % ', '.join(bad[:4]), tm.FALSE, s.pc)
            return None
        return O


def numeric_match(ty, t, ex):
    if isinstance(t, (tuple, list)):
        return any(numeric_match(ty, x, ex) for x in t)
    return t == '*' or ty == t or ex.derives(ty, t)


def run_case(args):
    unit, ci, tmp, seed, tier, tmo = args[:6]
    slow = args[6] if len(args) > 6 else 1
    case = unit.cases[ci]
    t0 = time.time()
    ll = os.path.join(tmp, unit.name + '.ll')
    so = os.path.join(tmp, unit.name + '.so')
    cr = CaseRun(unit, case, ll, so, seed, tier)
    signal.signal(signal.SIGALRM, _alarm)
    res = {'unit': unit.name, 'case': case.name, 'label': case.label, 'level': case.level, 'ci': ci}
    broken = None
    tmo = case.opts.get('limit', tmo) if slow == 1 else max(tmo, case.opts.get('limit', 0) * 2)
    cr.slow = slow
    if case.level == 'tested':
        broken = 'not attempted (declared bounded: native runs only)'
    else:
        signal.setitimer(signal.ITIMER_REAL, tmo, 3)
        try:
            cr.run()
        except Alarm:
            broken = 'time limit of %d s for the proof' % tmo
        except symex.Unsupported as e:
            broken = 'outside the executor: %s' % e
        except (nf.TooBig, MemoryError) as e:
            broken = 'normal form too large'
        except RecursionError:
            broken = 'recursion'
        except Exception as e:
            broken = 'engine: ' + ''.join(traceback.format_exc()[-1500:])
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    nat = None
    if isinstance(case, SizeCase):
        if os.path.exists(so):
            hard = bool(cr.failed) or broken
            try:
                nat = sizerun.native(so, case, '%s-%s-%s' % (seed, unit.name, case.name), 40 if hard else 8 if tier == 'quick' else 60,
                                     (6 if hard else 1) * (4 if tier == 'thorough' else 1), tier == 'thorough', ll if hard or tier == 'thorough' or os.environ.get('VERIF_LARGE') else None,
                                     cr.szrun.hints() if hard and getattr(cr, 'szrun', None) and getattr(cr.szrun, 'ex', None) else ())
            except Exception as e:
                nat = {'bad': None, 'n': 0, 'adm': 0, 'note': 'native harness: ' + repr(e) + traceback.format_exc()[-800:]}
            nat = json.loads(json.dumps(nat, default=str))
    elif os.path.exists(so):
        seeds = []
        for f in cr.failed:
            if f.get('model'):
                seeds.append(model_input(case, f['model'], seed))
        hard = bool(cr.failed) or broken
        if hard and not broken:
            for f in cr.failed[:12]:
                seeds.extend(path_inputs(cr, f, seed))
        n = (400 if case.level == 'tested' else 3000) if hard else 12
        if tier == 'thorough':
            n *= 5
        try:
            nat = numeric.search(so, case, '%s-%s-%s' % (seed, unit.name, case.name), (8 if hard else 2) * (3 if tier == 'thorough' else 1),
                                 tries=n if not case.opts.get('nonative') else 0, seeds=[s for s in seeds if s])
        except Exception as e:
            nat = {'bad': None, 'n': 0, 'adm': 0, 'note': 'native harness: ' + repr(e) + traceback.format_exc()[-800:]}
        nat = json.loads(json.dumps(nat, default=str))
    res.update(obls=cr.obls, done=cr.done, backends=cr.backends, paths=cr.paths, broken=broken, native=nat,
               failed=[{k: v for k, v in f.items() if k not in ('pc', 'g')} for f in cr.failed], time=time.time() - t0)
    return res


def model_input(case, model, seed):
    import random
    rng = random.Random(seed)
    ins = {}
    for p in case.params:
        if p.mode == 'out':
            continue
        base = numeric.gen_param(rng, p)
        vals = []
        for k, nm in enumerate(p.elem_names()):
            v = model.get(nm, base[k] if not model else 0)
            if CT[p.ct][1] == 'R':
                v = float(v)
                if abs(v) > 1e100 or v != v:
                    return None
                if p.ct == 'float':
                    try:
                        v = numeric.f32(v)
                    except OverflowError:
                        return None
            vals.append(v)
        ins[p.name] = vals
    return ins


def path_inputs(cr, f, seed):
    """inputs that follow the path of a failed obligation (solver models of the path condition)"""
    out = []
    s = cr.solver
    try:
        signal.setitimer(signal.ITIMER_REAL, 6, 3)
        hy = [h for h in s.hyps if solve.is_real(h)]
        r, m, z = s.zsolve(hy + f['pc'], 2500)
        if m is not None:
            mi = model_input(cr.case, s.model(m), seed)
            if mi:
                out.append(mi)
    except Exception:
        pass
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return out


# ------------------------------------------------------------------ property

def known_findings(prop):
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: property=%s ' % prop):
                # finding: property=ID case=<case name> clause=<label prefix> :: text
                m = re.match(r'finding: property=\S+ case=(\S+) clause=(.*?) :: (.*)$', l)
                if m:
                    out.append(m.groups())
    return out


def main(prop, units, tier, seed, meta):
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='cmlv-%s-' % prop)
    try:
        return _main(prop, units, tier, seed, meta, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def _main(prop, units, tier, seed, meta, tmp, t0):
    nproc = int(os.environ.get('VERIF_JOBS', '8'))
    ncase = sum(len(u.cases) for u in units)
    names = [c.name for u in units for c in u.cases]
    assert len(set(u.name for u in units)) == len(units), 'duplicate unit'
    for u in units:
        assert len(set(c.name for c in u.cases)) == len(u.cases), 'duplicate case in ' + u.name
    ctx = mp.get_context('fork')
    funcs = {}
    errs = []
    global UNITS
    UNITS = {u.name: u for u in units}
    with ctx.Pool(nproc, maxtasksperchild=1) as pool:
        jobs = [pool.apply_async(_extract_i, (u.name, tmp)) for u in units]
        nj = [pool.apply_async(_native_i, (u.name, tmp)) for u in units]
        for j in jobs:
            name, st, info, t = j.get()
            if st != 'ok':
                errs.append((name, st, info))
            else:
                funcs.update({(name, k): v for k, v in info.items()})
        for j in nj:
            name, rc, err = j.get()
            if rc and not any(e[0] == name for e in errs):
                errs.append((name, 'native', err))
    if errs:
        # a contract unit uses only the public interface: a unit that no longer compiles against the current source is
        # an instantiation the library no longer offers
        for n, st, e in errs[:6]:
            ls = [l for l in e.split('\n') if 'error:' in l] or e.split('\n')[:4]
            print('NOT EXTRACTED unit %s (%s): %s' % (n, st, '\n'.join(ls)[:600]))
        bad = set(e[0] for e in errs)
        units = [u for u in units if u.name not in bad]
    t1 = time.time()
    budget = meta.get('case_limit', 60 if tier == 'quick' else 600)
    tasks = []
    for u in units:
        for ci, c in enumerate(u.cases):
            tasks.append((u.name, ci, tmp, seed, tier, budget))
    tasks.sort(key=lambda t: -UNITS[t[0]].cases[t[1]].opts.get('cost', 1))
    results = []
    with ctx.Pool(nproc, maxtasksperchild=40) as pool:
        for r in pool.imap_unordered(_case_i, tasks, chunksize=1 if ncase < 400 else 4):
            results.append(r)
    # whatever was not discharged gets a second attempt with few competitors and larger limits
    again = [r for r in results if (r['failed'] or r['broken']) and not (r['native'] or {}).get('bad')
             and not UNITS[r['unit']].cases[r['ci']].opts.get('soft') and r['level'] != 'tested'
             and not any(f['status'] == 'refuted' and f['exact'] for f in r['failed'])]
    if again and time.time() - t0 < 400:
        again.sort(key=lambda r: -r['time'])
        lim = max(60, min(budget * 4, (600 - (time.time() - t0)) / (1 + (len(again) - 1) // 4)))
        redo = [(r['unit'], r['ci'], tmp, seed + 1000, tier, lim, 4) for r in again]
        with ctx.Pool(max(1, min(4, nproc)), maxtasksperchild=1) as pool:
            new = {(r['unit'], r['ci']): r for r in pool.imap_unordered(_case_i, redo)}
        results = [new.get((r['unit'], r['ci']), r) for r in results]
    results.sort(key=lambda r: (r['unit'], r['ci']))
    return report(prop, units, results, funcs, tier, seed, meta, t0, t1, errs)


def _extract_i(name, tmp):
    return extract((UNITS[name], tmp))


def _native_i(name, tmp):
    # waits for nothing: writes its own source
    base = os.path.join(tmp, name)
    with open(base + '.n.cpp', 'w') as f:
        f.write(UNITS[name].native_source())
    return native_build((UNITS[name], tmp))


def _case_i(t):
    return run_case((UNITS[t[0]],) + t[1:])


def src_hash():
    h = hashlib.sha256()
    for d, ds, fs in os.walk(os.path.join(REPO, 'cml')):
        ds.sort()
        for f in sorted(fs):
            if f.endswith(('.h', '.tpp', '.cpp')):
                h.update(f.encode())
                h.update(open(os.path.join(d, f), 'rb').read())
    return h.hexdigest()[:16]


def report(prop, units, results, funcs, tier, seed, meta, t0, t1, errs=()):
    verbose = os.environ.get('VERIF_VERBOSE')
    umap = {u.name: u for u in units}
    obls = sum(r['obls'] for r in results)
    done = sum(r['done'] for r in results)
    back = {}
    for r in results:
        for k, v in r['backends'].items():
            back[k] = back.get(k, 0) + v
    known = known_findings(prop)
    viol = []
    undec = []
    bounded = []
    kf_hit = set()
    vac = []
    for r in results:
        case = umap[r['unit']].cases[r['ci']]
        nat = r['native']
        bad = nat and nat.get('bad')
        if not r['failed'] and not r['broken'] and not bad:
            if nat and nat['adm'] == 0 and not case.opts.get('nonative'):
                vac.append(r)
            continue
        if bad:
            labs = [b[0] for b in bad]
        else:
            labs = [f['label'] for f in r['failed']]
        k = [i for i, (cn, cl, tx) in enumerate(known) if re.fullmatch(cn, r['case']) and
             all(re.search(cl, l) for l in labs)]
        if k:
            kf_hit.update(k)
            continue
        if bad:
            viol.append((r, 'input', bad))
            continue
        if case.level == 'tested':
            bounded.append(r)
            if not nat or nat['adm'] < 20:
                undec.append(r)
        elif case.opts.get('soft'):
            undec.append(r)
        else:
            # the verifier did not accept every obligation
            viol.append((r, 'noinput', r['failed'] or [{'label': r['broken']}]))
    for r in results:
        if 'Error(' in str((r.get('native') or {}).get('note', '')):
            print('NOTE: the native runs of %s/%s stopped early: %s' % (r['unit'], r['case'], r['native']['note'][:300]))
    if vac and not viol:
        for r in vac:
            print('ERROR: no admissible input was found for %s/%s (vacuous contract?) %s' % (r['unit'], r['case'], r['native']))
        return 2
    if obls == 0 and not errs and not any(u.opts.get('allow_empty') for u in units):
        print('ERROR: no obligations were generated')
        return 2
    rdir = os.path.join(EVDIR, 'replay')
    lines = []
    for i, (cn, cl, tx) in enumerate(known):
        if i in kf_hit:
            print('KNOWN-FINDING: property=%s %s' % (prop, tx))
    shown = 0
    for r, kind, what in viol:
        os.makedirs(rdir, exist_ok=True)
        unit = umap[r['unit']]
        case = unit.cases[r['ci']]
        path = os.path.join(rdir, '%s-%s-%s.json' % (prop, r['unit'], r['case']))
        rec = {'property': prop, 'unit': r['unit'], 'case': r['case'], 'signature': case.signature(), 'body': case.body,
               'source': unit.source(), 'failed_obligations': r['failed'][:20], 'native': r['native'],
               'how': 'python3-vt /verif/run.py --replay <this file>'}
        json.dump(rec, open(path, 'w'), indent=1, default=str)
        if shown < 12:
            if kind == 'input':
                print('  case %s/%s: clause %s violated by input %s' % (r['unit'], r['case'], what[0][0],
                                                                      json.dumps(r['native'].get('ins'))[:400]))
            else:
                print('  case %s/%s: obligation not discharged: "%s"; no failing input found' % (
                    r['unit'], r['case'], '"; "'.join(str(f['label']) for f in what[:3])))
            print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if kind == 'input' else ' no-failing-input-found'))
        shown += 1
    for n, st, e in errs:
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s-%s-extract.json' % (prop, n))
        json.dump({'property': prop, 'unit': n, 'failed_obligations': [{'label': 'the unit compiles (%s)' % st}], 'output': e}, open(path, 'w'), indent=1)
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))
    for r in undec:
        lines.append('UNDECIDED %s/%s: %s' % (r['unit'], r['case'], r['broken'] or '; '.join(
            '%s [%s %s]' % (f['label'], f['status'], f['backend']) for f in r['failed'][:4])))
    for l in lines[:200 if verbose else 25]:
        print(l[:1500])
    fset = set()
    for v in funcs.values():
        fset.update(v)
    fl = demangle(sorted(fset))
    wall = time.time() - t0
    nfully = sum(1 for r in results if not r['failed'] and not r['broken'])
    ev = {
        'property': prop, 'tier': tier, 'seed': seed,
        'level': meta['level'] if not undec else meta['level'],
        'coverage': {
            'obligations': obls, 'discharged': done,
            'checker_cmd': 'python3-vt /verif/run.py %s --tier %s' % (prop, tier),
            'trusted_base': TRUSTED,
            'contract_units': len(results), 'contract_units_fully_discharged': nfully,
            'paths': sum(r['paths'] for r in results),
            'backends': back,
            'solver_seconds': round(sum(r['time'] for r in results), 1),
            'functions_under_contract': len(fl),
            'functions': fl[:1500],
            'undecided': [l for l in lines],
            'bounded_units': [{'unit': r['unit'], 'case': r['case'], 'reason': r['broken'],
                               'native_inputs': (r['native'] or {}).get('adm')} for r in bounded],
            'bounded_in_size': sorted(set(umap[r['unit']].cases[r['ci']].label for r in results
                                          if umap[r['unit']].cases[r['ci']].level == 'bounded'))[:200],
            'proved_for_every_size': sorted(set(umap[r['unit']].cases[r['ci']].label for r in results
                                                if isinstance(umap[r['unit']].cases[r['ci']], SizeCase) and not r['failed'] and not r['broken'])),
            'native_conformance_inputs': sum((r['native'] or {}).get('adm', 0) for r in results),
            'repo_source_sha': src_hash(),
            'extraction_seconds': round(t1 - t0, 1),
        },
        'assumptions': ASSUME + meta.get('assumptions', []) + (SIZE_ASSUME if any(isinstance(c, SizeCase) for u in units for c in u.cases) else []),
        'wall_s': round(wall, 1),
        'violations': len(viol) + len(errs),
    }
    os.makedirs(EVDIR, exist_ok=True)
    json.dump(ev, open(os.path.join(EVDIR, prop + '.json'), 'w'), indent=1)
    print('%s: %d contract units, %d paths, %d/%d obligations discharged %s, %d functions, %d undecided unit(s), %d bounded, '
          '%d violation(s), %.1fs' % (prop, len(results), sum(r['paths'] for r in results), done, obls, back, len(fl),
                                      len(undec), len(bounded), len(viol), wall))
    if verbose:
        for r in sorted(results, key=lambda r: -r['time'])[:8]:
            print('   %.1fs %s/%s paths=%d obls=%d' % (r['time'], r['unit'], r['case'], r['paths'], r['obls']))
    return 1 if viol or errs else 0


def demangle(names):
    if not names:
        return []
    p = subprocess.run([FILT], input='\n'.join(names), capture_output=True, text=True)
    out = set()
    for l in p.stdout.split('\n'):
        l = l.strip()
        if not l:
            continue
        # drop template arguments: keep the function's qualified name
        d, o = 0, []
        for ch in l:
            if ch == '<':
                d += 1
            elif ch == '>':
                d -= 1
            elif d == 0:
                o.append(ch)
        s = ''.join(o)
        m = re.search(r'(cml::[\w:~]*(?:operator[^\(]*)?[\w:~]*)\(', s)
        out.add(m.group(1) if m else s.split('(')[0].split(' ')[-1])
    return sorted(x for x in out if x.startswith('cml'))


TRUSTED = [
    'clang 18 front end and the LLVM passes sroa, early-cse, simplifycfg, inline (C++ source to the IR that is verified)',
    '/verif/engine: IR semantics (symex.py), exact normal forms (nf.py), translation to SMT (solve.py)',
    'z3 and cvc5 for the obligations they discharge',
    'libstdc++ headers as compiled; operator new succeeds for requested sizes',
]
SIZE_ASSUME = [
    'units proved for every run-time size: sizes and element counts stay below 2^28 (no wrap-around in index arithmetic); their native conformance '
    'runs sample sizes up to 33',
]
ASSUME = [
    'IEEE arithmetic is treated as exact real arithmetic (rounding, overflow, NaN and infinity inputs are outside the proof)',
    'libm functions are the mathematical functions',
    'machine integers are exact (two\'s complement); signed overflow in element arithmetic is assumed absent',
]
