"""Lists function definitions of /repo/cml that no contract unit instantiates.  Run: python3-vt tools/instcov.py"""
import importlib, os, re, subprocess, sys, tempfile, collections
from concurrent.futures import ThreadPoolExecutor
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [R, R + '/engine']
sys.dont_write_bytecode = True
import driver
REPO = driver.REPO
have = collections.defaultdict(set)


def one(a):
    p, i, u = a
    tmp = tempfile.mkdtemp(prefix='icov')
    try:
        open(tmp + '/u.cpp', 'w').write(u.source())
        r = subprocess.run([driver.CLANG] + driver.CXX + ['-w', '-g', '-O0', '-Xclang', '-disable-llvm-passes', '-S', '-emit-llvm', '-o', '-', tmp + '/u.cpp'],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if r.returncode:
            return p, u.name, r.stderr[:300]
        files = {}
        for m in re.finditer(r'^(!\d+) = !DIFile\(filename: "([^"]*)"', r.stdout, re.M):
            files[m.group(1)] = m.group(2)
        out = set()
        for m in re.finditer(r'^!\d+ = distinct !DISubprogram\(name: "([^"]*)".*?file: (!\d+), line: (\d+)', r.stdout, re.M):
            f = files.get(m.group(2), '')
            if '/cml/' in f:
                out.add((f[f.rindex('/cml/') + 1:] if not f.startswith(REPO) else f[len(REPO) + 1:], int(m.group(3))))
        return p, u.name, out
    finally:
        subprocess.run(['/bin/rm', '-rf', tmp])


jobs = []
for k in range(1, 29):
    mod = importlib.import_module('contracts.c%02d' % k)
    for i, u in enumerate(mod.units('quick')):
        jobs.append(('C%02d' % k, i, u))
lines = collections.defaultdict(set)
with ThreadPoolExecutor(6) as ex:
    for p, n, out in ex.map(one, jobs):
        if isinstance(out, str):
            print('ERR', p, n, out)
            continue
        for f, l in out:
            lines[f].add(l)
for d, _, fs in sorted(os.walk(REPO + '/cml')):
    for f in sorted(fs):
        if not f.endswith(('.tpp', '.h')):
            continue
        path = os.path.join(d, f)
        rel = os.path.relpath(path, REPO)
        src = open(path).read().split('\n')
        off = 0
        depth = 0
        com = False
        for n, l in enumerate(src):
            s = l.strip()
            if s.startswith('#if'):
                depth += 1
                if s == '#if 0' and not off:
                    off = depth
            elif s.startswith('#endif'):
                if off == depth:
                    off = 0
                depth -= 1
            if com or s.startswith('/*'):
                com = '*/' not in s
                continue
            if off or s.startswith(('#', '//', '*')):
                continue
            m = re.match(r'^(?:[\w:<>,&\*\s~\.]*?)(~?\b[a-zA-Z_]\w*|operator\s*[^\s\(\w]+(?:\(\))?)\s*\(', l)
            if not m or m.group(1) in ('if', 'for', 'while', 'switch', 'return', 'sizeof', 'static_assert', 'catch', 'throw', 'cml_require', 'decltype', 'noexcept'):
                continue
            if l.startswith('    ') or (l.startswith('  ') and not f.endswith('.h') and not s.startswith(('set(', 'operator', 'assign'))):
                continue
            j = n
            txt = ''
            while j < len(src) and j < n + 14:
                txt += src[j] + '\n'
                if re.search(r'[{;]\s*(//.*)?$', src[j].rstrip()) or '{' in src[j] or ';' in src[j]:
                    break
                j += 1
            if '{' not in txt or ('= default' in txt) or ('= delete' in txt) or (';' in txt and txt.index(';') < txt.index('{')):
                continue
            if not any(x in lines[rel] for x in range(n, n + 3)):
                print('%s:%d %s' % (rel, n + 1, ' '.join(txt.split())[:150]))
