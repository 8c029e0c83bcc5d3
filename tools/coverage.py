"""Lists the functions defined in /repo/cml whose name is in no evidence file (a function that no contract unit executes)."""
import json, re, os
names = set()
for i in range(1, 29):
    d = json.load(open('/verif/evidence/C%02d.json' % i))['coverage']
    for f in d['functions']:
        names |= set(re.findall(r'operator\s*(?:\(\)|\[\]|[^\s(\w]{1,3}|\w+)|~?\w+', f if isinstance(f, str) else str(f)))
defs = {}
for root, _, fs in os.walk('/repo/cml'):
    for f in fs:
        t = open(os.path.join(root, f), errors='replace').read()
        t = re.sub(r'/\*.*?\*/', '', t, flags=re.S)
        t = re.sub(r'//.*', '', t)
        for m in re.finditer(r'\b(operator\s*(?:\(\)|\[\]|[^\s(\w]{1,3}|\w+)|\w+)\s*\([^;{}]*\)\s*(?:const|noexcept|&&?|->[^{};]*|\s)*\s*(?::[^{};]*)?\{', t):
            defs.setdefault(m.group(1).replace(' ', ''), set()).add(os.path.relpath(os.path.join(root, f), '/repo/cml'))
for n in sorted(defs):
    if n not in names and n not in ('if', 'for', 'while', 'switch', 'catch'):
        print(n, sorted(defs[n]))
