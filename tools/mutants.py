#!/usr/bin/env python3
"""Self-test of the checker (development aid, not a registered check).

Each entry replaces text of one file of /repo in memory (an overlay, nothing is written
to /repo). M entries break a property and must be reported for it; Q entries keep the
behaviour and no check may report anything.
usage: mutants.py [-j N] [-k SUBSTR] [checker binary]
"""
import sys, os, subprocess, tempfile, importlib.util, re
from concurrent.futures import ThreadPoolExecutor
here = os.path.dirname(os.path.abspath(__file__))
BC = '/tmp/bc'
args = sys.argv[1:]
key = ''
jobs = 8
while args:
    a = args.pop(0)
    if a == '-k': key = args.pop(0)
    elif a == '-j': jobs = int(args.pop(0))
    elif a != '-v': BC = a
E = []
def M(prop, file, *pairs, note=''): E.append(('M', prop, file, pairs, note))
def Q(file, *pairs, note=''): E.append(('Q', 'all', file, pairs, note))
d = os.path.join(here, 'mut')
for f in sorted(os.listdir(d)):
    if f.endswith('.py'):
        exec(compile(open(os.path.join(d, f)).read(), f, 'exec'), {'M': M, 'Q': Q})
def run(e):
    kind, prop, file, pairs, note = e
    src = open('/repo/' + file).read()
    i = 0
    for old, new in zip(pairs[::2], pairs[1::2]):
        if old == '@@END':
            src += new
            continue
        if old not in src:
            return e, 'STALE', repr(old[:60])
        src = src.replace(old, new, 1)
    with tempfile.NamedTemporaryFile('w', suffix='.go', delete=False) as t:
        t.write(src)
    out = subprocess.run([BC, '-prop', prop, '-overlay', f'{file}={t.name}'], capture_output=True, text=True, timeout=900)
    os.unlink(t.name)
    o = out.stdout + out.stderr
    if 'type-check' in o or out.returncode == 2:
        return e, 'BROKEN', o[:300]
    viol = sorted(set(re.findall(r'VIOLATION property=(\w+)', o)))
    if kind == 'M':
        return e, ('ok' if viol else 'MISSED'), '\n'.join(l for l in o.splitlines() if '[' in l)[:200]
    return e, ('ok' if not viol else 'ALARM'), '\n'.join(l for l in o.splitlines() if ' [' in l)[:900]
sel = [e for e in E if key in e[1] + ' ' + e[2] + ' ' + e[4]]
bad = 0
with ThreadPoolExecutor(jobs) as ex:
    for e, res, txt in ex.map(run, sel):
        if res != 'ok' or '-v' in sys.argv:
            bad += res != 'ok'
            print(res, e[0], e[1], e[2], e[4] or repr(e[3][1][:80]), '\n    ', txt)
print(f'{len(sel)} entries, {bad} not as expected')
