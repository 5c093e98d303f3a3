#!/usr/bin/env python3
"""Sensitivity and tolerance of the checks. tools/mut/*.py list edits: keep(name, file, old, new) must leave every check
quiet; brk(name, prop, file, old, new) must be reported by prop's check. usage: mutate.py [name-prefix...] [--all]"""
import json, os, subprocess, sys, shutil, glob
from concurrent.futures import ThreadPoolExecutor
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = []
def keep(name, *e): L.append((name, None, list(zip(e[0::3], e[1::3], e[2::3]))))
def brk(name, prop, *e): L.append((name, prop, list(zip(e[0::3], e[1::3], e[2::3]))))
for f in sorted(glob.glob(D + '/tools/mut/*.py')): exec(compile(open(f).read(), f, 'exec'))
sel = [a for a in sys.argv[1:] if not a.startswith('--')]
ids = [c['property'] for c in json.load(open(D + '/MANIFEST.json'))['checks']]
sub = [a[9:].split(',') for a in sys.argv if a.startswith('--checks=')]
if sub: ids = sub[0]
assert len({n for n, _, _ in L}) == len(L)
def run(x):
    k, (name, prop, edits) = x
    W = f'/tmp/mut_{os.getpid()}_{k}'
    shutil.copytree('/repo/src', W + '/src'); shutil.copy('/repo/Cargo.toml', W)
    O = W + '/out'; os.makedirs(O + '/evidence'); shutil.copy(D + '/known_findings.txt', O)
    try:
        for (p, o, n) in edits:
            t = open(f'{W}/{p}').read()
            if t.count(o) != 1: return (name, False, f'edit matches {t.count(o)} times: {o[:60]!r}')
            open(f'{W}/{p}', 'w').write(t.replace(o, n))
        hit, msg = [], ''
        for c in ([prop] if prop and '--all' not in sys.argv else ids):
            r = subprocess.run([D + '/target/debug/optilint', 'check', c, 'quick', '1', O], capture_output=True, text=True, env=dict(os.environ, OPTILINT_REPO=W))
            if r.returncode != 0:
                hit.append(c)
                if not prop:
                    msg += '\n'.join(l[:400] for l in r.stdout.splitlines() if 'KNOWN' not in l)[:1200]
                if 'VIOLATION' not in r.stdout: msg += ' NO-VIOLATION-LINE ' + r.stderr[-300:]
        ok = (prop in hit) if prop else not hit
        return (name, ok, ('caught by ' + ','.join(hit) if prop else 'alarms: ' + ','.join(hit)) + ('\n' + msg if not ok else ''))
    finally: shutil.rmtree(W, ignore_errors=True)
todo = [x for x in L if not sel or any(x[0].startswith(s) for s in sel)]
with ThreadPoolExecutor(8) as ex: res = list(ex.map(run, enumerate(todo)))
for n, ok, m in res:
    if not ok or '-v' in sys.argv: print(('ok   ' if ok else 'FAIL ') + n, m)
print(sum(1 for r in res if r[1]), 'of', len(res), 'as expected')
