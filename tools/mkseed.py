#!/usr/bin/env python3
"""Makes and verifies planted bugs: tools/mkseed.py [id...] writes /verif/seeded/<id>/ and, in a scratch copy of
/repo, confirms that the patch builds, keeps the stable tests and turns its demo from 0 to nonzero; then runs the
check of its property (and with --all every check) on the patched copy."""
import json, os, subprocess, sys, tempfile, shutil, glob
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COMMON = open(os.path.join(D, 'tools', 'demo_common.sh')).read()
SEEDS = {}
def seed(id, prop, edits, needs, breaks, demo=None, files=None, script=None):
    assert id not in SEEDS, id
    SEEDS[id] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, files=files or {}, script=script)
for f in sorted(glob.glob(os.path.join(D, 'tools', 'seeds', '*.py'))):
    exec(compile(open(f).read(), f, 'exec'))
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
def main():
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    allc = '--all' in sys.argv
    nodemo = '--nodemo' in sys.argv
    ids = args or sorted(SEEDS)
    W = '/tmp/mkseed_repo'
    shutil.rmtree(W, ignore_errors=True)
    subprocess.check_call(['git', 'clone', '-q', '/repo', W])
    cid = [c['property'] for c in json.load(open(os.path.join(D, 'MANIFEST.json')))['checks']]
    bad = []
    for i in ids:
        s = SEEDS[i]
        sh('git checkout -q -- . && git clean -fdq', cwd=W)
        out = os.path.join(D, 'seeded', i)
        shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
        for (path, old, new) in s['edits']:
            p = os.path.join(W, path); t = open(p).read()
            assert t.count(old) == 1, (i, path, t.count(old), old)
            open(p, 'w').write(t.replace(old, new))
        open(os.path.join(out, 'patch.diff'), 'w').write(sh('git diff', cwd=W).stdout)
        if s['demo']:
            open(os.path.join(out, 'demo.rs'), 'w').write(s['demo'])
            open(os.path.join(out, 'demo.sh'), 'w').write(COMMON)
        else:
            open(os.path.join(out, 'demo.sh'), 'w').write(s['script'])
        for n, t in s['files'].items():
            open(os.path.join(out, n), 'w').write(t)
        os.chmod(os.path.join(out, 'demo.sh'), 0o755)
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(os.path.join(out, 'meta.json'), 'w'), indent=1)
        st = 'skipped'
        if not nodemo:
            r1 = sh(f'bash {out}/demo.sh', cwd=W)
            sh('git stash -q', cwd=W)
            r0 = sh(f'bash {out}/demo.sh', cwd=W)
            sh('git stash pop -q', cwd=W)
            st = f'clean={r0.returncode} patched={r1.returncode}'
            if r0.returncode != 0: print((r0.stdout + r0.stderr)[-1500:])
            if r1.returncode == 0 or 'error[' in r1.stderr or 'error:' in r1.stderr and 'test failed' not in r1.stderr:
                print((r1.stdout + r1.stderr)[-1500:])
            if r0.returncode != 0 or r1.returncode == 0: bad.append(i)
        env = dict(os.environ, OPTILINT_REPO=W)
        hit = []
        for c in (cid if allc else [s['prop']]):
            r = subprocess.run([D + '/target/debug/optilint', 'check', c, 'quick', '1', '/tmp/mkseed_out'], capture_output=True, text=True, env=env)
            if r.returncode != 0: hit.append(c + ('' if 'VIOLATION property=' + c in r.stdout else f'(rc={r.returncode} no VIOLATION)'))
        print(i, s['prop'], st, 'caught by', hit or 'NONE', flush=True)
        if s['prop'] not in hit: bad.append(i)
    shutil.rmtree(W, ignore_errors=True)
    print('problems:', bad)
os.makedirs('/tmp/mkseed_out/evidence', exist_ok=True)
shutil.copy(os.path.join(D, 'known_findings.txt'), '/tmp/mkseed_out/')
main()
