#!/usr/bin/env python3
"""Mechanical mutants of whole source files: which ones does no check notice?
usage: sweep.py <file relative to /repo/src> ... [--checks C01,C03] [--nobuild]
Works on copies under /tmp; for the crate `common` a mutant must still compile and pass its tests to count."""
import sys, re, os, shutil, subprocess, concurrent.futures as cf, threading, random
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if not a.startswith('--')]
opt = {a.split('=')[0]: (a.split('=') + [''])[1] for a in sys.argv[1:] if a.startswith('--')}
CH = opt['--checks'].split(',') if opt.get('--checks') else ['C%02d' % i for i in range(1, 17)]
BUILD = '--nobuild' not in opt
OL = os.path.join(D, 'target/debug/optilint')
def code_end(src):
    m = re.search(r'#\[cfg\(test\)\]', src); return m.start() if m else len(src)
SWAP = [('==','!='),('!=','=='),(' < ',' <= '),(' <= ',' < '),(' > ',' >= '),(' >= ',' > '),(' + ',' - '),(' - ',' + '),(' * ',' + '),('&&','||'),('||','&&'),
  ('true','false'),('false','true'),('Some(_)','None'),('is_none','is_some'),('is_some','is_none'),('is_empty()','is_empty() == false'),('Ok(','Ok::<_, _>('),
  ('.and(','.or('),('.or(','.and('),('last','first'),('first','last'),('min','max'),('max','min'),('days','weeks'),('hours','minutes'),('millis','micros'),('insert','remove'),('any(','all('),('all(','any('),('asc','desc')]
def mutants(src):
    end = code_end(src); out = []
    code = src[:end]
    # token swaps
    for a, b in SWAP:
        for m in re.finditer(re.escape(a), code):
            i = m.start()
            if a[0].isalpha() and (code[i-1].isalnum() or code[i-1] == '_'): continue
            if a[-1].isalpha() and i+len(a) < len(code) and (code[i+len(a)].isalnum() or code[i+len(a)] == '_') and a not in ('days','hours','millis'): continue
            out.append((i, i+len(a), b))
    # numbers
    for m in re.finditer(r'(?<![\w.])\d[\d_]*(?![\w.]*\w*")', code):
        t = m.group().replace('_', '')
        out.append((m.start(), m.end(), str(int(t) + 1)))
    # string literals
    for m in re.finditer(r'"((?:[^"\\\n]|\\.)*)"', code):
        ls = code.rfind('\n', 0, m.start()) + 1
        if code[ls:m.start()].lstrip().startswith(('//',)) : continue
        out.append((m.start(), m.end(), '"' + m.group(1) + 'x"'))
    # enum variants on the value side of an arm / path: swap with another variant used in the same impl
    for m in re.finditer(r'(?:=>\s*|=\s*|\(|return\s+|\s)((?:\w+::)+)([A-Z]\w*)', code):
        p, v = m.group(1), m.group(2)
        vs = sorted(set(re.findall(re.escape(p) + r'([A-Z]\w*)', code)) - {v})
        if vs:
            r = random.Random(m.start()); out.append((m.start(2), m.end(2), r.choice(vs)))
    # field accesses: swap with another field name of the file
    fs = sorted(set(re.findall(r'(?:self|req|value|s|v|r)\.([a-z_]\w*)\b(?!\()', code)))
    for m in re.finditer(r'\b(?:self|req|value|s|v|r)\.([a-z_]\w*)\b(?!\()', code):
        o = [f for f in fs if f != m.group(1)]
        for f in random.Random(m.start()).sample(o, min(2, len(o))): out.append((m.start(1), m.end(1), f))
    # delete statement lines
    for m in re.finditer(r'^[ \t]+[^\n]*;\n', code, re.M):
        if re.match(r'\s*(use|pub use|let|return|type|const|mod|//)\b', m.group()): continue
        out.append((m.start(), m.end(), '\n'))
    # attribute lines
    for m in re.finditer(r'^[ \t]*#\[serde[^\n]*\]\n', code, re.M): out.append((m.start(), m.end(), '\n'))
    # drop `?` results, negate conditions
    for m in re.finditer(r'\bif (?!let)([^{\n]+) \{', code): out.append((m.start(1), m.end(1), '!(' + m.group(1) + ')'))
    # swap call args f(a, b)
    for m in re.finditer(r'\((\w[\w.&]*), (\w[\w.&]*)\)', code): 
        if m.group(1) != m.group(2): out.append((m.start(), m.end(), f'({m.group(2)}, {m.group(1)})'))
    seen = set(); res = []
    for a, b, t in out:
        ls = code.rfind('\n', 0, a) + 1
        if code[ls:a].lstrip().startswith('//'): continue
        if (a, b, t) in seen or code[a:b] == t: continue
        seen.add((a, b, t)); res.append((a, b, t))
    return sorted(res)
local = threading.local(); cnt = [0]; lock = threading.Lock(); dirs = []
def setup():
    if hasattr(local, 'd'): return local.d
    with lock: cnt[0] += 1; n = cnt[0]
    d = f'/tmp/sweep/{n}'; shutil.rmtree(d, ignore_errors=True); os.makedirs(d + '/out/evidence')
    subprocess.run(f'mkdir -p {d}/repo && cp /repo/Cargo.toml {d}/repo/ && cp -a /repo/src {d}/repo/src', shell=True, check=True)
    shutil.copy(D + '/known_findings.txt', d + '/out/')
    if BUILD:
        subprocess.run(f'mkdir -p {d}/ws && cp /opt/vp/ws/Cargo.* {d}/ws/ && cp -a /opt/vp/ws/src {d}/ws/ && cp -a /opt/vp/target {d}/target', shell=True, check=True)
    local.d = d; return d
def sh(cmd, env=None, t=120):
    try: return subprocess.run(cmd, shell=True, env=dict(os.environ, **(env or {})), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, text=True, errors='replace')
    except subprocess.TimeoutExpired: return subprocess.CompletedProcess(cmd, 124, '')
def one(job):
    rel, src, (a, b, t) = job
    d = setup(); f = f'{d}/repo/src/{rel}'
    new = src[:a] + t + src[b:]
    open(f, 'w').write(new)
    try:
        if BUILD:
            env = dict(HOME='/root', RUSTUP_TOOLCHAIN='nightly', CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='1', CARGO_PROFILE_DEV_DEBUG='line-tables-only', CARGO_TARGET_DIR=f'{d}/target', CARGO_TERM_COLOR='never')
            sh(f'/opt/vp/bin/trim copy {d}/repo/src/common {d}/ws/src/common arrow2')
            r = sh(f'cd {d}/ws && cargo test --workspace --offline -q', env, 200)
            if r.returncode != 0: return ('nobuild', job, '')
        for c in CH:
            r = sh(f'{OL} check {c} quick 1 {d}/out', {'OPTILINT_REPO': f'{d}/repo'})
            if r.returncode == 1 and f'VIOLATION property={c}' in r.stdout: return ('caught', job, c)
            if r.returncode not in (0, 1): return ('broken', job, c)
        return ('MISSED', job, '')
    finally: open(f, 'w').write(src)
jobs = []
for rel in args:
    src = open('/repo/src/' + rel).read()
    jobs += [(rel, src, m) for m in mutants(src)]
if opt.get('--max'): random.Random(1).shuffle(jobs); jobs = jobs[:int(opt['--max'])]
print(len(jobs), 'mutants', flush=True)
tot = {}
with cf.ThreadPoolExecutor(int(opt.get('--j') or 7)) as ex:
    for k, (rel, src, (a, b, t)), c in ex.map(one, jobs):
        tot[k] = tot.get(k, 0) + 1
        if k in ('MISSED', 'broken'):
            ls = src.rfind('\n', 0, a) + 1; le = src.find('\n', b)
            print(k, c, f'{rel}:{src.count(chr(10), 0, a) + 1}', repr(src[a:b])[:60], '->', repr(t)[:60], '|', src[ls:le].strip()[:110].replace('\n', '\\n'), flush=True)
print(tot)
shutil.rmtree('/tmp/sweep', ignore_errors=True)
