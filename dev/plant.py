#!/usr/bin/env python3
"""Development tool: makes seeded/<id> from a list of edits and confirms it in a scratch copy of /repo (default /tmp/w/seed).
plant.py SPEC.py  where SPEC.py defines BUGS = [dict(id, prop, crate|ext, edits=[(file, old, new)], demo, needs, breaks)]"""
import json, os, shutil, subprocess, sys, runpy
SEED = os.environ.get('SEED', '/tmp/w/seed')
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# run with cwd /repo, after the build: exit 0 when the behaviour is right
here=$(cd "$(dirname "$0")" && pwd)
rm -rf /tmp/vdemo-%(id)s
mkdir -p /tmp/vdemo-%(id)s/src
cp "$here/demo.rs" /tmp/vdemo-%(id)s/src/main.rs
cp Cargo.lock /tmp/vdemo-%(id)s/Cargo.lock
{
printf '[package]\\nname = "demo"\\nversion = "0.1.0"\\nedition = "2021"\\n[workspace]\\n[dependencies]\\n'
%(deps)s} > /tmp/vdemo-%(id)s/Cargo.toml
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=1.96.0 RUSTFLAGS= CARGO_NET_OFFLINE=true
CARGO_TARGET_DIR=/tmp/vdemo-%(id)s/target timeout 250 cargo run -q --offline --manifest-path /tmp/vdemo-%(id)s/Cargo.toml
rc=$?
rm -rf /tmp/vdemo-%(id)s
exit $rc
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def apply(b):
    for f, old, new in b['edits']:
        p = os.path.join(SEED, f)
        s = open(p).read()
        if s.count(old) != 1:
            return '%s: text occurs %d times: %r' % (f, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))


for b in runpy.run_path(sys.argv[1])['BUGS']:
    if len(sys.argv) > 2 and b['id'] not in sys.argv[2:]:
        continue
    sh('git checkout -q -- .', cwd=SEED)
    d = '%s/seeded/%s' % (V, b['id'])
    os.makedirs(d, exist_ok=True)
    if 'crates' in b:
        deps = ''.join('echo "%s = { path = \\"$PWD/crates/%s\\" }"\n' % c if isinstance(c, tuple) else 'echo "%s = { path = \\"$PWD/crates/%s\\" }"\n' % (c, c) for c in b['crates'])
        open(d + '/demo.sh', 'w').write(DEMO % dict(id=b['id'], deps=deps))
        open(d + '/demo.rs', 'w').write(b['demo'].lstrip('\n'))
    elif 'sql' in b:
        for n in ('demo.sh', 'schema.sql.gz'):
            shutil.copy('%s/dev/sqd/%s' % (V, n), d)
        open(d + '/demo.sql', 'w').write(b['sql'].lstrip('\n'))
    else:
        for n, t in b['files'].items():
            open('%s/%s' % (d, n), 'w').write(t)
    json.dump(dict(property=b['prop'], needs=b['needs'], what_it_breaks=b['breaks']), open(d + '/meta.json', 'w'), indent=1)
    r0 = sh('VDEMO_TARGET=%s bash %s/demo.sh' % (SEED + '/target', d), cwd=SEED)
    e = apply(b)
    if e:
        print(b['id'], 'EDIT', e)
        continue
    open(d + '/patch.diff', 'w').write(sh('git diff', cwd=SEED).stdout)
    r1 = sh('VDEMO_TARGET=%s/target bash %s/demo.sh' % (SEED, d), cwd=SEED)
    t = sh('. /tmp/w/vp/env.sh; export CARGO_TARGET_DIR=%s/target; %s' % (SEED, ' && '.join('cargo test -q --offline -p %s' % c for c in b['tests'])), cwd=SEED, executable='/bin/bash') if b.get('tests') else None
    if not b.get('tests'):
        sh('rm -f /tmp/w/vp/o.json; bash /tmp/w/vp/test.sh /tmp/w/vp/o.json', cwd=SEED)
        t = sh('bash /tmp/w/tests.sh')
        t.returncode = 0 if t.stdout.strip().endswith('457 0 []') else 1
        t.stdout = 'FAILED ' + t.stdout
    ok = r0.returncode == 0 and r1.returncode != 0 and (not t or t.returncode == 0)
    print(b['id'], 'OK' if ok else 'BAD', 'demo clean', r0.returncode, 'patched', r1.returncode, 'tests', t and t.returncode)
    if r0.returncode:
        print(r0.stdout[-1500:])
    if r1.returncode == 0:
        print('   demo passes with the patch')
    if t and t.returncode:
        print('\n'.join(l for l in t.stdout.splitlines() if 'FAILED' in l or 'panicked' in l or 'error' in l)[:1500])
    sh('git checkout -q -- .', cwd=SEED)
