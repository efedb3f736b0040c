"""Maintenance of planted bugs: seed.py save ID | demo ID | verify ID [notests] | check ID PROPS..."""
import json, os, subprocess, sys
V = '/verif'
R = '/repo'
SH = '''#!/bin/bash
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here"/*.rs "$d/src/"
cp "$repo/Cargo.lock" "$d/"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
closure-ffi = { path = "$repo"FEATS }
[workspace]
T
cd "$d"
RUN
'''
def sh(c, **k):
    return subprocess.run(c, shell=True, **k)
def clean():
    o = subprocess.run(['git', '-C', R, 'status', '--porcelain'], capture_output=True, text=True).stdout
    return not o.strip()
def demo(i):
    p = subprocess.run(['bash', f'{V}/seeded/{i}/demo.sh'], cwd=R, capture_output=True, text=True)
    return p.returncode, (p.stdout + p.stderr)[-400:]
def apply(i):
    assert clean()
    assert sh(f'git -C {R} apply {V}/seeded/{i}/patch.diff').returncode == 0
def reset():
    sh(f'git -C {R} checkout -q -- .')
def tests():
    if sh('bash /opt/vp/build.sh > /tmp/build.log 2>&1').returncode:
        return 'BUILD FAILS'
    sh('bash /opt/vp/test.sh /tmp/out.json > /tmp/test.log 2>&1')
    b = json.load(open('/opt/vp/BASELINE.json')); o = set(json.load(open('/tmp/out.json'))['passed'])
    return [x for x in b['stable'] if x not in o]
def check(i, props):
    apply(i)
    try:
        for p in props:
            q = subprocess.run(['./check', p], cwd=V, capture_output=True, text=True)
            hit = f'VIOLATION property={p} ' in q.stdout
            lines = [l for l in q.stdout.splitlines() if l.startswith('  [') or 'error' in l]
            print(i, p, 'exit', q.returncode, 'CAUGHT' if q.returncode == 1 and hit else 'MISSED', len(lines), (lines or [''])[0][:300], flush=True)
    finally:
        reset()
cmd, i = sys.argv[1:3]
if cmd == 'save':  # needs changes in /repo; prop, needs, what, feats, run follow
    prop, needs, what = sys.argv[3:6]
    feats = sys.argv[6] if len(sys.argv) > 6 else ''
    run = sys.argv[7] if len(sys.argv) > 7 else 'cargo run --offline -q'
    d = f'{V}/seeded/{i}'
    os.makedirs(d, exist_ok=True)
    diff = subprocess.run(['git', '-C', R, 'diff'], capture_output=True, text=True).stdout
    assert diff
    open(d + '/patch.diff', 'w').write(diff)
    if not os.path.exists(d + '/demo.sh'):
        open(d + '/demo.sh', 'w').write(SH.replace('FEATS', feats).replace('RUN', run))
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': what}, open(d + '/meta.json', 'w'), indent=1)
    reset()
elif cmd == 'demo':
    print(demo(i))
elif cmd == 'verify':
    prop = json.load(open(f'{V}/seeded/{i}/meta.json'))['property']
    print(i, 'clean demo', demo(i), flush=True)
    apply(i)
    try:
        if 'notests' not in sys.argv:
            print(i, 'failing stable tests', tests(), flush=True)
        print(i, 'bug demo', demo(i), flush=True)
    finally:
        reset()
    check(i, [prop])
elif cmd == 'check':
    check(i, sys.argv[3:] or [json.load(open(f'{V}/seeded/{i}/meta.json'))['property']])
