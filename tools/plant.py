#!/usr/bin/env python3
"""Plant one bug: plant.py SPEC.py -- applies the replacement in a scratch copy, confirms it builds, passes the
existing tests, and that its demonstration fails with it and passes without; then writes seeded/<id>/."""
import json, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = '/tmp/t/plant/repo'
DEMO = '''#!/bin/bash
# run with cwd /repo: exit 0 when the property holds, nonzero when it is broken
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
d=$(mktemp -d) || exit 9
trap 'find "$d" -delete' EXIT
mkdir "$d/src" && cp "$here/demo.rs" "$d/src/main.rs"
printf '[package]\\nname = "demo"\\nversion = "0.1.0"\\nedition = "2018"\\n[workspace]\\n[dependencies]\\nfourleaf = { path = "%s" }\\n[profile.dev]\\ndebug = 0\\n' "$repo" > "$d/Cargo.toml"
export CARGO_TARGET_DIR="$d/target" RUSTFLAGS=-Awarnings
cargo build --offline -q --manifest-path "$d/Cargo.toml" || exit 8
timeout 120 "$d/target/debug/demo"
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def tests(out):
    sh('FOO=1 bash /tmp/t/plant/test.sh ' + out)
base = set(json.load(open('/opt/vp/BASELINE.json')).get('stable', []) or [])
def main(b):
    global S
    i = b['id']
    shutil.rmtree(S, ignore_errors=True); shutil.copytree('/repo', S, symlinks=True, ignore=shutil.ignore_patterns('target'))
    for f, old, new in b['edits']:
        p = os.path.join(S, f); s = open(p).read()
        if s.count(old) < 1: print(i, 'NOT FOUND', f, repr(old[:60])); return False
        n = b.get('nth', {}).get(f, 0)
        parts = s.split(old)
        if len(parts) - 1 > 1 and f not in b.get('nth', {}): print(i, 'AMBIGUOUS', f, len(parts) - 1); return False
        s = old.join(parts[:n + 1]) + new + old.join(parts[n + 1:])
        open(p, 'w').write(s)
    diff = sh('git -C %s diff' % S).stdout
    r = sh('cd %s && RUSTFLAGS=-Awarnings timeout 600 cargo test --offline --target-dir /tmp/t/plant/target 2>&1' % S)
    m = re.findall(r'test result: (\w+)\. (\d+) passed; (\d+) failed', r.stdout)
    okt = bool(m) and all(x[0] == 'ok' for x in m) and r.returncode == 0
    d = os.path.join('/tmp/t/plant/out', i); os.makedirs(d, exist_ok=True)
    open(d + '/demo.sh', 'w').write(DEMO); os.chmod(d + '/demo.sh', 0o755)
    open(d + '/demo.rs', 'w').write(b['demo'].lstrip('\n'))
    open(d + '/patch.diff', 'w').write(diff)
    json.dump(dict(property=b['prop'], needs=b['needs'], what_it_breaks=b['breaks']), open(d + '/meta.json', 'w'), indent=1)
    if not okt:
        print(i, 'TESTS FAIL', m, '\n'.join(l for l in r.stdout.splitlines() if 'FAILED' in l or 'error' in l)[:800]); return False
    a = sh('cd /repo && bash %s/demo.sh' % d); c = sh('cd %s && bash %s/demo.sh' % (S, d))
    good = a.returncode == 0 and c.returncode not in (0, 8, 9)
    print(i, 'OK' if good else 'DEMO BAD', 'tests', m, 'clean', a.returncode, 'patched', c.returncode, (c.stdout + c.stderr)[-200:].strip() if good else (a.stderr[-600:] + '|' + c.stderr[-300:]))
    if good:
        t = os.path.join(V, 'seeded', i); shutil.rmtree(t, ignore_errors=True); shutil.copytree(d, t)
    return good
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
for b in ns['BUGS']:
    if not only or b['id'] in only: main(b)
