#!/usr/bin/env python3
"""Development helper: plant.py SPEC.py...  Each spec defines id, property, needs, breaks, edits [(file, old, new)], demo (Rust).
Verifies the change in a scratch copy (/tmp/w) and stores it under /verif/seeded/<id>/."""
import json, os, re, runpy, shutil, subprocess, sys
W = '/tmp/w'
SEED = '/verif/seeded'
DEMO = '''#!/bin/bash
# Builds demo.rs against the crate in the current directory and runs it; exit 0 iff the property holds in it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
. /opt/vp/env.sh 2>/dev/null
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$t/target" TMPDIR="$t"
mkdir -p "$t/p/src"
cp "$here/demo.rs" "$t/p/src/main.rs"
cp "$repo/Cargo.lock" "$t/p/Cargo.lock"
cat > "$t/p/Cargo.toml" <<E
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
over = { path = "$repo" }
num-bigint = "0.2"
num-rational = "0.2"
E
cd "$t/p" && cargo build -q --offline >"$t/log" 2>&1 || { cat "$t/log"; exit 2; }
mkdir "$t/scratch" && cd "$t/scratch" && timeout 120 "$t/target/debug/demo"
'''

def sh(c, cwd=W, **k):
    return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def main():
    base = json.load(open('/opt/vp/BASELINE.json'))
    stable = base['stable']
    if not os.path.isdir(W):
        sh('cp -a /repo ' + W, cwd='/')
    head = sh('git rev-parse HEAD', cwd='/repo').stdout.strip()
    sh('git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD')
    for spec in sys.argv[1:]:
        s = runpy.run_path(spec)
        sh('git checkout -q -- .')
        bad = None
        for f, old, new in s['edits']:
            p = os.path.join(W, f)
            t = open(p).read()
            if t.count(old) != 1:
                bad = 'edit text occurs %d times in %s: %r' % (t.count(old), f, old[:60]); break
            open(p, 'w').write(t.replace(old, new))
        if bad:
            print(s['id'], 'FAILED', bad); continue
        diff = sh('git diff').stdout
        r = sh('. /opt/vp/env.sh; cargo test --workspace --no-fail-fast --offline -- --test-threads 8')
        failed = sorted(set(re.findall(r'^test (\S+) \.\.\. FAILED', r.stdout, re.M)))
        passed = set(re.findall(r'^test (\S+) \.\.\. ok', r.stdout, re.M))
        if 'could not compile' in r.stdout:
            print(s['id'], 'FAILED compile\n' + '\n'.join(l for l in r.stdout.splitlines() if 'error' in l)[:1500]); continue
        failed = [f for f in failed if any(x.endswith('::' + f) for x in stable)]
        if failed:
            print(s['id'], 'FAILED stable tests', failed); continue
        d = os.path.join(SEED, s['id'])
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.sh', 'w').write(DEMO)
        os.chmod(d + '/demo.sh', 0o755)
        open(d + '/demo.rs', 'w').write(s['demo'])
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        a = sh('bash %s/demo.sh' % d, cwd=W)
        sh('git checkout -q -- .')
        b = sh('bash %s/demo.sh' % d, cwd=W)
        ok = a.returncode not in (0, 2) and b.returncode == 0
        print(s['id'], 'OK' if ok else 'FAILED', 'demo patched=%d clean=%d' % (a.returncode, b.returncode))
        if not ok:
            print((a.stdout[-600:], b.stdout[-600:]))
            shutil.rmtree(d)
main()
