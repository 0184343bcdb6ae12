"""Builds and validates the planted bugs of seeded/ from tools/seeds/*.py definitions.
usage: mkseed.py [ID ...]      (works in a scratch copy of /repo under /tmp)"""
import os, sys, subprocess, json, shutil, glob
HERE = os.path.dirname(os.path.abspath(__file__))
SEEDED = os.path.join(os.path.dirname(HERE), 'seeded')
W = '/tmp/seedwork'
DEMO = '''#!/bin/bash
# exits 0 when the demonstration passes on the crate in the current directory
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$PWD
D=$(mktemp -d)
trap 'rm -rf "$D"' EXIT
mkdir -p "$D/src"
cp "$HERE/main.rs" "$D/src/main.rs"
[ -f "$REPO/Cargo.lock" ] && cp "$REPO/Cargo.lock" "$D/Cargo.lock"
cat > "$D/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[dependencies]
kuba = { path = "$REPO" }
nalgebra = "0.22"
ndarray = "0.13.1"
[workspace]
T
export CARGO_TARGET_DIR=${DEMO_TARGET:-$D/target}
cd "$D" || exit 2
cargo build --offline --quiet 2> "$D/err" || { cat "$D/err"; exit 2; }
timeout 60 "$CARGO_TARGET_DIR/debug/demo"
'''
def sh(cmd, cwd=W, **kw): return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
def load():
    out = {}
    for f in sorted(glob.glob(os.path.join(HERE, 'seeds', '*.py'))):
        g = {}
        exec(open(f).read(), g)
        for s in g['SEEDS']: out[s['id']] = s
    return out
def main():
    defs = load()
    ids = sys.argv[1:] or list(defs)
    if not os.path.isdir(W):
        shutil.copytree('/repo', W, symlinks=True)
    sh('git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD')
    stable = json.load(open('/opt/vp/BASELINE.json'))
    for i in ids:
        s = defs[i]
        d = os.path.join(SEEDED, i)
        sh('git checkout -q -- .')
        for f, old, new in s['edits']:
            p = os.path.join(W, f)
            t = open(p).read()
            if t.count(old) != 1: print(i, 'FAILED: the text occurs %d times in %s' % (t.count(old), f)); break
            open(p, 'w').write(t.replace(old, new))
        else:
            os.makedirs(d, exist_ok=True)
            diff = sh('git diff').stdout
            open(os.path.join(d, 'patch.diff'), 'w').write(diff)
            open(os.path.join(d, 'demo.sh'), 'w').write(DEMO); os.chmod(os.path.join(d, 'demo.sh'), 0o755)
            open(os.path.join(d, 'main.rs'), 'w').write(s['main'])
            json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
            t = sh('cargo test --workspace --offline 2>&1 | grep -E "^test result|FAILED|error(\\[|:)"').stdout
            passed = t.count('62 passed') >= 1
            dem = sh('DEMO_TARGET=/tmp/seedtarget bash %s/demo.sh' % d)
            sh('git checkout -q -- .')
            dem0 = sh('DEMO_TARGET=/tmp/seedtarget bash %s/demo.sh' % d)
            good = passed and dem.returncode not in (0, 2) and dem0.returncode == 0
            print(i, 'ok' if good else 'BAD', 'tests', 'pass' if passed else t[-600:], 'demo with patch', dem.returncode, 'without', dem0.returncode,
                  '' if good else (dem.stdout[-600:] + dem0.stdout[-600:]))
main()
