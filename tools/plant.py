"""build and confirm a planted bug: plant.py SPEC.py  (SPEC defines ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO, DEPS)"""
import json, os, subprocess, sys, shutil
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = '/tmp/plant_wt'
DEMO_SH = '''#!/bin/bash
# exit 0 when the library behaves as the property says
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export HOME=/root PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=nightly-2026-03-10 CARGO_NET_OFFLINE=true RUSTC_WRAPPER= RUST_BACKTRACE=0
d=/tmp/oni_demo_%(id)s
mkdir -p $d/src
cp "$here/main.rs" $d/src/main.rs
cp -r "$repo/toys/src" $d/src/toys
cp "$repo/Cargo.lock" $d/Cargo.lock
cat > $d/Cargo.toml <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
%(deps)s
T
cd $d
CARGO_TARGET_DIR=$d/target cargo build -q --offline || { rm -rf /tmp/oni_demo_%(id)s; exit 2; }
timeout 60 $d/target/debug/demo
rc=$?
cd /
rm -rf /tmp/oni_demo_%(id)s
exit $rc
'''
PK = {'parser': 'oni-comb-parser-rs', 'uri': 'oni-comb-uri-rs', 'crond': 'oni-comb-crond-rs', 'hocon': 'oni-comb-hocon-rs', 'toys': 'oni-comb-toys-rs'}


def sh(cmd, cwd=None, timeout=900):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout)


def main(spec):
    S = {}
    exec(open(spec).read(), S)
    i = S['ID']
    if not os.path.isdir(WT):
        sh('cp -a /repo %s' % WT)
    sh('git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD && git checkout -q -- .', WT)
    for f, a, b in S['EDITS']:
        s = open(WT + '/' + f).read()
        if s.count(a) < 1:
            print(i, 'EDIT NOT FOUND', f, a); return 1
        k = S.get('NTH', 0)
        if k:
            pos = -1
            for _ in range(k):
                pos = s.index(a, pos + 1)
            s = s[:pos] + b + s[pos + len(a):]
        else:
            s = s.replace(a, b, 1)
        open(WT + '/' + f, 'w').write(s)
    d = '%s/seeded/%s' % (H, i)
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(sh('git diff', WT).stdout)
    open(d + '/main.rs', 'w').write(S['DEMO'])
    deps = ''.join('%s = { path = "$repo/%s" }\n' % (PK[c], c) for c in S.get('CRATES', ['parser'])) + S.get('DEPS', '')
    open(d + '/demo.sh', 'w').write(DEMO_SH % {'id': i, 'deps': deps.strip()})
    json.dump({'property': S['PROP'], 'needs': S['NEEDS'], 'what_it_breaks': S['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
    env = '. /opt/vp/env.sh; cd %s; ' % WT
    r = sh(env + 'cargo test --workspace --no-run --offline 2>&1 | tail -30')
    if 'error' in r.stdout and 'could not compile' in r.stdout:
        print(i, 'DOES NOT COMPILE', r.stdout); return 1
    r = sh(env + 'timeout 600 cargo nextest run --workspace --offline --no-fail-fast --test-threads 8 2>&1 | tail -40')
    r2 = sh(env + 'timeout 250 cargo test --workspace --doc --no-fail-fast --offline -- --test-threads 8 2>&1 | grep -E "^test .*FAILED|error(\\[|:)"')
    fails = [l for l in r.stdout.splitlines() if ' FAIL ' in l or 'SIGABRT' in l or 'TIMEOUT' in l] + r2.stdout.splitlines()
    if fails or 'Summary' not in r.stdout:
        print(i, 'TESTS FAIL', fails[:6], r.stdout[-300:] if not fails else ''); bad = 1
    else:
        bad = 0
    w = sh('bash %s/demo.sh' % d, WT)
    o = sh('bash %s/demo.sh' % d, '/repo')
    print(i, 'tests', 'BAD' if bad else 'ok', '| demo patched rc', w.returncode, '| demo clean rc', o.returncode, (o.stderr + o.stdout)[-300:] if o.returncode else '')
    if w.returncode == 2: print("\n".join(l for l in w.stderr.splitlines() if l.startswith("error") or " --> src" in l))
    return 0


if __name__ == '__main__':
    for s in sys.argv[1:]:
        main(s)
