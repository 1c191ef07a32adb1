#!/usr/bin/env python3
"""Write and confirm planted bugs.

mkseeds.py [ID...]   for each seed of seeds_def.py: write seeded/ID/{patch.diff,demo.sh,demo.rs,meta.json}
                     in a scratch copy of /repo, and confirm that it builds, passes the stable
                     tests, and that the demo passes without it and fails with it.
Nothing here is read by a check.
"""
import json, os, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(__file__))
from seeds_def import SEEDS, PRELUDE

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0: the property holds on this input; run with cwd = the repository
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
unset CARGO_TARGET_DIR RUSTFLAGS
d=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
cat >"$d/Cargo.toml" <<E
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
raw-cpuid = {{ path = "$repo", features = [{features}] }}
{deps}
[workspace]
E
cp "$repo/Cargo.lock" "$d/Cargo.lock" 2>/dev/null
cd "$d" && cargo build --offline --quiet 2>"$d/log" || {{ cat "$d/log" >&2; exit 3; }}
timeout 120 "$d/target/debug/demo"
'''

def sh(cmd, cwd=None, timeout=600):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout)

def main():
    want = sys.argv[1:]
    base = json.load(open('/opt/vp/BASELINE.json'))
    scratch = '/tmp/seedrepo'
    shutil.rmtree(scratch, ignore_errors=True)
    sh(f'cp -a /repo {scratch}')
    ok = True
    for s in SEEDS:
        if want and s['id'] not in want:
            continue
        d = f"{V}/seeded/{s['id']}"
        os.makedirs(d, exist_ok=True)
        sh('git checkout -- .', scratch)
        if s.get('script'):
            open(f'{d}/demo.sh', 'w').write(s['script'])
            if s['demo']:
                open(f'{d}/demo.rs', 'w').write(s['demo'])
        else:
            open(f'{d}/demo.rs', 'w').write(('' if s.get('raw') else PRELUDE) + s['demo'])
            open(f'{d}/demo.sh', 'w').write(DEMO.format(features=s.get('features', ''), deps=s.get('deps', '')))
        os.chmod(f'{d}/demo.sh', 0o755)
        clean = sh(f'bash {d}/demo.sh', scratch)
        for e in s['edits']:
            f, old, new = e[:3]
            p = f'{scratch}/src/{f}'
            t = open(p).read()
            n = e[3] if len(e) > 3 else None
            if n is None:
                assert t.count(old) == 1, (s['id'], old, t.count(old))
                t = t.replace(old, new)
            else:
                parts = t.split(old)
                assert len(parts) > n + 1, (s['id'], old, len(parts))
                t = old.join(parts[:n + 1]) + new + old.join(parts[n + 1:])
            open(p, 'w').write(t)
        diff = sh('git diff', scratch).stdout
        open(f'{d}/patch.diff', 'w').write(diff)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['what']},
                  open(f'{d}/meta.json', 'w'), indent=1)
        bad = sh(f'bash {d}/demo.sh', scratch)
        env = 'export HOME=/root PATH=/usr/local/bin:/usr/bin:/bin RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never;'
        log = tempfile.mktemp()
        b = sh(env + 'cargo build --workspace --offline', scratch)
        t = sh(env + f'cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8 >{log} 2>&1; python3 /opt/vp/results.py {log}.json cargo:{log}', scratch)
        res = json.load(open(log + '.json'))
        passed = set(res.get('passed', []))
        stable = base.get('stable') or base.get('tests') or base.get('passed')
        missing = [x for x in stable if x not in passed]
        good = clean.returncode == 0 and bad.returncode not in (0, 3) and b.returncode == 0 and not missing
        ok &= good
        print(s['id'], s['property'], 'OK' if good else 'BAD', 'clean', clean.returncode, 'patched', bad.returncode,
              'build', b.returncode, 'missing', len(missing), flush=True)
        if not good:
            print('  clean:', clean.stderr[-500:], clean.stdout[-300:])
            print('  patched:', bad.stderr[-700:])
            print('  build:', b.stderr[-500:], 'tests', missing[:5])
        else:
            l = [x for x in bad.stderr.splitlines() if x.strip()]
            print('   ', (l[0] if l else '')[:160])
    shutil.rmtree(scratch, ignore_errors=True)
    return 0 if ok else 1

sys.exit(main())
