#!/usr/bin/env python3
"""plant.py SPEC.py: try planted bugs. SPEC defines SEEDS = {id: dict(property, file, edits=[(old,new)], demo=(crate deps, rust code), needs, breaks)}.
Keeps a seed under /verif/seeded/<id> only if it builds, passes the tests, and its demo tells it from the unchanged tree."""
import json, os, re, shutil, subprocess, sys
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
R = '/repo'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
TOML = '''[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[workspace]
[dependencies]
%s
'''
SH = '''#!/bin/bash
# exit 0 when the behaviour is right
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$W"' EXIT
mkdir -p "$W/src"
cp "$D/demo.rs" "$W/src/main.rs"
cp "$D/demo.toml" "$W/Cargo.toml"
cp /repo/Cargo.lock "$W/Cargo.lock"
cd "$W" || exit 2
export CARGO_TARGET_DIR="$W/target"
cargo run --offline --quiet
'''
for sid, d in ns['SEEDS'].items():
    if only and sid not in only: continue
    p = f'{R}/{d["file"]}'
    assert sh(f'git -C {R} status --short').stdout == '', 'dirty'
    s = open(p).read()
    for a, b in d['edits']:
        if s.count(a) < 1: print(sid, 'PATTERN NOT FOUND', a[:80]); break
        s = s.replace(a, b, 1)
    else:
        o = f'/tmp/seed/{sid}'
        os.makedirs(o, exist_ok=True)
        deps, code = d['demo']
        open(f'{o}/demo.rs', 'w').write(code)
        open(f'{o}/demo.toml', 'w').write(TOML % deps)
        open(f'{o}/demo.sh', 'w').write(d.get('sh', SH))
        json.dump({'property': d['property'], 'needs': d['needs'], 'what_it_breaks': d['breaks']}, open(f'{o}/meta.json', 'w'), indent=1)
        c = sh(f'bash {o}/demo.sh', cwd=R)
        if c.returncode != 0: print(sid, 'demo fails on the unchanged tree', c.stdout[-800:], c.stderr[-1500:]); continue
        open(p, 'w').write(s)
        try:
            open(f'{o}/patch.diff', 'w').write(sh(f'git -C {R} diff').stdout)
            b = sh('bash /opt/vp/build.sh')
            if b.returncode != 0: print(sid, 'does not build', b.stderr[-1500:]); continue
            oj = f'/tmp/o.{os.getpid()}.json'; sh('bash /opt/vp/test.sh ' + oj)
            t = json.load(open(oj))
            base = json.load(open('/opt/vp/BASELINE.json'))
            if len(t['failed']): print(sid, 'tests catch it:', [x for x in t['failed']][:4]); continue
            c = sh(f'bash {o}/demo.sh', cwd=R)
            if c.returncode == 0: print(sid, 'demo does not notice'); continue
            out = c.stderr[-300:]
            r = sh(f'python3 check.py {d["property"]} --tier quick', cwd='/verif')
            caught = r.returncode == 1 and f'VIOLATION property={d["property"]}' in r.stdout
            print(sid, 'KEPT', 'caught' if caught else f'MISSED rc={r.returncode}', '' if caught else r.stdout[-1500:] + r.stderr[-500:], '| demo:', out.strip().splitlines()[-3:])
            k = f'/verif/seeded/{sid}'
            os.makedirs(k, exist_ok=True)
            for f in os.listdir(o): shutil.copy(f'{o}/{f}', f'{k}/{f}')
            json.dump(caught, open(f'/tmp/seed/{sid}.caught', 'w'))
        finally:
            sh(f'git -C {R} checkout -- .')
sh('bash /opt/vp/build.sh')
