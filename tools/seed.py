#!/usr/bin/env python3
"""seed.py make FILE...   turn seed descriptions into seeded/<id>/ after confirming them in a scratch copy
   seed.py run ID... [--tier t]   run the property's check against a copy of /repo with each change

A description file (python literal): dict(id, property, needs, what, edits=[(file, old, new)...], demo='''rust main body''')."""
import sys, os, subprocess, shutil, json, tempfile, ast
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# builds demo.rs against /repo in a scratch directory and runs it there
here=$(cd "$(dirname "$0")" && pwd); d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
mkdir "$d/src" && cp "$here/demo.rs" "$d/src/main.rs" && cp /repo/Cargo.lock "$d/" || exit 2
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
geom3d = { path = "/repo" }
[profile.dev]
debug = 0
[workspace]
T
cd "$d" && CARGO_TARGET_DIR="$d/target" cargo build --offline -q 2>"$d/log" || { cat "$d/log"; exit 3; }
timeout 60 ./target/debug/demo
'''
def sh(c, cwd=None, **k): return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def make(path):
    d = eval(open(path).read())
    for x in d if isinstance(d, list) else [d]: make1(x, os.path.dirname(path))
def make1(d, here):
    if d['demo'].startswith('@mesh:'): d['demo'] = 'const LIST: &[u64] = &[%s];\n' % d['demo'][6:] + open(here + '/mesh_demo.rs').read()
    if d['demo'].startswith('@step'): d['demo'] = open(here + '/step_demo.rs').read()
    out = os.path.join(ROOT, 'seeded', d['id'])
    w = '/tmp/w/seedrepo_' + d['id']; shutil.rmtree(w, ignore_errors=True); sh(f'git -C /repo worktree prune'); 
    os.makedirs('/tmp/w', exist_ok=True); sh(f'cp -a /repo {w}')
    for f, a, b in d['edits']:
        p = os.path.join(w, f); s = open(p).read(); assert s.count(a) == 1, (d['id'], f, a, s.count(a)); open(p, 'w').write(s.replace(a, b))
    diff = sh('git diff', cwd=w).stdout
    assert diff, 'no change'
    os.makedirs(out, exist_ok=True); open(out + '/patch.diff', 'w').write(diff); open(out + '/demo.rs', 'w').write(d['demo']); open(out + '/demo.sh', 'w').write(DEMO); os.chmod(out + '/demo.sh', 0o755)
    json.dump(dict(property=d['property'], needs=d['needs'], what_it_breaks=d['what']), open(out + '/meta.json', 'w'), indent=1)
    t = sh('timeout 120 cargo test --workspace --no-fail-fast --offline -- --test-threads 8', cwd=w)
    import re
    okc = sum(int(x) for x in re.findall(r'(\d+) passed', t.stdout)); bad = sum(int(x) for x in re.findall(r'(\d+) failed', t.stdout))
    if t.returncode or okc < 14: print(d['id'], 'TESTS FAIL', okc, bad, t.stdout[-1500:]); return
    r0 = sh('bash ' + out + '/demo.sh', cwd='/repo')
    r1 = sh(f"unshare -m bash -c 'mount --bind {w} /repo && cd /repo && bash {out}/demo.sh'")
    okk = r0.returncode == 0 and r1.returncode != 0 and r1.returncode != 3 and r1.returncode != 2
    print(d['id'], 'OK' if okk else 'BAD', 'base', r0.returncode, 'patched', r1.returncode, '' if okk else r0.stdout[-800:] + '|' + r1.stdout[-800:], flush=True)
    shutil.rmtree(w, ignore_errors=True)
def run(sid, tier):
    """applies the change to a copy of /repo mounted over /repo (with a copy of /verif over /verif) in a mount namespace of its own"""
    p = os.path.join(ROOT, 'seeded', sid); prop = json.load(open(p + '/meta.json'))['property']
    r, v = f'/tmp/w/sr_{sid}', f'/tmp/w/sv_{sid}'
    for x in (r, v): shutil.rmtree(x, ignore_errors=True)
    os.makedirs('/tmp/w', exist_ok=True); sh(f'git -C /repo worktree prune; cp -a /repo {r}; mkdir {v}; tar -C {ROOT} --exclude=./.git --exclude=./seeded -cf - . | tar -C {v} -xf -')
    a = sh(f'git apply {p}/patch.diff', cwd=r)
    if a.returncode: print(sid, 'does not apply', a.stdout); return
    t = __import__('time').time()
    c = sh(f"unshare -m bash -c 'mount --bind {r} /repo && mount --bind {v} /verif && cd /verif && python3 check.py {prop} {tier}'")
    for x in (r, v): shutil.rmtree(x, ignore_errors=True)
    m = [l for l in c.stdout.split('\n') if 'native:' in l][:1]
    print(sid, prop, {0: 'MISSED', 1: 'caught'}.get(c.returncode, 'ERROR'), '%.0fs' % (__import__('time').time() - t), (m or [c.stdout[-600:]])[0][:220], flush=True)
if sys.argv[1] == 'make':
    for f in sys.argv[2:]: make(f)
else:
    tier = 'quick'; ids = sys.argv[2:]
    if '--tier' in ids: i = ids.index('--tier'); tier = ids[i + 1]; del ids[i:i + 2]
    if ids == ['all']: ids = sorted(os.listdir(ROOT + '/seeded'))
    for s in ids: run(s, tier)
