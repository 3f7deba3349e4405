#!/usr/bin/env python3
"""Builds the symbolic runtime, the instrumented harness and the native replay binaries from /repo's working tree."""
import os, sys, subprocess, hashlib, fcntl, json, shutil, time
ROOT = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get('GEOM3D_REPO', '/repo'); B = os.path.join(ROOT, 'build')

def tree_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        fs = [p] if os.path.isfile(p) else sorted(os.path.join(d, f) for d, _, ff in os.walk(p) for f in ff)
        for f in fs: h.update(f.encode() + b'\0' + open(f, 'rb').read() + b'\0')
    return h.hexdigest()

def run(cmd, env, log):
    with open(log, 'w') as f: r = subprocess.run(cmd, env=env, cwd=os.path.join(ROOT, 'harness'), stdout=f, stderr=subprocess.STDOUT)
    if r.returncode:
        sys.stderr.write(open(log).read()[-6000:]); raise SystemExit(f'build failed: {" ".join(cmd)} (log {log})')

def fresh(kind, key, dirs):
    """Drop cargo's fingerprints of the crates built from /repo and /verif when any input changed since the last build."""
    mark = os.path.join(B, kind + '.hash')
    if os.path.exists(mark) and open(mark).read() == key: return True
    for d in dirs:
        fp = os.path.join(d, '.fingerprint')
        if os.path.isdir(fp):
            for e in os.listdir(fp):
                if e.rsplit('-', 1)[0] in ('geom3d', 'vharness', 'glam', 'approx', 'grid') if kind == 'sym' else e.rsplit('-', 1)[0] in ('geom3d', 'vharness'): shutil.rmtree(os.path.join(fp, e))
    if os.path.exists(mark): os.remove(mark)
    return False

def base_env():
    e = dict(os.environ); e.update(RUSTUP_TOOLCHAIN='stable', CARGO_INCREMENTAL='0', CARGO_NET_OFFLINE='true')
    for k in ('RUSTFLAGS', 'CARGO_TARGET_DIR', 'RUSTC_WRAPPER', 'CARGO_BUILD_RUSTFLAGS'): e.pop(k, None)
    return e

def build_sym():
    os.makedirs(B, exist_ok=True)
    with open(os.path.join(B, 'sym.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        rt = os.path.join(B, 'rt'); os.makedirs(rt, exist_ok=True); lib = os.path.join(rt, 'libsymrt.a'); src = os.path.join(ROOT, 'engine/symrt.cpp')
        key = tree_hash([src]); mark = os.path.join(rt, 'hash')
        if not (os.path.exists(lib) and os.path.exists(mark) and open(mark).read() == key):
            subprocess.check_call(['g++', '-std=c++17', '-O2', '-w', '-c', src, '-o', rt + '/symrt.o'])
            if os.path.exists(lib): os.remove(lib)
            subprocess.check_call(['ar', 'rcs', lib, rt + '/symrt.o']); open(mark, 'w').write(key)
        t = os.path.join(B, 'sym'); binp = os.path.join(t, 'debug/run')
        k2 = key + tree_hash([os.path.join(REPO, 'src'), os.path.join(REPO, 'Cargo.toml'), os.path.join(ROOT, 'harness'), os.path.join(ROOT, 'rand-stub'), os.path.join(ROOT, 'engine')])
        ek = tree_hash([os.path.join(ROOT, 'engine/instrument.py'), os.path.join(ROOT, 'engine/rustc-wrapper')]); em = os.path.join(B, 'engine.hash')
        if not (os.path.exists(em) and open(em).read() == ek):   # the instrumented parser crate has to follow the instrumentation only
            fp = t + '/debug/.fingerprint'
            for e in (os.listdir(fp) if os.path.isdir(fp) else []):
                if e.rsplit('-', 1)[0] == 'iso-10303': shutil.rmtree(os.path.join(fp, e))
            open(em, 'w').write(ek)
        if fresh('sym', k2, [t + '/debug']) and os.path.exists(binp): return binp
        e = base_env(); e.update(SYM_REPORTS=os.path.join(B, 'reports'), CARGO_TARGET_DIR=t, RUSTC_WRAPPER=os.path.join(ROOT, 'engine/rustc-wrapper'),
            RUSTFLAGS=f'--cfg sym --check-cfg=cfg(sym) -Clink-arg={lib} -Clink-arg=-lstdc++ -Clink-arg=-lgmpxx -Clink-arg=-lgmp')
        run(['cargo', 'build', '--offline', '--bin', 'run'], e, os.path.join(B, 'sym.log'))
        open(os.path.join(B, 'sym.hash'), 'w').write(k2)
        return binp

def build_native(release=False):
    os.makedirs(B, exist_ok=True); kind = 'release' if release else 'dev'
    with open(os.path.join(B, kind + '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        t = os.path.join(B, 'native'); sub = 'release' if release else 'debug'; binp = os.path.join(t, sub, 'run')
        k = tree_hash([os.path.join(REPO, 'src'), os.path.join(REPO, 'Cargo.toml'), os.path.join(ROOT, 'harness'), os.path.join(ROOT, 'rand-stub')])
        if fresh(kind, k, [os.path.join(t, sub)]) and os.path.exists(binp): return binp
        e = base_env(); e.update(CARGO_TARGET_DIR=t, RUSTFLAGS='--check-cfg=cfg(sym)')
        run(['cargo', 'build', '--offline', '--bin', 'run'] + (['--release'] if release else []), e, os.path.join(B, kind + '.log'))
        open(os.path.join(B, kind + '.hash'), 'w').write(k)
        return binp

if __name__ == '__main__':
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(3) as ex:
        fs = [ex.submit(build_sym), ex.submit(build_native)]
        for f in fs: print(f.result())
    print(build_native(True))
