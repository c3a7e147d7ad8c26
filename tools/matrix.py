#!/usr/bin/env python3
"""Which checks notice which bugs?

matrix.py OUT.jsonl SCALE [--cpus LIST] PATCH...

Builds all checks in one program against a scratch copy of /repo with each
patch in turn and runs every check at the given scale. Nothing in /repo or
/verif changes.
"""
import json, os, re, shutil, subprocess, sys, tempfile

args = sys.argv[1:]
cpus = ''
if '--cpus' in args:
    i = args.index('--cpus')
    cpus = args[i + 1]
    del args[i:i + 2]
out, scale, patches = args[0], args[1], args[2:]
REPO, VERIF = '/repo', '/verif'
w = tempfile.mkdtemp(prefix='/tmp/mutate.')
env = dict(os.environ, CARGO_NET_OFFLINE='true', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_TERM_COLOR='never')
env['PATH'] += ':/usr/local/bin:/root/.cargo/bin'
pre = ['taskset', '-c', cpus] if cpus else []

def run(cmd, cwd, timeout=900, **kw):
    try:
        p = subprocess.run(pre + cmd, cwd=cwd, env=dict(env, **kw), capture_output=True, text=True, timeout=timeout, errors='replace')
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 'timeout', ''

os.makedirs(w + '/h/src'); os.makedirs(w + '/p/src'); os.makedirs(w + '/v')
shutil.copy(f'{VERIF}/harness/Cargo.lock', w + '/p/')
shutil.copytree(f'{VERIF}/harness/src/props', w + '/p/src/props')
for f in ('engine.rs', 'gen.rs', 'model.rs', 'lib.rs'):
    open(f'{w}/h/src/{f}', 'w').write(open(f'{VERIF}/harness/src/{f}').read().replace('/repo', w + '/repo'))
ids = sorted(f[:-3] for f in os.listdir(w + '/p/src/props'))
with open(w + '/p/src/main.rs', 'w') as f:
    for i in ids:
        f.write(f'#[path = "props/{i}.rs"]\nmod {i};\n')
    f.write('fn main() {\n    match std::env::var("PROP").unwrap().as_str() {\n')
    for i in ids:
        f.write(f'        "{i}" => vharness::engine::main({i}::prop()),\n')
    f.write('        _ => unreachable!(),\n    }\n}\n')
open(w + '/h/Cargo.toml', 'w').write('[package]\nname = "vharness"\nversion = "0.1.0"\nedition = "2021"\n')
open(w + '/p/Cargo.toml', 'w').write(f'''[package]
name = "all"
version = "0.1.0"
edition = "2021"
[dependencies]
h3-rs = {{ path = "{w}/repo" }}
vharness = {{ path = "{w}/h" }}
[workspace]
[profile.release]
opt-level = 2
overflow-checks = true
codegen-units = 16
[profile.release.package.h3-rs]
debug-assertions = true
overflow-checks = true
''')
with open(out, 'a') as res:
    for p in patches:
        if os.path.exists(w + '/repo'):
            shutil.rmtree(w + '/repo')
        os.makedirs(w + '/repo')
        subprocess.check_call(f'git -C {REPO} archive HEAD | tar x -C {w}/repo', shell=True)
        run(['git', 'init', '-q'], w + '/repo')
        rc, o = run(['git', 'apply', os.path.abspath(p)], w + '/repo')
        if rc == 0:
            rc, o = run(['cargo', 'build', '--release', '--offline'], w + '/p')
        if rc != 0:
            print(p, 'does not build', o[-300:], flush=True)
            continue
        hit, err = [], []
        for i in ids:
            rc, o = run([w + '/p/target/release/all'], w, 900, PROP=i, VERIF_SCALE=scale, VERIF_DIR=w + '/v', VERIF_HANG='10')
            if rc == 1 and 'VIOLATION' in o:
                hit.append(i.upper())
            elif rc != 0:
                err.append(f'{i}:{rc}')
        name = os.path.basename(os.path.dirname(os.path.abspath(p))) if p.endswith('patch.diff') else os.path.basename(p)
        res.write(json.dumps({'patch': name, 'hit': hit, 'err': err}) + '\n')
        res.flush()
        print(name, ' '.join(hit), err, flush=True)
shutil.rmtree(w)
