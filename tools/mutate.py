#!/usr/bin/env python3
"""Mutation campaign: how sensitive are the checks?

mutate.py OUT.jsonl [--seed N] [--tables K] [--shard I/N] [--logic]

Makes single-token mutants of /repo's sources (in a scratch copy), drops the
ones that do not compile or fail the repository's own tests, and runs all
checks against the others until one reports a violation. Survivors are run
again at full scale, one by one. Nothing in /repo or /verif changes.
"""
import json, os, random, re, shutil, subprocess, sys, tempfile

args = sys.argv[1:]
out = args[0]
def opt(n, d):
    return args[args.index(n) + 1] if n in args else d
seed = int(opt('--seed', '1'))
ntab = int(opt('--tables', '100'))
shard, nsh = map(int, opt('--shard', '0/1').split('/'))
logic = '--logic' in args
threads = opt('--cpus', '')

REPO, VERIF = '/repo', '/verif'
w = tempfile.mkdtemp(prefix='/tmp/mutate.')
env = dict(os.environ, CARGO_NET_OFFLINE='true', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_TERM_COLOR='never')
env['PATH'] += ':/usr/local/bin:/root/.cargo/bin'
pre = ['taskset', '-c', threads] if threads else []
def run(cmd, cwd, timeout=300, **kw):
    try:
        p = subprocess.run(pre + cmd, cwd=cwd, env=dict(env, **kw), capture_output=True, text=True, timeout=timeout, errors='replace')
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 'timeout', ''

subprocess.check_call(['git', '-C', REPO, 'archive', 'HEAD', '-o', w + '/r.tar'])
os.makedirs(w + '/repo'); os.makedirs(w + '/h/src'); os.makedirs(w + '/p/src'); os.makedirs(w + '/v')
subprocess.check_call(['tar', 'xf', w + '/r.tar', '-C', w + '/repo'])
for f in ('Cargo.lock',):
    shutil.copy(f'{VERIF}/harness/{f}', w + '/p/')
shutil.copytree(f'{VERIF}/harness/src/props', w + '/p/src/props')
for f in ('engine.rs', 'gen.rs', 'model.rs', 'lib.rs'):
    s = open(f'{VERIF}/harness/src/{f}').read().replace('/repo', w + '/repo')
    open(f'{w}/h/src/{f}', 'w').write(s)
ids = sorted(f[:-3] for f in os.listdir(w + '/p/src/props'))
with open(w + '/p/src/main.rs', 'w') as f:
    for i in ids:
        f.write(f'#[path = "props/{i}.rs"]\nmod {i};\n')
    f.write('fn main() {\n    match std::env::var("PROP").unwrap().as_str() {\n')
    for i in ids:
        f.write(f'        "{i}" => vharness::engine::main({i}::prop()),\n')
    f.write('        _ => unreachable!(),\n    }\n}\n')
open(w + '/h/Cargo.toml', 'w').write('''[package]
name = "vharness"
version = "0.1.0"
edition = "2021"
''')
open(w + '/p/Cargo.toml', 'w').write(f'''[package]
name = "all"
version = "0.1.0"
edition = "2021"
[dependencies]
h3-rs = {{ path = "{w}/repo" }}
vharness = {{ path = "{w}/h" }}
[workspace]
[profile.release]
opt-level = 2
overflow-checks = true
codegen-units = 16
[profile.release.package.h3-rs]
debug-assertions = true
overflow-checks = true
''')

def code_region(name, s):
    i = s.find('#[cfg(test)]')
    return s if i < 0 else s[:i]

SW = [('<=', '<'), ('>=', '>'), ('==', '!='), ('!=', '=='), ('&&', '||'), ('||', '&&'), (' < ', ' <= '), (' > ', ' >= '),
      (' + ', ' - '), (' - ', ' + '), (' * ', ' / '), (' / ', ' * '), ('+=', '-='), ('-=', '+='), ('true', 'false'), ('false', 'true'),
      ('sin()', 'cos()'), ('cos()', 'sin()'), ('%=', '/=')]
DIRS = ['Center', 'KAxes', 'JAxes', 'JKAxes', 'IAxes', 'IKAxes', 'IJAxes']
muts = []
rnd = random.Random(seed)
tables = []
for f in sorted(os.listdir(REPO + '/src')):
    if f in ('lib.rs', 'error.rs'):
        continue
    s = code_region(f, open(f'{REPO}/src/{f}').read())
    pos = 0
    intab = False
    block = False
    for line in s.splitlines(True):
        st = line.strip()
        p0 = pos
        pos += len(line)
        if st.startswith('/*'):
            block = True
        if block:
            if '*/' in st:
                block = False
            continue
        if st.startswith('//') or st.startswith('#[') or st.startswith('use ') or not st:
            continue
        if re.match(r'(pub )?(const|static) \w+: \[', st):
            intab = True
        code = line.split('//')[0]
        def add(a, b, new, tab):
            (tables if tab else muts).append((f, p0 + a, p0 + b, new, st))
        for m in re.finditer(r'(?<![\w.])-?\d+(?![\w]*\.)(?=\b)(?!\.\d)', code):
            if intab or re.match(r'^\s*(i|j|k|face|ccwRot60|baseCell|isPentagon|lat|lng|x|y|z)\b', code):
                v = int(m.group())
                add(m.start(), m.end(), str(v + 1), True)
                if v > 0:
                    add(m.start(), m.end(), str(v - 1), True)
            else:
                v = int(m.group())
                add(m.start(), m.end(), str(v + 1), False)
                if v > 0:
                    add(m.start(), m.end(), str(v - 1), False)
        for m in re.finditer(r'\d+\.\d+', code):
            v = m.group()
            for fac in (1 + 1e-9, 1 + 1e-6, 1.01):
                add(m.start(), m.end(), repr(float(v) * fac if float(v) else fac - 1), intab)
        for m in re.finditer(r'Direction::(\w+)Digit', code):
            if m.group(1) in DIRS:
                o = rnd.choice([d for d in DIRS if d != m.group(1)])
                add(m.start(), m.end(), f'Direction::{o}Digit', intab)
        if not intab:
            for a, b in SW:
                k = code.find(a)
                while k >= 0:
                    if not (a in ('<', '>') and code[k - 1] in '-='):
                        add(k, k + len(a), b, False)
                    k = code.find(a, k + len(a))
            if st.endswith(';') and re.match(r'[\w.*]+ ?[-+*%]?= |_\w+\(|H3_SET|\w+\.push', st) and not st.startswith('let'):
                add(line.index(st), line.index(st) + len(st), '', False)
            if re.match(r'(\} else )?if .*\{$', st):
                m = re.match(r'^(\s*(?:\} else )?if )(.*)( \{)$', code.rstrip('\n'))
                if m and 'let' not in m.group(2):
                    add(m.start(2), m.end(2), 'false', False)
                    add(m.start(2), m.end(2), 'true', False)
        if intab and st in ('];', ']);'):
            intab = False
rnd.shuffle(tables)
todo = (muts if logic else []) + tables[:ntab]
rnd.shuffle(todo)
todo = [m for i, m in enumerate(todo) if i % nsh == shard]
print(len(muts), 'logic mutants', len(tables), 'table mutants; running', len(todo), flush=True)
order = {
    'algos.rs': ['c08', 'c20', 'c09', 'c10', 'c11', 'c21', 'c12', 'c16'],
    'base_cells.rs': ['c24', 'c08', 'c23', 'c02', 'c23', 'c01', 'c20', 'c19'],
    'coord_ijk.rs': ['c03', 'c22', 'c01', 'c02', 'c08'],
    'directed_edge.rs': ['c12', 'c13', 'c16'],
    'face_ijk.rs': ['c02', 'c01', 'c03', 'c23'],
    'h3_index.rs': ['c14', 'c04', 'c06', 'c07', 'c03', 'c22', 'c19'],
    'iterators.rs': ['c05'],
    'lat_lng.rs': ['c17', 'c01'],
    'vec3d.rs': ['c17'], 'vec2d.rs': ['c17'], 'constants.rs': ['c02', 'c01', 'c04'],
}
key = lambda r: (r['file'], r['line'], r['old'], r['new'], r['text'])
seen = set()  # resume
if os.path.exists(out):
    seen = {key(json.loads(l)) for l in open(out)}
with open(out, 'a') as res:
    for n, (f, a, b, new, st) in enumerate(todo):
        path = f'{w}/repo/src/{f}'
        s = open(f'{REPO}/src/{f}').read()
        rec = {'file': f, 'line': s[:a].count('\n') + 1, 'old': s[a:b], 'new': new, 'text': st}
        if key(rec) in seen:
            continue
        open(path, 'w').write(s[:a] + new + s[b:])
        rc, o = run(['cargo', 'test', '--offline', '--lib'], w + '/repo', 20)
        if rc != 0:
            rec['status'] = 'timeout in tests' if rc == 'timeout' else 'does not compile' if 'test result' not in o and 'could not compile' in o else 'killed by tests'
        else:
            rc, o = run(['cargo', 'build', '--release', '--offline'], w + '/p', 300)
            if rc != 0:
                rec['status'] = 'harness does not build'
                rec['log'] = o[-500:]
            else:
                rec['status'] = 'SURVIVED'
                lst = order[f] + [i for i in ids if i not in order[f]]
                for scale in ('0.01', '0.2'):
                    for i in lst if scale == '0.01' else order[f]:
                        rc, o = run([w + '/p/target/release/all'], w, 900, PROP=i, VERIF_SCALE=scale, VERIF_DIR=w + '/v', VERIF_HANG='20')
                        if rc == 1 and 'VIOLATION' in o:
                            rec['status'] = 'killed by ' + i.upper() + ('' if scale == '0.01' else ' (full)')
                            m = re.search(r'failing case: (.*)', o)
                            rec['case'] = m.group(1)[:200] if m else ''
                            break
                        if rc != 0:
                            rec['status'] = f'ERROR {i} rc={rc}'
                            rec['log'] = o[-500:]
                            break
                    if rec['status'] != 'SURVIVED':
                        break
        res.write(json.dumps(rec) + '\n')
        res.flush()
        open(path, 'w').write(s)
shutil.rmtree(w)
