#!/usr/bin/env python3
"""Plants the bugs described in tools/seeds/*.py in a scratch copy of /repo, confirms each (applies, builds, tests pass,
demo passes without and fails with it) and writes /verif/seeded/<id>/. usage: mkseed.py [id...]"""
import json, os, re, shutil, subprocess, sys, importlib.util, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS = []
def seed(id, prop, edits, demo, needs, breaks, kind='core', files=None):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, kind=kind, files=files or {}))
DEPS = {
 'nora_scp': '',
 'nora_sshd': 'nora_ssh_core = { path = "REPO/nora_ssh_core" }\nrand = "0.8"\nsha2 = "0.10"\ndigest = "0.10"\nchacha20 = "0.9"\npoly1305 = "0.7"\np256 = "0.11"\necdsa = "0.14"\ned25519-dalek = { version = "1.0", default-features = false, features = ["u64_backend"] }\nx25519-dalek = { version = "2.0.0-pre.1", default-features = false, features = ["u64_backend"] }\n',
 'core': 'nora_ssh_core = { path = "REPO/nora_ssh_core" }\nrand = "0.8"\nsha2 = "0.10"\ndigest = "0.10"\nchacha20 = "0.9"\npoly1305 = "0.7"\n',
 'ssh': 'nora_ssh_core = { path = "REPO/nora_ssh_core" }\nnora_ssh = { path = "REPO/nora_ssh" }\nrand = "0.8"\nsha2 = "0.10"\ndigest = "0.10"\nchacha20 = "0.9"\npoly1305 = "0.7"\nfutures = "0.3"\nasync-trait = "0.1"\np256 = "0.11"\necdsa = "0.14"\nx25519-dalek = { version = "2.0.0-pre.1", default-features = false, features = ["u64_backend"] }\n',
}
SH = '''#!/bin/bash
# exit 0: the property holds for the demonstrated case; nonzero: it is broken
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
export PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir "$d/src" && cp "$here"/*.rs "$d/src/" && cp "$repo/Cargo.lock" "$d/" || exit 2
sed "s|REPO|$repo|g" "$here/Cargo.toml.in" > "$d/Cargo.toml"
sed -i "s|REPO|$repo|g" "$d/src/main.rs"
cd "$d" && CARGO_TARGET_DIR="$d/target" cargo build --offline -q >&2 || exit 3
timeout 120 "$d/target/debug/demo"
'''
# the demonstration drives a program of the repository
SH_PROG = SH.replace('timeout 120 "$d/target/debug/demo"', 'cd "$repo" && CARGO_TARGET_DIR="$d/prog" cargo build --offline -q -p PROG >&2 || exit 3\nmkdir "$d/work" && cd "$d/work" && timeout 120 "$d/target/debug/demo" "$d/prog/debug/PROG"')
def load():
    d = os.path.join(V, 'tools/seeds')
    for f in sorted(os.listdir(d)):
        if f.endswith('.py'):
            sp = importlib.util.spec_from_file_location(f[:-3], os.path.join(d, f)); m = importlib.util.module_from_spec(sp)
            m.seed = seed; sp.loader.exec_module(m)
def run(c, cwd, **k): return subprocess.run(c, cwd=cwd, capture_output=True, text=True, shell=isinstance(c, str), **k)
def main():
    load()
    want = sys.argv[1:]
    T = '/tmp/seedwork'; shutil.rmtree(T, ignore_errors=True)
    run(['cp', '-a', '/repo', T], '/')
    env = 'export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only; '
    for s in SEEDS:
        if want and s['id'] not in want: continue
        run('git checkout -q -- .', T)
        ok = True
        for f, a, b in s['edits']:
            t = open(os.path.join(T, f)).read()
            if t.count(a) != 1: print(s['id'], 'edit matches', t.count(a), f, a[:60]); ok = False; break
            open(os.path.join(T, f), 'w').write(t.replace(a, b))
        if not ok: continue
        diff = run('git diff', T).stdout
        out = os.path.join(V, 'seeded', s['id']); shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
        open(out + '/patch.diff', 'w').write(diff)
        if s['kind'] == 'script':
            open(out + '/demo.sh', 'w').write(s['demo'])
        else:
            open(out + '/demo.sh', 'w').write(SH_PROG.replace('PROG', s['kind']) if s['kind'].startswith('nora_') else SH)
            open(out + '/main.rs', 'w').write(s['demo'])
            open(out + '/Cargo.toml.in', 'w').write('[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n[dependencies]\n' + DEPS[s['kind']])
        for n, t in s['files'].items(): open(os.path.join(out, n), 'w').write(t)
        os.chmod(out + '/demo.sh', 0o755)
        json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(out + '/meta.json', 'w'), indent=1)
        b = run(env + 'cargo build --workspace --offline 2>&1 | tail -5; cargo test --workspace --no-fail-fast --offline 2>&1 | grep "^test " ', T)
        tests = [l for l in b.stdout.split('\n') if l.startswith('test ')]
        bad = [l for l in tests if 'FAILED' in l]
        pat = run(['bash', out + '/demo.sh'], T)
        run('git checkout -q -- .', T)
        run(env + 'cargo build --workspace --offline', T)
        cl = run(['bash', out + '/demo.sh'], T)
        good = len(tests) >= 35 and not bad and pat.returncode not in (0, 2, 3) and cl.returncode == 0
        print(s['id'], 'CONFIRMED' if good else 'REJECTED', 'tests', len(tests), 'failed', bad[:2], 'demo patched', pat.returncode, 'clean', cl.returncode, '' if good else (pat.stderr[-400:] + cl.stderr[-400:] + b.stdout[-300:] + b.stderr[-300:]), flush=True)
        if not good: shutil.rmtree(out)
    shutil.rmtree(T, ignore_errors=True)
if __name__ == '__main__': main()
