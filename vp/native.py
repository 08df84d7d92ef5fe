"""Bounded search on the natively compiled real code (the bounded stand-in, and the source of failing inputs for failed obligations)."""
import json, os, re, shutil, subprocess, time
from . import driver

SSH = ('C09', 'C11', 'C14', 'C15', 'C16', 'C17', 'C19', 'C20', 'C21', 'C22', 'C23')
CORE = ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C18', 'C22')
DEPS = {
    'core': 'nora_ssh_core = { path = "REPO/nora_ssh_core" }\nrand = "0.8"\nsha2 = "0.10"\ndigest = "0.10"\nchacha20 = "0.9"\npoly1305 = "0.7"\n',
    'ssh': '''nora_ssh_core = { path = "REPO/nora_ssh_core" }
rand = "0.8"
futures = "0.3"
async-trait = "0.1"
sha2 = "0.10"
p256 = "0.11"
ecdsa = "0.14"
digest = "0.10"
generic-array = "0.14"
elliptic-curve = "0.12"
subtle = "2.4"
chacha20 = "0.9"
poly1305 = "0.7"
x25519-dalek = { version = "2.0.0-pre.1", default-features = false, features = ["u64_backend"] }
[features]
no_send = []
''',
}
BUDGET = {'quick': (2000000, 20), 'open': (10000000, 120), 'thorough': (3000000, 400)}


SCP = ('C24', 'C25')
SSHD = ('C26',)
DEPS['scp'] = 'rand = "0.8"\n'
DEPS['sshd'] = DEPS['ssh'].split('[features]')[0].replace('async-trait = "0.1"\nfutures = "0.3"\n', '') + 'ed25519-dalek = { version = "1.0", default-features = false, features = ["u64_backend"] }\n'
BIN = dict(scp='nora_scp', sshd='nora_sshd')


def binary(pkg):
    """The program itself, built from REPO's working tree."""
    t = os.path.join(driver.BUILD, 'bins')
    r = driver.sh(['cargo', 'build', '--offline', '-q', '-p', pkg], cwd=driver.REPO, extra={'CARGO_TARGET_DIR': t, 'RUSTUP_TOOLCHAIN': 'stable-x86_64-unknown-linux-gnu', 'CARGO_INCREMENTAL': '0', 'CARGO_PROFILE_DEV_OPT_LEVEL': '1', 'CARGO_PROFILE_DEV_DEBUG': '0'})
    if r.returncode:
        raise RuntimeError(pkg + ' does not build: ' + '\n'.join(l for l in r.stderr.split('\n') if l.startswith('error'))[:600])
    return os.path.join(t, 'debug', pkg)


def literals():
    """(numbers, strings) of the non-test source, per file, with how often each occurs."""
    out = {}
    for top in ('nora_ssh_core', 'nora_ssh', 'nora_scp', 'nora_sshd'):
        for d, _, fs in os.walk(os.path.join(driver.REPO, top, 'src')):
            for f in sorted(fs):
                if not f.endswith('.rs'):
                    continue
                t = open(os.path.join(d, f), errors='replace').read().split('#[cfg(test)]')[0]
                c = {}
                for m in re.finditer(r'//[^\n]*|/\*.*?\*/|b?"((?:[^"\\]|\\.)*)"|b?\'(\\.[^\']*|[^\'\\])\'|\b(0x[0-9a-fA-F_]+|0o[0-7_]+|0b[01_]+|[0-9][0-9_]*)(?:[ui](?:8|16|32|64|128|size))?(?:\s*<<\s*([0-9]+))?', t, flags=re.S):
                    s, ch, n, sh = m.groups()
                    if n is not None:
                        v = int(n.replace('_', ''), 0) if not re.match(r'0[0-9]', n) else int(n.replace('_', ''))
                        v <<= int(sh or 0)
                        if v < 1 << 64:
                            c[v] = c.get(v, 0) + 1
                    elif s is not None or ch is not None:
                        try:
                            b = (s if s is not None else ch).encode('latin1', 'replace').decode('unicode_escape').encode('latin1')
                        except (UnicodeError, ValueError):
                            continue
                        if 0 < len(b) < 300:
                            k = 's' + b.hex()
                            c[k] = c.get(k, 0) + 1
                            if len(b) == 1:
                                c[b[0]] = c.get(b[0], 0) + 1
                out[os.path.relpath(os.path.join(d, f), driver.REPO)] = c
    return out


def dictionary():
    """Literals of the source under test steer the bounded search; what the recorded source lacks is drawn more often."""
    now = literals()
    try:
        base = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'literals.json')))
    except OSError:
        base = {}
    every, new = set(), set()
    for f, c in now.items():
        b = base.get(f, {})
        for k, n in c.items():
            every.add(k)
            if n > b.get(str(k), 0):
                new.add(k)
    num = lambda s: ','.join(str(k) for k in sorted(x for x in s if isinstance(x, int) and x > 1))
    st = lambda s: ','.join(sorted(x[1:] for x in s if isinstance(x, str)))
    return dict(VP_NUMS=num(every), VP_NEW_NUMS=num(new), VP_STRS=st(every), VP_NEW_STRS=st(new))


def environ(kind, secs):
    e = dict(driver.env(), VP_BUDGET=str(secs), **dictionary())
    if kind in BIN:
        e['VP_BIN'] = binary(BIN[kind])
    return e


def build(kind, gen):
    """Generates the harness crate next to the build output and builds it against REPO's working tree."""
    d = os.path.join(driver.BUILD, 'replay-' + kind)
    os.makedirs(d, exist_ok=True)
    main = f'{driver.VERIF}/replay/{kind}.rs'
    if kind == 'ssh':
        main = os.path.join(d, 'main.rs')
        write(main, ssh_main())
    toml = f'''[package]
name = "replay-{kind}"
version = "0.1.0"
edition = "2021"
[workspace]
[[bin]]
name = "{kind}"
path = "{main}"
[profile.dev]
opt-level = 1
debug = false
[profile.dev.package."*"]
opt-level = 2
[dependencies]
''' + DEPS[kind].replace('REPO', driver.REPO)
    write(os.path.join(d, 'Cargo.toml'), toml)
    lock = os.path.join(driver.REPO, 'Cargo.lock')
    if not os.path.exists(os.path.join(d, 'Cargo.lock')):
        shutil.copy(lock, os.path.join(d, 'Cargo.lock'))
    r = driver.sh(['cargo', 'build', '--offline', '-q'], cwd=d, extra={'CARGO_TARGET_DIR': os.path.join(driver.BUILD, 'replay'), 'RUSTUP_TOOLCHAIN': 'stable-x86_64-unknown-linux-gnu', 'CARGO_INCREMENTAL': '0'})
    if r.returncode:
        raise RuntimeError('harness does not build: ' + '\n'.join(l for l in r.stderr.split('\n') if l.startswith('error'))[:600])
    return os.path.join(driver.BUILD, 'replay/debug', kind)


def ssh_main():
    """nora_ssh's own modules, included by path, so that private ones are reachable."""
    src = os.path.join(driver.REPO, 'nora_ssh/src')
    lib = open(os.path.join(src, 'lib.rs')).read()
    lib = re.sub(r'^\s*#!\[.*?\]', '', lib, flags=re.M)
    lib = re.sub(r'^\s*//!.*$', '', lib, flags=re.M)

    def mod(m):
        n = m.group(2)
        f = next(f for f in (f'{src}/{n}.rs', f'{src}/{n}/mod.rs') if os.path.exists(f))
        return f'#[path = "{f}"] pub mod {n};'
    lib = re.sub(r'^(\s*(?:pub(?:\([^)]*\))?\s+)?)mod\s+(\w+)\s*;', mod, lib, flags=re.M)
    own = ''.join(f'#[path = "{driver.VERIF}/replay/{n}.rs"] mod vp_{n};\n' for n in ('common', 'model', 'client', 'sim', 'ssh'))
    return '#![allow(dead_code, unused_imports, unused_variables)]\n' + lib + '\n' + own + 'fn main() { vp_ssh::main() }\n'


def write(p, t):
    if not os.path.exists(p) or open(p).read() != t:
        open(p, 'w').write(t)


def run(P, gen, tier, seed):
    kinds = (['core'] if P in CORE else []) + (['ssh'] if P in SSH else []) + (['scp'] if P in SCP else []) + (['sshd'] if P in SSHD else [])
    out = dict(ran=False, evaluations=0, distinct=0, samples=[], failures=[], rule='', bound='')
    n, secs = BUDGET[tier]
    for k in kinds:
        try:
            b = build(k, gen)
            cap, hard = secs, secs + 120
            if tier != 'thorough':
                # an answer within 900 s, whatever the rest took
                rest = driver.START + 820 - time.time()
                cap, hard = min(secs, max(15, rest - 60)), min(hard, max(40, rest))
            r = driver.run([b, P, str(seed), '0', str(n)], timeout=hard, env=environ(k, cap))
            d = json.loads(r.stdout)
        except (RuntimeError, OSError, ValueError, subprocess.TimeoutExpired) as ex:
            out['error'] = (out.get('error', '') + f'{k}: {type(ex).__name__}: {str(ex)[:500]} ')
            continue
        if d.get('none'):
            continue
        out['ran'] = True
        out['evaluations'] += d['evaluations']
        out['distinct'] += d['distinct']
        out['samples'] += d['samples']
        out['rule'] = 'a case counts as distinct and non-trivial if the code under test accepted its input (or the case ran to its end) and its printed input differs from all others'
        out['bound'] += f'{k}: tests {", ".join(d["tests"])}; {d["evaluations"]} cases from seed {seed}, at most {n} cases or {secs} s; strings up to 64 KiB '
        for f in d['failures']:
            if f['id'].endswith('/harness'):
                out['error'] = out.get('error', '') + f['detail'][:300] + ' '
                continue
            f['rerun'] = f'python3 -m vp.native {k} {P} {f["seed"]} {f["case"]}'
            out['failures'].append(f)
    return out


if __name__ == '__main__':
    import sys
    k, P, seed, case = sys.argv[1:5]
    b = build(k, None)
    sys.exit(subprocess.run([b, P, seed, case, sys.argv[5] if len(sys.argv) > 5 else '1', '1' if len(sys.argv) <= 5 else '8'], env=environ(k, os.environ.get('VP_BUDGET', 1e9))).returncode)
