"""Decides one property: extract -> assemble -> verus -> triage -> (bounded native search) -> evidence."""
import hashlib, json, os, re, signal, subprocess, sys, time, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')
sys.path.insert(0, VERIF)
from vp import assemble, spec                                                  # noqa: E402

RLIMIT = '30'
START = time.time()
TIER = 'quick'
EXT = ["generic_array", "poly1305", "chacha20", "signature", "typenum", "rand", "digest", "elliptic_curve", "ecdsa", "futures", "zeroize", "subtle",
       "x25519_dalek", "ed25519_dalek", "sha2", "p256", "async_std", "async_trait"]


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def env():
    e = dict(os.environ)
    e['PATH'] = '/root/.cargo/bin:' + e.get('PATH', '')
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_TERM_COLOR'] = 'never'
    e.pop('RUSTC_WRAPPER', None)
    return e


def run(cmd, cwd=None, timeout=600, env=None):
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True)
    try:
        o, x = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)   # solvers and servers it started too
        p.communicate()
        raise
    return subprocess.CompletedProcess(cmd, p.returncode, o, x)


def sh(cmd, cwd=None, timeout=600, extra=None):
    e = env()
    e.update(extra or {})
    return run(cmd, cwd, timeout, e)


def tool():
    """The extractor; built when missing or older than its sources."""
    d = os.path.join(VERIF, 'tools/extract')
    r = sh(['cargo', 'build', '--offline', '--locked', '-q'], cwd=d, extra={'CARGO_TARGET_DIR': os.path.join(BUILD, 'extract'), 'RUSTUP_TOOLCHAIN': 'stable-x86_64-unknown-linux-gnu'})
    if r.returncode:
        raise RuntimeError('extractor does not build: ' + r.stderr[-2000:])
    return os.path.join(BUILD, 'extract/debug/vp_extract')


def expand(crate, gen):
    """Macro-expanded source text of a crate, from rustc itself."""
    out = os.path.join(gen, crate + '.expanded.rs')
    r = sh(['cargo', 'rustc', '--offline', '-p', crate, '--profile', 'check', '--lib', '--', '-Zunpretty=expanded'], cwd=REPO,
           extra={'CARGO_TARGET_DIR': os.path.join(BUILD, 'expand'), 'RUSTUP_TOOLCHAIN': 'nightly-x86_64-unknown-linux-gnu'})
    if r.returncode:
        raise RuntimeError('expansion of ' + crate + ' failed: ' + r.stderr[-2000:])
    open(out, 'w').write(r.stdout)
    return out


class Proof:
    """Result of verifying the whole contract set against the current tree."""
    def __init__(self):
        self.ok = False           # verus ran to the end
        self.why = ''             # if not ok
        self.fail = []            # dict(key, kind, msg, clause, tags, loc, low)
        self.quar = {}            # key -> reason
        self.unc = {}             # key -> reason (contract could not be attached)
        self.missing = []
        self.fns = {}
        self.calls = {}
        self.queries = []         # verus function queries
        self.times = {}
        self.cmd = ''
        self.trusted = []
        self.stderr = ''
        self.asm = None
        self.notes = {}


def extract(gen, contracted, srcs):
    cfg = dict(ext=EXT, contracted=sorted(list(contracted) + spec.NOINLINE), crates=srcs, inst=spec.INST, inst_assoc=spec.INST_ASSOC, world={k: list(c.world) for k, c in spec.CONTRACTS.items() if c.world})
    p = os.path.join(gen, 'cfg.json')
    json.dump(cfg, open(p, 'w'))
    r = sh([tool(), p])
    if r.returncode:
        raise RuntimeError('extractor: ' + r.stderr[-2000:])
    return json.loads(r.stdout)


def run_verus(gen, text, extra=()):
    f = os.path.join(gen, 'out.rs')
    open(f, 'w').write(text)
    cmd = ['verus', 'out.rs', '--output-json', '--time-expanded', '--num-threads', '8', '--multiple-errors', '4', '--error-format=json', '--rlimit', RLIMIT] + list(extra)
    key = hashlib.sha256((text + ' '.join(cmd)).encode()).hexdigest()
    cache = os.path.join(BUILD, 'vcache', key + '.json')
    if os.environ.get('VP_CACHE') and os.path.exists(cache):
        d = json.load(open(cache))
        return d['out'], d['err'], ' '.join(cmd), d['t']
    t = time.time()
    r = sh(cmd, cwd=gen, timeout=max(60, START + (500 if TIER == 'quick' else 3000) - time.time()))
    t = time.time() - t
    if os.environ.get('VP_CACHE'):
        os.makedirs(os.path.dirname(cache), exist_ok=True)
        json.dump(dict(out=r.stdout, err=r.stderr, t=t), open(cache, 'w'))
    return r.stdout, r.stderr, ' '.join(cmd), t


def errors(stderr):
    out = []
    for l in stderr.split('\n'):
        if not l.startswith('{'):
            continue
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get('level') == 'error' and not m['message'].startswith('aborting due to'):
            out.append(m)
    return out


def prove(gen, contracts=None, log_=log):
    pr = Proof()
    contracts = dict(contracts or spec.CONTRACTS)
    try:
        srcs = []
        for c in spec.CRATES:
            if c['tree']:
                srcs.append(dict(name=c['name'], file=os.path.join(REPO, c['file']), tree=True))
            else:
                srcs.append(dict(name=c['name'], file=expand(c['name'], gen), tree=False))
        quar, unc = {}, {}
        for attempt in range(14):
            live = {k: v for k, v in contracts.items() if k not in unc}
            data = extract(gen, live, srcs)
            if data['errors']:
                log_('extraction notes:', data['errors'][:5])
            asm = assemble.Asm(data, live, dict(spec.EXTRA), quarantine=quar, baseline=spec.BASELINE)
            text = asm.build_all(spec)
            out, err, pr.cmd, t = run_verus(gen, text)
            errs = errors(err)
            res = {}
            try:
                js = json.loads(out)
                res = js.get('verification-results', {})
            except ValueError:
                js = {}
            front = (not js) or res.get('encountered-vir-error') or 'times-ms' not in js or (res.get('errors', 0) == 0 and errs)
            if front:
                # front-end error: leave out the bodies (then the contracts) the messages point at
                new = {}
                for m in errs:
                    for s in m['spans']:
                        k = asm.at(s['line_start'])
                        if k and (s['is_primary'] or k not in new):
                            new[k] = m['message'][:300]
                            if s['is_primary']:
                                break
                if not new:
                    pr.why = 'the verifier rejects the assembled text: ' + '; '.join(m['message'][:300] for m in errs[:3]) + ('' if errs else err[-600:])
                    return pr
                for k, why in new.items():
                    if k in quar:
                        unc[k] = why
                        quar.pop(k)
                    else:
                        quar[k] = why
                log_('left out after front-end errors:', {k: v[:120] for k, v in new.items()})
                continue
            pr.ok = True
            break
        else:
            pr.why = 'front-end errors did not settle'
            return pr
        pr.asm, pr.quar, pr.unc = asm, dict(quar), dict(unc)
        pr.fns = asm.fns
        for k, f in asm.fns.items():
            if k in contracts and not f['ok']:
                pr.quar[k] = '; '.join(f['notes'])[:300]
        pr.missing = [k for k in contracts if k not in asm.fns]
        pr.notes = asm.notes
        for k, f in asm.fns.items():
            pr.calls[k] = [c for c in f['calls']]
        pr.queries = [q for m in js['times-ms']['smt']['smt-run-module-times'] for q in m['function-breakdown']]
        pr.times = dict(verus_s=round(t, 1), smt_ms=js['times-ms']['smt']['smt-run'])
        pr.version = js['verus']['version']
        pr.stderr = '\n'.join(m.get('rendered') or m['message'] for m in errs)
        rl = []
        for m in errs:
            spans = m['spans']
            prim = [s for s in spans if s['is_primary']] or spans
            ln = prim[0]['line_start'] if prim else 0
            k = asm.at(ln)
            # for a failed postcondition the primary span may be the clause of a trait; look at every span
            if k is None:
                for s in spans:
                    k = k or asm.at(s['line_start'])
            cl = [asm.clause[s['line_start']] for s in spans if s['line_start'] in asm.clause]
            msg = m['message']
            kind = ('rlimit' if 'rlimit' in msg.lower() else 'post' if 'postcondition' in msg else 'pre' if 'precondition' in msg else
                    'proof' if ('invariant' in msg or 'assertion' in msg or 'decreases' in msg or 'recommendation' in msg) else 'safety')
            c = contracts.get(k)
            tags = set()
            clause = ''
            if kind == 'post':
                mine = [x for x in cl if x[0] == k and x[1] == 'ens'] or [x for x in cl if x[1] == 'ens']
                if mine:
                    tags = set(mine[0][3])
                    clause = mine[0][4]
                if not tags and c:
                    tags = c.tags()
            elif kind in ('pre', 'safety'):
                tags = set(c.safety) if c and c.safety else (c.tags() if c else set())
                mine = [x for x in cl if x[1] == 'req']
                clause = mine[0][4] if mine else ''
            elif c:
                tags = c.tags()
            pr.fail.append(dict(key=k, kind=kind, msg=msg, clause=clause, tags=sorted(tags), line=ln,
                                text=(prim[0]['text'][0]['text'].strip()[:160] if prim and prim[0].get('text') else '')))
        for f in pr.fail:
            f['low'] = low(pr, f, contracts)
        pr.trusted = trusted_scan(text, pr, contracts)
        return pr
    except (RuntimeError, subprocess.TimeoutExpired, KeyError, OSError) as ex:
        pr.ok = False
        pr.why = type(ex).__name__ + ': ' + str(ex)[:1500]
        return pr


def low(pr, f, contracts):
    """Why a failed obligation is not by itself a violation ('' = it is)."""
    k = f['key']
    if k is None:
        return 'failure outside the code (specification lemma)'
    if f['kind'] == 'rlimit':
        return 'solver resource limit'
    if f['kind'] == 'proof':
        return 'loop invariant or proof hint no longer fits the code'
    fn = pr.fns.get(k)
    if not fn:
        return 'no such function'
    base = spec.BASELINE.get(k, {})
    changed = base.get('hash') != body_hash(fn)
    if (fn['loops'] or fn.get('closures')) and changed and (inner(fn) is None or base.get('inner') != inner(fn)):
        return 'a loop or closure of the function was rewritten'
    if pr.notes.get(k + '#hint') and changed:
        return pr.notes[k + '#hint']
    bad = [c for c in fn['calls'] if c in pr.unc]
    if bad:
        return 'callee lost its contract: ' + ', '.join(bad)
    if f['key'] in pr.unc:
        return 'contract could not be attached'
    return ''


def inner(f):
    """Hash of the texts of the loops and closures of a function: their invariants and contracts still fit when these are unchanged."""
    b, out = f['body'], []
    for m in re.finditer(r'vp_(?:loop|closure) ! ?\(\d+\)', b):
        i = b.rfind('{', 0, m.start())
        j, d = i, 0
        while j < len(b):
            d += (b[j] == '{') - (b[j] == '}')
            j += 1
            if d == 0:
                break
        h = max(b.rfind(c, 0, i) for c in ';{}')
        out.append(b[h + 1:j])
    if len(out) != f['loops'] + f.get('closures', 0):
        return None
    return hashlib.sha256('\n'.join(out).encode()).hexdigest()[:16]


def body_hash(f):
    return hashlib.sha256((f['body'] + json.dumps(f['sig'], sort_keys=True)).encode()).hexdigest()[:16]


def trusted_scan(text, pr, contracts):
    """Every assumption left in the verified text."""
    out = []
    prel = text.split('\npub mod nora_ssh_core {')[0]
    n_ax = re.findall(r'proof fn (axiom_\w+|ax_\w+)', prel)
    out.append('axioms of the prelude: ' + ', '.join(sorted(set(n_ax))))
    asp = re.findall(r'assume_specification\s*(?:<[^\[]*>)?\s*\[\s*(.*?)\s*\]\s*\(', prel, flags=re.S)
    out.append('assumed contracts on std: ' + ', '.join(sorted(set(' '.join(a.split()) for a in asp))))
    eb = re.findall(r'#\[verifier::external_body\]\s*(?:pub )?(?:const )?(?:async )?(?:fn|struct) (\w+)', prel)
    out.append('stand-ins with assumed contracts (std and dependency operations): ' + ', '.join(sorted(set(eb))))
    tr = [k for k, c in contracts.items() if c.trusted or c.opaque_body]
    if tr:
        out.append('repository functions assumed, not verified: ' + ', '.join(tr))
    for k, w in pr.quar.items():
        out.append(f'left out of the proof on this tree (contract assumed at call sites): {k}: {w[:120]}')
    for k, w in pr.unc.items():
        out.append(f'contract not attachable on this tree: {k}: {w[:120]}')
    return out


def closure(pr, P, contracts):
    """Functions whose contracts or safety carry P, and the contracted functions they call."""
    todo = [k for k, c in contracts.items() if P in c.tags() and k in pr.fns]
    seen = set()
    while todo:
        k = todo.pop()
        if k in seen:
            continue
        seen.add(k)
        for c in pr.calls.get(k, []):
            if c in contracts and c in pr.fns:
                todo.append(c)
    return seen


# ---------------------------------------------------------------- native search
def native(P, gen, tier, seed):
    """Bounded search on the real code, compiled natively. Returns dict or None if unavailable."""
    from vp import native as nat
    return nat.run(P, gen, tier, seed)


def main(P, tier):
    global TIER
    TIER = tier
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    gen = os.path.join(BUILD, 'gen-' + P)
    shutil.rmtree(gen, ignore_errors=True)
    os.makedirs(gen)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    os.makedirs(os.path.join(VERIF, 'out'), exist_ok=True)
    info = spec.PROPS[P]
    contracts = spec.CONTRACTS
    pr = prove(gen) if info['proof'] else Proof()
    if not info['proof']:
        pr.why = 'this property has no contracts'
    viol, notes, known = [], [], []
    clo = closure(pr, P, contracts) if pr.ok else set()
    mine = [k for k in contracts if P in contracts[k].tags()]
    fails = [f for f in pr.fail if P in f['tags'] or (P in spec.SAFE and f['kind'] in ('pre', 'safety') and f['key'] in clo)]
    if pr.ok:
        gone = [k for k in mine if k in pr.missing]
        for k in gone:
            notes.append(f'anchor gone (its text is inlined into its callers): {k}')
        for k in clo:
            if k in pr.quar:
                notes.append(f'not proved on this tree: {k}: {pr.quar[k][:160]}')
            if k in pr.unc:
                notes.append(f'not proved on this tree: {k}: {pr.unc[k][:160]}')
        # vacuity guard: the obligations really were generated
        ran = {q['function'].split('::', 1)[1] for q in pr.queries if '::' in q['function']}
        live = [k for k in mine if k in pr.fns and k not in pr.quar and k not in pr.unc]
        if info['proof'] and not live:
            notes.append('no function of this property is under proof on this tree')
    else:
        notes.append('no proof on this tree: ' + pr.why)
    # where the proof leaves something open on this tree, the search decides and gets more time
    left = not pr.ok or bool(fails) or any(k in pr.quar or k in pr.unc for k in clo) or any(n.startswith('anchor gone') for n in notes)
    nat = native(P, gen, 'open' if left and tier == 'quick' else tier, seed)
    if nat.get('error'):
        notes.append('bounded search unavailable: ' + nat['error'])
    for f in nat.get('failures', []):
        kf = spec.known(P, f)
        if kf:
            known.append(kf)
            continue
        path = os.path.join('out', f'{P}-{len(viol)}.replay.json')
        json.dump(dict(property=P, kind='failing input', failure=f, rerun=f.get('rerun'),
                       failed_obligations=[dict(x) for x in fails][:10]), open(os.path.join(VERIF, path), 'w'), indent=1)
        viol.append(f'VIOLATION property={P} replay={path}')
    if not viol:
        hi = [f for f in fails if not f['low']]
        for f in fails:
            if f['low']:
                notes.append(f"undecided obligation in {f['key']}: {f['msg'][:100]} ({f['low']})")
        if hi:
            path = os.path.join('out', f'{P}-obligation.replay.json')
            json.dump(dict(property=P, kind='failed obligation', obligations=hi, checker=pr.cmd, verifier_output=pr.stderr[:20000],
                           searched=nat.get('evaluations', 0)), open(os.path.join(VERIF, path), 'w'), indent=1)
            viol.append(f'VIOLATION property={P} replay={path} no-failing-input-found')
    # evidence
    names = lambda keys: sorted(keys)
    proved = [k for k in clo if k not in pr.quar and k not in pr.unc and not contracts[k].trusted and not contracts[k].opaque_body and not any(f['key'] == k for f in pr.fail)]
    short = {}
    for q in pr.queries:
        short.setdefault(q['function'], []).append(q)
    obl, dis, ms = 0, 0, 0
    want = {qname(k, pr.fns[k]) for k in clo} if pr.ok else set()
    lem = set(info.get('lemmas', []))
    for q in pr.queries:
        n = q['function'].split('::', 1)[1] if '::' in q['function'] else q['function']
        n0 = re.sub(r'impl&%\d+', 'impl', re.sub(r'__(case\d+|cover)$', '', n))
        if n0 in want or (n.startswith('sp::') and (n.split('::')[1] in lem or not q['success'])) or n.startswith('vp::'):
            obl += 1
            ms += q['time-micros'] / 1000
            dis += 1 if q['success'] else 0
    cov = dict(obligations=obl, discharged=dis, checker_cmd=pr.cmd or 'verus', trusted_base=pr.trusted or ['none reached: ' + pr.why],
               functions_under_contract=len(clo), functions_proved=len(proved), postconditions=sum(len(contracts[k].ens) for k in clo if True),
               functions=names(proved), left_out={k: (pr.quar.get(k) or pr.unc.get(k)) for k in clo if k in pr.quar or k in pr.unc},
               solver_ms=round(ms), backend='Verus ' + getattr(pr, 'version', '?') + ' (Z3)', counted='one obligation = one Verus query (a function body, proof case or lemma) in the call closure of the contracts that state this property',
               lemmas=sorted(lem))
    if nat.get('ran'):
        cov['bounded'] = dict(label='bounded stand-in on natively compiled real code; not counted as proof', evaluations=nat.get('evaluations', 0),
                              distinct_nontrivial=nat.get('distinct', 0), rule=nat.get('rule', ''), samples=nat.get('samples', [])[:5], bound=nat.get('bound', ''))
        cov['evaluations'] = nat.get('evaluations', 0)
        cov['distinct_nontrivial'] = nat.get('distinct', 0)
        cov['rule'] = nat.get('rule', '')
        cov['samples'] = nat.get('samples', [])[:5]
    ev = dict(property=P, tier=tier, seed=seed, level=info['level'], coverage=cov, wall_s=round(time.time() - t0, 1), violations=len(viol),
              assumptions=info.get('assumptions', []) + notes, timing=pr.times)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', P + '.json'), 'w'), indent=1)
    for n in notes:
        print('NOTE', n)
    for k in known:
        print(f'KNOWN-FINDING: property={P} {k}')
    for v in viol:
        print(v)
    print(f'{P}: {dis}/{obl} obligations discharged over {len(clo)} functions; bounded search {nat.get("evaluations", 0)} cases; {round(time.time() - t0, 1)} s')
    shutil.rmtree(gen, ignore_errors=True)
    return 1 if viol else 0


def qname(k, f):
    """Verus' name of the query of a function."""
    tr = f['trait']
    n = f['name']
    if tr:
        t = tr['key'].split('<')[0].split('::')[-1]
        if t in assemble.TRAITS:
            n = assemble.TRAITS[t][1]
    st = f['self_ty']
    if st is None and f['self_type']:
        return f['module'].replace(' ', '') + '::impl::' + n
    return '::'.join([f['module']] + ([st.split('::')[-1].split('<')[0].strip()] if st else []) + [n]).replace(' ', '')


if __name__ == '__main__':
    sys.exit(main(sys.argv[1], os.environ.get('VERIF_TIER', 'quick')))
