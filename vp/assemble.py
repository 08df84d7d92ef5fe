"""Builds the Verus input from the extractor's JSON and the contracts in vp.spec_*."""
import json, os, re, subprocess

HERE = os.path.dirname(os.path.abspath(__file__))


def erase(body):
    """RefCell and LocalMutex erased: a guard is the place it guards."""
    body = re.sub(r'core::cell::RefCell::new\(|crate::nora_ssh::sync::LocalMutex::new\(', '(', body)

    def alias(x, place, body):
        return re.sub(r'(?<![.\w])' + x + r'\b(?!\s*:[^:])', place, body)
    while True:
        m = re.search(r'let (?:mut )?(\w+) = self\s*\.(\w+)\s*\.(?:borrow_mut|borrow|lock)\(\);', body)
        if not m:
            break
        x, place = m.group(1), 'self.' + m.group(2)
        body = body[:m.start()] + body[m.end():]
        body = re.sub(r'crate::vp::vp_drop\(' + x + r'\);', '', body)
        body = alias(x, place, re.sub(r'\*' + x + r'\b', place, body))
    while True:
        m = re.search(r'let \((\w+), (\w+)\) = &mut (self\.\w+);', body)
        if not m:
            break
        body = body[:m.start()] + body[m.end():]
        for i in (0, 1):
            body = alias(m.group(1 + i), f'(&mut {m.group(3)}.{i})', body)
    body = re.sub(r'(\bself)\s*\.(\w+)\s*\.(?:borrow_mut|borrow|lock)\(\)', r'(&mut \1.\2)', body)
    return re.sub(r'&mut \*\(&mut (self\.\w+)\)', r'&mut \1', body)


class Contract:
    def __init__(self, key, ret='r', req=(), ens=(), pre='', loops=None, attrs='', safety=(), closures=None,
                 trusted=False, nodecr=False, post='', trait_ens=None, opaque_body=False, stmts=None, hide=(), cases=(), lits=False, cells=False, inherent=False, world=(), retype=(), wtype='world::World'):
        self.wtype = wtype
        self.world = tuple(world)   # operations on state outside the arguments; that state becomes the parameter vp_w
        self.retype = list(retype)   # [(regex, replacement)] on signature and body: std types to their stand-ins
        self.inherent = inherent   # a trait's method emitted as an inherent one
        self.cells = cells   # RefCell and LocalMutex are erased: `&self` becomes `&mut self`, borrow_mut and lock a mutable borrow
        self.lits = lits   # byte string literals by name (opaque content)
        self.hide = list(hide)
        self.cases = list(cases)   # proof by cases: one copy of the body per case, plus a coverage lemma
        self.key, self.ret, self.req, self.ens = key, ret, list(req), list(ens)
        self.pre, self.loops, self.attrs, self.safety = pre, loops or {}, attrs, list(safety)
        self.closures = closures or {}
        self.trusted, self.nodecr, self.post = trusted, nodecr, post
        self.trait_ens = trait_ens
        self.opaque_body = opaque_body
        self.stmts = stmts or []   # [(regex on formatted body, replacement)] ghost insertions

    def tags(self):
        t = set(self.safety)
        for tags, _ in self.ens:
            t |= set(tags)
        return t


TRAITS = {'TryFrom': ('VTryFrom', 'vtry_from'), 'From': ('VFrom', 'vfrom'), 'AsRef': ('VAsRef', 'vas_ref'), 'AsMut': ('VAsMut', 'vas_mut')}
FLAT = {'Default', 'SignKey', 'Cipher', 'Iterator', 'Future', 'Drop', 'Deref', 'DerefMut'}


class Asm:
    def __init__(self, data, contracts, extra, quarantine=(), baseline=None):
        """extra: {module: text} put in front of the module's items."""
        self.d = data
        self.c = contracts
        self.extra = extra
        self.q = set(quarantine)
        self.baseline = baseline or {}
        self.fns = {f['key']: f for f in data['fns']}
        self.types = {t['module'] + '::' + t['name']: t for t in data['types']}
        self.notes = {}       # key -> why it is quarantined
        self.lines = []
        self.map = []         # (first line, last line, key)
        self.clause = {}      # line -> (key, 'ens'|'req'|'inv', idx, tags, text)

    # ---- placeholders
    def field(self, m):
        t = self.types.get(m.group(1))
        if t is None:
            raise KeyError(m.group(1))
        return t['fields'][int(m.group(2))]['name']

    def subst(self, text, f):
        names = [p['name'] for p in f['sig']['params'] if p['name'] != 'self']
        text = re.sub(r'\$\{([\w:]+)\.(\d+)\}', self.field, text)

        def par(m):
            i = int(m.group(1)) - 1
            return names[i] if i < len(names) else 'vp_missing_parameter'
        text = re.sub(r'\$(\d+)v\b', lambda m: re.sub(r'_0$', '', par(m)), text)     # the mutable copy of a by-value parameter
        text = re.sub(r'\$(\d+)', par, text)
        base = self.baseline.get(f['key'], {}).get('locals')
        cur = f['locals']

        def loc(m):
            n = m.group(1)
            if base and n in base and len(base) == len(cur):
                return cur[base.index(n)]
            return n
        return re.sub(r'#([a-z_]\w*)', loc, text)

    # ---- emission
    def emit(self, s):
        for l in s.split('\n'):
            self.lines.append(l)

    def format_bodies(self, keys):
        src = []
        for k in keys:
            src.append('fn vp_mark() ' + self.fns[k]['body'])
        r = subprocess.run(['rustfmt', '--edition', '2021', '--config', 'max_width=120,use_small_heuristics=Max,hard_tabs=false'],
                           input='\n'.join(src), capture_output=True, text=True)
        if r.returncode != 0:
            raise RuntimeError('rustfmt: ' + r.stderr[:2000])
        parts = re.split(r'^fn vp_mark\(\) ', r.stdout, flags=re.M)[1:]
        assert len(parts) == len(keys), (len(parts), len(keys))
        return dict(zip(keys, [p.rstrip() for p in parts]))

    def fn(self, k, body):
        f, c = self.fns[k], self.c.get(k)
        tr = f['trait']
        trait = tr['key'].split('<')[0].split('::')[-1] if tr else None
        name = f['name']
        ret = f['sig']['ret']
        for n, t in f['assoc']:
            ret = re.sub(r'Self\s*::\s*' + n + r'\b', 'Self::E' if (n == 'Error' and trait in TRAITS) else t.replace('\\', '\\\\'), ret)
        params = ', '.join(re.sub(r'^mut\s+', '', p['text']) for p in f['sig']['params'])
        gen = f['sig']['generics']
        where = f['sig']['where']
        st = f['self_type']
        ig = f['impl_generics']
        iw = f['impl_where']
        ig, iw, gen, where = [re.sub(r'(core|std) :: default :: Default\b', 'crate::vp::VDefault', x) for x in (ig, iw, gen, where)]
        iw = re.sub(r'(ServerHandlers) < [^{}]*? >(?=\s*(?:,|$))', r'\1', iw)      # associated types that mono.rs has fixed
        vis = 'pub '
        quarantined = k in self.q or not f['ok'] or (c and c.trusted)
        if k in self.q or not f['ok']:
            self.notes.setdefault(k, '; '.join(f['notes']) or 'quarantined')
        if c and c.inherent:
            trait = None
            for n, t in f['assoc']:
                params = re.sub(r'Self\s*::\s*' + n + r'\b', t.replace('\\', '\\\\'), params)
        if st:
            if trait and trait not in FLAT:
                if trait in TRAITS:
                    vt, name = TRAITS[trait]
                    args = tr['path'][tr['path'].index('<'):] if '<' in tr['path'] else ''
                    self.emit(f'impl<{ig}> crate::vp::{vt}{args} for {st} {iw} {{')
                    for n, t in f['assoc']:
                        if n == 'Error':
                            self.emit(f'type E = {t};')
                    ens = c.trait_ens if c and c.trait_ens else 'true'
                    ens = self.subst(ens, f)
                    pn = [p['name'] for p in f['sig']['params']]
                    r2 = ret
                    spec_params = ', '.join(p['text'] if p['name'] != 'self' else '&self' for p in f['sig']['params'])
                    self.emit(f'open spec fn {name}_ens({spec_params}{", " if spec_params else ""}r: {r2}) -> bool {{')
                    self.clause_line(k, 'ens', 0, c.ens[0][0] if c and c.ens else (), ens)
                    self.emit('}')
                else:
                    self.emit(f'impl<{ig}> {tr["path"]} for {st} {iw} {{')
                    for text in self.extra.get('trait_impl:' + tr['path'].replace(' ', '') + ' for ' + st.replace(' ', ''), []):
                        self.emit(self.subst(text, f))
                    for n, t in f['assoc']:
                        self.emit(f'type {n} = {t};')
                vis = ''
            else:
                self.emit(f'impl<{ig}> {st} {iw} {{')
        if c and c.cases and not quarantined:
            self.copy(k, f, c, body, name, vis, ret, params, gen, where, trait, True, name, None)
            for i, case in enumerate(c.cases):
                self.copy(k, f, c, body, name, vis, ret, params, gen, where, trait, False, f'{name}__case{i}', case)
            pp = ', '.join(re.sub(r'^mut\s+', '', p['text']) for p in f['sig']['params'] if 'mut' not in p['text'].split())
            g = f'<{gen}>' if gen else ''
            for a, b in c.retype:
                pp = re.sub(a, b, pp)
            self.emit(f'pub proof fn {name}__cover{g}({pp}) {where}')
            rq = [self.subst(t, f) for _, t in c.req if 'old(' not in t]
            if rq:
                self.emit('    requires ' + ', '.join(rq) + ',')
            self.emit('    ensures ' + ' || '.join('(' + self.subst(x, f) + ')' for x in c.cases) + ',')
            self.emit('{ }')
        else:
            self.copy(k, f, c, body, name, vis, ret, params, gen, where, trait, quarantined, name, None)
        if st:
            self.emit('}')

    def copy(self, k, f, c, body, name0, vis, ret, params, gen, where, trait, quarantined, name, case):
        start = len(self.lines) + 1
        attrs = (c.attrs if c else '')
        if attrs:
            self.emit(attrs)
        if f['loops'] and (not c or c.nodecr or len(c.loops) != f['loops']):
            self.emit('#[verifier::exec_allows_no_decreases_clause]')
        if quarantined or (c and c.opaque_body):
            self.emit('#[verifier::external_body]')
        elif not c:
            self.emit('#[verifier::external_body]')
        else:
            self.emit('#[verifier::spinoff_prover]')
        rn = c.ret if c else 'r'
        rtext = '' if ret == '()' else f' -> ({rn}: {ret})'
        g = f'<{gen}>' if gen else ''
        if c and c.cells == 'mut':
            params = re.sub(r'^(& )?self\b', '&mut self', params)     # (a by-value self as well: its final state is visible)
        if c and c.world:
            params += (', ' if params else '') + 'vp_w: &mut crate::ext::' + c.wtype
        for a, b in (c.retype if c else ()):
            params, rtext, body = re.sub(a, b, params), re.sub(a, b, rtext), re.sub(a, b, body)
        self.emit(f'{vis}fn {name}{g}({params}){rtext} {where}')
        if c:
            if c.req or case:
                self.emit('    requires')
                if case:
                    self.emit('        ' + self.subst(case, f) + ',')
                for i, (tags, t) in enumerate(c.req):
                    self.clause_line(k, 'req', i, tags, self.subst(t, f) + ',')
            in_trait = trait and trait not in FLAT and not c.inherent
            if c.ens and not in_trait:
                self.emit('    ensures')
                for i, (tags, t) in enumerate(c.ens):
                    self.clause_line(k, 'ens', i, tags, self.subst(t, f) + ',')
        if quarantined or not c or c.opaque_body:
            self.emit('{ unimplemented!() }')
        else:
            def rep(m):
                i = int(m.group(1))
                inv = c.loops.get(i)
                if inv is None:
                    return ' {'
                inv, first = inv if isinstance(inv, tuple) else (inv, '')
                return '\n' + self.subst(inv, f) + '\n{ ' + self.subst(first, f)
            body = re.sub(r'\{\s*vp_loop!\((\d+)\);', rep, body)

            body = re.sub(r'\b(core|std)::default::Default::default\(', 'crate::vp::VDefault::vdefault(', body)

            def clo(m):
                b, t = m.group(1), c.closures.get(int(m.group(2)))
                if t is None and m.group(3):
                    e = f'v_Message({m.group(3)})'
                    t = (f'requires wf_Message({e}), e_Message({e}).len() <= (*%b)@.len() '
                         f'ensures vp_n == e_Message({e}).len(), (*final(%b))@.len() == (*old(%b))@.len(), (*final(%b))@.subrange(0, vp_n as int) == e_Message({e})')
                    head = f'match {m.group(3)}.serialize({b}) {{'
                elif t is None:
                    return m.group(0).replace(f'vp_closure!({m.group(2)});', '')
                else:
                    t = self.subst(t, f)
                    head = f'match {m.group(3)}.serialize({b}) {{' if m.group(3) else ''
                return f'|{b}: &mut [u8]| -> (vp_n: usize) {t.replace("%b", b)} {{ ' + head
            body = re.sub(r'\|(\w+)\| \{\s*vp_closure!\((\d+)\);(?:\s*match (\w+)\.serialize\(\1\) \{)?', clo, body)
            body = re.sub(r'\{\s*vp_closure!\((\d+)\);', '{', body)
            body = body.replace(' as SeedableRng>', ' as crate::ext::rand::SeedableRng>')
            if c.cells:
                body = erase(body)
            if c.lits:
                body = re.sub(r'&\[\s*((?:\d+u8,?\s*)+)\]', lambda m: 'crate::lit::b_' + bytes(int(x) for x in re.findall(r'(\d+)u8', m.group(1))).hex() + '()', body)
            if c.pre or c.hide:
                body = body.replace('{', '{ ' + ''.join(f'hide({h}); ' for h in c.hide) + self.subst(c.pre, f), 1)
            for pat, repl in c.stmts:
                body, n = re.subn(self.subst(pat, f), lambda m: m.expand(self.subst(repl, f)), body, count=1, flags=re.S)
                if n == 0:
                    self.notes.setdefault(k + '#hint', 'proof hint not placed: ' + pat)
            self.emit(body)
        end = len(self.lines)
        self.map.append((start, end, k))
    def clause_line(self, k, kind, i, tags, text):
        text = ' '.join(text.split())
        self.lines.append('        ' + text)
        self.clause[len(self.lines)] = (k, kind, i, list(tags), text)

    def build_all(self, spec):
        sp = ('pub mod sp { use vstd::prelude::*; use vstd::string::*; use crate::vp::*; use crate::ext::futures::io::{AsyncRead, AsyncWrite}; use crate::nora_ssh::server::ServerHandlers;\nverus!{\nbroadcast use crate::vp::group_vp;\n' + '\n'.join(spec.SP) + '\n}}\n')
        self.extra = dict(self.extra)
        self.extra['texts'] = [re.sub(r'\$\{([\w:]+)\.(\d+)\}', self.field, sp)]
        return self.build()

    def build(self, modules=None, only=None):
        """modules: roots to include."""
        self.emit('#![allow(unused_imports, unused_variables, dead_code, unused_mut, unused_parens, unused_braces, unreachable_code, non_snake_case, unused_assignments, path_statements, unused_must_use)]')
        self.emit('use vstd::prelude::*;')
        self.emit('verus!{ global size_of usize == 8; }')
        for f in self.extra['files']:
            self.emit(open(os.path.join(HERE, f)).read())
        for t in self.extra['texts']:
            self.emit(t)
        emitted = [k for k in self.fns if k in self.c or (self.fns[k]['trait'] is None and False)]
        need = set(emitted)
        fmt = self.format_bodies([k for k in emitted if self.fns[k]['ok']])
        tree = {}
        for t in self.d['types']:
            tree.setdefault(t['module'], [[], []])[0].append(t)
        for k in emitted:
            tree.setdefault(self.fns[k]['module'], [[], []])[1].append(k)
        for t in self.d['traits']:
            tree.setdefault(t['module'], [[], []])
        mods = sorted(tree)

        def rec(prefix):
            kids = sorted({m[len(prefix):].split('::')[0] for m in mods if m.startswith(prefix)})
            for kd in kids:
                full = prefix + kd
                self.emit(f'pub mod {kd} {{')
                if full in tree:
                    self.emit('use vstd::prelude::*; use vstd::string::*; use vstd::slice::*; use crate::vp::*; use crate::sp::*;')
                    self.emit('verus!{')
                    self.emit('broadcast use {' + ', '.join(self.extra.get('group:' + full, ['crate::vp::group_vp']) + self.extra.get('broadcast:' + full, [])) + '};')
                    for t in self.extra.get('module:' + full, []):
                        self.emit(t)
                    for t in tree[full][0]:
                        ov = self.extra['types'].get(full + '::' + t['name'])
                        if ov is not None:
                            self.emit(ov)
                            continue
                        if t['copy']:
                            self.emit('#[derive(Clone, Copy)]')
                        for x, y in self.extra.get('retype:' + full, []):
                            t = dict(t, text=re.sub(x, y, t['text']))
                        if 'retype:' + full in self.extra:
                            self.emit(t['text'])
                            continue
                        self.emit(re.sub(r'(core :: cell :: RefCell|crate :: nora_ssh :: sync :: LocalMutex) <', 'crate::vp::Erased<', t['text']))
                    for k in tree[full][1]:
                        self.fn(k, fmt.get(k, '{ unimplemented!() }'))
                    self.emit('}')
                rec(full + '::')
                self.emit('}')
        rec('')
        out = '\n'.join(self.lines)
        self.emit('/// byte string literals, by content\npub mod lit { use vstd::prelude::*; verus!{')
        for h in sorted(set(re.findall(r'crate::lit::[lb]_([0-9a-f]+)\(\)', out))):
            b = bytes.fromhex(h)
            e = ', '.join(f'{x}u8' for x in b)
            self.emit(f'#[verifier::opaque] pub open spec fn l_{h}() -> Seq<u8> {{ seq![{e}] }}')
            self.emit(f"pub fn b_{h}() -> (r: &'static [u8; {len(b)}]) ensures r@ == l_{h}(), l_{h}().len() == {len(b)} {{ let r: &'static [u8; {len(b)}] = &[{e}]; proof {{ reveal(l_{h}); }} assert(r@ =~= l_{h}()); r }}")
        self.emit('}}')
        self.emit('fn main() {}')
        return '\n'.join(self.lines)

    def at(self, line):
        for a, b, k in self.map:
            if a <= line <= b:
                return k
        return None
