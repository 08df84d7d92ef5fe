"""Contracts for the two programs, nora_sshd and nora_scp."""
from .assemble import Contract

CONTRACTS, SP, EXTRA = {}, [], {'types': {}}
N = 'crate::nora_ssh::'


def C(key, **kw):
    CONTRACTS[key] = Contract(key, **kw)


# ------------------------------------------------------------------ nora_sshd
D = 'nora_sshd::'
EXTRA['types'][D + 'Handlers'] = '#[verifier::external_body] pub struct Handlers { b: u8 }'
EXTRA['types'][D + 'User'] = 'pub struct User { pub _name: Box<str>, pub shell: Option<crate::ext::async_std::process::Child> }'
ED = 'ssh-ed25519'.encode().hex()
C(D + '<Handlers as ServerHandlers>::authenticate', inherent=True, lits=True, safety=['C26'],
  ens=[(['C26'], f'r is Ok ==> ($3 matches {N}auth::Auth::PublicKey {{ algorithm, key, signature, message }} && algorithm@ == crate::lit::l_{ED}() && crate::ext::ed25519_dalek::verifies(key@, message@, signature@))')])

C(D + '<Handlers as ServerHandlers>::public_key_exists', inherent=True, lits=True, safety=['C26'], ens=[(['C26'], f'r is Ok == ($3@ == crate::lit::l_{ED}())')])

# ------------------------------------------------------------------ nora_scp
PRE = 'nora_scp::'
RE = [(r'std ?:: ?cell ?:: ?RefCell ?:: ?new ?\(', '('), (r'std ?:: ?io ?:: ?BufReader ?:: ?new ?\(', '('), (r'\s*\.borrow_mut\(\)', ''), (r'\.write_all\(&mut ', '.write_all(&'),
      (r'&mut (\w+)\[([^\]]*\.\.)', r'&mut \1.vms()[\2'),
      (r'\.splitn\(', '.vsplitn('), (r'(\w+)\s*\.starts_with\("-"\)', r'crate::vp::vstr_starts(\1, 45)'), (r'std ?:: ?vec ?:: ?Vec ?:: ?new ?\(', 'Vec::new('), (r'\.strip_suffix\(', '.vstrip_suffix('), (r'(\w+)\s*\.parse::<usize>\(\)', r'crate::vp::vparse_usize(\1)'),
      (r'(\w+)\[(\d+)\.\.\]\.as_bytes\(\)', r'crate::vp::vstr_index(\1, \2, crate::vp::vstr_len(\1)).as_bytes()'),
      (r'std ?:: ?(fs|io|path|env) ?:: ?', r'crate::ext::stdio::\1::'), (r'Box ?< ?dyn [\w: ]*Error ?>', 'crate::vp::AnyError')]
OPS = ('.write_all', 'fmt::print', '.read', '.read_exact', '.read_until', '.flush', '.metadata', 'File::open', 'File::create', 'create_dir_all', 'set_current_dir', 'args_os', 'receive', 'send')
SYS = dict(wtype='stdio::Sys', retype=RE)
EXTRA['retype:nora_scp'] = RE
EXTRA['group:nora_scp'] = ['crate::vp::' + n for n in ('axiom_slice_len', 'axiom_mut_slice_len', 'axiom_str_utf8')]
SP.append("""
// ---- scp -f
pub use crate::ext::stdio::{file_bytes, file_size, is_dir, has_last, last_part, Sys};
use crate::ext::stdio::path::PathBuf;
use crate::ext::fmt::{decimal, octal4};
pub open spec fn imin(a: int, b: int) -> int { if a < b { a } else { b } }
pub open spec fn scp_head(p: Seq<u8>) -> Seq<u8> { Seq::<u8>::empty() + seq![67u8] + octal4(0o644) + seq![32u8] + decimal(file_size(p) as int) + seq![32u8] + last_part(p) + seq![10u8] }
/// the record of a file: header, as much of the announced size as there is, a zero byte
pub open spec fn scp_body(p: Seq<u8>) -> Seq<u8> { file_bytes(p).subrange(0, imin(file_size(p) as int, file_bytes(p).len() as int)) }
pub open spec fn scp_record(p: Seq<u8>) -> Seq<u8> { scp_head(p) + scp_body(p) + seq![0u8] }
pub open spec fn scp_records(ps: Seq<PathBuf>, n: int) -> Seq<u8> decreases n { if n <= 0 { seq![] } else { scp_records(ps, n - 1) + scp_record(ps[n - 1]@) } }
pub open spec fn scp_whole(p: Seq<u8>) -> bool { file_size(p) <= file_bytes(p).len() && !last_part(p).contains(10u8) }
/// a file there is a record for
pub open spec fn scp_fit(p: Seq<u8>) -> bool { scp_whole(p) && !is_dir(p) && has_last(p) && is_utf8(last_part(p)) }
pub open spec fn scp_all(ps: Seq<PathBuf>) -> Seq<u8> { scp_records(ps, ps.len() as int) }
proof fn lemma_scp_prefix(ps: Seq<PathBuf>, n: int, m: int)
    requires 0 <= n <= m ensures scp_records(ps, n).is_prefix_of(scp_records(ps, m)) decreases m - n
{ if n < m { lemma_scp_prefix(ps, n, m - 1); } }
/// the n-th record begun
pub open spec fn scp_said(out: Seq<u8>, o: Seq<u8>, ps: Seq<PathBuf>, n: int, t: Seq<u8>) -> bool { out == o + scp_records(ps, n) + t }
pub broadcast proof fn lemma_scp_first(o: Seq<u8>, ps: Seq<PathBuf>)
    ensures #[trigger] scp_said(o, o, ps, 0, Seq::empty())
{ assert(o =~= o + scp_records(ps, 0) + Seq::empty()); }
pub broadcast proof fn lemma_scp_last(out: Seq<u8>, o: Seq<u8>, ps: Seq<PathBuf>)
    requires #[trigger] scp_said(out, o, ps, ps.len() as int, Seq::empty()) ensures out == o + scp_all(ps)
{ assert(out =~= o + scp_all(ps)); }
pub open spec fn scp_part(p: Seq<u8>, n: int) -> Seq<u8> { scp_head(p) + file_bytes(p).subrange(0, n) }
pub broadcast proof fn lemma_scp_head(out: Seq<u8>, o: Seq<u8>, ps: Seq<PathBuf>, n: int, h: Seq<u8>)
    requires #[trigger] scp_said(out, o, ps, n, Seq::empty()), 0 <= n < ps.len(), h =~= scp_head(ps[n]@) ensures scp_said(#[trigger] (out + h), o, ps, n, scp_part(ps[n]@, 0))
{ assert((out + h) =~= o + scp_records(ps, n) + scp_part(ps[n]@, 0)); }
pub broadcast proof fn lemma_scp_more(out: Seq<u8>, o: Seq<u8>, ps: Seq<PathBuf>, n: int, k: int, x: Seq<u8>)
    requires #[trigger] scp_said(out, o, ps, n, scp_part(ps[n]@, k)), 0 <= k, k + x.len() <= file_bytes(ps[n]@).len(), forall|i: int| 0 <= i < x.len() ==> #[trigger] x[i] == file_bytes(ps[n]@)[k + i]
    ensures scp_said(#[trigger] (out + x), o, ps, n, scp_part(ps[n]@, k + x.len()))
{ hide(scp_head); hide(scp_records); let p = ps[n]@; let b = file_bytes(p);
  assert(b.subrange(0, k) + x =~= b.subrange(0, k + x.len()));
  lemma_scp_join(o, scp_records(ps, n), scp_part(p, k), x); lemma_scp_join(Seq::<u8>::empty(), scp_head(p), b.subrange(0, k), x); lemma_scp_e(scp_head(p) + (b.subrange(0, k) + x)); lemma_scp_e(scp_head(p));
  assert(o + scp_records(ps, n) + (scp_part(p, k) + x) == (o + scp_records(ps, n) + scp_part(p, k)) + x) by { lemma_scp_j3(o + scp_records(ps, n), scp_part(p, k), x); } }
proof fn lemma_scp_e(x: Seq<u8>) ensures Seq::<u8>::empty() + x == x { assert(Seq::<u8>::empty() + x =~= x); }
proof fn lemma_scp_j3(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>) ensures a + (b + c) == (a + b) + c { assert(a + (b + c) =~= (a + b) + c); }
pub broadcast proof fn lemma_scp_zero(out: Seq<u8>, o: Seq<u8>, ps: Seq<PathBuf>, n: int, k: int, x: Seq<u8>)
    requires #[trigger] scp_said(out, o, ps, n, scp_part(ps[n]@, k)), 0 <= n < ps.len(), k == file_size(ps[n]@), k <= file_bytes(ps[n]@).len(), x.len() == 1, x[0] == 0u8
    ensures scp_said(#[trigger] (out + x), o, ps, n + 1, Seq::empty())
{ assert(x =~= seq![0u8]); assert(out + x =~= o + scp_records(ps, n + 1) + Seq::empty()); }
pub broadcast proof fn lemma_scp_cut0(out: Seq<u8>, o: Seq<u8>, ps: Seq<PathBuf>, n: int)
    requires #[trigger] scp_said(out, o, ps, n, Seq::empty()), 0 <= n <= ps.len() ensures out.is_prefix_of(o + scp_all(ps))
{ lemma_scp_prefix(ps, n, ps.len() as int); }
pub broadcast proof fn lemma_scp_cut(out: Seq<u8>, o: Seq<u8>, ps: Seq<PathBuf>, n: int, k: int)
    requires #[trigger] scp_said(out, o, ps, n, scp_part(ps[n]@, k)), 0 <= n < ps.len(), 0 <= k <= file_size(ps[n]@), k <= file_bytes(ps[n]@).len() ensures out.is_prefix_of(o + scp_all(ps))
{ hide(scp_head); hide(scp_records); lemma_scp_prefix(ps, n + 1, ps.len() as int); 
  let p = ps[n]@; let b = file_bytes(p); let m = imin(file_size(p) as int, b.len() as int); let x = b.subrange(k, m) + seq![0u8];
  assert(scp_body(p) =~= b.subrange(0, k) + b.subrange(k, m));
  assert(scp_record(p) =~= scp_part(p, k) + x);
  lemma_scp_join(o, scp_records(ps, n), scp_part(p, k), x);
  assert(scp_records(ps, n + 1) == scp_records(ps, n) + scp_record(p)) by { reveal(scp_records); }
  lemma_scp_trans(out, o, scp_records(ps, n + 1), scp_all(ps), x); }
proof fn lemma_scp_join(o: Seq<u8>, r: Seq<u8>, t: Seq<u8>, x: Seq<u8>) ensures o + (r + (t + x)) == (o + r + t) + x { assert(o + (r + (t + x)) =~= (o + r + t) + x); }
proof fn lemma_scp_trans(out: Seq<u8>, o: Seq<u8>, a: Seq<u8>, b: Seq<u8>, x: Seq<u8>) requires out + x == o + a, a.is_prefix_of(b) ensures out.is_prefix_of(o + b)
{ assert((out + x).len() == out.len() + x.len()); assert((o + a).len() == o.len() + a.len()); assert forall|i: int| 0 <= i < out.len() implies out[i] == (o + b)[i] by { assert((out + x)[i] == out[i]); if i >= o.len() { assert((o + a)[i] == a[i - o.len()]); } else { assert((o + a)[i] == o[i]); } } assert((out + x).len() >= out.len()); assert(out =~= (o + b).subrange(0, out.len() as int)); }
""")
T = ['C25']
WF = 'vp_w.input == old(vp_w).input && vp_w.files == old(vp_w).files && vp_w.cwd == old(vp_w).cwd && vp_w.faults >= old(vp_w).faults'
EXTRA['broadcast:nora_scp'] = ['crate::sp::lemma_scp_' + n for n in ('first', 'last', 'head', 'more', 'zero', 'cut0', 'cut')]
C(PRE + 'send', safety=T, hide=['scp_said', 'scp_part', 'scp_all'], attrs='#[verifier::spinoff_prover]', world=OPS, **SYS,
  ens=[(T, 'r is Ok ==> final(vp_w).output == old(vp_w).output + scp_all($1@) && (forall|i: int| 0 <= i < $1@.len() ==> scp_fit(#[trigger] $1@[i]@))'),
       (T, 'r is Err && final(vp_w).faults == old(vp_w).faults ==> exists|i: int| 0 <= i < $1@.len() && !scp_fit(#[trigger] $1@[i]@)'),
       (T, 'final(vp_w).output.is_prefix_of(old(vp_w).output + scp_all($1@))'),
       (T, WF.replace('vp_w.', 'final(vp_w).').replace('old(final(vp_w).)', 'old(vp_w)'))],
  loops={1: f'invariant {WF}, vp_s@ == $1@, 0 <= vp_i <= vp_s@.len(), scp_said(vp_w.output, old(vp_w).output, $1@, vp_i as int, Seq::empty()), forall|i: int| 0 <= i < vp_i ==> scp_fit(#[trigger] $1@[i]@), decreases vp_s@.len() - vp_i',
         2: f'invariant {WF}, vp_s@ == $1@, 0 < vp_i <= vp_s@.len(), #path@ == $1@[vp_i - 1]@, #size <= file_size(#path@), !last_part(#path@).contains(10u8), !is_dir(#path@), has_last(#path@), is_utf8(last_part(#path@)), '
            'f.rest() == file_bytes(#path@).subrange(file_size(#path@) - #size, file_bytes(#path@).len() as int), file_size(#path@) - #size <= file_bytes(#path@).len(), '
            'scp_said(vp_w.output, old(vp_w).output, $1@, vp_i - 1, scp_part($1@[vp_i - 1]@, file_size(#path@) - #size as int)), decreases #size'})

SP.append("""
// ---- scp -t
use crate::ext::stdio::{enter, parent_of, Created};
/// a header line, from `C` to the newline: mode, size and name
pub open spec fn scp_line(t: Seq<u8>) -> Option<(nat, Seq<u8>)> {
    let a = first(t, 32u8);
    let t1 = t.subrange(a + 1, t.len() as int);
    let b = first(t1, 32u8);
    let t2 = t1.subrange(b + 1, t1.len() as int);
    if !is_utf8(t) || a == t.len() || b == t1.len() { None }
    else if a != 5 || !octal(t.subrange(0, a).subrange(1, a)) { None }
    else if !digits(t1.subrange(0, b)) || number(t1.subrange(0, b)) > usize::MAX { None }
    else { Some((number(t1.subrange(0, b)), t2.drop_last())) }
}
/// the header at the start of the input, and what is behind it
pub open spec fn scp_hdr(i: Seq<u8>) -> Option<(nat, Seq<u8>, Seq<u8>)> {
    if i.len() == 0 || i[0] != 67 { None }
    else {
        let j = i.subrange(1, i.len() as int);
        let k = first(j, 10u8);
        if k == j.len() { None } else { match scp_line(seq![67u8] + j.subrange(0, k + 1)) { None => None, Some((n, f)) => Some((n, f, j.subrange(k + 1, j.len() as int))) } }
    }
}
/// a name directly inside a directory
pub open spec fn scp_name(s: Seq<u8>) -> bool { s.len() > 0 && !(s.len() == 1 && s[0] == 46) && !(s.len() == 2 && s[0] == 46 && s[1] == 46) && !s.contains(47u8) }
/// one file: header, announced bytes, zero byte (into a directory: its name must be one)
pub open spec fn scp_xfer(i: Seq<u8>, dm: bool) -> Option<(Seq<u8>, Seq<u8>, Seq<u8>)> {
    match scp_hdr(i) { None => None, Some((n, f, r)) => if (dm && !scp_name(f)) || r.len() <= n || r[n as int] != 0 { None } else { Some((f, r.subrange(0, n as int), r.subrange(n as int + 1, r.len() as int))) } }
}
/// the first n files of the input, and what is left
pub open spec fn scp_xfers(i: Seq<u8>, dm: bool, n: int) -> Option<(Seq<(Seq<u8>, Seq<u8>)>, Seq<u8>)> decreases n {
    if n <= 0 { Some((seq![], i)) } else { match scp_xfers(i, dm, n - 1) { None => None, Some((l, r)) => match scp_xfer(r, dm) { None => None, Some((f, d, r2)) => Some((l.push((f, d)), r2)) } } }
}
pub open spec fn zeros(n: int) -> Seq<u8> { Seq::new(n as nat, |i: int| 0u8) }
pub open spec fn scp_dir(o: Sys, dm: bool, ps: Seq<PathBuf>) -> Seq<u8> { if dm { enter(o.cwd, ps[0]@) } else { o.cwd } }
/// the j-th file of this run is the j-th of the input, where it belongs
pub open spec fn scp_file(c: Created, o: Sys, dm: bool, ps: Seq<PathBuf>, j: int, f: Seq<u8>, d: Seq<u8>) -> bool { c.dir == scp_dir(o, dm, ps) && c.path == (if dm { f } else { ps[j]@ }) && c.data == d }
pub open spec fn scp_kept(w: Sys, o: Sys) -> bool { scp_kept2(w.files, o) }
pub open spec fn scp_kept2(w: Seq<Created>, o: Sys) -> bool { w.len() >= o.files.len() && forall|j: int| 0 <= j < o.files.len() ==> #[trigger] w[j] == o.files[j] }
/// between files: n of them are stored and acknowledged
pub open spec fn scp_got(w: Sys, o: Sys, dm: bool, ps: Seq<PathBuf>, n: int) -> bool {
    &&& 0 <= n && scp_kept(w, o) && w.files.len() == o.files.len() + n && w.output =~= o.output + zeros(1 + 2 * n) && w.cwd == scp_dir(o, dm, ps) && w.faults == o.faults
    &&& (scp_xfers(o.input, dm, n) matches Some((l, r)) && w.input == r && l.len() == n
        && (forall|j: int| 0 <= j < n ==> scp_file(#[trigger] w.files[o.files.len() + j], o, dm, ps, j, l[j].0, l[j].1) && (dm ==> scp_name(l[j].0))))
}
/// inside the n-th file, of which `pos` bytes are stored
pub open spec fn scp_mid(w: Sys, o: Sys, dm: bool, ps: Seq<PathBuf>, n: int, pos: int, size: int) -> bool {
    &&& 0 <= n && scp_kept(w, o) && w.files.len() == o.files.len() + n + 1 && w.output =~= o.output + zeros(2 + 2 * n) && w.cwd == scp_dir(o, dm, ps) && w.faults == o.faults
    &&& (scp_xfers(o.input, dm, n) matches Some((l, q)) && l.len() == n
        && (forall|j: int| 0 <= j < n ==> scp_file(#[trigger] w.files[o.files.len() + j], o, dm, ps, j, l[j].0, l[j].1) && (dm ==> scp_name(l[j].0)))
        && (scp_hdr(q) matches Some((m, f, r)) && m == size && 0 <= pos <= size && pos <= r.len() && w.input == r.subrange(pos, r.len() as int) && (dm ==> scp_name(f))
            && scp_file(w.files[o.files.len() + n], o, dm, ps, n, f, r.subrange(0, pos))))
}
/// the input is not what was to come: after some files, something that is none (or not the right number of targets was given)
pub open spec fn scp_bad(o: Sys, dm: bool, ps: Seq<PathBuf>) -> bool {
    (dm && ps.len() != 1) || exists|n: int| 0 <= n && (dm || n < ps.len()) && (#[trigger] scp_xfers(o.input, dm, n) matches Some((l, r)) && scp_xfer(r, dm) is None && (dm ==> r.len() > 0))
}
/// whatever happened, files and directories are only where they may be
pub open spec fn scp_safe(w: Seq<Created>, o: Sys, dm: bool, ps: Seq<PathBuf>) -> bool {
    scp_kept2(w, o) && (forall|j: int| o.files.len() <= j < w.len() ==> (#[trigger] w[j]).dir == scp_dir(o, dm, ps) && (if dm { scp_name(w[j].path) } else { j - o.files.len() < ps.len() && w[j].path == ps[j - o.files.len()]@ }))
}
pub open spec fn scp_dirs(w: Seq<(Seq<u8>, Seq<u8>)>, o: Sys, dm: bool, ps: Seq<PathBuf>) -> bool {
    w.len() >= o.dirs.len() && (forall|j: int| 0 <= j < w.len() ==> if j < o.dirs.len() { #[trigger] w[j] == o.dirs[j] } else { w[j].0 == o.cwd && scp_asked(w[j].1, dm, ps) })
}
pub open spec fn scp_asked(p: Seq<u8>, dm: bool, ps: Seq<PathBuf>) -> bool { exists|k: int| 0 <= k < ps.len() && p == if dm { (#[trigger] ps[k])@ } else { parent_of(ps[k]@) } }

pub broadcast proof fn lemma_scp_c(s: Seq<u8>, y: Seq<u8>) requires s.len() == 1, s[0] == 67u8 ensures #![trigger s + y, scp_line(seq![67u8] + y)] s + y == seq![67u8] + y { assert(s =~= seq![67u8]); }
pub broadcast proof fn lemma_scpt_0(w: Sys, o: Sys, dm: bool, ps: Seq<PathBuf>, n: int)
    requires n == 0, w.files == o.files, w.input == o.input, w.output =~= o.output.push(0u8), w.cwd == scp_dir(o, dm, ps), w.faults == o.faults
    ensures #[trigger] scp_got(w, o, dm, ps, n)
{}
pub broadcast proof fn lemma_scpt_new(w: Sys, w2: Sys, o: Sys, dm: bool, ps: Seq<PathBuf>, n: int, n2: int, pos: int, size: int)
    requires #[trigger] scp_got(w, o, dm, ps, n), n2 == n, pos == 0,
        scp_hdr(w.input) matches Some((m, f, r)) && size == m && w2.input == r && (dm ==> scp_name(f)) && w2.files == w.files.push(Created { dir: w.cwd, path: if dm { f } else { ps[n]@ }, data: Seq::empty() }),
        w2.output =~= w.output.push(0u8), w2.cwd == w.cwd, w2.faults == w.faults
    ensures #[trigger] scp_mid(w2, o, dm, ps, n2, pos, size)
{
    let r = (scp_hdr(w.input)->0).2;
    assert(r =~= r.subrange(0, r.len() as int));
    assert(r.subrange(0, 0) =~= Seq::<u8>::empty());
    assert forall|j: int| 0 <= j < o.files.len() implies #[trigger] w2.files[j] == o.files[j] by { assert(w2.files[j] == w.files[j]); }
    let l = (scp_xfers(o.input, dm, n)->0).0;
    assert forall|j: int| 0 <= j < n implies scp_file(#[trigger] w2.files[o.files.len() + j], o, dm, ps, j, l[j].0, l[j].1) && (dm ==> scp_name(l[j].0)) by { assert(w2.files[o.files.len() + j] == w.files[o.files.len() + j]); }
}
pub broadcast proof fn lemma_scpt_more(w: Sys, w2: Sys, o: Sys, dm: bool, ps: Seq<PathBuf>, n: int, n2: int, pos: int, pos2: int, size: int)
    requires #[trigger] scp_mid(w, o, dm, ps, n, pos, size), n2 == n, 0 <= pos2 - pos <= w.input.len(), pos2 <= size,
        w2.input == w.input.subrange(pos2 - pos, w.input.len() as int), w2.files.len() == w.files.len(),
        forall|j: int| 0 <= j < w.files.len() - 1 ==> #[trigger] w2.files[j] == w.files[j],
        w2.files.last().dir == w.files.last().dir, w2.files.last().path == w.files.last().path,
        w2.files.last().data =~= w.files.last().data + w.input.subrange(0, pos2 - pos),
        w2.output == w.output, w2.cwd == w.cwd, w2.faults == w.faults
    ensures #[trigger] scp_mid(w2, o, dm, ps, n2, pos2, size)
{
    let q = (scp_xfers(o.input, dm, n)->0).1;
    let r = (scp_hdr(q)->0).2;
    assert(w2.input =~= r.subrange(pos2, r.len() as int));
    assert(w2.files.last().data =~= r.subrange(0, pos2));
    assert(w2.files[o.files.len() + n] == w2.files.last() && w.files[o.files.len() + n] == w.files.last());
    assert(scp_file(w2.files[o.files.len() + n], o, dm, ps, n, (scp_hdr(q)->0).1, r.subrange(0, pos2)));
    assert(scp_kept(w2, o)) by { assert forall|j: int| 0 <= j < o.files.len() implies #[trigger] w2.files[j] == o.files[j] by { assert(w2.files[j] == w.files[j]); } }
    assert(w2.output =~= o.output + zeros(2 + 2 * n));
    assert forall|j: int| 0 <= j < o.files.len() implies #[trigger] w2.files[j] == o.files[j] by { assert(w2.files[j] == w.files[j]); }
    let l = (scp_xfers(o.input, dm, n)->0).0;
    assert forall|j: int| 0 <= j < n implies scp_file(#[trigger] w2.files[o.files.len() + j], o, dm, ps, j, l[j].0, l[j].1) && (dm ==> scp_name(l[j].0)) by { assert(w2.files[o.files.len() + j] == w.files[o.files.len() + j]); }
}
pub broadcast proof fn lemma_scpt_end(w: Sys, w2: Sys, o: Sys, dm: bool, ps: Seq<PathBuf>, n: int, n2: int, pos: int, size: int)
    requires #[trigger] scp_mid(w, o, dm, ps, n, pos, size), pos == size, n2 == n + 1, w.input.len() > 0, w.input[0] == 0u8,
        w2.input == w.input.subrange(1, w.input.len() as int), w2.files == w.files, w2.output =~= w.output.push(0u8), w2.cwd == w.cwd, w2.faults == w.faults
    ensures #[trigger] scp_got(w2, o, dm, ps, n2)
{
    let (l, q) = scp_xfers(o.input, dm, n)->0;
    let (m, f, r) = scp_hdr(q)->0;
    assert(w2.input =~= r.subrange(m as int + 1, r.len() as int));
    assert(scp_xfers(o.input, dm, n + 1) == Some((l.push((f, r.subrange(0, m as int))), w2.input)));
    assert(scp_file(w2.files[o.files.len() + n], o, dm, ps, n, f, r.subrange(0, m as int)));
    let l2 = l.push((f, r.subrange(0, m as int)));
    assert forall|j: int| 0 <= j < n + 1 implies scp_file(#[trigger] w2.files[o.files.len() + j], o, dm, ps, j, l2[j].0, l2[j].1) && (dm ==> scp_name(l2[j].0)) by {
        if j < n { assert(l2[j] == l[j]); let c = w.files[o.files.len() + j]; assert(scp_file(c, o, dm, ps, j, l[j].0, l[j].1)); assert(dm ==> scp_name(l[j].0)); }
        else { assert(j == n); assert(l2[n] == (f, r.subrange(0, m as int))); assert(dm ==> scp_name(f)); }
    }
}
/// what stops it without the system refusing anything
pub broadcast proof fn lemma_scpt_bad(w: Sys, o: Sys, dm: bool, ps: Seq<PathBuf>, n: int)
    requires #[trigger] scp_got(w, o, dm, ps, n), dm || n < ps.len(), dm ==> w.input.len() > 0, scp_xfer(w.input, dm) is None
    ensures #[trigger] scp_bad(o, dm, ps)
{}
pub broadcast proof fn lemma_scpt_short(w: Sys, o: Sys, dm: bool, ps: Seq<PathBuf>, n: int, pos: int, size: int)
    requires #[trigger] scp_mid(w, o, dm, ps, n, pos, size), dm || n < ps.len(), w.input.len() <= size - pos || w.input[size - pos] != 0
    ensures #[trigger] scp_bad(o, dm, ps)
{ let q = (scp_xfers(o.input, dm, n)->0).1; assert(scp_xfer(q, dm) is None); }
pub broadcast proof fn lemma_scpt_safe(w: Sys, o: Sys, dm: bool, ps: Seq<PathBuf>, n: int)
    requires #[trigger] scp_got(w, o, dm, ps, n), dm || n <= ps.len() ensures scp_safe(w.files, o, dm, ps)
{ assert forall|j: int| o.files.len() <= j < w.files.len() implies (#[trigger] w.files[j]).dir == scp_dir(o, dm, ps) && (if dm { scp_name(w.files[j].path) } else { w.files[j].path == ps[j - o.files.len()]@ }) by { let k = j - o.files.len(); assert(w.files[o.files.len() + k] == w.files[j]); } }
pub broadcast proof fn lemma_scpt_safe2(w: Sys, o: Sys, dm: bool, ps: Seq<PathBuf>, n: int, pos: int, size: int)
    requires #[trigger] scp_mid(w, o, dm, ps, n, pos, size), dm || n < ps.len() ensures scp_safe(w.files, o, dm, ps)
{ assert forall|j: int| o.files.len() <= j < w.files.len() implies (#[trigger] w.files[j]).dir == scp_dir(o, dm, ps) && (if dm { scp_name(w.files[j].path) } else { w.files[j].path == ps[j - o.files.len()]@ }) by { let k = j - o.files.len(); assert(w.files[o.files.len() + k] == w.files[j]); } }
pub broadcast proof fn lemma_scpt_got(w: Sys, o: Sys, dm: bool, ps: Seq<PathBuf>, n: int)
    requires #[trigger] scp_got(w, o, dm, ps, n) ensures n >= 0, w.files.len() == o.files.len() + n, w.cwd == scp_dir(o, dm, ps), w.faults == o.faults {}
pub broadcast proof fn lemma_scpt_mid(w: Sys, o: Sys, dm: bool, ps: Seq<PathBuf>, n: int, pos: int, size: int)
    requires #[trigger] scp_mid(w, o, dm, ps, n, pos, size) ensures n >= 0, 0 <= pos <= size, w.files.len() == o.files.len() + n + 1, w.cwd == scp_dir(o, dm, ps), w.faults == o.faults {}
pub broadcast proof fn lemma_scpt_argc(o: Sys, ps: Seq<PathBuf>) requires ps.len() != 1 ensures #[trigger] scp_bad(o, true, ps) {}
pub broadcast proof fn lemma_scpt_safe0(o: Sys, dm: bool, ps: Seq<PathBuf>) ensures #[trigger] scp_safe(o.files, o, dm, ps) {}
pub broadcast proof fn lemma_scpt_safe_new(w: Sys, w2: Seq<Created>, o: Sys, dm: bool, ps: Seq<PathBuf>, n: int)
    requires #[trigger] scp_got(w, o, dm, ps, n), dm || n < ps.len(), w2.len() == w.files.len() + 1, w2.drop_last() =~= w.files, w2.last().dir == w.cwd, if dm { scp_name(w2.last().path) } else { w2.last().path == ps[n]@ }
    ensures #[trigger] scp_safe(w2, o, dm, ps)
{ lemma_scpt_safe(w, o, dm, ps, n); assert forall|j: int| 0 <= j < w.files.len() implies #[trigger] w2[j] == w.files[j] by { assert(w2.drop_last()[j] == w2[j]); } }
pub broadcast proof fn lemma_scpt_safe_more(w: Sys, w2: Seq<Created>, o: Sys, dm: bool, ps: Seq<PathBuf>, n: int, pos: int, size: int)
    requires #[trigger] scp_mid(w, o, dm, ps, n, pos, size), dm || n < ps.len(), w2.len() == w.files.len(), forall|j: int| 0 <= j < w.files.len() - 1 ==> #[trigger] w2[j] == w.files[j], w2.last().dir == w.files.last().dir, w2.last().path == w.files.last().path
    ensures #[trigger] scp_safe(w2, o, dm, ps)
{ lemma_scpt_safe2(w, o, dm, ps, n, pos, size); assert(forall|j: int| 0 <= j < w2.len() ==> (#[trigger] w2[j]).dir == w.files[j].dir && w2[j].path == w.files[j].path); }
pub broadcast proof fn lemma_scpt_dirs0(o: Sys, dm: bool, ps: Seq<PathBuf>) ensures #[trigger] scp_dirs(o.dirs, o, dm, ps) {}
pub broadcast proof fn lemma_scpt_dirs(w: Seq<(Seq<u8>, Seq<u8>)>, d: Seq<u8>, p: Seq<u8>, o: Sys, dm: bool, ps: Seq<PathBuf>)
    requires scp_dirs(w, o, dm, ps), d == o.cwd, scp_asked(p, dm, ps)
    ensures #[trigger] scp_dirs(w.push((d, p)), o, dm, ps)
{}
""")
LTC = ['lemma_scpc_' + n for n in ('0', 'step', 'bad', 'end', 'received', 'sent')]
LT = ['lemma_scp_c'] + ['lemma_scpt_' + n for n in ('0', 'new', 'more', 'end', 'bad', 'short', 'safe', 'safe2', 'argc', 'got', 'mid', 'safe0', 'safe_new', 'safe_more', 'dirs0', 'dirs')]
T = ['C24']
EXTRA['broadcast:nora_scp'] += ['crate::sp::' + n for n in LT] + ['crate::vp::lemma_first', 'crate::vp::axiom_utf8_next']
O = '*old(vp_w), $2, $1@'
OCT = ('invariant 0 <= #{i} <= #{s}@.len(), #{r} ==> forall|i: int| 0 <= i < #{i} ==> {p1}, !#{r} ==> exists|i: int| 0 <= i < #{s}@.len() && !{p1}, decreases #{s}@.len() - #{i}')


def scan(n, p):
    k = '' if n == 1 else f'__{n}'
    d = dict(r='vp_r' + k, i='vp_i' + k, s='vp_s' + k)
    return OCT.format(p1=p.format('#[trigger] #' + d['s'] + '@[i]'), **d)


C(PRE + 'receive', cases=['$2', '!$2'], safety=T, world=OPS, **SYS, attrs='#[verifier::loop_isolation(false)] #[verifier::exec_allows_no_decreases_clause]',
  hide=['scp_got', 'scp_mid', 'scp_bad', 'scp_safe', 'scp_xfers', 'scp_dirs', 'number'],
  ens=[(T, f'r is Ok ==> scp_got(*final(vp_w), {O}, final(vp_w).files.len() - old(vp_w).files.len())'), (T, f'r is Ok ==> (if $2 {{ final(vp_w).input.len() == 0 && $1@.len() == 1 }} else {{ final(vp_w).files.len() - old(vp_w).files.len() == $1@.len() }})'),
       (T, f'r is Err && final(vp_w).faults == old(vp_w).faults ==> scp_bad({O})'),
       (T, f'scp_safe(final(vp_w).files, {O})'),
       (T, f'scp_dirs(final(vp_w).dirs, {O})')],
  loops={1: f'invariant $2, $1@.len() == 1, vp_w.files.len() >= old(vp_w).files.len(), scp_got(*vp_w, {O}, vp_w.files.len() - old(vp_w).files.len()), scp_dirs(vp_w.dirs, {O})',
         2: scan(1, '(48 <= {} <= 55)'), 3: scan(2, '(48 <= {} <= 57)'),
         4: f'invariant scp_mid(*vp_w, {O}, vp_w.files.len() - old(vp_w).files.len() - 1, #size__2 - #size__6, #size__2 as int), f__4.slot() == vp_w.files.len() - 1, scp_dirs(vp_w.dirs, {O}), #size__6 <= #size__2, decreases #size__6',
         5: f'invariant !$2, #vp_s__3@ == $1@, 0 <= #vp_i__3 <= #vp_s__3@.len(), scp_got(*vp_w, {O}, #vp_i__3 as int), scp_dirs(vp_w.dirs, {O})',
         6: scan(3, '(48 <= {} <= 55)').replace('vp_s__3', 'vp_s__4').replace('vp_i__3', 'vp_i__4'), 7: scan(4, '(48 <= {} <= 57)').replace('vp_s__4', 'vp_s__5').replace('vp_i__4', 'vp_i__5'),
         8: f'invariant scp_mid(*vp_w, {O}, #vp_i__3 - 1, #size__3 - #size__9, #size__3 as int), f__5.slot() == vp_w.files.len() - 1, vp_w.files.len() == old(vp_w).files.len() + #vp_i__3, scp_dirs(vp_w.dirs, {O}), #size__9 <= #size__3, decreases #size__9'})

SP.append("""
// ---- scp: the command line
use crate::ext::stdio::ffi::OsString;
/// what to do: nothing said yet, send, receive; into a directory; the paths
pub struct Cmd { pub mode: int, pub dir: bool, pub paths: Seq<Seq<u8>> }
pub open spec fn scp_none() -> Cmd { Cmd { mode: 0, dir: false, paths: seq![] } }
/// one argument more; none for an unknown flag
pub open spec fn scp_arg(c: Cmd, a: Seq<u8>) -> Option<Cmd> {
    if a == seq![45u8, 100u8] { Some(Cmd { dir: true, ..c }) }
    else if a == seq![45u8, 102u8] { Some(Cmd { mode: 1, ..c }) }
    else if a == seq![45u8, 116u8] { Some(Cmd { mode: 2, ..c }) }
    else if is_utf8(a) && a.len() > 0 && a[0] == 45 { None }
    else { Some(Cmd { paths: c.paths.push(a), ..c }) }
}
pub open spec fn scp_cmd(c: Cmd, a: Seq<Seq<u8>>) -> Option<Cmd> decreases a.len() {
    if a.len() == 0 { Some(c) } else { match scp_arg(c, a[0]) { None => None, Some(d) => scp_cmd(d, a.subrange(1, a.len() as int)) } }
}
/// the arguments after the name of the program
pub open spec fn scp_args(o: Sys) -> Seq<Seq<u8>> { if o.args.len() == 0 { o.args } else { o.args.subrange(1, o.args.len() as int) } }
pub open spec fn scp_line_of(o: Sys) -> Option<Cmd> { scp_cmd(scp_none(), scp_args(o)) }
pub open spec fn scp_views(ps: Seq<PathBuf>, v: Seq<Seq<u8>>) -> bool { ps.len() == v.len() && forall|i: int| 0 <= i < v.len() ==> (#[trigger] ps[i])@ == v[i] }
/// what `receive` does, for some paths with those names
pub open spec fn scp_did_receive(ok: bool, w: Sys, o: Sys, c: Cmd) -> bool {
    exists|ps: Seq<PathBuf>| scp_did_receive_to(ok, w, o, c.dir, ps) && #[trigger] scp_views(ps, c.paths)
}
pub open spec fn scp_did_receive_to(ok: bool, w: Sys, o: Sys, dm: bool, ps: Seq<PathBuf>) -> bool {
    &&& ok ==> scp_got(w, o, dm, ps, w.files.len() - o.files.len()) && (if dm { w.input.len() == 0 && ps.len() == 1 } else { w.files.len() - o.files.len() == ps.len() })
    &&& !ok && w.faults == o.faults ==> scp_bad(o, dm, ps)
    &&& scp_safe(w.files, o, dm, ps) && scp_dirs(w.dirs, o, dm, ps)
}
/// what `send` does
pub open spec fn scp_did_send(ok: bool, w: Sys, o: Sys, c: Cmd) -> bool {
    exists|ps: Seq<PathBuf>| scp_did_send_of(ok, w, o, ps) && #[trigger] scp_views(ps, c.paths)
}
pub open spec fn scp_did_send_of(ok: bool, w: Sys, o: Sys, ps: Seq<PathBuf>) -> bool {
    &&& ok ==> w.output == o.output + scp_all(ps) && (forall|i: int| 0 <= i < ps.len() ==> scp_fit(#[trigger] ps[i]@))
    &&& !ok && w.faults == o.faults ==> exists|i: int| 0 <= i < ps.len() && !scp_fit(#[trigger] ps[i]@)
    &&& w.output.is_prefix_of(o.output + scp_all(ps)) && w.files == o.files && w.cwd == o.cwd
}
pub broadcast proof fn lemma_scpc_received(ok: bool, w: Sys, o: Sys, c: Cmd, ps: Seq<PathBuf>, v: Seq<Seq<u8>>)
    requires #[trigger] scp_views(ps, v), v == c.paths, scp_did_receive_to(ok, w, o, c.dir, ps) ensures #[trigger] scp_did_receive(ok, w, o, c) {}
pub broadcast proof fn lemma_scpc_sent(ok: bool, w: Sys, o: Sys, c: Cmd, ps: Seq<PathBuf>, v: Seq<Seq<u8>>)
    requires #[trigger] scp_views(ps, v), v == c.paths, scp_did_send_of(ok, w, o, ps) ensures #[trigger] scp_did_send(ok, w, o, c) {}
pub open spec fn scp_v(ps: Seq<PathBuf>) -> Seq<Seq<u8>> { Seq::new(ps.len(), |i: int| ps[i]@) }
/// while the command line is read: what has been read so far says this, and this is left of it
pub open spec fn scp_reading(mode: int, dir: bool, ps: Seq<PathBuf>, left: Seq<Seq<u8>>, o: Sys) -> bool { scp_cmd(Cmd { mode, dir, paths: scp_v(ps) }, left) == scp_line_of(o) }
pub broadcast proof fn lemma_scpc_0(ps: Seq<PathBuf>, left: Seq<Seq<u8>>, o: Sys) requires ps.len() == 0, left =~= scp_args(o) ensures #[trigger] scp_reading(0, false, ps, left, o)
{ assert(scp_v(ps) =~= seq![]); }
pub broadcast proof fn lemma_scpc_step(mode: int, dir: bool, ps: Seq<PathBuf>, left: Seq<Seq<u8>>, o: Sys, mode2: int, dir2: bool, ps2: Seq<PathBuf>, left2: Seq<Seq<u8>>)
    requires #[trigger] scp_reading(mode, dir, ps, left, o), left.len() > 0, left2 =~= left.subrange(1, left.len() as int),
        ({ let a = left[0];
           if !is_utf8(a) { dir2 == dir && mode2 == mode && ps2.len() == ps.len() + 1 && ps2.drop_last() =~= ps && ps2.last()@ == a }
           else if a =~= seq![45u8, 100u8] { dir2 && mode2 == mode && ps2 == ps } else if a =~= seq![45u8, 102u8] { dir2 == dir && mode2 == 1 && ps2 == ps } else if a =~= seq![45u8, 116u8] { dir2 == dir && mode2 == 2 && ps2 == ps }
           else { !(is_utf8(a) && a.len() > 0 && a[0] == 45) && dir2 == dir && mode2 == mode && ps2.len() == ps.len() + 1 && ps2.drop_last() =~= ps && ps2.last()@ == a } })
    ensures #[trigger] scp_reading(mode2, dir2, ps2, left2, o)
{
    let a = left[0];
    axiom_ascii_utf8(a);
    let c = Cmd { mode, dir, paths: scp_v(ps) };
    let c2 = Cmd { mode: mode2, dir: dir2, paths: scp_v(ps2) };
    assert(left2 == left.subrange(1, left.len() as int));
    if is_utf8(a) && a.len() > 0 && a[0] == 45 { if a =~= seq![45u8, 100u8] {} else if a =~= seq![45u8, 102u8] {} else if a =~= seq![45u8, 116u8] {} else { assert(false); } }
    if !is_utf8(a) && a.len() == 2 && a[0] == 45 && a[1] < 128 { axiom_ascii_utf8(a); assert(ascii(a)) by { reveal(ascii); assert forall|i: int| 0 <= i < a.len() implies a[i] < 128 by { assert(i == 0 || i == 1); } } assert(false); }
    assert(!is_utf8(a) ==> a != seq![45u8, 100u8] && a != seq![45u8, 102u8] && a != seq![45u8, 116u8]);
    if ps2.len() > ps.len() { assert(forall|i: int| 0 <= i < ps.len() ==> ps2.drop_last()[i] == ps2[i]); assert(scp_v(ps2) =~= scp_v(ps).push(left[0])); assert(c2 == Cmd { paths: c.paths.push(a), ..c }); }
    assert(scp_arg(c, a) == Some(c2));
}
pub broadcast proof fn lemma_scpc_bad(mode: int, dir: bool, ps: Seq<PathBuf>, left: Seq<Seq<u8>>, o: Sys)
    requires #[trigger] scp_reading(mode, dir, ps, left, o), left.len() > 0, is_utf8(left[0]), left[0].len() > 0, left[0][0] == 45, left[0].len() != 2 || (left[0][1] != 100 && left[0][1] != 102 && left[0][1] != 116)
    ensures scp_line_of(o) is None
{}
pub broadcast proof fn lemma_scpc_end(mode: int, dir: bool, ps: Seq<PathBuf>, left: Seq<Seq<u8>>, o: Sys)
    requires #[trigger] scp_reading(mode, dir, ps, left, o), left.len() == 0
    ensures scp_line_of(o) == Some(Cmd { mode, dir, paths: scp_v(ps) }), scp_views(ps, scp_v(ps))
{}
""")
T = ['C24', 'C25']
DO = 'scp_line_of(*old(vp_w))'
W0 = '*old(vp_w)'
C(PRE + "start", safety=T, world=OPS, hide=['scp_got', 'scp_mid', 'scp_bad', 'scp_safe', 'scp_xfers', 'scp_dirs', 'scp_all', 'scp_reading', 'scp_line_of', 'scp_did_receive', 'scp_did_send'], attrs='#[verifier::loop_isolation(false)]', **SYS,
  req=[([], f'{DO} matches Some(c) ==> c.mode != 0')],
  ens=[(T, f'{DO} is None ==> r is Err && *final(vp_w) == *old(vp_w)'),
       (['C24'], f'{DO} matches Some(c) ==> c.mode == 2 ==> scp_did_receive(r is Ok, *final(vp_w), {W0}, c)'),
       (['C25'], f'{DO} matches Some(c) ==> c.mode == 1 ==> scp_did_send(r is Ok, *final(vp_w), {W0}, c)')],
  loops={1: f'invariant *vp_w == *old(vp_w), scp_reading(match #mode {{ Mode::Client => 0int, Mode::Send => 1, Mode::Receive => 2 }}, #make_dir, #paths@, #args.left(), {W0}), decreases #args.left().len()'})
EXTRA['broadcast:nora_scp'] += ['crate::sp::lemma_scpc_' + n for n in ('0', 'step', 'bad', 'end', 'received', 'sent')]
