"""Specifications and contracts for nora_ssh_core."""
from .assemble import Contract

K = 'nora_ssh_core::'
P = 'crate::nora_ssh_core::'
CONTRACTS = {}
SP = []          # text of module crate::sp


def C(key, **kw):
    CONTRACTS[key] = Contract(key, **kw)


# kind -> (view type, wf, encode, parse)
def enc1(kind, x):
    return {'u32': f'e_u32({x})', 'bool': f'e_bool({x})', 'str': f'e_str({x})', 'utf8': f'e_str({x})', 'nl': f'e_str({x})',
            'ascii': f'e_str({x})', 'raw': x, 'c16': x, 'zero': 'e_u32(0)', 'reason': f'e_u32({x})', 'mpint': f'e_mpint({x})'}[kind]


VT = {'u32': 'u32', 'bool': 'bool', 'reason': 'u32'}
WF = {'str': 'slen(v.{f})', 'utf8': 'slen(v.{f}) && is_utf8(v.{f})', 'nl': 'slen(v.{f}) && nl_ok(v.{f})', 'ascii': 'slen(v.{f}) && ascii(v.{f})',
      'c16': 'v.{f}.len() == 16', 'mpint': 'v.{f}.len() < 0xffff_ffff'}


def join(parts):
    if not parts:
        return 'Seq::<u8>::empty()'
    if len(parts) == 1:
        return parts[0]
    return f'{parts[0]} + ({join(parts[1:])})'


def dec_body(fields, build, s='s', i=0, conds=()):
    """fields: [(name, kind)]"""
    if i == len(fields):
        c = ' && '.join(list(conds) + [f'{s}.len() == 0'])
        return f'if {c} {{ Some({build}) }} else {{ None }}'
    name, kind = fields[i]
    n = f's{i}'
    if kind == 'raw':
        b = f'{{ let {name} = {s}; Some({build}) }}'
        return b if not conds else f'if {" && ".join(conds)} {b} else {{ None }}'
    p = {'u32': 'p_u32({})', 'reason': 'p_u32({})', 'bool': 'p_bool({})', 'c16': 'p_raw({}, 16)', 'zero': 'p_raw({}, 4)'}.get(kind, 'p_str({})').format(s)
    cs = list(conds)
    if kind == 'utf8':
        cs.append(f'is_utf8({name})')
    if kind == 'nl':
        cs.append(f'nl_ok({name})')
    if kind == 'ascii':
        cs.append(f'ascii({name})')
    if kind == 'zero':
        cs.append(f'{name} =~= seq![0u8, 0u8, 0u8, 0u8]')
    return f'match {p} {{ None => None, Some(({name}, {n})) => {dec_body(fields, build, n, i + 1, cs)} }}'


def view1(kind, e):
    return {'u32': e, 'bool': e, 'str': f'{e}@', 'raw': f'{e}@', 'c16': f'{e}@', 'utf8': f'{e}.spec_bytes()', 'nl': f'nlv({e})', 'ascii': f'asv({e})',
            'reason': f'reason_code({e})', 'mpint': f'{e}@'}[kind]


def layout(V, path, fields, lt="<'_>", access=None, rt=True):
    """Struct message: V datatype, enc, dec, wf, v."""
    vf = [(n, k) for n, k in fields if k != 'zero']
    SP.append(f'pub struct V{V} {{ ' + ', '.join(f'pub {n}: {VT.get(k, "Seq<u8>")}' for n, k in vf) + ' }')
    SP.append(f'pub open spec fn e_{V}(v: V{V}) -> Seq<u8> {{ ' + join([enc1(k, f'v.{n}') for n, k in fields]) + ' }')
    SP.append(f'pub open spec fn wf_{V}(v: V{V}) -> bool {{ ' + (' && '.join(WF[k].format(f=n) for n, k in vf if k in WF) or 'true') + ' }')
    build = f'V{V} {{ ' + ', '.join(n for n, k in vf) + ' }'
    SP.append(f'pub open spec fn d_{V}(s: Seq<u8>) -> Option<V{V}> {{ {dec_body(fields, build)} }}')
    acc = access or {}
    SP.append(f'pub open spec fn v_{V}(m: {P}{path}{lt}) -> V{V} {{ V{V} {{ ' + ', '.join(f'{n}: ' + view1(k, 'm.' + acc.get(n, n)) for n, k in vf) + ' } }')
    if rt:
        norm = 'v'
        last = [(n, k) for n, k in fields][-1] if fields else None
        hint = ''
        if last and last[1] != 'raw':
            e = enc1(last[1], f'v.{last[0]}')
            hint = f'assert({e} + Seq::<u8>::empty() =~= {e});'
        if last and last[1] == 'zero':
            hint += ' reveal(e_u32); reveal(be32); assert(e_u32(0) =~= seq![0u8, 0u8, 0u8, 0u8]); assert(p_raw(e_u32(0) + Seq::<u8>::empty(), 4) == Some((e_u32(0), Seq::<u8>::empty())));'
        SP.append(f'pub proof fn rt_{V}(v: V{V}) requires wf_{V}(v) ensures d_{V}(e_{V}(v)) == Some(v) {{ broadcast use group_rt; {hint} }}')
        if not any(k in ('bool', 'mpint') for _, k in fields):
            inv = ''
            if any(k == 'zero' for _, k in fields) or any(k == 'c16' for _, k in fields):
                inv = ' '
            SP.append(f'pub proof fn inv_{V}(s: Seq<u8>) ensures d_{V}(s) matches Some(v) ==> e_{V}(v) == s && wf_{V}(v) {{ broadcast use {{lemma_p_u32_inv, lemma_p_str_inv}}; ' +
                      f'if d_{V}(s) is Some {{ assert(e_{V}(d_{V}(s)->0) =~= s); }} }}')


def ser(key, V, deref='*self', extra_tags=(), safety=('C02',), pre='', tail=False, hide=(), cases=()):
    t = list(extra_tags)
    if not tail:
        C(key, req=[([], f'wf_{V}(v_{V}({deref}))')],
          ens=[(['C01', 'C02'] + t, f'r matches Some(n) ==> n == e_{V}(v_{V}({deref})).len() && n <= old($1)@.len() && wrote(old($1)@, final($1)@, e_{V}(v_{V}({deref})))'),
               (['C02'] + t, f'r is None ==> old($1)@.len() < e_{V}(v_{V}({deref})).len()'),
               (['C02'] + t, 'final($1)@.len() == old($1)@.len()')],
          safety=list(safety) + t, pre=pre, hide=hide, cases=cases)
    else:
        C(key, req=[([], f'wf_{V}(v_{V}({deref}))')],
          ens=[(['C01', 'C02'] + t, f'r matches Some((n, t)) ==> n == e_{V}(v_{V}({deref})).len() && n <= old($1)@.len() && suf(t@, old($1)@) && t@.len() == old($1)@.len() - n && final($1)@ == e_{V}(v_{V}({deref})) + final(t)@'),
               (['C02'] + t, f'r is None ==> old($1)@.len() < e_{V}(v_{V}({deref})).len()'),
               (['C02'] + t, 'final($1)@.len() == old($1)@.len()')],
          safety=list(safety) + t, pre=pre, hide=hide, cases=cases)


def par(key, V, res='Ok', extra=(), pre='', tags=(), hide=()):
    ok = 'r is Ok' if res == 'Ok' else 'r is Some'
    m = f'r matches Ok(m)' if res == 'Ok' else 'r matches Some(m)'
    ens = [(['C04', 'C01'] + list(tags), f'{ok} == d_{V}($1@) is Some'),
           (['C01', 'C04'] + list(tags), f'{m} ==> Some(v_{V}(m)) == d_{V}($1@)')]
    for e in extra:
        ens.append((['C01', 'C04'] + list(tags), e))
    C(key, ens=ens, safety=['C03', 'C22'] + list(tags), pre='proof { reveal(p_u32); reveal(p_bool); reveal(p_str); reveal(p_raw); } broadcast use lemma_sub_sub; ' + pre, hide=hide)


# ------------------------------------------------------------------ data.rs
D = K + 'data::'
ALLW = ['C01', 'C02', 'C05', 'C18']
ALLP = ['C01', 'C03', 'C04', 'C05', 'C22']
SP.append(f"pub open spec fn nlv(n: {P}data::NameList<'_>) -> Seq<u8> {{ n.${{nora_ssh_core::data::NameList.0}}.spec_bytes() }}")
SP.append(f"pub open spec fn asv(n: {P}data::AsciiStr<'_>) -> Seq<u8> {{ n.${{nora_ssh_core::data::AsciiStr.0}}.spec_bytes() }}")

C(D + '<AsciiStr as TryFrom<&[u8]>>::try_from', pre='proof { reveal(ascii); }', trait_ens='match r { Ok(vp_x) => ascii($1@) && asv(vp_x) == $1@, Err(_) => !ascii($1@) }', ens=[(['C04', 'C01'], '')], safety=['C03', 'C22'])
C(D + '<NameList as TryFrom<&[u8]>>::try_from', pre='proof { reveal(ascii); reveal(nl_ok); }', trait_ens='match r { Ok(vp_x) => nl_ok($1@) && nlv(vp_x) == $1@, Err(_) => !nl_ok($1@) }', ens=[(['C06', 'C04', 'C01'], '')], safety=['C03', 'C06', 'C22'],
  loops={1: 'invariant_except_break #vp_r == false, invariant #vp_s@ == $1@, #vp_s@.len() <= 0x7fff_ffff_ffff_ffff, #vp_i <= #vp_s@.len(), forall|j: int| 0 <= j < #vp_i && j < #vp_s@.len() - 1 ==> !(#[trigger] #vp_s@[j] == 44u8 && #vp_s@[j + 1] == 44u8), ensures #vp_r ==> (0 <= #vp_i < $1@.len() - 1 && $1@[#vp_i as int] == 44u8 && $1@[#vp_i + 1] == 44u8), !#vp_r ==> forall|j: int| 0 <= j < $1@.len() - 1 ==> !(#[trigger] $1@[j] == 44u8 && $1@[j + 1] == 44u8), decreases #vp_s@.len() + 2 - #vp_i'})
C(D + '<AsciiStr as TryFrom<&[u8;N]>>::try_from', trait_ens='match r { Ok(vp_x) => ascii($1@) && asv(vp_x) == $1@, Err(_) => !ascii($1@) }', ens=[(['C04', 'C01'], '')], safety=['C03'])
C(D + '<NameList as TryFrom<&[u8;N]>>::try_from', trait_ens='match r { Ok(vp_x) => nl_ok($1@) && nlv(vp_x) == $1@, Err(_) => !nl_ok($1@) }', ens=[(['C06'], '')], safety=['C06'])
for t, f in (('AsciiStr', 'asv'), ('NameList', 'nlv')):
    C(D + f'<&str as From<{t}>>::from', trait_ens=f'r.spec_bytes() == {f}($1)', ens=[(['C01', 'C06', 'C02'], '')], safety=['C02'])
    C(D + f'<&[u8] as From<{t}>>::from', trait_ens=f'r@ == {f}($1)', ens=[(['C01', 'C06', 'C02'], '')], safety=['C02'])
C(D + 'NameList::iter', ens=[(['C06'], 'r.${nora_ssh_core::data::NameListIter.0}.spec_bytes() == nlv(*self)')], safety=['C06'])
# the names still to come, as a sequence of byte strings
SP.append('''
pub open spec fn comma(s: Seq<u8>, i: int) -> int
    decreases s.len() - i,
{ if i >= s.len() { s.len() as int } else if s[i] == 44u8 { i } else { comma(s, i + 1) } }
pub open spec fn names(s: Seq<u8>) -> Seq<Seq<u8>>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() }
    else if 0 <= comma(s, 0) < s.len() { seq![s.subrange(0, comma(s, 0))] + names(s.subrange(comma(s, 0) + 1, s.len() as int)) }
    else { seq![s] }
}
pub proof fn lemma_comma(s: Seq<u8>, i: int)
    requires 0 <= i <= s.len(),
    ensures i <= comma(s, i) <= s.len(), forall|j: int| i <= j < comma(s, i) ==> s[j] != 44u8, comma(s, i) < s.len() ==> s[comma(s, i)] == 44u8,
    decreases s.len() - i,
{ if i < s.len() && s[i] != 44u8 { lemma_comma(s, i + 1); } }
pub proof fn lemma_comma_at(s: Seq<u8>, i: int)
    requires 0 <= i <= s.len(), forall|j: int| 0 <= j < i ==> s[j] != 44u8, i < s.len() ==> s[i] == 44u8,
    ensures comma(s, 0) == i,
{ lemma_comma(s, 0); }
/// Every name a valid list yields is non-empty, comma-free, and the rest is again a valid list.
pub proof fn lemma_names(s: Seq<u8>)
    requires nl_ok(s),
    ensures forall|k: int| 0 <= k < names(s).len() ==> (#[trigger] names(s)[k]).len() > 0 && (forall|j: int| 0 <= j < names(s)[k].len() ==> names(s)[k][j] != 44u8),
    decreases s.len(),
{
    lemma_comma(s, 0);
    if s.len() > 0 && comma(s, 0) < s.len() {
        let c = comma(s, 0);
        let t = s.subrange(c + 1, s.len() as int);
        reveal(nl_ok); reveal(ascii);
        assert(nl_ok(t)) by {
            assert forall|i: int| 0 <= i < t.len() - 1 implies !(#[trigger] t[i] == 44u8 && t[i + 1] == 44u8) by { assert(t[i] == s[i + c + 1]); assert(t[i + 1] == s[i + 1 + c + 1]); }
            if t.len() > 0 { assert(t[0] == s[c + 1]); assert(t[t.len() - 1] == s[s.len() - 1]); assert(!(s[c] == 44u8 && s[c + 1] == 44u8)); }
        }
        lemma_names(t);
        assert forall|k: int| 0 <= k < names(s).len() implies (#[trigger] names(s)[k]).len() > 0 && (forall|j: int| 0 <= j < names(s)[k].len() ==> names(s)[k][j] != 44u8) by {
            if k > 0 { assert(names(s)[k] == names(t)[k - 1]); }
        }
    }
}
/// Joining the names with commas gives back the list: nothing is lost, added or reordered.
pub open spec fn unnames(n: Seq<Seq<u8>>) -> Seq<u8>
    decreases n.len(),
{
    if n.len() == 0 { Seq::empty() } else if n.len() == 1 { n[0] } else { n[0] + (seq![44u8] + unnames(n.subrange(1, n.len() as int))) }
}
pub proof fn lemma_unnames(s: Seq<u8>)
    requires nl_ok(s),
    ensures unnames(names(s)) == s,
    decreases s.len(),
{
    lemma_comma(s, 0);
    if s.len() > 0 && comma(s, 0) < s.len() {
        let c = comma(s, 0);
        let t = s.subrange(c + 1, s.len() as int);
        reveal(nl_ok); reveal(ascii);
        assert(nl_ok(t)) by {
            assert forall|i: int| 0 <= i < t.len() - 1 implies !(#[trigger] t[i] == 44u8 && t[i + 1] == 44u8) by { assert(t[i] == s[i + c + 1]); assert(t[i + 1] == s[i + 1 + c + 1]); }
            if t.len() > 0 { assert(t[0] == s[c + 1]); assert(t[t.len() - 1] == s[s.len() - 1]); assert(!(s[c] == 44u8 && s[c + 1] == 44u8)); }
        }
        lemma_unnames(t);
        assert(c + 1 < s.len());
        lemma_comma(t, 0);
        assert(names(t).len() >= 1);
        assert(names(s).subrange(1, names(s).len() as int) =~= names(t));
        assert(unnames(names(s)) =~= s);
    }
}
''')
C(D + '<NameListIter as Iterator>::next',
  req=[([], 'ascii(old(self).${nora_ssh_core::data::NameListIter.0}.spec_bytes())')],
  ens=[(['C06'], 'ascii(final(self).${nora_ssh_core::data::NameListIter.0}.spec_bytes())'),
       (['C06'], 'r is Some == (names(old(self).${nora_ssh_core::data::NameListIter.0}.spec_bytes()).len() > 0)'),
       (['C06'], 'r matches Some(n) ==> seq![n.spec_bytes()] + names(final(self).${nora_ssh_core::data::NameListIter.0}.spec_bytes()) == names(old(self).${nora_ssh_core::data::NameListIter.0}.spec_bytes())'),
       (['C06'], 'r is None ==> final(self).${nora_ssh_core::data::NameListIter.0}.spec_bytes().len() == 0')],
  safety=['C06', 'C22'],
  pre='proof { reveal(ascii); lemma_comma(old(self).${nora_ssh_core::data::NameListIter.0}.spec_bytes(), 0); }',
  loops={1: 'invariant_except_break #vp_r is None, invariant #vp_s@ == old(self).${nora_ssh_core::data::NameListIter.0}.spec_bytes(), #vp_i <= #vp_s@.len(), forall|j: int| 0 <= j < #vp_i ==> #vp_s@[j] != 44u8, ensures (match #vp_r { Some(c) => c < #vp_s@.len() && #vp_s@[c as int] == 44u8 && (forall|j: int| 0 <= j < c ==> #vp_s@[j] != 44u8), None => forall|j: int| 0 <= j < #vp_s@.len() ==> #vp_s@[j] != 44u8 }), decreases #vp_s@.len() - #vp_i'},
  stmts=[(r'let #l = ', 'proof { lemma_comma_at(old(self).${nora_ssh_core::data::NameListIter.0}.spec_bytes(), #i as int); } let #l = ')])

C(D + 'split', ens=[(ALLP, 'r matches Some((a, b)) ==> $2 <= $1@.len() && a@ == $1@.subrange(0, $2 as int) && b@ == $1@.subrange($2 as int, $1@.len() as int)'),
                    (ALLP, 'r is None ==> $1@.len() < $2')], safety=ALLP)
C(D + 'name_list', pre='proof { reveal(p_str); reveal(de4); }', ens=[(ALLP, 'match r { None => p_str($1@) is None, Some((n, t)) => p_str($1@) is Some && t@ == (p_str($1@)->0).1 && match n { Ok(l) => nl_ok((p_str($1@)->0).0) && nlv(l) == (p_str($1@)->0).0, Err(_) => !nl_ok((p_str($1@)->0).0) } }')], safety=ALLP)
C(D + 'make_string_len', req=[([], 'slen($1@)')], ens=[(ALLW + ['C13'], 'r@ == be32($1@.len() as int)')], safety=ALLW)
MK = lambda e: [(ALLW, f'r matches Some((n, t)) ==> n == {e}.len() && n <= old($1)@.len() && suf(t@, old($1)@) && t@.len() == old($1)@.len() - n && final($1)@ == {e} + final(t)@'),
                (ALLW, f'r is None ==> old($1)@.len() < {e}.len()'),
                (ALLW, 'final($1)@.len() == old($1)@.len()')]
C(D + 'make_string2', pre='proof { reveal(suf); reveal(wrote); reveal(e_str); }', req=[([], 'slen($2@)')], ens=MK('e_str($2@)'), safety=ALLW)
C(D + 'make_bool', pre='proof { reveal(suf); reveal(wrote); reveal(e_bool); }', ens=MK('e_bool($2)'), safety=ALLW)
C(D + 'make_uint32', pre='proof { reveal(suf); reveal(wrote); reveal(e_u32); }', ens=MK('e_u32($2)'), safety=ALLW)
C(D + 'make_raw', pre='proof { reveal(suf); }', ens=MK('$2@'), safety=ALLW)
C(D + 'parse_string', pre='proof { reveal(p_str); }', ens=[(ALLP, 'match r { None => p_str($1@) is None, Some((a, b)) => p_str($1@) == Some((a@, b@)) }')], safety=ALLP)
C(D + 'parse_uint32', pre='proof { reveal(p_u32); }', ens=[(ALLP, 'match r { None => p_u32($1@) is None, Some((a, b)) => p_u32($1@) == Some((a, b@)) }')], safety=ALLP)
C(D + 'parse_bool', pre='proof { reveal(p_bool); }', ens=[(ALLP, 'match r { None => p_bool($1@) is None, Some((a, b)) => p_bool($1@) == Some((a, b@)) }')], safety=ALLP)
MPT = ['C07', 'C02', 'C12', 'C13']
C(D + 'make_pos_mpint', req=[([], '$2@.len() < 0xffff_ffff')],
  ens=[(MPT, 'r matches Some(n) ==> n == e_mpint($2@).len() && n <= old($1)@.len() && wrote(old($1)@, final($1)@, e_mpint($2@))'),
       (MPT, 'r is None ==> old($1)@.len() < e_mpint($2@).len()'),
       (MPT, 'final($1)@.len() == old($1)@.len()')], safety=MPT,
  pre='proof { reveal(wrote); reveal(e_str); lemma_strip0_len($2@); assert(forall|c: u8| (c & 0x80 != 0) == (c >= 128)) by(bit_vector); }',
  loops={1: 'invariant strip0(vp_p2@) == strip0($2@), vp_p2@.len() <= $2@.len(), ensures vp_p2@ == strip0($2@), decreases vp_p2@.len()'})
C(D + 'make_pos_mpint2', req=[([], '$2@.len() < 0xffff_ffff')],
  ens=[(MPT, 'r matches Some((n, t)) ==> n == e_mpint($2@).len() && n <= old($1)@.len() && suf(t@, old($1)@) && t@.len() == old($1)@.len() - n && final($1)@ == e_mpint($2@) + final(t)@'),
       (MPT, 'r is None ==> old($1)@.len() < e_mpint($2@).len()'),
       (MPT, 'final($1)@.len() == old($1)@.len()')], safety=MPT, pre='proof { reveal(suf); }')
SP.append('''
/// C07: an mpint is minimal (no redundant leading zero) and non-negative, and denotes the same number.
pub open spec fn num(s: Seq<u8>) -> nat
    decreases s.len(),
{ if s.len() == 0 { 0 } else { num(s.subrange(0, s.len() - 1)) * 256 + s[s.len() - 1] as nat } }
pub proof fn lemma_num0(s: Seq<u8>)
    ensures num(seq![0u8] + s) == num(s),
    decreases s.len(),
{
    let t = seq![0u8] + s;
    if s.len() == 0 {
        assert(t.subrange(0, 0) =~= Seq::<u8>::empty());
        assert(num(t.subrange(0, t.len() - 1)) == 0) by { reveal_with_fuel(num, 2); }
    } else {
        let s1 = s.subrange(0, s.len() - 1);
        assert(t.subrange(0, t.len() - 1) =~= seq![0u8] + s1);
        lemma_num0(s1);
    }
}
pub proof fn lemma_num_strip(s: Seq<u8>)
    ensures num(strip0(s)) == num(s),
    decreases s.len(),
{
    if s.len() > 0 && s[0] == 0 {
        let t = s.subrange(1, s.len() as int);
        assert(s =~= seq![0u8] + t);
        lemma_num0(t);
        lemma_num_strip(t);
    }
}
pub proof fn lemma_mpint(s: Seq<u8>)
    ensures num(mpint_body(s)) == num(s),
        mpint_body(s).len() > 0 ==> mpint_body(s)[0] < 128,
        mpint_body(s).len() > 1 ==> !(mpint_body(s)[0] == 0 && mpint_body(s)[1] < 128),
        mpint_body(s) != seq![0u8],
        mpint_body(s).len() <= s.len() + 1,
{
    lemma_strip0_len(s); lemma_num_strip(s); lemma_num0(strip0(s));
}
''')

# ------------------------------------------------------------------ message structs
SP.append(f'''pub open spec fn reason_code(r: {P}message::channel::OpenFailureReason) -> u32 {{ match r {{
    {P}message::channel::OpenFailureReason::AdminstrativelyProhibited => 1, {P}message::channel::OpenFailureReason::ConnectFailed => 2,
    {P}message::channel::OpenFailureReason::UnknownChannelType => 3, {P}message::channel::OpenFailureReason::ResourceShortage => 4,
    {P}message::channel::OpenFailureReason::Other(x) => x }} }}
pub open spec fn reason_of(x: u32) -> {P}message::channel::OpenFailureReason {{
    if x == 1 {{ {P}message::channel::OpenFailureReason::AdminstrativelyProhibited }} else if x == 2 {{ {P}message::channel::OpenFailureReason::ConnectFailed }}
    else if x == 3 {{ {P}message::channel::OpenFailureReason::UnknownChannelType }} else if x == 4 {{ {P}message::channel::OpenFailureReason::ResourceShortage }}
    else {{ {P}message::channel::OpenFailureReason::Other(x) }} }}''')

NLS = ['kex_algorithms', 'server_host_key_algorithms', 'encryption_algorithms_client_to_server', 'encryption_algorithms_server_to_client', 'mac_algorithms_client_to_server',
       'mac_algorithms_server_to_client', 'compression_algorithms_client_to_server', 'compression_algorithms_server_to_client', 'languages_client_to_server', 'languages_server_to_client']
S = [
    # V, path, fields, lifetime, access
    ('Disconnect', 'message::Disconnect', [('reason', 'u32'), ('description', 'str'), ('language', 'str')], "<'_>", None),
    ('Ignore', 'message::Ignore', [('data', 'str')], "<'_>", None),
    ('Unimplemented', 'message::Unimplemented', [('sequence_number', 'u32')], '', None),
    ('Debug', 'message::Debug', [('always_display', 'bool'), ('message', 'utf8'), ('language', 'str')], "<'_>", None),
    ('ServiceRequest', 'message::service::ServiceRequest', [('service_name', 'str')], "<'_>", {'service_name': '${nora_ssh_core::message::service::ServiceRequest.0}'}),
    ('ServiceAccept', 'message::service::ServiceAccept', [('service_name', 'str')], "<'_>", {'service_name': '${nora_ssh_core::message::service::ServiceAccept.0}'}),
    ('KeyExchangeInit', 'message::key_exchange::KeyExchangeInit', [('cookie', 'c16')] + [(n, 'nl') for n in NLS] + [('first_kex_packet_follows', 'bool'), ('vp_zero', 'zero')], "<'_>", None),
    ('NewKeys', 'message::key_exchange::NewKeys', [], '', None),
    ('KeyExchangeEcdhInit', 'message::key_exchange::ecdh::KeyExchangeEcdhInit', [('client_ephermal_public_key', 'str')], "<'_>", None),
    ('KeyBlob', 'message::key_exchange::ecdh::KeyBlob', [('identifier', 'str'), ('q', 'str')], "<'_>", None),
    ('ChOpen', 'message::channel::Open', [('ty', 'str'), ('sender_channel', 'u32'), ('window_size', 'u32'), ('max_packet_size', 'u32')], "<'_>", None),
    ('ChOpenConfirmation', 'message::channel::OpenConfirmation', [('recipient_channel', 'u32'), ('sender_channel', 'u32'), ('window_size', 'u32'), ('max_packet_size', 'u32'), ('data', 'raw')], "<'_>", None),
    ('ChOpenFailure', 'message::channel::OpenFailure', [('recipient_channel', 'u32'), ('reason', 'reason'), ('description', 'utf8'), ('language', 'str')], "<'_>", None),
    ('ChWindowAdjust', 'message::channel::WindowAdjust', [('recipient_channel', 'u32'), ('add_bytes', 'u32')], '', None),
    ('ChData', 'message::channel::Data', [('recipient_channel', 'u32'), ('data', 'str')], "<'_>", None),
    ('ChExtendedData', 'message::channel::ExtendedData', [('recipient_channel', 'u32'), ('ty', 'u32'), ('data', 'str')], "<'_>", None),
    ('ChEof', 'message::channel::Eof', [('recipient_channel', 'u32')], '', None),
    ('ChClose', 'message::channel::Close', [('recipient_channel', 'u32')], '', None),
    ('ChRequest', 'message::channel::Request', [('recipient_channel', 'u32'), ('ty', 'str'), ('want_reply', 'bool'), ('data', 'raw')], "<'_>", None),
    ('ChSuccess', 'message::channel::Success', [('recipient_channel', 'u32')], '', None),
    ('ChFailure', 'message::channel::Failure', [('recipient_channel', 'u32')], '', None),
    ('UaFailure', 'message::userauth::Failure', [('alternative_methods', 'nl'), ('partial_success', 'bool')], "<'_>", None),
    ('UaSuccess', 'message::userauth::Success', [], '', None),
    ('UaBanner', 'message::userauth::Banner', [('message', 'str'), ('language', 'str')], "<'_>", None),
    ('UaPublicKeyOk', 'message::userauth::PublicKeyOk', [('algorithm', 'str'), ('blob', 'str')], "<'_>", None),
]
for V, path, fields, lt, acc in S:
    layout(V, path, fields, lt, acc)
    if V == 'KeyBlob':
        ser(K + path + '::serialize', V, tail=True)
        par(K + path + '::parse', V, res='Some')
        continue
    ser(K + path + '::serialize', V)
    par(K + path + '::parse', V, extra=['r matches Ok(m) ==> m.reason == reason_of(reason_code(m.reason))'] if V == 'ChOpenFailure' else ())
for n in ('ServiceRequest', 'ServiceAccept'):
    f = f'${{nora_ssh_core::message::service::{n}.0}}'
    C(K + f'message::service::{n}::new', ens=[(['C01', 'C04'], f'r.{f}@ == $1@')], safety=['C03'])
    C(K + f'message::service::<&[u8] as From<{n}>>::from', trait_ens=f'r@ == $1.{f}@', ens=[(['C01', 'C17'], '')], safety=['C03'])
    C(K + f'message::service::<{n} as From<&[u8]>>::from', trait_ens=f'r.{f}@ == $1@', ens=[(['C01'], '')], safety=['C03'])
    C(K + f'message::service::<{n} as From<&str>>::from', trait_ens=f'r.{f}@ == $1.spec_bytes()', ens=[(['C01'], '')], safety=['C03'])

# ------------------------------------------------------------------ ECDH reply
E = 'message::key_exchange::ecdh::'
SP.append(f'''
pub struct VKey {{ pub name: Seq<u8>, pub blob: VKeyBlob }}
pub open spec fn e_Key(v: VKey) -> Seq<u8> {{ e_str(v.name) + e_KeyBlob(v.blob) }}
pub open spec fn wf_Key(v: VKey) -> bool {{ slen(v.name) && wf_KeyBlob(v.blob) }}
pub open spec fn d_Key(s: Seq<u8>) -> Option<VKey> {{ match p_str(s) {{ None => None, Some((name, t)) => match d_KeyBlob(t) {{ None => None, Some(blob) => Some(VKey {{ name, blob }}) }} }} }}
pub open spec fn v_Key(m: {P}{E}Key<'_>) -> VKey {{ VKey {{ name: m.name@, blob: v_KeyBlob(m.blob) }} }}
pub proof fn rt_Key(v: VKey) requires wf_Key(v) ensures d_Key(e_Key(v)) == Some(v) {{ broadcast use group_rt; rt_KeyBlob(v.blob); }}
pub struct VSigBlob {{ pub r: Seq<u8>, pub s: Seq<u8> }}
pub open spec fn e_SigBlob(v: VSigBlob) -> Seq<u8> {{ e_mpint(v.r) + e_mpint(v.s) }}
pub open spec fn wf_SigBlob(v: VSigBlob) -> bool {{ v.r.len() < 0xffff_ffff && v.s.len() < 0xffff_ffff }}
pub open spec fn d_SigBlob(s: Seq<u8>) -> Option<VSigBlob> {{ {dec_body([('r', 'str'), ('z', 'str')], 'VSigBlob {{ r, s: z }}'.replace('{{', '{').replace('}}', '}'))} }}
pub open spec fn v_SigBlob(m: {P}{E}SignatureBlob<'_>) -> VSigBlob {{ VSigBlob {{ r: m.r@, s: m.s@ }} }}
/// r and s are numbers: what comes back denotes the same numbers (lemma_mpint).
pub open spec fn n_SigBlob(v: VSigBlob) -> VSigBlob {{ VSigBlob {{ r: mpint_body(v.r), s: mpint_body(v.s) }} }}
pub proof fn rt_SigBlob(v: VSigBlob) requires wf_SigBlob(v) ensures d_SigBlob(e_SigBlob(v)) == Some(n_SigBlob(v)) {{ broadcast use group_rt; lemma_mpint(v.r); lemma_mpint(v.s); assert(e_mpint(v.s) + Seq::<u8>::empty() =~= e_mpint(v.s)); }}
pub struct VSig {{ pub name: Seq<u8>, pub blob: VSigBlob }}
pub open spec fn e_Sig(v: VSig) -> Seq<u8> {{ e_str(v.name) + e_str(e_SigBlob(v.blob)) }}
pub open spec fn wf_Sig(v: VSig) -> bool {{ slen(v.name) && wf_SigBlob(v.blob) && slen(e_SigBlob(v.blob)) }}
pub open spec fn d_Sig(s: Seq<u8>) -> Option<VSig> {{ match p_str(s) {{ None => None, Some((name, t)) => match p_str(t) {{ None => None, Some((b, t2)) => if t2.len() == 0 {{ match d_SigBlob(b) {{ None => None, Some(blob) => Some(VSig {{ name, blob }}) }} }} else {{ None }} }} }} }}
pub open spec fn v_Sig(m: {P}{E}Signature<'_>) -> VSig {{ VSig {{ name: m.name@, blob: v_SigBlob(m.blob) }} }}
pub open spec fn n_Sig(v: VSig) -> VSig {{ VSig {{ name: v.name, blob: n_SigBlob(v.blob) }} }}
pub proof fn rt_Sig(v: VSig) requires wf_Sig(v) ensures d_Sig(e_Sig(v)) == Some(n_Sig(v)) {{ broadcast use group_rt; rt_SigBlob(v.blob); let e = e_str(e_SigBlob(v.blob)); assert(e + Seq::<u8>::empty() =~= e); }}
pub struct VEcdhReply {{ pub key: VKey, pub q: Seq<u8>, pub sig: VSig }}
pub open spec fn e_EcdhReply(v: VEcdhReply) -> Seq<u8> {{ e_str(e_Key(v.key)) + (e_str(v.q) + e_str(e_Sig(v.sig))) }}
pub open spec fn wf_EcdhReply(v: VEcdhReply) -> bool {{ wf_Key(v.key) && slen(e_Key(v.key)) && slen(v.q) && wf_Sig(v.sig) && slen(e_Sig(v.sig)) }}
pub open spec fn d_EcdhReply(s: Seq<u8>) -> Option<VEcdhReply> {{ match p_str(s) {{ None => None, Some((k, s0)) => match d_Key(k) {{ None => None, Some(key) => match p_str(s0) {{ None => None, Some((q, s1)) =>
    match p_str(s1) {{ None => None, Some((g, s2)) => match d_Sig(g) {{ None => None, Some(sig) => if s2.len() == 0 {{ Some(VEcdhReply {{ key, q, sig }}) }} else {{ None }} }} }} }} }} }} }}
pub open spec fn v_EcdhReply(m: {P}{E}KeyExchangeEcdhReply<'_>) -> VEcdhReply {{ VEcdhReply {{ key: v_Key(m.server_public_key), q: m.server_ephermal_public_key@, sig: v_Sig(m.exchange_hash_signature) }} }}
pub open spec fn n_EcdhReply(v: VEcdhReply) -> VEcdhReply {{ VEcdhReply {{ sig: n_Sig(v.sig), ..v }} }}
pub proof fn rt_EcdhReply(v: VEcdhReply) requires wf_EcdhReply(v) ensures d_EcdhReply(e_EcdhReply(v)) == Some(n_EcdhReply(v)) {{ broadcast use group_rt; rt_Key(v.key); rt_Sig(v.sig); let e = e_str(e_Sig(v.sig)); assert(e + Seq::<u8>::empty() =~= e); }}
''')
ser(K + E + 'Key::serialize', 'Key', tail=True, extra_tags=['C13', 'C14'])
par(K + E + 'Key::parse', 'Key', res='Some')
ser(K + E + 'SignatureBlob::serialize', 'SigBlob', tail=True, extra_tags=['C07'])
par(K + E + 'SignatureBlob::parse', 'SigBlob', res='Some')
ser(K + E + 'Signature::serialize', 'Sig', tail=True)
par(K + E + 'Signature::parse', 'Sig', res='Some')
ser(K + E + 'KeyExchangeEcdhReply::serialize', 'EcdhReply', extra_tags=['C14'])
par(K + E + 'KeyExchangeEcdhReply::parse', 'EcdhReply')

# ------------------------------------------------------------------ user authentication
U = 'message::userauth::'


def lit(s):
    return 'seq![' + ', '.join(f'{b}u8' for b in s.encode()) + ']'


METHODS = [  # variant, name, flag byte or None, fields
    ('PublicKeyBlob', 'publickey', False, [('algorithm', 'str'), ('blob', 'str')]),
    ('PublicKeySigned', 'publickey', True, [('algorithm', 'str'), ('key', 'str'), ('signature', 'str')]),
    ('Password', 'password', False, [('password', 'str')]),
    ('PasswordRenew', 'password', True, [('old_password', 'str'), ('new_password', 'str')]),
    ('HostBased', 'hostbased', None, [('algorithm', 'str'), ('key_and_certificates', 'str'), ('host_name', 'ascii'), ('user_name', 'utf8'), ('signature', 'str')]),
]
SP.append('pub enum VMethod { None, ' + ' '.join(f'{v} {{ ' + ', '.join(f'{n}: Seq<u8>' for n, _ in fs) + ' },' for v, _, _, fs in METHODS) + ' Other { method: Seq<u8>, data: Seq<u8> } }')
for n in ('none', 'publickey', 'password', 'hostbased'):
    SP.append(f'pub open spec fn mn_{n}() -> Seq<u8> {{ {lit(n)} }}')
arms = ['VMethod::None => e_str(mn_none())']
wfa = ['VMethod::None => true']
va = [f'{P}{U}Method::None => VMethod::None']
for v, n, fl, fs in METHODS:
    pat = f'VMethod::{v} {{ ' + ', '.join(f for f, _ in fs) + ' }'
    parts = [f'e_str(mn_{n}())'] + ([] if fl is None else [f'e_bool({str(fl).lower()})']) + [enc1(k, f) for f, k in fs]
    arms.append(f'{pat} => {join(parts)}')
    wfa.append(f'{pat} => ' + ' && '.join(WF[k].format(f='X').replace('v.X', f) for f, k in fs))
    va.append(f'{P}{U}Method::{v} {{ ' + ', '.join(f for f, _ in fs) + f' }} => VMethod::{v} {{ ' + ', '.join(f'{f}: {view1(k, f)}' for f, k in fs) + ' }')
arms.append('VMethod::Other { method, data } => e_str(method) + data')
wfa.append('VMethod::Other { method, data } => slen(method) && method != mn_none() && method != mn_publickey() && method != mn_password() && method != mn_hostbased()')
va.append(f'{P}{U}Method::Other {{ method, data }} => VMethod::Other {{ method: method@, data: data@ }}')
SP.append('pub open spec fn e_Method(m: VMethod) -> Seq<u8> { match m { ' + ', '.join(arms) + ' } }')
SP.append('pub open spec fn wf_Method(m: VMethod) -> bool { match m { ' + ', '.join(wfa) + ' } }')
SP.append('/// What a caller may hand to serialize: lengths only (an Other method with a reserved name is still written out).')
SP.append('pub open spec fn sz_Method(m: VMethod) -> bool { match m { VMethod::Other { method, data } => slen(method), _ => wf_Method(m) } }')
SP.append(f"pub open spec fn v_Method(m: {P}{U}Method<'_>) -> VMethod {{ match m {{ " + ', '.join(va) + ' } }')


def mdec(v):
    _, n, fl, fs = [m for m in METHODS if m[0] == v][0]
    return dec_body(fs, f'VMethod::{v} {{ ' + ', '.join(f for f, _ in fs) + ' }')


SP.append(f'''
pub open spec fn d_PkBlob(s: Seq<u8>) -> Option<VMethod> {{ {mdec('PublicKeyBlob')} }}
pub open spec fn d_PkSigned(s: Seq<u8>) -> Option<VMethod> {{ {mdec('PublicKeySigned')} }}
pub open spec fn d_Pw(s: Seq<u8>) -> Option<VMethod> {{ {mdec('Password')} }}
pub open spec fn d_PwRenew(s: Seq<u8>) -> Option<VMethod> {{ {mdec('PasswordRenew')} }}
pub open spec fn d_HostBased(s: Seq<u8>) -> Option<VMethod> {{ {mdec('HostBased')} }}
pub open spec fn d_Method(m: Seq<u8>, s: Seq<u8>) -> Option<VMethod> {{
    if m == mn_none() {{ if s.len() == 0 {{ Some(VMethod::None) }} else {{ None }} }}
    else if m == mn_publickey() {{ match p_bool(s) {{ None => None, Some((b, t)) => if b {{ d_PkSigned(t) }} else {{ d_PkBlob(t) }} }} }}
    else if m == mn_password() {{ match p_bool(s) {{ None => None, Some((b, t)) => if b {{ d_PwRenew(t) }} else {{ d_Pw(t) }} }} }}
    else if m == mn_hostbased() {{ d_HostBased(s) }}
    else {{ Some(VMethod::Other {{ method: m, data: s }}) }}
}}
pub struct VUaRequest {{ pub user: Seq<u8>, pub service: Seq<u8>, pub method: VMethod }}
pub open spec fn e_UaRequest(v: VUaRequest) -> Seq<u8> {{ e_str(v.user) + (e_str(v.service) + e_Method(v.method)) }}
pub open spec fn wf_UaRequest(v: VUaRequest) -> bool {{ slen(v.user) && slen(v.service) && sz_Method(v.method) }}
pub open spec fn d_UaRequest(s: Seq<u8>) -> Option<VUaRequest> {{ match p_str(s) {{ None => None, Some((user, s0)) => match p_str(s0) {{ None => None, Some((service, s1)) => match p_str(s1) {{ None => None, Some((m, s2)) =>
    match d_Method(m, s2) {{ None => None, Some(method) => Some(VUaRequest {{ user, service, method }}) }} }} }} }} }}
pub open spec fn v_UaRequest(m: {P}{U}Request<'_>) -> VUaRequest {{ VUaRequest {{ user: m.user@, service: m.service@, method: v_Method(m.method) }} }}
pub proof fn lemma_method_names()
    ensures mn_none() != mn_publickey(), mn_none() != mn_password(), mn_none() != mn_hostbased(), mn_publickey() != mn_password(), mn_publickey() != mn_hostbased(), mn_password() != mn_hostbased(),
{{ assert(mn_none().len() == 4); assert(mn_publickey().len() == 9); assert(mn_password().len() == 8); assert(mn_hostbased().len() == 9); assert(mn_publickey()[0] != mn_hostbased()[0]); }}
pub proof fn rt_UaRequest(v: VUaRequest)
    requires wf_UaRequest(v), wf_Method(v.method),
    ensures d_UaRequest(e_UaRequest(v)) == Some(v),
{{
    broadcast use group_rt;
    lemma_method_names();
    let z = Seq::<u8>::empty();
    match v.method {{
        VMethod::None => {{ assert(e_str(mn_none()) + z =~= e_str(mn_none())); }}
        VMethod::PublicKeyBlob {{ algorithm, blob }} => {{ assert(e_str(blob) + z =~= e_str(blob)); }}
        VMethod::PublicKeySigned {{ algorithm, key, signature }} => {{ assert(e_str(signature) + z =~= e_str(signature)); }}
        VMethod::Password {{ password }} => {{ assert(e_str(password) + z =~= e_str(password)); }}
        VMethod::PasswordRenew {{ old_password, new_password }} => {{ assert(e_str(new_password) + z =~= e_str(new_password)); }}
        VMethod::HostBased {{ algorithm, key_and_certificates, host_name, user_name, signature }} => {{ assert(e_str(signature) + z =~= e_str(signature)); }}
        VMethod::Other {{ method, data }} => {{ }}
    }}
}}
''')
ser(K + U + 'Request::serialize', 'UaRequest', cases=['self.method is ' + v for v in ['None', 'Other'] + [m[0] for m in METHODS]])
par(K + U + 'Request::parse', 'UaRequest', tags=['C17'])
SP.append(f'''
pub open spec fn sign_data(sid: Seq<u8>, user: Seq<u8>, service: Seq<u8>, algorithm: Seq<u8>, blob: Seq<u8>) -> Seq<u8> {{
    e_str(sid) + (seq![50u8] + (e_str(user) + (e_str(service) + (e_str(mn_publickey()) + (e_bool(true) + (e_str(algorithm) + e_str(blob)))))))
}}
/// Two different (session, user, service, algorithm, key) tuples never share a payload.
pub proof fn lemma_sign_data_inj(a: (Seq<u8>, Seq<u8>, Seq<u8>, Seq<u8>, Seq<u8>), b: (Seq<u8>, Seq<u8>, Seq<u8>, Seq<u8>, Seq<u8>))
    requires slen(a.0), slen(a.1), slen(a.2), slen(a.3), slen(a.4), slen(b.0), slen(b.1), slen(b.2), slen(b.3), slen(b.4),
        sign_data(a.0, a.1, a.2, a.3, a.4) == sign_data(b.0, b.1, b.2, b.3, b.4),
    ensures a == b,
{{
    broadcast use group_rt;
    let z = Seq::<u8>::empty();
    let a4 = e_str(a.3) + e_str(a.4); let b4 = e_str(b.3) + e_str(b.4);
    let a3 = e_bool(true) + a4; let b3 = e_bool(true) + b4;
    let a2 = e_str(mn_publickey()) + a3; let b2 = e_str(mn_publickey()) + b3;
    let a1 = e_str(a.2) + a2; let b1 = e_str(b.2) + b2;
    let a0 = e_str(a.1) + a1; let b0 = e_str(b.1) + b1;
    lemma_p_str(a.0, seq![50u8] + a0); lemma_p_str(b.0, seq![50u8] + b0);
    reveal(p_raw); reveal(p_str);
    assert(seq![50u8] + a0 == seq![50u8] + b0);
    lemma_p_raw(seq![50u8], a0, 1); lemma_p_raw(seq![50u8], b0, 1);
    assert(a0 == b0);
    lemma_p_str(a.1, a1); lemma_p_str(b.1, b1);
    lemma_p_str(a.2, a2); lemma_p_str(b.2, b2);
    lemma_p_str(mn_publickey(), a3); lemma_p_str(mn_publickey(), b3);
    lemma_p_bool(true, a4); lemma_p_bool(true, b4);
    lemma_p_str(a.3, e_str(a.4)); lemma_p_str(b.3, e_str(b.4));
    assert(e_str(a.4) + z =~= e_str(a.4)); assert(e_str(b.4) + z =~= e_str(b.4));
    lemma_p_str(a.4, z); lemma_p_str(b.4, z);
}}
''')
C(K + U + 'format_sign_data', req=[([], 'slen($2@) && slen($3@) && slen($4@) && slen($5@) && slen($6@)')],
  ens=[(['C18'], 'r matches Some(d) ==> d@ == sign_data($2@, $3@, $4@, $5@, $6@)'),
       (['C18'], 'r is None ==> old($1)@.len() < sign_data($2@, $3@, $4@, $5@, $6@).len()')], safety=['C18', 'C22'])

# ------------------------------------------------------------------ enums
CH = [('Open', 90, 'ChOpen'), ('OpenConfirmation', 91, 'ChOpenConfirmation'), ('OpenFailure', 92, 'ChOpenFailure'), ('WindowAdjust', 93, 'ChWindowAdjust'), ('Data', 94, 'ChData'),
      ('ExtendedData', 95, 'ChExtendedData'), ('Eof', 96, 'ChEof'), ('Close', 97, 'ChClose'), ('Request', 98, 'ChRequest'), ('Success', 99, 'ChSuccess'), ('Failure', 100, 'ChFailure')]
UA = [('Request', 50, 'UaRequest'), ('Failure', 51, 'UaFailure'), ('Success', 52, 'UaSuccess'), ('Banner', 53, 'UaBanner'), ('PublicKeyOk', 60, 'UaPublicKeyOk')]
TOP = [('Disconnect', 1, 'Disconnect'), ('Ignore', 2, 'Ignore'), ('Unimplemented', 3, 'Unimplemented'), ('Debug', 4, 'Debug'), ('ServiceRequest', 5, 'ServiceRequest'), ('ServiceAccept', 6, 'ServiceAccept'),
       ('KeyExchangeInit', 20, 'KeyExchangeInit'), ('NewKeys', 21, 'NewKeys'), ('KeyExchangeEcdhInit', 30, 'KeyExchangeEcdhInit'), ('KeyExchangeEcdhReply', 31, 'EcdhReply')]


def norm(V, x='v'):
    return f'n_EcdhReply({x})' if V == 'EcdhReply' else x


def enum(V, path, variants, nested=()):
    rp = P + path
    SP.append(f'pub enum V{V} {{ ' + ' '.join(f'{n}(V{x}),' for n, _, x in variants) + ' '.join(f'{n}(V{x}),' for n, x, _, _ in nested) + ' }')
    SP.append(f'pub open spec fn e_{V}(v: V{V}) -> Seq<u8> {{ match v {{ ' + ' '.join(f'V{V}::{n}(v) => seq![{t}u8] + e_{x}(v),' for n, t, x in variants) + ' '.join(f'V{V}::{n}(v) => e_{x}(v),' for n, x, _, _ in nested) + ' } }')
    SP.append(f'pub open spec fn wf_{V}(v: V{V}) -> bool {{ match v {{ ' + ' '.join(f'V{V}::{n}(v) => wf_{x}(v),' for n, t, x in variants) + ' '.join(f'V{V}::{n}(v) => wf_{x}(v),' for n, x, _, _ in nested) + ' } }')
    SP.append(f"pub open spec fn v_{V}(m: {rp}<'_>) -> V{V} {{ match m {{ " + ' '.join(f'{rp}::{n}(m) => V{V}::{n}(v_{x}(m)),' for n, t, x in variants) + ' '.join(f'{rp}::{n}(m) => V{V}::{n}(v_{x}(m)),' for n, x, _, _ in nested) + ' } }')
    b = ''
    for n, t, x in variants:
        b += f'if t == {t} {{ match d_{x}(s) {{ None => None, Some(m) => Some(V{V}::{n}(m)) }} }} else '
    for n, x, lo, hi in nested:
        b += f'if {lo} <= t && t <= {hi} {{ match dt_{x}(t, s) {{ None => None, Some(m) => Some(V{V}::{n}(m)) }} }} else '
    SP.append(f'pub open spec fn dt_{V}(t: u8, s: Seq<u8>) -> Option<V{V}> {{ {b} {{ None }} }}')
    SP.append(f'pub open spec fn d_{V}(s: Seq<u8>) -> Option<V{V}> {{ if s.len() == 0 {{ None }} else {{ dt_{V}(s[0], s.subrange(1, s.len() as int)) }} }}')
    SP.append(f'pub open spec fn n_{V}(v: V{V}) -> V{V} {{ match v {{ ' + (f'V{V}::KeyExchangeEcdhReply(m) => V{V}::KeyExchangeEcdhReply(n_EcdhReply(m)), ' if V == 'Message' else '') + 'v => v } }')
    SP.append(f'/// requests whose method name is reserved cannot be told from the standard methods')
    rtw = {'Message': 'match v { VMessage::UserAuth(u) => rtw_UserAuth(u), _ => true }', 'UserAuth': 'match v { VUserAuth::Request(r) => wf_Method(r.method), _ => true }', 'Channel': 'true'}[V]
    SP.append(f'pub open spec fn rtw_{V}(v: V{V}) -> bool {{ {rtw} }}')
    arms = ''
    for n, t, x in variants:
        arms += f'V{V}::{n}(m) => {{ rt_{x}(m); assert(s.subrange(1, s.len() as int) =~= e_{x}(m)); }} '
    for n, x, lo, hi in nested:
        arms += f'V{V}::{n}(m) => {{ rt_{x}(m); }} '
    SP.append(f'pub proof fn rt_{V}(v: V{V}) requires wf_{V}(v), rtw_{V}(v) ensures d_{V}(e_{V}(v)) == Some(n_{V}(v)), e_{V}(v).len() > 0, ' +
              ({'UserAuth': f'50 <= e_{V}(v)[0] <= 79', 'Channel': f'90 <= e_{V}(v)[0] <= 127'}.get(V, 'true')) + f' {{ let s = e_{V}(v); match v {{ {arms} }} }}')
    return


enum('Channel', 'message::channel::Channel', CH)
enum('UserAuth', 'message::userauth::UserAuth', UA)
enum('Message', 'message::Message', TOP, [('UserAuth', 'UserAuth', 50, 79), ('Channel', 'Channel', 90, 127)])
def hides(l, pre):
    return [f'{p}_{v}' for p in pre for v in l]


CHV, UAV, TOPV = [x for _, _, x in CH], [x for _, _, x in UA], [x for _, _, x in TOP]
ser(K + 'message::channel::Channel::serialize', 'Channel', hide=hides(CHV, ['e', 'wf']))
ser(K + 'message::userauth::UserAuth::serialize', 'UserAuth', hide=hides(UAV, ['e', 'wf']))
for V, p in (('Channel', 'message::channel::Channel'), ('UserAuth', 'message::userauth::UserAuth')):
    C(K + p + '::parse', hide=hides({'Channel': CHV, 'UserAuth': UAV}[V], ['d']), ens=[(['C04', 'C01'], f'r is Ok == dt_{V}($1, $2@) is Some'), (['C01', 'C04'], f'r matches Ok(m) ==> Some(v_{V}(m)) == dt_{V}($1, $2@)')], safety=['C03', 'C22'])
par(K + 'message::Message::parse', 'Message', hide=hides(TOPV, ['d']) + hides(['UserAuth', 'Channel'], ['dt']))
C(K + 'message::Message::serialize', req=[([], 'wf_Message(v_Message(*self))')],
  ens=[(['C01', 'C02', 'C14'], 'r matches Some((a, b)) ==> a@ == e_Message(v_Message(*self)) && b@ == old($1)@.subrange(a@.len() as int, old($1)@.len() as int) && final($1)@ == final(a)@ + final(b)@'),
       (['C02'], 'r is None ==> old($1)@.len() < e_Message(v_Message(*self)).len()'),
       (['C02'], 'r is Some ==> old($1)@.len() >= e_Message(v_Message(*self)).len()'),
       (['C02'], 'final($1)@.len() == old($1)@.len()')], safety=['C02'], hide=hides(TOPV + ['UserAuth', 'Channel'], ['e', 'wf']),
  cases=['*self is ' + n for n, _, _ in TOP] + ['*self is UserAuth', '*self is Channel'])
ACC = {'message::Message': [('Disconnect', 'disconnect'), ('KeyExchangeInit', 'kex_init'), ('KeyExchangeEcdhInit', 'kex_ecdh_init'), ('NewKeys', 'new_keys'), ('ServiceRequest', 'service_request'),
                            ('ServiceAccept', 'service_accept'), ('UserAuth', 'user_auth'), ('Channel', 'channel')],
       'message::channel::Channel': [('Open', 'open'), ('OpenConfirmation', 'open_confirmation'), ('Data', 'data'), ('Close', 'close'), ('Request', 'request'), ('Success', 'success'), ('Failure', 'failure')],
       'message::userauth::UserAuth': [('Request', 'request'), ('Failure', 'failure'), ('Success', 'success'), ('Banner', 'banner'), ('PublicKeyOk', 'public_key_ok')]}
for p, l in ACC.items():
    for v, n in l:
        C(K + p + '::as_' + n, ens=[(['C01'], f'r is Some == *self is {v}'), (['C01'], f'r matches Some(m) ==> *m == self->{v}_0')], safety=['C03'])
        C(K + p + '::into_' + n, ens=[(['C01', 'C17'], f'r is Some == self is {v}'), (['C01', 'C17'], f'r matches Some(m) ==> m == self->{v}_0')], safety=['C03'])
        mod, ty = p.rsplit('::', 1)
        C(K + mod + f'::<{ty} as From<{v}>>::from', trait_ens=f'r == {P}{p}::{v}($1)', ens=[(['C01'], '')], safety=['C02'])

# ------------------------------------------------------------------ session requests
SS = 'message::channel::session::'
SIG = [('ABRT', 'Abort'), ('ALRM', 'Alarm'), ('FPE', 'FloatingPointException'), ('HUP', 'Hangup'), ('ILL', 'Illegal'), ('INT', 'Interrupt'), ('KILL', 'Kill'), ('PIPE', 'Pipe'), ('QUIT', 'Quit'),
       ('SEGV', 'SegmentationFault'), ('TERM', 'Terminate'), ('USR1', 'User1'), ('USR2', 'User2')]
SP.append(f"pub open spec fn signame(s: {P}{SS}Signal<'_>) -> Seq<u8> {{ match s {{ " + ' '.join(f'{P}{SS}Signal::{v} => {lit(n)},' for n, v in SIG) + f' {P}{SS}Signal::Other(x) => x@ }} }}')
SP.append(f"pub open spec fn sig_ok(s: {P}{SS}Signal<'_>) -> bool {{ s matches {P}{SS}Signal::Other(x) ==> " + ' && '.join(f'x@ != {lit(n)}' for n, _ in SIG) + ' }')
C(K + SS + '<Signal as From<&[u8]>>::from', trait_ens='signame(r) == $1@ && sig_ok(r)', ens=[(['C05'], '')], safety=['C03', 'C05'])
C(K + SS + '<&[u8] as From<Signal>>::from', trait_ens='r@ == signame($1)', ens=[(['C05'], '')], safety=['C05'])
SR = [('Pty', 'pty-req', [('terminal', 'str'), ('char_width', 'u32'), ('char_height', 'u32'), ('pixel_width', 'u32'), ('pixel_height', 'u32'), ('modes', 'str')]),
      ('X11', 'x11-req', [('single_connection', 'bool'), ('auth_protocol', 'str'), ('auth_cookie', 'str'), ('screen', 'u32')]),
      ('Env', 'env', [('name', 'str'), ('value', 'str')]), ('Shell', 'shell', []), ('Exec', 'exec', [('command', 'str')]), ('Subsystem', 'subsystem', [('name', 'str')]),
      ('WindowChange', 'window-change', [('char_width', 'u32'), ('char_height', 'u32'), ('pixel_width', 'u32'), ('pixel_height', 'u32')]),
      ('XonXoff', 'xon-xoff', [('on', 'bool')]), ('Signal', 'signal', [('signal', 'sig')]), ('ExitStatus', 'exit-status', [('status', 'u32')]),
      ('ExitSignal', 'exit-signal', [('signal', 'sig'), ('core_dumped', 'bool'), ('message', 'utf8'), ('language', 'str')])]


def k2(k):
    return 'str' if k == 'sig' else k


def vpat(pre, v, fs):
    return f'{pre}::{v}' + (' { ' + ', '.join(n for n, _ in fs) + ' }' if fs else '')


SP.append('pub enum VSess { ' + ' '.join(v + (' { ' + ', '.join(f'{n}: {VT.get(k, "Seq<u8>")}' for n, k in fs) + ' }' if fs else '') + ',' for v, _, fs in SR) + ' }')
SP.append('pub open spec fn e_Sess(v: VSess) -> Seq<u8> { match v { ' + ' '.join(f'{vpat("VSess", v, fs)} => {join([enc1(k2(k), n) for n, k in fs])},' for v, _, fs in SR) + ' } }')
SP.append('pub open spec fn wf_Sess(v: VSess) -> bool { match v { ' + ' '.join(f'{vpat("VSess", v, fs)} => ' + (' && '.join(WF[k2(k)].format(f='X').replace('v.X', n) for n, k in fs if k2(k) in WF) or 'true') + ',' for v, _, fs in SR) + ' } }')
SP.append('pub open spec fn ty_Sess(v: VSess) -> Seq<u8> { match v { ' + ' '.join(f'{vpat("VSess", v, fs)} => {lit(t)},' for v, t, fs in SR) + ' } }')
SP.append(f"pub open spec fn v_Sess(m: {P}{SS}SessionRequest<'_>) -> VSess {{ match m {{ " + ' '.join(
    f'{vpat(P + SS + "SessionRequest", v, fs)} => VSess::{v}' + (' { ' + ', '.join(f'{n}: ' + (f'signame({n})' if k == 'sig' else view1(k, n)) for n, k in fs) + ' }' if fs else '') + ',' for v, _, fs in SR) + ' } }')
for v, t, fs in SR:
    SP.append(f'pub open spec fn ds_{v}(s: Seq<u8>) -> Option<VSess> {{ {dec_body([(n, k2(k)) for n, k in fs], vpat("VSess", v, fs))} }}')
b = ''
for v, t, fs in SR:
    b += f'if t == {lit(t)} {{ ds_{v}(s) }} else '
SP.append(f'pub open spec fn d_Sess(t: Seq<u8>, s: Seq<u8>) -> Option<VSess> {{ {b} {{ None }} }}')
SP.append('pub proof fn lemma_sess_names() ensures ' + ', '.join(f'{lit(a[1])}.len() == {len(a[1])}' for a in SR) + ',' +
          ', '.join(f'{lit(a[1])} != {lit(c[1])}' for i, a in enumerate(SR) for c in SR[i + 1:]) + ' { ' +
          ' '.join(f'assert({lit(a[1])}[{next(j for j in range(99) if a[1][j] != c[1][j])}] != {lit(c[1])}[{next(j for j in range(99) if a[1][j] != c[1][j])}]);' for i, a in enumerate(SR) for c in SR[i + 1:] if len(a[1]) == len(c[1])) + ' }')
arms = ''
for v, t, fs in SR:
    h = ''
    if fs:
        e = enc1(k2(fs[-1][1]), fs[-1][0])
        h = f'assert({e} + Seq::<u8>::empty() =~= {e});'
    arms += f'{vpat("VSess", v, fs)} => {{ {h} }} '
SP.append(f'pub proof fn rt_Sess(v: VSess) requires wf_Sess(v) ensures d_Sess(ty_Sess(v), e_Sess(v)) == Some(v) {{ broadcast use group_rt; lemma_sess_names(); match v {{ {arms} }} }}')
C(K + SS + 'SessionRequest::parse', ens=[(['C05'], 'r is Ok == d_Sess($1@, $2@) is Some'), (['C05'], 'r matches Ok(m) ==> Some(v_Sess(m)) == d_Sess($1@, $2@)'),
                                         (['C05'], f'r matches Ok(m) ==> (match m {{ {P}{SS}SessionRequest::Signal {{ signal }} => sig_ok(signal), {P}{SS}SessionRequest::ExitSignal {{ signal, .. }} => sig_ok(signal), _ => true }})')],
  safety=['C03', 'C05', 'C22'], pre='proof { lemma_sess_names(); }')
C(K + SS + 'SessionRequest::serialize', req=[([], 'wf_Sess(v_Sess(*self))')],
  ens=[(['C05'], 'r matches Some((t, n)) ==> t@ == ty_Sess(v_Sess(*self)) && n == e_Sess(v_Sess(*self)).len() && n <= old($1)@.len() && wrote(old($1)@, final($1)@, e_Sess(v_Sess(*self)))'),
       (['C05'], 'r is None ==> old($1)@.len() < e_Sess(v_Sess(*self)).len()'),
       (['C05'], 'final($1)@.len() == old($1)@.len()')], safety=['C05'])
