//! Local rewrites used by the lowering pass.
use crate::inline::{id, Lower};
use crate::rename::Renamer;
use crate::ty::Ty;
use crate::Db;
use proc_macro2::Span;
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub const STD_METHODS: &[&str] = &["len", "is_empty", "iter", "iter_mut", "get", "get_mut", "insert", "remove", "push", "pop", "as_ref", "as_mut", "into", "try_into", "map", "take", "unwrap", "clone", "next", "read", "write", "flush", "finalize", "update", "new", "lock", "split", "contains", "first", "last", "name", "parse", "to_usize", "drop", "wake", "poll"];

/// Replaces `&p` sub-patterns by a fresh name; the returned statements bind `p`.
pub fn deref_pat(p: &mut Pat, rn: &mut Renamer) -> Vec<Stmt> {
	let mut out = vec![];
	fn go(p: &mut Pat, rn: &mut Renamer, out: &mut Vec<Stmt>) {
		match p {
			Pat::Reference(r) => {
				if matches!(&*r.pat, Pat::Slice(_) | Pat::Lit(_)) { return }
				let v = id(&rn.fresh("vp_d"));
				let mut q = (*r.pat).clone();
				*p = parse_quote!(#v);
				let mut post = vec![];
				go(&mut q, rn, &mut post);
				out.push(parse_quote!(let #q = *#v;));
				out.extend(post);
			}
			Pat::Tuple(t) => t.elems.iter_mut().for_each(|e| go(e, rn, out)),
			Pat::TupleStruct(t) => t.elems.iter_mut().for_each(|e| go(e, rn, out)),
			Pat::Paren(t) => go(&mut t.pat, rn, out),
			Pat::Struct(s) => s.fields.iter_mut().for_each(|f| go(&mut f.pat, rn, out)),
			_ => {}
		}
	}
	go(p, rn, &mut out);
	out
}

pub fn pat_vars(p: &Pat) -> Vec<String> {
	struct V(Vec<String>);
	impl<'a> visit::Visit<'a> for V {
		fn visit_pat_ident(&mut self, i: &'a PatIdent) {
			let n = i.ident.to_string();
			if crate::rename::is_binding_ident(&n) { self.0.push(n) }
		}
	}
	let mut v = V(vec![]);
	visit::Visit::visit_pat(&mut v, p);
	v.0
}

pub fn ref_arms(m: &mut ExprMatch, rn: &mut Renamer) {
	for a in &mut m.arms {
		let post = deref_pat(&mut a.pat, rn);
		if !post.is_empty() {
			let b = &a.body;
			a.body = Box::new(parse_quote!({ #(#post)* #b }));
		}
	}
}

/// A string, byte string or constant slice inside a pattern becomes a name and a guard.
pub fn str_arms(m: &mut ExprMatch, rn: &mut Renamer) {
	// (is a `str`, content)
	fn strs(p: &Pat) -> Option<Vec<(bool, Vec<u8>)>> {
		match p {
			Pat::Lit(ExprLit { lit: Lit::Str(b), .. }) => Some(vec![(true, b.value().into_bytes())]),
			Pat::Lit(ExprLit { lit: Lit::ByteStr(b), .. }) => Some(vec![(false, b.value())]),
			Pat::Reference(r) if r.mutability.is_none() => match &*r.pat {
				Pat::Slice(s) => Some(vec![(false, s.elems.iter().map(|e| match e {
					Pat::Lit(ExprLit { lit: Lit::Byte(b), .. }) => Some(b.value()),
					Pat::Lit(ExprLit { lit: Lit::Int(b), .. }) => b.base10_parse().ok(),
					_ => None,
				}).collect::<Option<Vec<u8>>>()?)]),
				_ => None,
			},
			Pat::Paren(q) => strs(&q.pat),
			Pat::Or(o) => { let mut v = vec![]; for c in &o.cases { v.extend(strs(c)?) } Some(v) }
			_ => None,
		}
	}
	fn go(p: &mut Pat, rn: &mut Renamer, out: &mut Vec<Expr>) {
		if let Some(l) = strs(p) {
			let v = id(&rn.fresh("vp_l"));
			let es = l.iter().map(|(s, b)| { let l = bytes_lit(b); let e: Expr = if *s { parse_quote!(crate::vp::vstr_eq(#v, #l)) } else { parse_quote!(crate::vp::veq(#v, #l)) }; e }).reduce(|a, b| parse_quote!(#a || #b)).unwrap();
			*p = parse_quote!(#v);
			out.push(parse_quote!((#es)));
			return;
		}
		match p {
			Pat::Tuple(t) => t.elems.iter_mut().for_each(|e| go(e, rn, out)),
			Pat::TupleStruct(t) => t.elems.iter_mut().for_each(|e| go(e, rn, out)),
			Pat::Paren(t) => go(&mut t.pat, rn, out),
			Pat::Struct(s) => s.fields.iter_mut().for_each(|f| go(&mut f.pat, rn, out)),
			_ => {}
		}
	}
	for a in &mut m.arms {
		let mut g = vec![];
		go(&mut a.pat, rn, &mut g);
		for c in g.into_iter().rev() {
			a.guard = Some(match a.guard.take() { None => (Default::default(), Box::new(c)), Some((i, x)) => (i, Box::new(parse_quote!(#c && (#x)))) });
		}
	}
}

pub fn if_let_chain(_e: &mut Expr) {}

fn bytes_lit(b: &[u8]) -> Expr {
	if b.is_empty() { return parse_quote!(&[0u8; 0]) }
	let es = b.iter().map(|x| LitInt::new(&format!("{}u8", x), Span::call_site()));
	parse_quote!(&[#(#es),*])
}

/// `match` over slices with byte-string or slice patterns becomes a chain of `if`.
pub fn slice_match(m: &ExprMatch, rn: &mut Renamer) -> Option<Expr> {
	fn is_slice(p: &Pat) -> bool {
		match p {
			Pat::Lit(ExprLit { lit: Lit::ByteStr(_) | Lit::Str(_), .. }) | Pat::Slice(_) => true,
			Pat::Reference(r) => is_slice(&r.pat),
			Pat::Or(o) => o.cases.iter().any(is_slice),
			_ => false,
		}
	}
	if !m.arms.iter().any(|a| is_slice(&a.pat)) { return None }
	let v = id(&rn.fresh("vp_m"));
	fn cond(p: &Pat, v: &Ident, by_ref: bool, binds: &mut Vec<Stmt>) -> Option<Option<Expr>> {
		Some(match p {
			Pat::Wild(_) => None,
			Pat::Ident(i) if i.subpat.is_none() => { let n = &i.ident; binds.push(parse_quote!(let #n = #v;)); None }
			Pat::Reference(r) => return cond(&r.pat, v, false, binds),
			Pat::Paren(r) => return cond(&r.pat, v, by_ref, binds),
			Pat::Lit(ExprLit { lit: Lit::ByteStr(b), .. }) => { let l = bytes_lit(&b.value()); Some(parse_quote!(crate::vp::veq(&#v, &#l))) }
			Pat::Lit(ExprLit { lit: Lit::Str(b), .. }) => { let l = bytes_lit(b.value().as_bytes()); Some(parse_quote!(crate::vp::vstr_eq(#v, #l))) }
			Pat::Or(o) => {
				let mut c: Option<Expr> = None;
				for p in &o.cases { let x = cond(p, v, by_ref, binds)??; c = Some(match c { None => x, Some(c) => parse_quote!(#c || #x) }) }
				c
			}
			Pat::Slice(s) => {
				let n = s.elems.len();
				let rest = s.elems.iter().position(|e| matches!(e, Pat::Rest(_)) || matches!(e, Pat::Ident(i) if i.subpat.as_ref().map_or(false, |(_, p)| matches!(**p, Pat::Rest(_)))));
				let mut c: Expr = match rest { None => parse_quote!(#v.len() == #n), Some(_) => { let k = n - 1; if k == 0 { parse_quote!(true) } else { parse_quote!(#v.len() >= #k) } } };
				for (i, e) in s.elems.iter().enumerate() {
					let idx: Expr = match rest { Some(r) if i > r => { let back = n - i; parse_quote!(#v.len() - #back) } _ => parse_quote!(#i) };
					match e {
						Pat::Rest(_) | Pat::Wild(_) => {}
						Pat::Ident(p) if p.subpat.is_some() => {
							let nme = &p.ident; let back = n - 1 - i;
							if back == 0 { binds.push(parse_quote!(let #nme = &#v[#i..];)) } else { binds.push(parse_quote!(let #nme = &#v[#i..#v.len() - #back];)) }
						}
						Pat::Ident(p) => { let nme = &p.ident; if by_ref { binds.push(parse_quote!(let #nme = &#v[#idx];)) } else { binds.push(parse_quote!(let #nme = #v[#idx];)) } }
						Pat::Lit(l) => c = parse_quote!(#c && #v[#idx] == #l),
						_ => return None,
					}
				}
				Some(c)
			}
			_ => return None,
		})
	}
	let mut out: Option<Expr> = None;
	for a in m.arms.iter().rev() {
		let mut binds = vec![];
		let c = cond(&a.pat, &v, true, &mut binds)?;
		let body = &a.body;
		let blk: Expr = if binds.is_empty() { parse_quote!({ #body }) } else { parse_quote!({ #(#binds)* #body }) };
		let els = out.take().unwrap_or_else(|| parse_quote!({ crate::vp::vp_panic() }));
		out = Some(match (c, &a.guard) {
			(None, None) => blk,
			(Some(c), None) => parse_quote!(if #c #blk else #els),
			(None, Some((_, g))) => { parse_quote!({ #(#binds)* if #g { #body } else #els }) }
			(Some(c), Some((_, g))) if binds.is_empty() => parse_quote!(if #c && #g #blk else #els),
			_ => return None,
		});
	}
	let s = &m.expr;
	let o = out?;
	let o = fix_else(o);
	Some(parse_quote!({ let #v = #s; #o }))
}
fn fix_else(e: Expr) -> Expr { e }

/// `lit.iter().copied().try_for_each(f)?`
pub fn unroll_try_for_each(e: &Expr) -> Option<(Vec<Expr>, Expr)> {
	let Expr::Try(t) = e else { return None };
	let Expr::MethodCall(m) = &*t.expr else { return None };
	if m.method != "try_for_each" { return None }
	let mut r = &*m.receiver;
	let mut by_val = false;
	loop {
		match r {
			Expr::MethodCall(x) if x.args.is_empty() && (x.method == "copied" || x.method == "cloned") => { by_val = true; r = &x.receiver }
			Expr::MethodCall(x) if x.args.is_empty() && x.method == "iter" => r = &x.receiver,
			Expr::MethodCall(x) if x.args.is_empty() && x.method == "into_iter" => { by_val = true; r = &x.receiver }
			_ => break,
		}
	}
	let Expr::Lit(ExprLit { lit: Lit::ByteStr(b), .. }) = r else { return None };
	let es = b.value().iter().map(|x| { let l = LitInt::new(&format!("{}u8", x), Span::call_site()); if by_val { parse_quote!(#l) } else { parse_quote!(&#l) } }).collect();
	Some((es, m.args.first()?.clone()))
}

/// A struct literal at the front of an expression, where `match` does not read one.
fn struct_first(e: &Expr) -> bool {
	match e { Expr::Struct(_) => true, Expr::MethodCall(m) => struct_first(&m.receiver), Expr::Field(f) => struct_first(&f.base), Expr::Binary(b) => struct_first(&b.left), Expr::Try(t) => struct_first(&t.expr), Expr::Index(i) => struct_first(&i.expr), Expr::Cast(c) => struct_first(&c.expr), Expr::Call(c) => struct_first(&c.func), _ => false }
}

pub fn combinator(lo: &mut Lower, recv: &Expr, t: &Ty, name: &str, args: &[Expr]) -> Option<Expr> {
	let payload = match t { Ty::Opt(t) | Ty::Res(t) => (**t).clone(), _ => Ty::Unk };
	let opt = matches!(t, Ty::Opt(_));
	let res = matches!(t, Ty::Res(_));
	let lowered = |lo: &mut Lower, e: &Expr| { let mut e = e.clone(); lo.visit_expr_mut(&mut e); e };
	let mut scr = recv.clone();
	if struct_first(&scr) { scr = parse_quote!((#scr)) }
	if std::env::var("VP_TRACE").is_ok() { eprintln!("combinator {} on {}", name, crate::tok(&scr)) }
	let recv = &scr;
	match name {
		"then" if args.len() == 1 && !opt && !res => {
			let (_, b) = lo.arm(&args[0], &Ty::Unk);
			Some(parse_quote!(if #recv { Some(#b) } else { None }))
		}
		"then_some" if args.len() == 1 => {
			let v = lo.fresh("vp_v");
			let a = lowered(lo, &args[0]);
			Some(parse_quote!({ let #v = #a; if #recv { Some(#v) } else { None } }))
		}
		"ok_or" if opt || (lo.flat && !res) => {
			let v = lo.fresh("vp_v");
			let a = lowered(lo, &args[0]);
			Some(parse_quote!(match #recv { Some(#v) => Ok(#v), None => Err(#a) }))
		}
		"ok_or_else" if opt => {
			let v = lo.fresh("vp_v");
			let (_, a) = lo.arm(&args[0], &Ty::Unk);
			Some(parse_quote!(match #recv { Some(#v) => Ok(#v), None => Err(#a) }))
		}
		"map" if opt => { let (p, b) = lo.arm(&args[0], &payload); Some(parse_quote!(match #recv { Some(#p) => Some(#b), None => None })) }
		"map" if res => { let (p, b) = lo.arm(&args[0], &payload); Some(parse_quote!(match #recv { Ok(#p) => Ok(#b), Err(vp_e) => Err(vp_e) })) }
		"map_err" if !opt => { let v = lo.fresh("vp_v"); let (p, b) = lo.arm(&args[0], &Ty::Unk); Some(parse_quote!(match #recv { Ok(#v) => Ok(#v), Err(#p) => Err(#b) })) }
		"and_then" if opt => { let (p, b) = lo.arm(&args[0], &payload); Some(parse_quote!(match #recv { Some(#p) => #b, None => None })) }
		"and_then" if res => { let (p, b) = lo.arm(&args[0], &payload); Some(parse_quote!(match #recv { Ok(#p) => #b, Err(vp_e) => Err(vp_e) })) }
		"or_else" if opt => { let v = lo.fresh("vp_v"); let (_, b) = lo.arm(&args[0], &Ty::Unk); Some(parse_quote!(match #recv { Some(#v) => Some(#v), None => #b })) }
		"filter" if opt => {
			let v = lo.fresh("vp_v");
			let c = lo.fresh("vp_c");
			let (p, b) = lo.arm(&args[0], &payload);
			Some(parse_quote!(match #recv { Some(#v) => { let #c = match &#v { #p => #b }; if #c { Some(#v) } else { None } } None => None }))
		}
		"map_or" if opt => { let a = lowered(lo, &args[0]); let (p, b) = lo.arm(&args[1], &payload); Some(parse_quote!(match #recv { Some(#p) => #b, None => #a })) }
		"map_or" if res => { let a = lowered(lo, &args[0]); let (p, b) = lo.arm(&args[1], &payload); Some(parse_quote!(match #recv { Ok(#p) => #b, Err(_) => #a })) }
		"map_or_else" if opt => { let (_, a) = lo.arm(&args[0], &Ty::Unk); let (p, b) = lo.arm(&args[1], &payload); Some(parse_quote!(match #recv { Some(#p) => #b, None => #a })) }
		"is_some_and" if opt => { let (p, b) = lo.arm(&args[0], &payload); Some(parse_quote!(match #recv { Some(#p) => #b, None => false })) }
		"is_none_or" if opt => { let (p, b) = lo.arm(&args[0], &payload); Some(parse_quote!(match #recv { Some(#p) => #b, None => true })) }
		"is_ok_and" if res => { let (p, b) = lo.arm(&args[0], &payload); Some(parse_quote!(match #recv { Ok(#p) => #b, Err(_) => false })) }
		"unwrap_or" if opt => { let v = lo.fresh("vp_v"); let a = lowered(lo, &args[0]); Some(parse_quote!(match #recv { Some(#v) => #v, None => #a })) }
		"unwrap_or" if res => { let v = lo.fresh("vp_v"); let a = lowered(lo, &args[0]); Some(parse_quote!(match #recv { Ok(#v) => #v, Err(_) => #a })) }
		"unwrap_or_else" if opt => { let v = lo.fresh("vp_v"); let (_, b) = lo.arm(&args[0], &Ty::Unk); Some(parse_quote!(match #recv { Some(#v) => #v, None => #b })) }
		"unwrap_or_else" if res => { let v = lo.fresh("vp_v"); let (p, b) = lo.arm(&args[0], &Ty::Unk); Some(parse_quote!(match #recv { Ok(#v) => #v, Err(#p) => #b })) }
		"ok" if res => { let v = lo.fresh("vp_v"); Some(parse_quote!(match #recv { Ok(#v) => Some(#v), Err(_) => None })) }
		"err" if res => { let v = lo.fresh("vp_v"); Some(parse_quote!(match #recv { Ok(_) => None, Err(#v) => Some(#v) })) }
		"flatten" if opt => { let v = lo.fresh("vp_v"); Some(parse_quote!(match #recv { Some(#v) => #v, None => None })) }
		"copied" | "cloned" if opt => { let v = lo.fresh("vp_v"); Some(parse_quote!(match #recv { Some(#v) => Some(*#v), None => None })) }
		"unwrap" | "expect" if opt => { let v = lo.fresh("vp_v"); Some(parse_quote!(match #recv { Some(#v) => #v, None => crate::vp::vp_panic() })) }
		"unwrap" | "expect" if res => { let v = lo.fresh("vp_v"); Some(parse_quote!(match #recv { Ok(#v) => #v, Err(_) => crate::vp::vp_panic() })) }
		"unwrap_err" if res => { let v = lo.fresh("vp_v"); Some(parse_quote!(match #recv { Err(#v) => #v, Ok(_) => crate::vp::vp_panic() })) }
		"is_some" if opt => Some(parse_quote!(match #recv { Some(_) => true, None => false })),
		"is_none" if opt => Some(parse_quote!(match #recv { Some(_) => false, None => true })),
		"is_ok" if res => Some(parse_quote!(match #recv { Ok(_) => true, Err(_) => false })),
		"is_err" if res => Some(parse_quote!(match #recv { Ok(_) => false, Err(_) => true })),
		"for_each" if args.len() == 1 => by_value(lo, recv, &args[0]),
		"any" | "all" | "position" | "find" if args.len() == 1 => iter_loop(lo, recv, name, &args[0]),
		_ => None,
	}
}

/// `v.into_iter().for_each(f)`: a loop that takes the elements out from the front.
pub fn by_value(lo: &mut Lower, recv: &Expr, f: &Expr) -> Option<Expr> {
	let Expr::MethodCall(m) = recv else { return None };
	if m.method != "into_iter" && m.method != "drain" { return None }
	let v = &m.receiver;
	let s = lo.fresh("vp_s");
	lo.loops += 1;
	let k = LitInt::new(&lo.loops.to_string(), Span::call_site());
	let (p, b) = lo.arm(f, &Ty::Unk);
	Some(parse_quote!({ let mut #s = #v; while #s.len() > 0 { vp_loop!(#k); let #p = #s.remove(0); #b; } }))
}

/// `<source>.any(f)` and friends as an explicit loop.
fn iter_loop(lo: &mut Lower, recv: &Expr, name: &str, f: &Expr) -> Option<Expr> {
	let mut src = recv.clone();
	while let Expr::Paren(p) = &src { src = (*p.expr).clone() }
	let mut copied = false;
	while let Expr::MethodCall(m) = &src {
		if (m.method == "copied" || m.method == "cloned") && m.args.is_empty() { copied = true; src = (*m.receiver).clone() } else { break }
	}
	let s = lo.fresh("vp_s");
	let i = lo.fresh("vp_i");
	let r = lo.fresh("vp_r");
	let x = lo.fresh("vp_x");
	let mut strip = |e: &Expr| -> Expr { let mut e = e.clone(); while let Expr::Paren(p) = &e { e = (*p.expr).clone() } e };
	// literal array: unrolled
	if let Expr::MethodCall(m) = &src {
		if m.method == "iter" && m.args.is_empty() {
			let mut b = strip(&m.receiver);
			if let Expr::Reference(rf) = &b { b = strip(&rf.expr) }
			if let Expr::Array(arr) = &b {
				if name == "any" || name == "all" {
					let mut out: Option<Expr> = None;
					for el in &arr.elems {
						let c = match f { Expr::Closure(c) => c.clone(), _ => return None };
						let arg: Expr = if copied { el.clone() } else { parse_quote!(&#el) };
						let b = lo.beta(&c, vec![arg]);
						let b: Expr = parse_quote!((#b));
						out = Some(match (out, name) { (None, _) => b, (Some(o), "any") => parse_quote!(#o || #b), (Some(o), _) => parse_quote!(#o && #b) });
					}
					return out.or_else(|| Some(if name == "any" { parse_quote!(false) } else { parse_quote!(true) }));
				}
			}
		}
	}
	// iter_mut().enumerate().find(..): the element is looked at in place, then borrowed
	if let ("find" | "position", Expr::MethodCall(en)) = (name, &src) {
		if let ("enumerate", Expr::MethodCall(it)) = (en.method.to_string().as_str(), &*en.receiver) {
			if it.method == "iter_mut" || it.method == "iter" {
				let Expr::Closure(c) = f else { return None };
				let c = c.clone();
				lo.loops += 1;
				let k = LitInt::new(&lo.loops.to_string(), Span::call_site());
				let b = &it.receiver;
				let arg: Expr = if name == "find" { parse_quote!(&#x) } else { parse_quote!(#x) };
				let body = lo.beta(&c, vec![arg]);
				let (bor, bx): (Expr, Expr) = if it.method == "iter_mut" { (parse_quote!(&mut #b), parse_quote!(&mut #s[#i])) } else { (parse_quote!(&#b), parse_quote!(&#s[#i])) };
				let fin: Expr = if name == "find" { parse_quote!(match #r { Some(#i) => Some((#i, #bx)), None => None }) } else { parse_quote!(#r) };
				return Some(parse_quote!({ let #s = #bor; let mut #i: usize = 0; let mut #r: Option<usize> = None; while #i < #s.len() { vp_loop!(#k); let #x = (#i, &#s[#i]); if #body { #r = Some(#i); break; } #i += 1; } #fin }));
			}
		}
	}
	lo.loops += 1;
	let k = LitInt::new(&lo.loops.to_string(), Span::call_site());
	let (init, cond, elem): (Expr, Expr, Expr) = match &src {
		Expr::MethodCall(m) if m.method == "windows" && m.args.len() == 1 => {
			let w = &m.args[0]; let b = &m.receiver;
			let b: Expr = parse_quote!(#b);
			(b, parse_quote!(#i + #w <= #s.len()), parse_quote!(&#s[#i..#i + #w]))
		}
		Expr::MethodCall(m) if m.method == "iter" && m.args.is_empty() && !matches!(lo.env.infer(&m.receiver), Ty::Named(_)) => {
			let b = &m.receiver;
			(parse_quote!(#b), parse_quote!(#i < #s.len()), if copied { parse_quote!(#s[#i]) } else { parse_quote!(&#s[#i]) })
		}
		Expr::MethodCall(m) if m.method == "bytes" && m.args.is_empty() => {
			let b = &m.receiver;
			(parse_quote!(#b.as_bytes()), parse_quote!(#i < #s.len()), parse_quote!(#s[#i]))
		}
		// an iterator with next()
		other => {
			let c = match f { Expr::Closure(c) => c.clone(), _ => return None };
			let b = lo.beta(&c, vec![parse_quote!(#x)]);
			return Some(match name {
				"any" => parse_quote!({ let mut #s = #other; let mut #r = false; loop { vp_loop!(#k); match #s.next() { Some(#x) => { if #b { #r = true; break; } } None => { break; } } } #r }),
				"all" => parse_quote!({ let mut #s = #other; let mut #r = true; loop { vp_loop!(#k); match #s.next() { Some(#x) => { if !(#b) { #r = false; break; } } None => { break; } } } #r }),
				_ => return None,
			});
		}
	};
	let body = match f {
		Expr::Closure(c) => { let c = c.clone(); let arg: Expr = if name == "find" { parse_quote!(&#x) } else { parse_quote!(#x) }; lo.beta(&c, vec![arg]) }
		Expr::Path(p) => parse_quote!(#p(#x)),
		_ => return None,
	};
	Some(match name {
		"any" => parse_quote!({ let #s = #init; let mut #i: usize = 0; let mut #r = false; while #cond { vp_loop!(#k); let #x = #elem; if #body { #r = true; break; } #i += 1; } #r }),
		"all" => parse_quote!({ let #s = #init; let mut #i: usize = 0; let mut #r = true; while #cond { vp_loop!(#k); let #x = #elem; if !(#body) { #r = false; break; } #i += 1; } #r }),
		"position" => parse_quote!({ let #s = #init; let mut #i: usize = 0; let mut #r: Option<usize> = None; while #cond { vp_loop!(#k); let #x = #elem; if #body { #r = Some(#i); break; } #i += 1; } #r }),
		_ => return None,
	})
}

pub fn rename_call(c: &mut ExprCall, db: &Db) {
	let Expr::Path(p) = &mut *c.func else { return };
	let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
	let _ = db;
	let n = segs.len();
	let last = segs[n - 1].as_str();
	let has_ty = n >= 2 || p.qself.is_some();
	if !has_ty { return }
	match last {
		"from" => p.path.segments[n - 1].ident = id("vfrom"),
		"try_from" => p.path.segments[n - 1].ident = id("vtry_from"),
		"from_be_bytes" => {
			let f = match segs[n - 2].as_str() { "u64" => "vfrom_be64", "u16" => "vfrom_be16", _ => "vfrom_be32" };
			p.path = parse_str(&format!("crate::vp::{}", f)).unwrap();
		}
		"from_mut" if n >= 2 && segs[n - 2] == "slice" => p.path = parse_quote!(crate::vp::vslice_from_mut),
		"take" if n >= 2 && segs[n - 2] == "mem" => p.path = parse_quote!(crate::vp::vtake),
		_ => {}
	}
}

pub fn rename_method(m: &mut ExprMethodCall, t: &Ty, db: &Db) -> Option<Expr> {
	let _ = db;
	let name = m.method.to_string();
	let unsized_place = matches!(&*m.receiver, Expr::Index(i) if matches!(&*i.index, Expr::Range(_)));
	let conv = match name.as_str() {
		"into" => "vinto",
		"try_into" => "vtry_into",
		"as_ref" if !matches!(t, Ty::Opt(_)) => "vas_ref",
		"as_mut" if !matches!(t, Ty::Opt(_)) => "vas_mut",
		"to_be_bytes" => "vto_be",
		"contains" => {
			let mut r = &*m.receiver;
			while let Expr::Paren(p) = r { r = &p.expr }
			if let Some(Expr::Lit(ExprLit { lit: Lit::Char(c), .. })) = m.args.first() {
				if c.value().is_ascii() { let l = LitInt::new(&format!("{}u8", c.value() as u32), Span::call_site()); return Some(parse_quote!(crate::vp::vstr_has(#r, #l))) }
			}
			if let Expr::Range(rg) = r {
				let a = m.args.first()?;
				let x: Expr = match a { Expr::Reference(r) => (*r.expr).clone(), a => parse_quote!(*#a) };
				let mut c: Option<Expr> = None;
				if let Some(s) = &rg.start { c = Some(parse_quote!(#s <= #x)) }
				if let Some(e) = &rg.end {
					let k: Expr = match rg.limits { RangeLimits::Closed(_) => parse_quote!(#x <= #e), _ => parse_quote!(#x < #e) };
					c = Some(match c { None => k, Some(c) => parse_quote!(#c && #k) });
				}
				let c = c?;
				return Some(parse_quote!((#c)));
			}
			return None;
		}
		_ => return None,
	};
	m.method = id(conv);
	if conv == "vtry_into" && *t == Ty::Bytes && matches!(&*m.receiver, Expr::Path(_)) { let r = (*m.receiver).clone(); m.receiver = Box::new(parse_quote!((&*#r))) }
	if matches!(&*m.receiver, Expr::If(_) | Expr::Match(_) | Expr::Block(_)) { let r = (*m.receiver).clone(); m.receiver = Box::new(parse_quote!((#r))) }
	if unsized_place && conv != "vas_mut" { let r = (*m.receiver).clone(); m.receiver = Box::new(parse_quote!((&#r))) }
	if unsized_place && conv == "vas_mut" { let r = (*m.receiver).clone(); m.receiver = Box::new(parse_quote!((&mut #r))) }
	None
}

/// Literals Verus does not read, the one `unsafe` cast of the repository, string indexing.
#[derive(Default)]
pub struct Misc {}
impl VisitMut for Misc {
	fn visit_expr_mut(&mut self, e: &mut Expr) {
		visit_mut::visit_expr_mut(self, e);
		match e {
			Expr::Lit(ExprLit { lit: Lit::ByteStr(b), .. }) => *e = bytes_lit(&b.value()),
			Expr::Lit(ExprLit { lit: Lit::Byte(b), .. }) => { let l = LitInt::new(&format!("{}u8", b.value()), Span::call_site()); *e = parse_quote!(#l) }
			Expr::Unsafe(u) => {
				if u.block.stmts.len() == 1 {
					if let Stmt::Expr(Expr::Field(f), None) = &u.block.stmts[0] {
						if let (Expr::MethodCall(m), Member::Unnamed(ix)) = (&*f.base, &f.member) {
							if m.method == "align_to" && m.args.is_empty() && ix.index == 1 { let r = &m.receiver; *e = parse_quote!(crate::vp::vp_flatten(#r)); }
						}
					}
				}
			}
			Expr::Binary(b) if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) => {
				fn text(e: &Expr) -> Option<Vec<u8>> { match e { Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => Some(s.value().into_bytes()), Expr::Paren(p) => text(&p.expr), _ => None } }
				let side = text(&b.right).map(|l| (b.left.clone(), l)).or_else(|| text(&b.left).map(|l| (b.right.clone(), l)));
				if let Some((x, l)) = side {
					let l = bytes_lit(&l);
					*e = if matches!(b.op, BinOp::Eq(_)) { parse_quote!(crate::vp::vstr_eq(#x, #l)) } else { parse_quote!(!crate::vp::vstr_eq(#x, #l)) };
					return;
				}
				fn lit(e: &Expr) -> bool { match e { Expr::Array(_) | Expr::Repeat(_) => true, Expr::Reference(r) => lit(&r.expr), Expr::Paren(p) => lit(&p.expr), _ => false } }
				if lit(&b.left) || lit(&b.right) {
					let (l, r) = (&b.left, &b.right);
					*e = if matches!(b.op, BinOp::Eq(_)) { parse_quote!(crate::vp::veq(&#l, &#r)) } else { parse_quote!(!crate::vp::veq(&#l, &#r)) }
				}
			}
			Expr::Reference(r) if r.mutability.is_none() => {
				if let Expr::Index(i) = &*r.expr {
					if let Expr::Range(g) = &*i.index { if g.start.is_none() && g.end.is_none() { let b = &i.expr; *e = parse_quote!(#b.vfull()) } }
				}
			}
			Expr::Call(c) => if let Expr::Path(p) = &*c.func {
				if p.path.is_ident("drop") && c.args.len() == 1 { let a = &c.args[0]; *e = parse_quote!(crate::vp::vp_drop(#a)) }
			},
			_ => {}
		}
	}
	fn visit_pat_mut(&mut self, p: &mut Pat) {
		if let Pat::Lit(ExprLit { lit: Lit::Byte(b), .. }) = p { let v = LitInt::new(&format!("{}", b.value()), Span::call_site()); *p = parse_quote!(#v); return }
		visit_mut::visit_pat_mut(self, p);
	}
}
