//! Clean-up passes: attributes, `.await`, panicking macros, constants, items local to functions.
use crate::{flatten_use, Db, FnInfo, TypeItem};
use std::collections::HashMap;
use syn::visit_mut::{self, VisitMut};
use syn::*;

/// Operations on state outside the function's arguments get that state, `vp_w`, as a last argument.
pub struct World<'a> { pub names: &'a std::collections::HashSet<String> }
impl<'a> VisitMut for World<'a> {
	fn visit_expr_mut(&mut self, e: &mut Expr) {
		visit_mut::visit_expr_mut(self, e);
		match e {
			Expr::MethodCall(m) if self.names.contains(&format!(".{}", m.method)) => m.args.push(parse_quote!(&mut *vp_w)),
			Expr::Call(c) => if let Expr::Path(p) = &*c.func {
				let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
				if (1..=segs.len()).any(|n| self.names.contains(&segs[segs.len() - n..].join("::"))) { c.args.push(parse_quote!(&mut *vp_w)) }
			},
			_ => {}
		}
	}
}

pub struct SelfTo(pub String);
impl VisitMut for SelfTo {
	fn visit_path_mut(&mut self, p: &mut Path) {
		visit_mut::visit_path_mut(self, p);
		if p.segments.first().map_or(false, |s| s.ident == "Self") {
			let base: Path = parse_str(&self.0).unwrap();
			let rest: Vec<PathSegment> = p.segments.iter().skip(1).cloned().collect();
			let mut segs: Vec<PathSegment> = base.segments.into_iter().collect();
			segs.extend(rest);
			p.segments = segs.into_iter().collect();
		}
	}
}

fn mentions_self(b: &Block) -> bool {
	struct V(bool);
	impl<'a> visit::Visit<'a> for V { fn visit_path(&mut self, p: &'a Path) { if p.is_ident("self") { self.0 = true } visit::visit_path(self, p) } fn visit_macro(&mut self, _: &'a Macro) { self.0 = true } }
	let mut v = V(false);
	visit::Visit::visit_block(&mut v, b);
	v.0
}

fn expr_mentions_self(e: &Expr) -> bool { mentions_self(&parse_quote!({ #e })) }

/// The branches of `select!`, `.fuse()` left out.
fn parse_select(m: &Macro) -> Option<Vec<(Pat, Expr, Expr)>> {
	struct A(Vec<(Pat, Expr, Expr)>);
	impl parse::Parse for A {
		fn parse(i: parse::ParseStream) -> syn::Result<Self> {
			let mut v = vec![];
			while !i.is_empty() {
				let p = Pat::parse_single(i)?; i.parse::<Token![=]>()?;
				let mut e = i.parse::<Expr>()?; i.parse::<Token![=>]>()?;
				let b = if i.peek(token::Brace) { Expr::Block(i.parse::<ExprBlock>()?) } else { i.parse::<Expr>()? };
				let _ = i.parse::<Option<Token![,]>>();
				while let Expr::MethodCall(c) = &e { if c.method == "fuse" && c.args.is_empty() { e = (*c.receiver).clone() } else { break } }
				v.push((p, e, b));
			}
			Ok(A(v))
		}
	}
	m.parse_body::<A>().ok().map(|a| a.0)
}

/// Calls of async functions whose future is not awaited on the spot (names).
pub fn put_aside(b: &Block, is_async: &dyn Fn(&str) -> bool) -> Vec<String> {
	struct V<'f> { f: &'f dyn Fn(&str) -> bool, out: Vec<String> }
	fn call(e: &Expr) -> Option<String> {
		match e {
			Expr::MethodCall(m) => Some(m.method.to_string()),
			Expr::Call(c) => if let Expr::Path(p) = &*c.func { p.path.segments.last().map(|s| s.ident.to_string()) } else { None },
			_ => None,
		}
	}
	impl<'a, 'f> visit::Visit<'a> for V<'f> {
		fn visit_macro(&mut self, m: &'a Macro) {
			if !m.path.is_ident("select") { return }
			for (_, e, b) in parse_select(m).unwrap_or_default() {
				let mut v = V { f: self.f, out: vec![] };
				match &e { Expr::MethodCall(m) => visit::visit_expr_method_call(&mut v, m), Expr::Call(c) => visit::visit_expr_call(&mut v, c), _ => {} }
				visit::Visit::visit_expr(&mut v, &b);
				self.out.extend(v.out);
			}
		}
		fn visit_expr(&mut self, e: &'a Expr) {
			if let Expr::Await(a) = e { if call(&a.base).is_some() { match &*a.base { Expr::MethodCall(m) => visit::visit_expr_method_call(self, m), Expr::Call(c) => visit::visit_expr_call(self, c), _ => {} } return } }
			if let Expr::MethodCall(m) = e { if m.method == "push" {
				visit::Visit::visit_expr(self, &m.receiver);
				for a in &m.args { match a { Expr::Call(c) if !c.args.iter().any(expr_mentions_self) => for x in &c.args { visit::Visit::visit_expr(self, x) }, a => visit::Visit::visit_expr(self, a) } }
				return
			} }
			if let Some(n) = call(e) { if (self.f)(&n) { self.out.push(n) } }
			visit::visit_expr(self, e)
		}
	}
	let mut v = V { f: is_async, out: vec![] };
	visit::Visit::visit_block(&mut v, b);
	v.out
}

/// The error is any error at all: `Result<_, Box<dyn Error>>`.
pub fn any_error(t: &ReturnType) -> bool {
	match t { ReturnType::Type(_, t) => { let s = crate::tok(&**t); s.starts_with("Result <") && s.contains("Box < dyn") && s.contains("Error >") } _ => false }
}

/// A body used where `?` follows: its last expression is the value, errors leave the caller.
pub fn flat_block(b: &Block) -> std::result::Result<Block, String> {
	struct R(bool);
	impl<'a> visit::Visit<'a> for R {
		fn visit_expr_return(&mut self, r: &'a ExprReturn) { match &r.expr { Some(e) => match &**e { Expr::Call(c) if crate::tok(&c.func) == "Err" => {} _ => self.0 = true }, None => self.0 = true } }
		fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
	}
	let mut r = R(false);
	visit::Visit::visit_block(&mut r, b);
	if r.0 { return Err("early success in a body with a loop".into()) }
	fn ex(e: &Expr) -> Expr {
		match e {
			Expr::Call(c) if crate::tok(&c.func) == "Ok" && c.args.len() == 1 => c.args[0].clone(),
			Expr::Match(m) => { let mut m = m.clone(); for a in &mut m.arms { a.body = Box::new(ex(&a.body)) } Expr::Match(m) }
			Expr::If(i) => { let mut i = i.clone(); i.then_branch = bl(&i.then_branch); if let Some((_, e)) = &mut i.else_branch { *e = Box::new(ex(e)) } Expr::If(i) }
			Expr::Block(b) => { let mut b = b.clone(); b.block = bl(&b.block); Expr::Block(b) }
			Expr::Paren(p) => ex(&p.expr),
			// an arm that only fails
			Expr::Try(t) if matches!(&*t.expr, Expr::Call(c) if crate::tok(&c.func) == "Err") => e.clone(),
			e => parse_quote!(#e?),
		}
	}
	fn bl(b: &Block) -> Block {
		let mut b = b.clone();
		if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() { *e = ex(e) }
		b
	}
	Ok(bl(b))
}

pub struct Clean { pub notes: Vec<String> }
impl Clean {
	fn mac(&mut self, m: &Macro) -> Option<Expr> {
		let n = m.path.segments.last().unwrap().ident.to_string();
		match n.as_str() {
			"todo" | "panic" | "unreachable" | "unimplemented" => Some(parse_quote!(crate::vp::vp_panic())),
			"assert" | "debug_assert" => {
				let args = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok()?;
				let c = args.first()?.clone();
				Some(parse_quote!(if !(#c) { crate::vp::vp_panic() }))
			}
			"assert_eq" | "debug_assert_eq" | "assert_ne" | "debug_assert_ne" => {
				let args = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok()?;
				let (a, b) = (args.first()?.clone(), args.iter().nth(1)?.clone());
				if n.ends_with("_eq") { Some(parse_quote!(if !(#a == #b) { crate::vp::vp_panic() })) } else { Some(parse_quote!(if #a == #b { crate::vp::vp_panic() })) }
			}
			"matches" => {
				struct A(Expr, Pat, Option<Expr>);
				impl parse::Parse for A {
					fn parse(i: parse::ParseStream) -> syn::Result<Self> {
						let e = i.parse()?; i.parse::<Token![,]>()?;
						let p = Pat::parse_multi_with_leading_vert(i)?;
						let g = if i.peek(Token![if]) { i.parse::<Token![if]>()?; Some(i.parse()?) } else { None };
						let _ = i.parse::<Option<Token![,]>>();
						Ok(A(e, p, g))
					}
				}
				let A(e, p, g) = m.parse_body().ok()?;
				Some(match g { None => parse_quote!(match #e { #p => true, _ => false }), Some(g) => parse_quote!(match #e { #p if #g => true, _ => false }) })
			}
			"select" => {
				// `pat = future => body`: some branch is taken, its future runs to its end, the others do not run
				let v = parse_select(m)?;
				let n = v.len();
				let arms = v.into_iter().enumerate().map(|(k, (p, e, b))| {
					let b: Expr = match b { Expr::Block(_) => b, b => parse_quote!({ #b }) };
					let pat: Pat = if k + 1 == n { parse_quote!(_) } else { let l = LitInt::new(&format!("{}u32", k), proc_macro2::Span::call_site()); parse_quote!(#l) };
					parse_quote!(#pat => { let #p = #e; #b })
				}).collect::<Vec<Arm>>();
				Some(parse_quote!(match crate::vp::vp_any() { #(#arms)* }))
			}
			"format" => Some(parse_quote!(crate::vp::vp_format())),
			"println" | "print" => {
				let args = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok()?;
				let Some(Expr::Lit(ExprLit { lit: Lit::Str(f), .. })) = args.first() else { return None };
				let mut rest = args.iter().skip(1);
				let mut out: Expr = parse_quote!(crate::ext::fmt::start());
				let mut text = String::new();
				let f = f.value() + if n == "println" { "\n" } else { "" };
				let mut cs = f.chars().peekable();
				let flush = |text: &mut String, out: Expr| -> Expr { if text.is_empty() { return out } let b = LitByteStr::new(text.as_bytes(), proc_macro2::Span::call_site()); text.clear(); parse_quote!(crate::ext::fmt::lit(#out, #b)) };
				while let Some(c) = cs.next() {
					match c {
						'{' | '}' if cs.peek() == Some(&c) => { cs.next(); text.push(c) }
						'{' => {
							let mut h = String::new();
							loop { match cs.next()? { '}' => break, c => h.push(c) } }
							let (name, spec) = h.split_once(':').unwrap_or((&h, ""));
							let x: Expr = if name.is_empty() { rest.next()?.clone() } else { parse_str(name).ok().filter(|e| matches!(e, Expr::Path(_)))? };
							out = flush(&mut text, out);
							let func = Ident::new(&if spec.is_empty() { "show".to_string() } else { format!("show_{}", spec.replace(|c: char| !c.is_alphanumeric(), "_")) }, proc_macro2::Span::call_site());
							out = parse_quote!(crate::ext::fmt::#func(#out, &#x));
						}
						c => text.push(c),
					}
				}
				out = flush(&mut text, out);
				Some(parse_quote!(crate::ext::fmt::print(#out)))
			}
			_ => None,
		}
	}
}
impl VisitMut for Clean {
	fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) { a.clear() }
	fn visit_expr_mut(&mut self, e: &mut Expr) {
		if let Expr::Await(a) = e {
			let b = (*a.base).clone();
			*e = match b { Expr::Path(_) => parse_quote!(#b.vp_await()), Expr::Async(x) => { let k = x.block; parse_quote!(#k) } b => b };
			return self.visit_expr_mut(e)
		}
		// a future put aside that owns all it works on gives the same result whenever it runs
		if let Expr::MethodCall(m) = e { if m.method == "push" { for a in m.args.iter_mut() { if let Expr::Async(x) = a { if x.capture.is_some() && !mentions_self(&x.block) { let k = x.block.clone(); *a = parse_quote!(#k) } } } } }
		if let Expr::Paren(p) = e { if matches!(&*p.expr, Expr::Paren(_) | Expr::Path(_) | Expr::Lit(_)) { let b = (*p.expr).clone(); *e = b; return self.visit_expr_mut(e) } }
		if let Expr::Group(g) = e { let b = (*g.expr).clone(); *e = b; return self.visit_expr_mut(e) }
		if let Expr::Macro(m) = e {
			match self.mac(&m.mac) { Some(n) => { *e = n; return self.visit_expr_mut(e) } None => {} }
		}
		// ::core::panicking::panic(..) and friends (from expanded code)
		if let Expr::Call(c) = e {
			if let Expr::Path(p) = &*c.func {
				let s = p.path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::");
				if s.starts_with("core::panicking::") || s.starts_with("std::rt::begin_panic") || s.starts_with("std::rt::panic") { *e = parse_quote!(crate::vp::vp_panic()); return }
			}
		}
		visit_mut::visit_expr_mut(self, e);
	}
	fn visit_stmt_mut(&mut self, s: &mut Stmt) {
		if let Stmt::Macro(m) = s {
			if let Some(n) = self.mac(&m.mac) { *s = Stmt::Expr(n, m.semi_token.clone()); }
		}
		visit_mut::visit_stmt_mut(self, s);
	}
	fn visit_pat_mut(&mut self, p: &mut Pat) {
		if let Pat::Paren(q) = p { let b = (*q.pat).clone(); *p = b; return self.visit_pat_mut(p) }
		visit_mut::visit_pat_mut(self, p)
	}
}

pub struct ConstInliner<'a> { pub db: &'a Db }
impl<'a> ConstInliner<'a> {
	fn get(&self, p: &Path) -> Option<Expr> {
		let s = p.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::");
		self.db.consts.get(&s).cloned()
	}
}
impl<'a> VisitMut for ConstInliner<'a> {
	fn visit_expr_mut(&mut self, e: &mut Expr) {
		if let Expr::Path(p) = e { if let Some(c) = self.get(&p.path) { *e = if matches!(c, Expr::Lit(_)) { c } else { parse_quote!((#c)) }; return } }
		visit_mut::visit_expr_mut(self, e);
	}
	fn visit_pat_mut(&mut self, p: &mut Pat) {
		if let Pat::Path(q) = p { if let Some(Expr::Lit(l)) = self.get(&q.path) { *p = Pat::Lit(l); return } }
		visit_mut::visit_pat_mut(self, p);
	}
}

pub fn eval(e: &Expr) -> Option<i128> {
	match e {
		Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) => i.base10_parse().ok(),
		Expr::Lit(ExprLit { lit: Lit::Byte(b), .. }) => Some(b.value() as i128),
		Expr::Paren(p) => eval(&p.expr),
		Expr::Group(p) => eval(&p.expr),
		Expr::Cast(c) => eval(&c.expr),
		Expr::Binary(b) => {
			let (l, r) = (eval(&b.left)?, eval(&b.right)?);
			Some(match b.op { BinOp::Add(_) => l + r, BinOp::Sub(_) => l - r, BinOp::Mul(_) => l * r, BinOp::Div(_) if r != 0 => l / r, BinOp::Shl(_) => l << r, _ => return None })
		}
		Expr::MethodCall(m) if m.method == "len" => match &*m.receiver {
			Expr::Lit(ExprLit { lit: Lit::ByteStr(b), .. }) => Some(b.value().len() as i128),
			Expr::Lit(ExprLit { lit: Lit::Str(b), .. }) => Some(b.value().len() as i128),
			_ => None,
		},
		_ => None,
	}
}

pub fn fold_consts(db: &mut Db) {
	for _ in 0..6 {
		let keys: Vec<String> = db.consts.keys().cloned().collect();
		for k in keys {
			let mut e = db.consts[&k].clone();
			ConstInliner { db }.visit_expr_mut(&mut e);
			if !matches!(e, Expr::Lit(_)) {
				if let Some(v) = eval(&e) { if v >= 0 { let l = LitInt::new(&v.to_string(), proc_macro2::Span::call_site()); e = parse_quote!(#l) } }
			}
			if let Expr::Lit(ExprLit { lit: Lit::Byte(b), .. }) = &e { let v = b.value(); e = parse_quote!(#v) }
			db.consts.insert(k, e);
		}
	}
}

struct ItemTaker { items: Vec<Item> }
impl VisitMut for ItemTaker {
	fn visit_block_mut(&mut self, b: &mut Block) {
		let mut keep = vec![];
		for s in std::mem::take(&mut b.stmts) { match s { Stmt::Item(i) => self.items.push(i), s => keep.push(s) } }
		b.stmts = keep;
		visit_mut::visit_block_mut(self, b);
	}
}



pub fn hoist_local_items(db: &mut Db) -> Vec<TypeItem> {
	let keys: Vec<String> = db.fns.keys().cloned().collect();
	let mut extra: Vec<TypeItem> = vec![];
	for (idx, k) in keys.iter().enumerate() {
		let mut block = match &db.fns[k].block { Some(b) => b.clone(), None => continue };
		let mut t = ItemTaker { items: vec![] };
		t.visit_block_mut(&mut block);
		if t.items.is_empty() { continue }
		let module = db.fns[k].module.clone();
		let mut scope: HashMap<String, String> = HashMap::new();
		let mut nested = vec![];
		for it in t.items {
			match it {
				Item::Use(u) => for (n, p) in flatten_use(&u) { scope.insert(n, p); },
				Item::Type(ty) => if let Type::Path(p) = &*ty.ty { scope.insert(ty.ident.to_string(), p.path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::")); },
				Item::Const(c) => {
					let n = format!("VP_L{}_{}", idx, c.ident);
					scope.insert(c.ident.to_string(), format!("crate::{}::{}", module[1..].join("::"), n).replace("::::", "::"));
					db.items.insert((module.join("::"), n.clone()), ());
					db.consts.insert(format!("crate::{}::{}", module.join("::"), n), (*c.expr).clone());
				}
				Item::Enum(mut e) => {
					let n = if db.items.contains_key(&(module.join("::"), e.ident.to_string())) { format!("{}L{}", e.ident, idx) } else { e.ident.to_string() };
					let mut p = vec!["crate".to_string()]; p.extend(module[1..].iter().cloned()); p.push(n.clone());
					scope.insert(e.ident.to_string(), p.join("::"));
					e.ident = Ident::new(&n, e.ident.span());
					e.attrs.clear(); e.vis = parse_quote!(pub);
					db.items.insert((module.join("::"), n.clone()), ());
					db.types.insert(format!("{}::{}", module.join("::"), n));
					extra.push(TypeItem { module: module.clone(), name: n, text_kind: "enum", generics: e.generics.clone(), item: Item::Enum(e), copy: false });
				}
				Item::Fn(f) => {
					let n = format!("p{}_{}", idx, f.sig.ident);
					scope.insert(f.sig.ident.to_string(), format!("vp_local::{}", n));
					nested.push((n, f));
				}
				_ => {}
			}
		}
		let parent_self = db.fns[k].self_ty.clone();
		let parent_st = db.fns[k].self_type.clone();
		for (n, f) in nested {
			let key = format!("vp_local::{}", n);
			db.fns.insert(key.clone(), FnInfo { key, module: module.clone(), name: f.sig.ident.to_string(), self_ty: parent_self.clone(), self_type: parent_st.clone(), impl_generics: Generics::default(), trait_: None, assoc: vec![], sig: f.sig.clone(), block: Some((*f.block).clone()), local_of: Some(k.clone()), scope: scope.clone() });
		}
		let fi = db.fns.get_mut(k).unwrap();
		fi.block = Some(block);
		fi.scope = scope;
	}
	extra
}
