//! The lowering pass: inlines helpers without a contract and local closures, turns closure
//! combinators into `match`, and renames operations Verus has no specification for to their
//! stand-ins in the prelude.
use crate::clean::{self, Clean, ConstInliner, SelfTo};
use crate::desugar;
use crate::rename::Renamer;
use crate::tail::{self, Kind};
use crate::ty::{self, Env, Ty};
use crate::{Db, FnInfo};
use proc_macro2::Span;
use std::collections::HashMap;
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Lowered { pub block: Block, pub loops: usize, pub closures: usize, pub locals: Vec<String>, pub calls: Vec<String>, pub inlined: Vec<String>, pub notes: Vec<String> }

pub struct Lower<'a> {
	pub db: &'a Db,
	pub rn: Renamer<'a>,
	pub env: Env<'a>,
	pub closures: HashMap<String, ExprClosure>,
	pub loops: usize,
	pub nclosures: usize,
	pub calls: Vec<String>,
	pub inlined: Vec<String>,
	pub stack: Vec<String>,
	pub notes: Vec<String>,
	pub errors: Vec<String>,
	/// errors leave the function as they are: it returns any error at all
	pub flat: bool,
	/// the call at hand is the operand of `?`
	pub tried: bool,
}

pub fn id(s: &str) -> Ident { Ident::new(s, Span::call_site()) }

struct SubstSelf(Expr);
impl VisitMut for SubstSelf {
	fn visit_expr_mut(&mut self, e: &mut Expr) {
		if let Expr::Path(p) = e { if p.path.is_ident("self") { *e = self.0.clone(); return } }
		visit_mut::visit_expr_mut(self, e);
	}
}

pub fn lower(db: &Db, f: &FnInfo, sig: &mut Signature) -> std::result::Result<Lowered, String> {
	let mut lo = Lower {
		db, rn: Renamer::new(db),
		env: Env { db, self_ty: f.self_ty.clone().unwrap_or_default(), vars: HashMap::new() },
		closures: HashMap::new(), loops: 0, nclosures: 0, calls: vec![], inlined: vec![], stack: vec![f.key.clone()], notes: vec![], errors: vec![], flat: clean::any_error(&f.sig.output), tried: false,
	};
	let mut block = f.block.clone().unwrap();
	lo.check_async(&block);
	Clean { notes: vec![] }.visit_block_mut(&mut block);
	if let Some(s) = &f.self_ty { SelfTo(s.clone()).visit_block_mut(&mut block) }
	let mut pre: Vec<Stmt> = vec![];
	let mut n = 0;
	let mut np = 0;
	let q = Some((f.module.clone(), f.scope.clone()));
	let self_ty = lo.env.self_ty.clone();
	let env = &mut lo.env;
	lo.rn.isolated(q, |rn| {
		for a in sig.inputs.iter_mut() {
			if let FnArg::Typed(t) = a {
				let ty = ty::from_type(&t.ty, &self_ty);
				match &mut *t.pat {
					Pat::Ident(i) => {
						// `mut` on a by-value parameter: shadow it, Verus wants contracts over the argument
						// parameters get positional names, so that no contract depends on (or captures) them
						np += 1;
						let x = format!("vp_p{}", np);
						rn.bind_as(&i.ident.to_string(), &x);
						i.ident = id(&x);
						let p = Pat::Ident(i.clone());
						env.bind(&p, &ty);
					}
					Pat::Wild(_) => { n += 1; let x = id(&format!("vp_arg{}", n)); *t.pat = parse_quote!(#x); }
					p => {
						n += 1;
						let x = id(&format!("vp_arg{}", n));
						let mut pat = p.clone();
						rn.bind_pat(&mut pat);
						env.bind(&pat, &ty);
						pre.push(parse_quote!(let #pat = #x;));
						*t.pat = parse_quote!(#x);
					}
				}
			}
		}
		rn.block(&mut block);
	});
	// a `mut` parameter becomes `let mut x = x0`
	for a in sig.inputs.iter_mut() {
		match a {
			FnArg::Typed(t) => if let Pat::Ident(i) = &mut *t.pat {
				if i.mutability.is_some() {
					i.mutability = None;
					let n = i.ident.clone();
					let n0 = id(&format!("{}_0", n));
					i.ident = n0.clone();
					pre.push(parse_quote!(let mut #n = #n0;));
				}
			},
			FnArg::Receiver(r) if r.reference.is_none() && r.mutability.is_some() => { lo.notes.push("mut self by value".into()) }
			_ => {}
		}
	}
	pre.extend(std::mem::take(&mut block.stmts));
	block.stmts = pre;
	ConstInliner { db }.visit_block_mut(&mut block);
	lo.visit_block_mut(&mut block);
	desugar::Misc::default().visit_block_mut(&mut block);
	if !lo.errors.is_empty() { return Err(lo.errors.join("; ")) }
	let locals = lo.rn.order.clone();
	Ok(Lowered { block, loops: lo.loops, closures: lo.nclosures, locals, calls: lo.calls, inlined: lo.inlined, notes: lo.notes })
}

impl<'a> Lower<'a> {
	fn err(&mut self, s: impl Into<String>) { self.errors.push(s.into()) }
	fn check_async(&mut self, b: &Block) {
		let db = self.db;
		let root = self.stack.last().and_then(|k| db.fns.get(k)).map(|f| f.module[0].clone());
		if !db.fns.values().any(|f| f.sig.asyncness.is_some() && Some(&f.module[0]) == root.as_ref()) { return }
		let v = crate::clean::put_aside(b, &|n| { let mut i = db.fns.values().filter(|f| f.name == n).peekable(); i.peek().is_some() && i.all(|f| f.sig.asyncness.is_some()) });
		for n in v { self.err(format!("future of {} not awaited on the spot", n)) }
	}
	pub fn fresh(&mut self, b: &str) -> Ident { id(&self.rn.fresh(b)) }

	fn inlinable(&self, f: &FnInfo) -> bool {
		f.block.is_some() && f.trait_.is_none() && !self.db.contracted.contains(&f.key) && !self.stack.contains(&f.key) && self.stack.len() < 10
	}

	fn inline_fn(&mut self, key: &str, recv: Option<Expr>, args: Vec<Expr>) -> Expr {
		let f = &self.db.fns[key];
		if self.inlined.len() > 400 { self.err("inlining budget exhausted"); }
		self.inlined.push(key.to_string());
		let mut block = f.block.clone().unwrap();
		self.check_async(&block);
		Clean { notes: vec![] }.visit_block_mut(&mut block);
		if let Some(s) = &f.self_ty { SelfTo(s.clone()).visit_block_mut(&mut block) }
		let mut sig = f.sig.clone();
		let q = Some((f.module.clone(), f.scope.clone()));
		self.rn.isolated(q, |rn| {
			for a in sig.inputs.iter_mut() { if let FnArg::Typed(t) = a { rn.bind_pat(&mut t.pat); rn.visit_type_mut(&mut t.ty) } }
			rn.block(&mut block);
		});
		ConstInliner { db: self.db }.visit_block_mut(&mut block);
		let self_ty = f.self_ty.clone().unwrap_or_default();
		let mut pre: Vec<Stmt> = vec![];
		let mut args = args.into_iter();
		let generics: Vec<String> = f.sig.generics.type_params().map(|t| t.ident.to_string()).collect();
		for a in sig.inputs.iter() {
			match a {
				FnArg::Receiver(r) => {
					let e = match &recv { Some(e) => e.clone(), None => { let mut e = args.next().unwrap(); self.visit_expr_mut(&mut e); e } };
					let strip = match &e { Expr::Reference(r) => (*r.expr).clone(), e => e.clone() };
					if tail::simple(&strip) && !matches!(strip, Expr::Lit(_)) { SubstSelf(strip).visit_block_mut(&mut block) }
					else {
						let v = self.fresh("vp_self");
						let t = self.env.infer(&e);
						self.env.vars.insert(v.to_string(), t);
						if r.reference.is_none() || matches!(e, Expr::Reference(_)) { pre.push(parse_quote!(let #v = #e;)) }
						else if r.mutability.is_some() { pre.push(parse_quote!(let #v = &mut #e;)) }
						else { pre.push(parse_quote!(let #v = &#e;)) }
						SubstSelf(parse_quote!(#v)).visit_block_mut(&mut block)
					}
				}
				FnArg::Typed(t) => {
					let mut e = match args.next() { Some(e) => e, None => { self.err("arity"); continue } };
					self.bind_arg(&t.pat, Some(&t.ty), &generics, &mut e, &mut pre, &self_ty);
				}
			}
		}
		let kind = match ty::from_type(&match &sig.output { ReturnType::Type(_, t) => (**t).clone(), _ => parse_quote!(()) }, &self_ty) { Ty::Res(_) => Kind::Res, _ => Kind::Opt };
		let flat = self.flat && self.tried && clean::any_error(&f.sig.output);
		let block = match if flat { clean::flat_block(&block) } else { tail::tail_block(&block, kind, &mut self.rn) } { Ok(b) => b, Err(e) => { self.err(format!("inlining {}: {}", key, e)); block } };
		self.stack.push(key.to_string());
		let was = (std::mem::replace(&mut self.flat, flat), std::mem::replace(&mut self.tried, false));
		let old = std::mem::replace(&mut self.env.self_ty, self_ty);
		let mut block = block;
		self.visit_block_mut(&mut block);
		self.env.self_ty = old;
		self.flat = was.0;
		self.stack.pop();
		let stmts = block.stmts;
		// keep the helper's result type where it may drive inference (integer conversions)
		if let ReturnType::Type(_, t) = &sig.output {
			let prim = matches!(&**t, Type::Path(p) if p.path.get_ident().map_or(false, |i| matches!(i.to_string().as_str(), "u8" | "u16" | "u32" | "u64" | "usize" | "bool")));
			let arr = matches!(&**t, Type::Array(a) if matches!(&*a.elem, Type::Path(p) if p.path.is_ident("u8")) && matches!(&a.len, Expr::Lit(_)));
			if (prim || arr) && matches!(stmts.last(), Some(Stmt::Expr(_, None))) {
				let v = self.fresh("vp_ret");
				return parse_quote!({ #(#pre)* let #v: #t = { #(#stmts)* }; #v });
			}
		}
		if pre.is_empty() && stmts.len() == 1 { if let Stmt::Expr(e, None) = &stmts[0] { return e.clone() } }
		parse_quote!({ #(#pre)* #(#stmts)* })
	}

	fn bind_arg(&mut self, pat: &Pat, ty: Option<&Type>, generics: &[String], e: &mut Expr, pre: &mut Vec<Stmt>, self_ty: &str) {
		// closures stay symbolic
		let inner = match &*e { Expr::Reference(r) => (*r.expr).clone(), o => o.clone() };
		if let (Expr::Closure(c), Pat::Ident(i)) = (&inner, pat) { self.closures.insert(i.ident.to_string(), c.clone()); return }
		if let (Expr::Path(p), Pat::Ident(i)) = (&inner, pat) {
			if let Some(n) = p.path.get_ident() { if let Some(c) = self.closures.get(&n.to_string()).cloned() { self.closures.insert(i.ident.to_string(), c); return } }
			let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
			if segs.len() > 1 && self.db.find_path(&segs, self_ty).is_some() {
				self.closures.insert(i.ident.to_string(), parse_quote!(|vp_x| #p(vp_x)));
				return;
			}
		}
		self.visit_expr_mut(e);
		let t = ty.map_or_else(|| Ty::Unk, |t| ty::from_type(t, self_ty));
		let t = if t == Ty::Unk { self.env.infer(e) } else { t };
		self.env.bind(pat, &t);
		let mut pat = pat.clone();
		let post = desugar::deref_pat(&mut pat, &mut self.rn);
		let is_mut_ref = matches!(ty, Some(Type::Reference(r)) if r.mutability.is_some());
		let prim = matches!(ty, Some(Type::Path(p)) if p.path.get_ident().map_or(false, |i| !generics.contains(&i.to_string()) && matches!(i.to_string().as_str(), "u8" | "u16" | "u32" | "u64" | "usize" | "bool")));
		if matches!(pat, Pat::Wild(_)) { pre.push(parse_quote!(let _ = #e;)) }
		else if is_mut_ref && matches!(e, Expr::Path(_) | Expr::Field(_)) { pre.push(parse_quote!(let #pat = &mut *#e;)) }
		else if prim { let t = ty.unwrap(); pre.push(parse_quote!(let #pat: #t = #e;)) }
		else { pre.push(parse_quote!(let #pat = #e;)) }
		pre.extend(post);
	}

	/// Applies a closure to argument expressions.
	pub fn beta(&mut self, c: &ExprClosure, args: Vec<Expr>) -> Expr {
		let mut ce = Expr::Closure(c.clone());
		// the closure's free variables are already renamed: only its own binders are refreshed
		self.rn.isolated(None, |rn| rn.visit_expr_mut(&mut ce));
		let Expr::Closure(c) = ce else { unreachable!() };
		let mut pre: Vec<Stmt> = vec![];
		if args.len() != c.inputs.len() { self.err("closure arity") }
		for (p, mut a) in c.inputs.iter().zip(args) {
			let (pat, ty) = match p { Pat::Type(t) => ((*t.pat).clone(), Some((*t.ty).clone())), p => (p.clone(), None) };
			let ty = ty.filter(|t| !matches!(t, Type::Infer(_)));
			self.bind_arg(&pat, ty.as_ref(), &[], &mut a, &mut pre, "");
		}
		let mut body: Block = match &*c.body { Expr::Block(b) => b.block.clone(), e => parse_quote!({ #e }) };
		let flat = self.flat && std::mem::replace(&mut self.tried, false) && clean::any_error(&c.output);
		if flat {
			match clean::flat_block(&body) { Ok(b) => body = b, Err(e) => self.err(format!("closure: {}", e)) }
		} else if tail::block_has_exit(&body) {
			let kind = match self.env.infer_block(&body) { Ty::Res(_) => Kind::Res, _ => Kind::Opt };
			match tail::tail_block(&body, kind, &mut self.rn) { Ok(b) => body = b, Err(e) => self.err(format!("closure: {}", e)) }
		}
		self.visit_block_mut(&mut body);
		let stmts = body.stmts;
		if pre.is_empty() && stmts.len() == 1 { if let Stmt::Expr(e, None) = &stmts[0] { return e.clone() } }
		parse_quote!({ #(#pre)* #(#stmts)* })
	}

	/// Closure (or function path) applied to a bound variable pattern: returns (pattern, body).
	pub fn arm(&mut self, f: &Expr, payload: &Ty) -> (Pat, Expr) {
		match f {
			Expr::Closure(c) => {
				let mut ce = Expr::Closure(c.clone());
				self.rn.isolated(None, |rn| rn.visit_expr_mut(&mut ce));
				let Expr::Closure(c) = ce else { unreachable!() };
				let pat = match c.inputs.first() { Some(Pat::Type(t)) => (*t.pat).clone(), Some(p) => p.clone(), None => parse_quote!(_) };
				self.env.bind(&pat, payload);
				let mut pat = pat;
				let post = desugar::deref_pat(&mut pat, &mut self.rn);
				let mut body: Block = match &*c.body { Expr::Block(b) => b.block.clone(), e => parse_quote!({ #e }) };
				if tail::block_has_exit(&body) {
					let kind = match self.env.infer_block(&body) { Ty::Res(_) => Kind::Res, _ => Kind::Opt };
					match tail::tail_block(&body, kind, &mut self.rn) { Ok(b) => body = b, Err(e) => self.err(format!("closure: {}", e)) }
				}
				self.visit_block_mut(&mut body);
				let stmts = body.stmts;
				if post.is_empty() && stmts.len() == 1 { if let Stmt::Expr(e, None) = &stmts[0] { return (pat, e.clone()) } }
				(pat, parse_quote!({ #(#post)* #(#stmts)* }))
			}
			Expr::Path(p) => {
				let x = self.fresh("vp_x");
				self.env.vars.insert(x.to_string(), payload.clone());
				if let Some(n) = p.path.get_ident() { if let Some(c) = self.closures.get(&n.to_string()).cloned() { let b = self.beta(&c, vec![parse_quote!(#x)]); return (parse_quote!(#x), b) } }
				let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
				let n = segs.len();
				let mut e: Expr = if n >= 2 && segs[n - 2] == "Option" && matches!(segs[n - 1].as_str(), "take" | "as_mut" | "as_ref" | "is_some" | "is_none") { let m = id(&segs[n - 1]); parse_quote!(#x.#m()) } else { parse_quote!(#p(#x)) };
				self.visit_expr_mut(&mut e);
				(parse_quote!(#x), e)
			}
			e => { self.err(format!("unsupported function argument {}", crate::tok(e))); (parse_quote!(_), e.clone()) }
		}
	}
}

impl<'a> VisitMut for Lower<'a> {
	fn visit_block_mut(&mut self, b: &mut Block) {
		let mut out = vec![];
		for mut s in std::mem::take(&mut b.stmts) {
			if let Stmt::Local(l) = &mut s {
				// let-bound closure
				if let (Pat::Ident(i), Some(init)) = (&l.pat, &l.init) {
					if let Expr::Closure(c) = &*init.expr { self.closures.insert(i.ident.to_string(), c.clone()); continue }
				}
				if let Some(init) = &mut l.init {
					self.visit_expr_mut(&mut init.expr);
					let t = self.env.infer(&init.expr);
					self.env.bind(&l.pat, &t);
					if let Some((_, d)) = &mut init.diverge { self.visit_expr_mut(d) }
				}
				// let-else
				if let Some(LocalInit { expr, diverge: Some((_, d)), .. }) = &l.init {
					let vars = desugar::pat_vars(&l.pat);
					let p = &l.pat;
					let ids: Vec<Ident> = vars.iter().map(|v| id(v)).collect();
					let e: Expr = if ids.len() == 1 { let v = &ids[0]; parse_quote!(match #expr { #p => #v, _ => #d }) } else { parse_quote!(match #expr { #p => (#(#ids),*), _ => #d }) };
					let lp: Pat = if ids.len() == 1 { let v = &ids[0]; parse_quote!(#v) } else { parse_quote!((#(#ids),*)) };
					out.push(parse_quote!(let #lp = #e;));
					continue;
				}
				let mut pat = l.pat.clone();
				let post = match &mut pat { Pat::Type(t) => desugar::deref_pat(&mut t.pat, &mut self.rn), p => desugar::deref_pat(p, &mut self.rn) };
				l.pat = pat;
				out.push(s);
				out.extend(post);
				continue;
			}
			// `literal.iter().copied().try_for_each(f)?;`
			if let Stmt::Expr(e, semi) = &s {
				if let Some(list) = desugar::unroll_try_for_each(e) {
					let (elems, f) = list;
					for x in elems {
						let call: Expr = match &f { Expr::Path(_) => parse_quote!(#f(#x)), Expr::Reference(r) => { let g = &r.expr; parse_quote!(#g(#x)) } g => parse_quote!((#g)(#x)) };
						let mut st: Stmt = parse_quote!(#call?;);
						self.visit_stmt_mut(&mut st);
						out.push(st);
					}
					let _ = semi;
					continue;
				}
			}
			match &mut s {
				Stmt::Expr(e, _) => self.visit_expr_mut(e),
				Stmt::Macro(m) => { let n = crate::tok(&m.mac); self.err(format!("macro {}", n)) }
				_ => {}
			}
			out.push(s);
		}
		b.stmts = out;
	}
	fn visit_expr_mut(&mut self, e: &mut Expr) {
		match e {
			Expr::Path(p) => {
				if let Some(n) = p.path.get_ident() { if self.closures.contains_key(&n.to_string()) { let c = self.closures[&n.to_string()].clone(); *e = Expr::Closure(c); self.visit_expr_mut(e) } }
			}
			Expr::Macro(m) => { let n = crate::tok(&m.mac); self.err(format!("macro {}", n)) }
			Expr::Async(_) => self.err("async block"),
			Expr::Closure(c) => {
				// passed on as a value; |x| f(x) is f
				if let (1, Expr::Call(k)) = (c.inputs.len(), &*c.body) {
					if let (Some(Pat::Ident(p)), Expr::Path(f), 1) = (c.inputs.first(), &*k.func, k.args.len()) {
						if let (Expr::Path(a), Some(g)) = (&k.args[0], f.path.get_ident()) {
							if a.path.is_ident(&p.ident) && !self.closures.contains_key(&g.to_string()) && g != &p.ident { *e = Expr::Path(f.clone()); return }
						}
					}
				}
				self.nclosures += 1;
				self.visit_expr_mut(&mut c.body);
				let k = self.nclosures;
				let b = &c.body;
				let kl = LitInt::new(&k.to_string(), Span::call_site());
				let nb: Expr = match &**b { Expr::Block(bl) => { let st = &bl.block.stmts; parse_quote!({ vp_closure!(#kl); #(#st)* }) } b => parse_quote!({ vp_closure!(#kl); #b }) };
				c.body = Box::new(nb);
			}
			Expr::If(i) => {
				self.cond(&mut i.cond);
				self.visit_block_mut(&mut i.then_branch);
				if let Some((_, e)) = &mut i.else_branch { self.visit_expr_mut(e) }
				desugar::if_let_chain(e);
			}
			Expr::While(w) => {
				self.loops += 1;
				let k = LitInt::new(&self.loops.to_string(), Span::call_site());
				self.cond(&mut w.cond);
				self.visit_block_mut(&mut w.body);
				let st = &w.body.stmts;
				let c = &w.cond;
				*e = match &**c {
					Expr::Let(l) => { let (p, x) = (&l.pat, &l.expr); parse_quote!(loop { vp_loop!(#k); match #x { #p => { #(#st)* } _ => { break; } } }) }
					c => parse_quote!(while #c { vp_loop!(#k); #(#st)* }),
				};
			}
			Expr::Loop(l) => {
				self.loops += 1;
				let k = LitInt::new(&self.loops.to_string(), Span::call_site());
				self.visit_block_mut(&mut l.body);
				let st = &l.body.stmts;
				l.body = parse_quote!({ vp_loop!(#k); #(#st)* });
			}
			Expr::ForLoop(_) => self.for_loop(e),
			Expr::Match(m) => {
				self.visit_expr_mut(&mut m.expr);
				let t = self.env.infer(&m.expr);
				for a in &mut m.arms {
					self.env.bind(&a.pat, &t);
					if let Some((_, g)) = &mut a.guard { self.visit_expr_mut(g) }
					self.visit_expr_mut(&mut a.body);
				}
				if let Some(n) = desugar::slice_match(m, &mut self.rn) { *e = n } else if let Expr::Match(m) = e { desugar::str_arms(m, &mut self.rn); desugar::ref_arms(m, &mut self.rn) }
			}
			// every error of such a function is the one opaque value
			Expr::Call(c) if self.flat && crate::tok(&c.func) == "Err" && c.args.len() == 1 && matches!(&c.args[0], Expr::MethodCall(m) if m.method == "into" && m.args.is_empty()) => {
				let Expr::MethodCall(m) = &c.args[0] else { return };
				let mut x = (*m.receiver).clone();
				self.visit_expr_mut(&mut x);
				*e = parse_quote!(Err(crate::vp::vp_error(#x)));
			}
			Expr::Call(c) => {
				let args: Vec<Expr> = c.args.iter().cloned().collect();
				if let Expr::Paren(p) = &*c.func { if let Expr::Closure(cl) = &*p.expr { let cl = cl.clone(); *e = self.beta(&cl, args); return } }
				if let Expr::Path(p) = &*c.func {
					if let Some(n) = p.path.get_ident() {
						if let Some(cl) = self.closures.get(&n.to_string()).cloned() { *e = self.beta(&cl, args); return }
					}
					if p.qself.is_none() {
						let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
						if let Some(f) = self.db.find_path(&segs, &self.env.self_ty) {
							let key = f.key.clone();
							if self.inlinable(f) { *e = self.inline_fn(&key, None, args); return }
							self.calls.push(key);
						}
					}
				}
				for a in c.args.iter_mut() { self.visit_expr_mut(a) }
				desugar::rename_call(c, self.db);
			}
			Expr::MethodCall(_) => self.method(e),
			Expr::Try(t) if self.flat => {
				if let Expr::Call(c) = &*t.expr { if crate::tok(&c.func) == "Err" && c.args.len() == 1 {
					let mut x = c.args[0].clone();
					if let Expr::MethodCall(m) = &x { if m.method == "into" && m.args.is_empty() { x = (*m.receiver).clone() } }
					self.visit_expr_mut(&mut x);
					*e = parse_quote!(return Err(crate::vp::vp_error(#x)));
					return
				} }
				let call = matches!(&*t.expr, Expr::Call(_));
				let flat_call = call && self.flat_call(&t.expr);
				self.tried = flat_call;
				self.visit_expr_mut(&mut t.expr);
				self.tried = false;
				if flat_call { *e = (*t.expr).clone(); return }
				let v = self.fresh("vp_v");
				let x = &t.expr;
				*e = parse_quote!(match #x { Ok(#v) => #v, Err(vp_e) => { return Err(crate::vp::vp_error(vp_e)); } });
			}
			Expr::Index(_) => {
				visit_mut::visit_expr_mut(self, e);
				let Expr::Index(i) = e else { return };
				if let (Expr::Range(r), Ty::Named(n)) = (&*i.index, self.env.infer(&i.expr)) {
					if n == "str" {
						let b = &i.expr;
						let lo: Expr = r.start.as_ref().map_or_else(|| parse_quote!(0), |x| (**x).clone());
						let hi: Expr = match (&r.end, &r.limits) { (None, _) => parse_quote!(crate::vp::vstr_len(#b)), (Some(x), RangeLimits::HalfOpen(_)) => (**x).clone(), (Some(x), _) => parse_quote!(#x + 1) };
						*e = parse_quote!((*crate::vp::vstr_index(#b, #lo, #hi)));
					}
				}
			}
			Expr::Reference(_) => {
				visit_mut::visit_expr_mut(self, e);
				let Expr::Reference(r) = e else { return };
				if let Expr::Paren(p) = &*r.expr { if let Expr::Unary(u) = &*p.expr { if let Expr::Call(c) = &*u.expr { if crate::tok(&c.func).ends_with("vstr_index") { let n = (*u.expr).clone(); *e = n } } } }
			}
			e => visit_mut::visit_expr_mut(self, e),
		}
	}
}

impl<'a> Lower<'a> {
	/// A call of a closure or helper that itself returns any error at all.
	fn flat_call(&self, e: &Expr) -> bool {
		let Expr::Call(c) = e else { return false };
		let Expr::Path(p) = &*c.func else { return false };
		if let Some(n) = p.path.get_ident() { if let Some(cl) = self.closures.get(&n.to_string()) { return clean::any_error(&cl.output) } }
		let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
		self.db.find_path(&segs, &self.env.self_ty).map_or(false, |f| self.inlinable(f) && clean::any_error(&f.sig.output))
	}
	fn cond(&mut self, e: &mut Expr) {
		match e {
			Expr::Let(l) => {
				self.visit_expr_mut(&mut l.expr);
				let t = self.env.infer(&l.expr);
				self.env.bind(&l.pat, &t);
			}
			Expr::Binary(b) if matches!(b.op, BinOp::And(_)) => { self.cond(&mut b.left); self.cond(&mut b.right) }
			e => self.visit_expr_mut(e),
		}
	}
	fn for_loop(&mut self, e: &mut Expr) {
		let Expr::ForLoop(f) = e else { return };
		self.loops += 1;
		let k = LitInt::new(&self.loops.to_string(), Span::call_site());
		self.visit_expr_mut(&mut f.expr);
		let i = self.fresh("vp_i");
		let n = self.fresh("vp_n");
		let pat = (*f.pat).clone();
		let mut src = (*f.expr).clone();
		while let Expr::Paren(p) = &src { src = (*p.expr).clone() }
		let label = f.label.clone();
		if label.is_some() { self.err("labelled for") }
		let mut body = f.body.clone();
		// ranges
		if let Expr::Range(r) = &src {
			let (Some(a), Some(b), RangeLimits::HalfOpen(_)) = (&r.start, &r.end, &r.limits) else { self.err("for over an unsupported range"); return };
			self.visit_block_mut(&mut body);
			let st = &body.stmts;
			*e = parse_quote!({ let #n = #b; let mut #i = #a; while #i < #n { vp_loop!(#k); let #pat = #i; #i += 1; #(#st)* } });
			return;
		}
		// a container by value
		let taken = match &src { Expr::MethodCall(m) if m.method == "into_iter" && m.args.is_empty() => Some((*m.receiver).clone()), Expr::MethodCall(m) if m.method == "take" && m.args.is_empty() => Some(src.clone()), _ => None };
		if let Some(s) = taken {
			let v = self.fresh("vp_s");
			let mut pat2 = pat.clone();
			let post = desugar::deref_pat(&mut pat2, &mut self.rn);
			self.env.bind(&pat2, &Ty::Unk);
			self.visit_block_mut(&mut body);
			let st = &body.stmts;
			*e = parse_quote!({ let mut #v = #s; while #v.len() > 0 { vp_loop!(#k); let #pat2 = #v.remove(0); #(#post)* #(#st)* } });
			return;
		}
		// slices
		let mut s = src.clone();
		if let Expr::MethodCall(m) = &s { if m.method == "iter" && m.args.is_empty() { s = (*m.receiver).clone() } }
		let v = self.fresh("vp_s");
		let mut pat2 = pat.clone();
		let post = desugar::deref_pat(&mut pat2, &mut self.rn);
		self.env.bind(&pat2, &Ty::Unk);
		self.visit_block_mut(&mut body);
		let st = &body.stmts;
		*e = parse_quote!({ let #v = #s; let mut #i: usize = 0; while #i < #v.len() { vp_loop!(#k); let #pat2 = &#v[#i]; #(#post)* #i += 1; #(#st)* } });
	}
	fn method(&mut self, e: &mut Expr) {
		let Expr::MethodCall(m) = e else { return };
		// an inlinable or known method?
		let mut recv = (*m.receiver).clone();
		if let Expr::Closure(_) = &recv { self.err("method on a closure"); }
		self.visit_expr_mut(&mut recv);
		let Expr::MethodCall(m) = e else { return };
		m.receiver = Box::new(recv.clone());
		let name = m.method.to_string();
		let t = self.env.infer(&recv);
		let args: Vec<Expr> = m.args.iter().cloned().collect();
		if let Some(f) = self.db.find_method(&t, &name) {
			let key = f.key.clone();
			if self.inlinable(f) { *e = self.inline_fn(&key, Some(recv), args); return }
			self.calls.push(key);
		} else if t == Ty::Unk {
			let c: Vec<&FnInfo> = self.db.fns.values().filter(|f| f.name == name && f.self_ty.is_some() && f.local_of.is_none() && f.sig.receiver().is_some()).collect();
			if c.len() == 1 && !desugar::STD_METHODS.contains(&name.as_str()) {
				let key = c[0].key.clone();
				if self.inlinable(c[0]) { *e = self.inline_fn(&key, Some(recv), args); return }
				self.calls.push(key);
			}
		}
		if t == Ty::Named("str".into()) && args.is_empty() {
			if name == "is_empty" { *e = parse_quote!(crate::vp::vstr_is_empty(#recv)); return }
			if name == "len" { *e = parse_quote!(crate::vp::vstr_len(#recv)); return }
		}
		if let Some(n) = desugar::combinator(self, &recv, &t, &name, &args) { *e = n; return }
		let Expr::MethodCall(m) = e else { return };
		for a in m.args.iter_mut() { self.visit_expr_mut(a) }
		let pre = self.lift(&mut m.args);
		if let Some(n) = desugar::rename_method(m, &t, self.db) { *e = n }
		if !pre.is_empty() { *e = parse_quote!({ #(#pre)* #e }) }
	}
	/// `|b| Message(..).serialize(b)`: the message is made before the closure.
	fn lift(&mut self, args: &mut punctuated::Punctuated<Expr, Token![,]>) -> Vec<Stmt> {
		fn find<'e>(e: &'e mut Expr, b: &Ident) -> Option<&'e mut Box<Expr>> {
			match e {
				Expr::Match(m) => find(&mut m.expr, b),
				Expr::Field(f) => find(&mut f.base, b),
				Expr::Paren(f) => find(&mut f.expr, b),
				Expr::MethodCall(m) => {
					let hit = m.method == "serialize" && matches!(m.args.first(), Some(Expr::Path(p)) if p.path.is_ident(b)) && matches!(&*m.receiver, Expr::Call(_) | Expr::Struct(_) | Expr::Paren(_));
					if hit { Some(&mut m.receiver) } else { find(&mut m.receiver, b) }
				}
				_ => None,
			}
		}
		let mut pre = vec![];
		for a in args.iter_mut() {
			let Expr::Closure(c) = a else { continue };
			let Some(Pat::Ident(p)) = c.inputs.first() else { continue };
			let p = p.ident.clone();
			let Expr::Block(bl) = &mut *c.body else { continue };
			if bl.block.stmts.len() != 2 { continue }
			let Stmt::Expr(e, None) = &mut bl.block.stmts[1] else { continue };
			if let Some(r) = find(e, &p) {
				let v = id(&self.rn.fresh("vp_msg"));
				let x = std::mem::replace(&mut **r, parse_quote!(#v));
				pre.push(parse_quote!(let #v = #x;));
			}
		}
		pre
	}
}

