//! Elimination of `?` and `return` from a body that is about to be inlined: the remaining
//! statements move into the success arm of a `match`. Evaluation order is preserved: only the
//! first `?` in evaluation order is hoisted at each step.
use crate::rename::Renamer;
use syn::visit::{self, Visit};
use syn::*;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind { Opt, Res }

struct ExitFinder { found: bool, ret_only: bool }
impl<'a> Visit<'a> for ExitFinder {
	fn visit_expr(&mut self, e: &'a Expr) {
		match e {
			Expr::Try(_) if !self.ret_only => self.found = true,
			Expr::Return(_) => self.found = true,
			Expr::Closure(_) | Expr::Async(_) => {}
			e => visit::visit_expr(self, e),
		}
	}
	fn visit_item(&mut self, _: &'a Item) {}
}
pub fn has_exit(e: &Expr) -> bool { let mut f = ExitFinder { found: false, ret_only: false }; f.visit_expr(e); f.found }
pub fn stmt_has_exit(s: &Stmt) -> bool { let mut f = ExitFinder { found: false, ret_only: false }; f.visit_stmt(s); f.found }
pub fn block_has_exit(b: &Block) -> bool { let mut f = ExitFinder { found: false, ret_only: false }; f.visit_block(b); f.found }

pub fn simple(e: &Expr) -> bool {
	match e {
		Expr::Path(_) | Expr::Lit(_) => true,
		Expr::Field(f) => simple(&f.base),
		Expr::Reference(r) => simple(&r.expr),
		Expr::Paren(p) => simple(&p.expr),
		Expr::Unary(u) => simple(&u.expr),
		_ => false,
	}
}

/// Returns (statements to run first, operand of the hoisted `?`, name of the temporary).
fn hoist(e: &mut Expr, rn: &mut Renamer) -> std::result::Result<Option<(Vec<Stmt>, Expr, Ident)>, String> {
	if !has_exit(e) { return Ok(None) }
	fn seq<'a>(es: Vec<&'a mut Expr>, rn: &mut Renamer, bindable: bool) -> std::result::Result<Option<(Vec<Stmt>, Expr, Ident)>, String> {
		let mut pre: Vec<Stmt> = vec![];
		for e in es {
			if has_exit(e) {
				return Ok(hoist(e, rn)?.map(|(mut p, o, n)| { let mut all = std::mem::take(&mut pre); all.append(&mut p); (all, o, n) }));
			} else if !simple(e) && !matches!(e, Expr::Closure(_)) {
				if !bindable { return Err("cannot reorder a non-simple operand".into()) }
				let t = Ident::new(&rn.fresh("vp_t"), proc_macro2::Span::call_site());
				let old = e.clone();
				pre.push(parse_quote!(let #t = #old;));
				*e = parse_quote!(#t);
			}
		}
		Ok(None)
	}
	match e {
		Expr::Try(t) => {
			if has_exit(&t.expr) { return hoist(&mut t.expr, rn) }
			let n = Ident::new(&rn.fresh("vp_q"), proc_macro2::Span::call_site());
			let op = (*t.expr).clone();
			*e = parse_quote!(#n);
			Ok(Some((vec![], op, n)))
		}
		Expr::Paren(p) => hoist(&mut p.expr, rn),
		Expr::Group(p) => hoist(&mut p.expr, rn),
		Expr::Reference(p) => hoist(&mut p.expr, rn),
		Expr::Unary(p) => hoist(&mut p.expr, rn),
		Expr::Cast(p) => hoist(&mut p.expr, rn),
		Expr::Field(p) => hoist(&mut p.base, rn),
		Expr::MethodCall(m) => {
			if has_exit(&m.receiver) { return hoist(&mut m.receiver, rn) }
			if !simple(&m.receiver) { return Err("`?` in the arguments of a method on a non-simple receiver".into()) }
			seq(m.args.iter_mut().collect(), rn, true)
		}
		Expr::Call(c) => seq(c.args.iter_mut().collect(), rn, true),
		Expr::Tuple(c) => seq(c.elems.iter_mut().collect(), rn, true),
		Expr::Array(c) => seq(c.elems.iter_mut().collect(), rn, true),
		Expr::Struct(s) => seq(s.fields.iter_mut().map(|f| &mut f.expr).collect(), rn, true),
		Expr::Binary(b) => {
			if matches!(b.op, BinOp::And(_) | BinOp::Or(_)) && has_exit(&b.right) { return Err("`?` under a short-circuit operator".into()) }
			seq(vec![&mut b.left, &mut b.right], rn, true)
		}
		Expr::Index(b) => seq(vec![&mut b.expr, &mut b.index], rn, false),
		Expr::Assign(a) => {
			if has_exit(&a.right) { hoist(&mut a.right, rn) } else if simple(&a.right) { hoist(&mut a.left, rn) } else { Err("assignment order".into()) }
		}
		Expr::If(i) if has_exit(&i.cond) => hoist(&mut i.cond, rn),
		Expr::Match(m) if has_exit(&m.expr) => hoist(&mut m.expr, rn),
		_ => Err("`?` in an unsupported position".into()),
	}
}

fn wrap(pre: Vec<Stmt>, op: Expr, n: Ident, kind: Kind, rest: Vec<Stmt>) -> Vec<Stmt> {
	let m: Expr = match kind {
		Kind::Opt => parse_quote!(match #op { Some(#n) => { #(#rest)* } None => None }),
		Kind::Res => parse_quote!(match #op { Ok(#n) => { #(#rest)* } Err(vp_e) => Err(vp_e) }),
	};
	let mut out = pre;
	out.push(Stmt::Expr(m, None));
	out
}

fn into_block(stmts: Vec<Stmt>) -> Block { Block { brace_token: Default::default(), stmts } }

pub fn tail_stmts(stmts: &[Stmt], kind: Kind, rn: &mut Renamer, fuel: usize) -> std::result::Result<Vec<Stmt>, String> {
	if fuel == 0 { return Err("inlining fuel exhausted".into()) }
	let mut out = vec![];
	for (i, s) in stmts.iter().enumerate() {
		if !stmt_has_exit(s) { out.push(s.clone()); continue }
		let rest = &stmts[i + 1..];
		match s {
			Stmt::Local(l) => {
				let init = l.init.as_ref().ok_or("let without init")?;
				if let Some((_, d)) = &init.diverge {
					let (p, e) = (&l.pat, &init.expr);
					let rs = tail_stmts(rest, kind, rn, fuel - 1)?;
					let ds = tail_expr(d, kind, rn, fuel - 1)?;
					out.push(Stmt::Expr(parse_quote!(match #e { #p => { #(#rs)* } _ => { #(#ds)* } }), None));
					return Ok(out);
				}
				// let x = match .. { A => a, B => return r };
				if let Expr::Match(m) = &*init.expr {
					if !has_exit(&m.expr) {
						let mut m = m.clone();
						for a in &mut m.arms {
							let mut ss: Vec<Stmt> = vec![];
							if let Expr::Return(_) = &*a.body { ss.push(Stmt::Expr((*a.body).clone(), Some(Default::default()))) }
							else {
								let (p, b) = (&l.pat, &a.body);
								ss.push(parse_quote!(let #p = #b;));
								ss.extend(rest.iter().cloned());
							}
							let ss = tail_stmts(&ss, kind, rn, fuel - 1)?;
							a.body = Box::new(parse_quote!({ #(#ss)* }));
						}
						out.push(Stmt::Expr(Expr::Match(m), None));
						return Ok(out);
					}
				}
				let mut l2 = l.clone();
				let e = &mut l2.init.as_mut().unwrap().expr;
				let (pre, op, n) = hoist(e, rn)?.ok_or("hoist")?;
				let mut all = vec![Stmt::Local(l2)];
				all.extend(rest.iter().cloned());
				let rs = tail_stmts(&all, kind, rn, fuel - 1)?;
				out.extend(wrap(pre, op, n, kind, rs));
				return Ok(out);
			}
			Stmt::Expr(e, semi) => {
				let is_tail = rest.is_empty() && semi.is_none();
				if let Expr::Return(r) = e {
					let v = r.expr.as_ref().ok_or("bare return")?;
					out.extend(tail_expr(v, kind, rn, fuel - 1)?);
					return Ok(out);
				}
				if is_tail { out.extend(tail_expr(e, kind, rn, fuel - 1)?); return Ok(out) }
				match e {
					Expr::If(f) if !has_exit(&f.cond) => {
						let mut a = f.then_branch.stmts.clone();
						fix_unit(&mut a);
						a.extend(rest.iter().cloned());
						let a = tail_stmts(&a, kind, rn, fuel - 1)?;
						let mut b: Vec<Stmt> = vec![];
						if let Some((_, el)) = &f.else_branch {
							match &**el { Expr::Block(bl) => b.extend(bl.block.stmts.clone()), o => b.push(Stmt::Expr(o.clone(), Some(Default::default()))) }
							fix_unit(&mut b);
						}
						b.extend(rest.iter().cloned());
						let b = tail_stmts(&b, kind, rn, fuel - 1)?;
						let c = &f.cond;
						out.push(Stmt::Expr(parse_quote!(if #c { #(#a)* } else { #(#b)* }), None));
						return Ok(out);
					}
					Expr::Match(m) if !has_exit(&m.expr) => {
						let mut m = m.clone();
						for a in &mut m.arms {
							let mut ss = match &*a.body { Expr::Block(b) => b.block.stmts.clone(), o => vec![Stmt::Expr(o.clone(), Some(Default::default()))] };
							fix_unit(&mut ss);
							ss.extend(rest.iter().cloned());
							let ss = tail_stmts(&ss, kind, rn, fuel - 1)?;
							a.body = Box::new(parse_quote!({ #(#ss)* }));
						}
						out.push(Stmt::Expr(Expr::Match(m), None));
						return Ok(out);
					}
					Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_) => return Err("early exit inside a loop of an inlined body".into()),
					_ => {
						let mut e2 = e.clone();
						let (pre, op, n) = hoist(&mut e2, rn)?.ok_or("hoist")?;
						let mut all = vec![];
						// a bare `x?;` leaves just the temporary: drop it
						if !matches!(&e2, Expr::Path(_)) { all.push(Stmt::Expr(e2, Some(Default::default()))) }
						all.extend(rest.iter().cloned());
						let rs = tail_stmts(&all, kind, rn, fuel - 1)?;
						out.extend(wrap(pre, op, n, kind, rs));
						return Ok(out);
					}
				}
			}
			_ => return Err("early exit in a macro".into()),
		}
	}
	Ok(out)
}

fn fix_unit(ss: &mut Vec<Stmt>) {
	if let Some(Stmt::Expr(_, semi)) = ss.last_mut() {
		if semi.is_none() { *semi = Some(Default::default()) }
	}
}

pub fn tail_expr(e: &Expr, kind: Kind, rn: &mut Renamer, fuel: usize) -> std::result::Result<Vec<Stmt>, String> {
	if fuel == 0 { return Err("inlining fuel exhausted".into()) }
	if !has_exit(e) { return Ok(vec![Stmt::Expr(e.clone(), None)]) }
	match e {
		Expr::Return(r) => tail_expr(r.expr.as_ref().ok_or("bare return")?, kind, rn, fuel - 1),
		Expr::Block(b) => tail_stmts(&b.block.stmts, kind, rn, fuel - 1),
		Expr::Paren(p) => tail_expr(&p.expr, kind, rn, fuel - 1),
		Expr::If(f) if !has_exit(&f.cond) => {
			let a = tail_stmts(&f.then_branch.stmts, kind, rn, fuel - 1)?;
			let (_, el) = f.else_branch.as_ref().ok_or("if without else in tail position")?;
			let b = tail_expr(el, kind, rn, fuel - 1)?;
			let c = &f.cond;
			Ok(vec![Stmt::Expr(parse_quote!(if #c { #(#a)* } else { #(#b)* }), None)])
		}
		Expr::Match(m) if !has_exit(&m.expr) => {
			let mut m = m.clone();
			for a in &mut m.arms {
				let ss = tail_expr(&a.body, kind, rn, fuel - 1)?;
				a.body = Box::new(parse_quote!({ #(#ss)* }));
			}
			Ok(vec![Stmt::Expr(Expr::Match(m), None)])
		}
		_ => {
			let mut e2 = e.clone();
			let (pre, op, n) = hoist(&mut e2, rn)?.ok_or("hoist")?;
			let rs = tail_expr(&e2, kind, rn, fuel - 1)?;
			Ok(wrap(pre, op, n, kind, rs))
		}
	}
}

pub fn tail_block(b: &Block, kind: Kind, rn: &mut Renamer) -> std::result::Result<Block, String> {
	if !block_has_exit(b) { return Ok(b.clone()) }
	Ok(into_block(tail_stmts(&b.stmts, kind, rn, 60)?))
}
