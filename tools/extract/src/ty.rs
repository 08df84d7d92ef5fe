//! A deliberately small type inference: just enough to tell Option from Result.
use crate::Db;
use std::collections::HashMap;
use syn::*;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
	Unk,
	Opt(Box<Ty>),
	Res(Box<Ty>),
	Tup(Vec<Ty>),
	Named(String),
	Vec(Box<Ty>),
	Bytes,
	Never,
}

pub fn from_type(t: &Type, self_ty: &str) -> Ty {
	match t {
		Type::Reference(r) => from_type(&r.elem, self_ty),
		Type::Paren(p) => from_type(&p.elem, self_ty),
		Type::Group(p) => from_type(&p.elem, self_ty),
		Type::Tuple(t) => Ty::Tup(t.elems.iter().map(|e| from_type(e, self_ty)).collect()),
		Type::Slice(_) | Type::Array(_) => Ty::Bytes,
		Type::Never(_) => Ty::Never,
		Type::Path(p) => {
			let s = p.path.segments.last().unwrap();
			let full = p.path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::");
			let arg = |i: usize| match &s.arguments {
				PathArguments::AngleBracketed(a) => a
					.args
					.iter()
					.filter_map(|a| if let GenericArgument::Type(t) = a { Some(from_type(t, self_ty)) } else { None })
					.nth(i)
					.unwrap_or(Ty::Unk),
				_ => Ty::Unk,
			};
			match s.ident.to_string().as_str() {
				"Option" => Ty::Opt(Box::new(arg(0))),
				"Result" => Ty::Res(Box::new(arg(0))),
				"Vec" => Ty::Vec(Box::new(arg(0))),
				"Self" => Ty::Named(self_ty.to_string()),
				_ => Ty::Named(full),
			}
		}
		_ => Ty::Unk,
	}
}

pub struct Env<'a> {
	pub db: &'a Db,
	pub self_ty: String,
	pub vars: HashMap<String, Ty>,
}

impl<'a> Env<'a> {
	pub fn bind(&mut self, p: &Pat, t: &Ty) {
		match (p, t) {
			(Pat::Ident(i), t) => { self.vars.insert(i.ident.to_string(), t.clone()); }
			(Pat::Type(pt), t) => {
				let t2 = from_type(&pt.ty, &self.self_ty);
				let t = if t2 == Ty::Unk { t.clone() } else { t2 };
				self.bind(&pt.pat, &t)
			}
			(Pat::Reference(r), t) => self.bind(&r.pat, t),
			(Pat::Paren(r), t) => self.bind(&r.pat, t),
			(Pat::Tuple(tp), Ty::Tup(ts)) if tp.elems.len() == ts.len() => {
				for (p, t) in tp.elems.iter().zip(ts) { self.bind(p, t) }
			}
			(Pat::TupleStruct(ts), _) if ts.path.segments.len() > 1 => {
				let n = ts.path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::");
				for (i, p) in ts.elems.iter().enumerate() {
					let t = self.db.fields.get(&(n.clone(), i.to_string())).cloned().unwrap_or(Ty::Unk);
					self.bind(p, &t);
				}
			}
			(Pat::Struct(ts), _) => {
				let n = ts.path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::");
				for f in ts.fields.iter() {
					let m = match &f.member { Member::Named(i) => i.to_string(), Member::Unnamed(i) => i.index.to_string() };
					let t = self.db.fields.get(&(n.clone(), m)).cloned().unwrap_or(Ty::Unk);
					self.bind(&f.pat, &t);
				}
			}
			(Pat::TupleStruct(ts), t) if ts.elems.len() == 1 => {
				let n = ts.path.segments.last().unwrap().ident.to_string();
				match (n.as_str(), t) {
					("Some", Ty::Opt(t)) => self.bind(&ts.elems[0], t),
					("Ok", Ty::Res(t)) => self.bind(&ts.elems[0], t),
					_ => {}
				}
			}
			_ => {}
		}
	}
	pub fn infer(&mut self, e: &Expr) -> Ty {
		match e {
			Expr::Paren(p) => self.infer(&p.expr),
			Expr::Group(p) => self.infer(&p.expr),
			Expr::Reference(r) => self.infer(&r.expr),
			Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => self.infer(&u.expr),
			Expr::Await(a) => self.infer(&a.base),
			Expr::Block(b) => self.infer_block(&b.block),
			Expr::Unsafe(b) => self.infer_block(&b.block),
			Expr::Return(_) | Expr::Break(_) | Expr::Continue(_) => Ty::Never,
			Expr::Tuple(t) => Ty::Tup(t.elems.iter().map(|e| self.infer(e)).collect()),
			Expr::Path(p) if p.path.segments.len() == 1 => {
				let n = p.path.segments[0].ident.to_string();
				if n == "None" { return Ty::Opt(Box::new(Ty::Unk)) }
				if n == "self" { return Ty::Named(self.self_ty.clone()) }
				self.vars.get(&n).cloned().unwrap_or(Ty::Unk)
			}
			Expr::Try(t) => match self.infer(&t.expr) {
				Ty::Opt(t) | Ty::Res(t) => *t,
				_ => Ty::Unk,
			},
			Expr::Struct(s) => {
				let n = s.path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::");
				let n2 = n.strip_prefix("crate::").unwrap_or(&n).to_string();
				if n == "Self" { return Ty::Named(self.self_ty.clone()) }
				if !self.db.types.contains(&n2) { if let Some((t, _)) = n.rsplit_once("::") { return Ty::Named(t.to_string()) } }
				Ty::Named(n)
			}
			Expr::Field(f) => {
				let b = self.infer(&f.base);
				if let Ty::Named(n) = b {
					let m = match &f.member { Member::Named(i) => i.to_string(), Member::Unnamed(i) => i.index.to_string() };
					return self.db.fields.get(&(n, m)).cloned().unwrap_or(Ty::Unk);
				}
				if let (Ty::Tup(ts), Member::Unnamed(i)) = (&b, &f.member) {
					return ts.get(i.index as usize).cloned().unwrap_or(Ty::Unk);
				}
				// an unknown struct: every struct with a field of this name agrees that it is an Option
				if let (Ty::Unk, Member::Named(i)) = (&b, &f.member) {
					let m = i.to_string();
					let mut it = self.db.fields.iter().filter(|((_, k), _)| *k == m).map(|(_, t)| t);
					if let Some(t) = it.next() { if matches!(t, Ty::Opt(_)) && it.all(|u| matches!(u, Ty::Opt(_))) { return Ty::Opt(Box::new(Ty::Unk)) } }
				}
				Ty::Unk
			}
			Expr::If(i) => {
				let a = self.infer_block(&i.then_branch);
				match (&a, &i.else_branch) {
					(Ty::Unk | Ty::Never, Some((_, e))) => self.infer(e),
					_ => a,
				}
			}
			Expr::Match(m) => {
				let st = self.infer(&m.expr);
				let mut best = Ty::Unk;
				for a in &m.arms {
					self.bind(&a.pat, &st);
					let t = self.infer(&a.body);
					let better = match (&best, &t) {
						(_, Ty::Never) => false,
						(Ty::Unk, _) => true,
						(Ty::Opt(x), Ty::Opt(y)) | (Ty::Res(x), Ty::Res(y)) => **x == Ty::Unk && **y != Ty::Unk,
						_ => false,
					};
					if better { best = t }
				}
				best
			}
			Expr::Call(c) => {
				if let Expr::Path(p) = &*c.func {
					let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
					let last = segs.last().unwrap().as_str();
					match last {
						"Some" => return Ty::Opt(Box::new(c.args.first().map_or(Ty::Unk, |a| self.infer(a)))),
						"Ok" => return Ty::Res(Box::new(c.args.first().map_or(Ty::Unk, |a| self.infer(a)))),
						"take" | "vtake" if c.args.len() == 1 => return self.infer(&c.args[0]),
						"vstr_index" => return Ty::Named("str".into()),
						"Err" => return Ty::Res(Box::new(Ty::Unk)),
						"try_from" | "vtry_from" | "from_utf8" => {
							if segs.len() >= 2 {
								return Ty::Res(Box::new(Ty::Named(segs[..segs.len() - 1].join("::"))));
							}
							return Ty::Res(Box::new(Ty::Unk));
						}
						_ => {}
					}
					return self.db.ret_of_path(&segs, &self.self_ty);
				}
				Ty::Unk
			}
			Expr::MethodCall(m) => {
				let r = self.infer(&m.receiver);
				let name = m.method.to_string();
				let payload = match &r { Ty::Opt(t) | Ty::Res(t) => (**t).clone(), _ => Ty::Unk };
				let pay = payload.clone();
				let closure_ty = |i: usize, p: &Ty, env: &mut Self| -> Ty {
					match m.args.iter().nth(i) {
						Some(Expr::Closure(c)) => {
							if let Some(pat) = c.inputs.first() { env.bind(pat, p) }
							env.infer(&c.body)
						}
						Some(Expr::Path(p)) => {
							let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
							if segs.len() == 2 && segs[0] == "Option" && matches!(segs[1].as_str(), "take" | "as_mut" | "as_ref") { return pay.clone() }
							env.db.ret_of_path(&segs, &env.self_ty)
						}
						_ => Ty::Unk,
					}
				};
				match name.as_str() {
					"get" | "get_mut" if matches!(r, Ty::Vec(_)) => match (&r, m.args.first()) { (Ty::Vec(t), Some(a)) if !matches!(a, Expr::Range(_)) => Ty::Opt(t.clone()), _ => Ty::Opt(Box::new(Ty::Bytes)) },
					"get" | "get_mut" if matches!(r, Ty::Bytes | Ty::Unk) => Ty::Opt(Box::new(Ty::Unk)),
					"strip_prefix" | "strip_suffix" | "vstrip_prefix" | "vstrip_suffix" if matches!(m.args.first(), Some(Expr::Lit(ExprLit { lit: Lit::Str(_) | Lit::Char(_), .. }))) => Ty::Opt(Box::new(Ty::Named("str".into()))),
					"first" | "last" | "first_mut" | "last_mut" | "position" | "find" | "next"
					| "checked_add" | "checked_sub" | "checked_mul" | "strip_prefix" | "pop" => Ty::Opt(Box::new(Ty::Unk)),
					"split_first" | "split_first_mut" => Ty::Opt(Box::new(Ty::Tup(vec![Ty::Unk, Ty::Bytes]))),
					"split_at" | "split_at_mut" => Ty::Tup(vec![Ty::Bytes, Ty::Bytes]),
					"as_slice" | "as_mut_slice" | "as_bytes" => Ty::Bytes,
					"then" | "then_some" => { let t = if name == "then" { closure_ty(0, &Ty::Unk, self) } else { Ty::Unk }; Ty::Opt(Box::new(t)) }
					"ok_or" | "ok_or_else" | "map_err" => Ty::Res(Box::new(payload)),
					"ok" => Ty::Opt(Box::new(payload)),
					"map" => { let t = closure_ty(0, &payload, self); match r { Ty::Opt(_) => Ty::Opt(Box::new(t)), Ty::Res(_) => Ty::Res(Box::new(t)), _ => Ty::Unk } }
					"and_then" => { let t = closure_ty(0, &payload, self); match (t, r) { (Ty::Unk, r) => r, (t, _) => t } }
					"filter" | "as_mut" | "as_ref" | "take" | "copied" | "cloned" if matches!(r, Ty::Opt(_)) => r,
					"flatten" => payload,
					"try_into" | "vtry_into" => Ty::Res(Box::new(Ty::Unk)),
					"parse" if m.turbofish.is_some() => Ty::Res(Box::new(Ty::Unk)),
					"unwrap" | "expect" | "unwrap_or" | "unwrap_or_else" | "unwrap_or_default" => payload,
					"read_exact" | "write_all" | "write" | "read" | "flush" => Ty::Res(Box::new(Ty::Unk)),
					_ => self.db.ret_of_method(&r, &name),
				}
			}
			_ => Ty::Unk,
		}
	}
	pub fn infer_block(&mut self, b: &Block) -> Ty {
		for s in &b.stmts {
			if let Stmt::Local(l) = s {
				if let Some(i) = &l.init {
					let t = self.infer(&i.expr);
					self.bind(&l.pat, &t);
				}
			}
		}
		match b.stmts.last() {
			Some(Stmt::Expr(e, None)) => self.infer(e),
			Some(Stmt::Expr(Expr::Return(_) | Expr::Break(_), _)) => Ty::Never,
			_ => Ty::Tup(vec![]),
		}
	}
}
