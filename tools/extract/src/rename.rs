//! Alpha-renaming: every local binding of a function gets a unique name (the first binding of a
//! name keeps it), so that closures and helpers can be beta-reduced without capture.
use std::collections::HashMap;
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Renamer<'a> {
	pub db: &'a crate::Db,
	pub used: HashMap<String, usize>,
	pub order: Vec<String>,
	scopes: Vec<HashMap<String, String>>,
	/// module and function-level scope used to make free paths absolute; None: leave them.
	pub q: Option<(Vec<String>, HashMap<String, String>)>,
}

pub fn is_binding_ident(name: &str) -> bool {
	name.chars().next().map_or(false, |c| c.is_lowercase() || c == '_')
}

impl<'a> Renamer<'a> {
	pub fn new(db: &'a crate::Db) -> Self { Self { db, used: HashMap::new(), order: vec![], scopes: vec![], q: None } }
	fn qual(&self, p: &mut Path) {
		if let Some((m, s)) = &self.q { crate::Qualify { db: self.db, module: m, scope: s }.path(p) }
	}
	/// Runs `f` with an empty set of visible locals and the given resolution scope.
	pub fn isolated<R>(&mut self, q: Option<(Vec<String>, HashMap<String, String>)>, f: impl FnOnce(&mut Self) -> R) -> R {
		let sc = std::mem::take(&mut self.scopes);
		let oq = std::mem::replace(&mut self.q, q);
		self.push();
		let r = f(self);
		self.scopes = sc;
		self.q = oq;
		r
	}
	pub fn fresh(&mut self, base: &str) -> String {
		let base = base.split("__").next().unwrap().to_string();
		let n = self.used.entry(base.clone()).or_insert(0);
		*n += 1;
		if *n == 1 { base } else { format!("{}__{}", base, n) }
	}
	pub fn push(&mut self) { self.scopes.push(HashMap::new()) }
	pub fn pop(&mut self) { self.scopes.pop(); }
	fn bind(&mut self, name: &str) -> String {
		let f = self.fresh(name);
		self.order.push(f.clone());
		self.scopes.last_mut().unwrap().insert(name.to_string(), f.clone());
		f
	}
	/// Binds a name to a given replacement.
	pub fn bind_as(&mut self, name: &str, to: &str) {
		*self.used.entry(to.to_string()).or_insert(0) += 1;
		self.scopes.last_mut().unwrap().insert(name.to_string(), to.to_string());
	}
	fn lookup(&self, name: &str) -> Option<String> {
		self.scopes.iter().rev().find_map(|s| s.get(name).cloned())
	}
	pub fn bind_pat(&mut self, p: &mut Pat) {
		// or-patterns must bind the same names: bind first alternative, reuse for others.
		match p {
			Pat::Ident(i) => {
				let n = i.ident.to_string();
				if i.subpat.is_some() || is_binding_ident(&n) {
					let f = self.bind(&n);
					i.ident = Ident::new(&f, i.ident.span());
				} else if n != "None" {
					let mut pth = Path::from(i.ident.clone());
					self.qual(&mut pth);
					if pth.segments.len() > 1 { *p = Pat::Path(ExprPath { attrs: vec![], qself: None, path: pth }); return }
				}
				let Pat::Ident(i) = p else { return };
				if let Some((_, sp)) = &mut i.subpat { self.bind_pat(sp) }
			}
			Pat::Or(o) => {
				let mut it = o.cases.iter_mut();
				if let Some(first) = it.next() {
					self.bind_pat(first);
					for c in it { self.reuse_pat(c) }
				}
			}
			Pat::Paren(p) => self.bind_pat(&mut p.pat),
			Pat::Reference(r) => self.bind_pat(&mut r.pat),
			Pat::Slice(s) => s.elems.iter_mut().for_each(|e| self.bind_pat(e)),
			Pat::Tuple(s) => s.elems.iter_mut().for_each(|e| self.bind_pat(e)),
			Pat::TupleStruct(s) => { self.qual(&mut s.path); s.elems.iter_mut().for_each(|e| self.bind_pat(e)) }
			Pat::Path(s) => self.qual(&mut s.path),
			Pat::Type(t) => { self.bind_pat(&mut t.pat); self.visit_type_mut(&mut t.ty) }
			Pat::Struct(s) => {
				self.qual(&mut s.path);
				for f in s.fields.iter_mut() {
					if f.colon_token.is_none() { f.colon_token = Some(Default::default()); }
					self.bind_pat(&mut f.pat);
				}
			}
			_ => {}
		}
	}
	fn reuse_pat(&mut self, p: &mut Pat) {
		match p {
			Pat::Ident(i) => {
				if let Some(n) = self.lookup(&i.ident.to_string()) { i.ident = Ident::new(&n, i.ident.span()) }
			}
			Pat::Paren(p) => self.reuse_pat(&mut p.pat),
			Pat::Reference(r) => self.reuse_pat(&mut r.pat),
			Pat::Slice(s) => s.elems.iter_mut().for_each(|e| self.reuse_pat(e)),
			Pat::Tuple(s) => s.elems.iter_mut().for_each(|e| self.reuse_pat(e)),
			Pat::TupleStruct(s) => { self.qual(&mut s.path); s.elems.iter_mut().for_each(|e| self.reuse_pat(e)) }
			Pat::Path(s) => self.qual(&mut s.path),
			Pat::Struct(s) => for f in s.fields.iter_mut() {
				f.colon_token = Some(Default::default());
				self.reuse_pat(&mut f.pat)
			},
			_ => {}
		}
	}
	fn cond(&mut self, e: &mut Expr) {
		match e {
			Expr::Let(l) => {
				self.visit_expr_mut(&mut l.expr);
				self.bind_pat(&mut l.pat);
			}
			Expr::Binary(b) if matches!(b.op, BinOp::And(_)) => {
				self.cond(&mut b.left);
				self.cond(&mut b.right);
			}
			e => self.visit_expr_mut(e),
		}
	}
	pub fn block(&mut self, b: &mut Block) {
		self.push();
		for s in &mut b.stmts { self.stmt(s) }
		self.pop();
	}
	pub fn stmt(&mut self, s: &mut Stmt) {
		match s {
			Stmt::Local(l) => {
				if let Some(init) = &mut l.init {
					self.visit_expr_mut(&mut init.expr);
					if let Some((_, d)) = &mut init.diverge { self.visit_expr_mut(d) }
				}
				self.bind_pat(&mut l.pat);
			}
			Stmt::Item(_) => {}
			Stmt::Expr(e, _) => self.visit_expr_mut(e),
			Stmt::Macro(_) => {}
		}
	}
}

impl<'a> VisitMut for Renamer<'a> {
	fn visit_path_mut(&mut self, p: &mut Path) {
		visit_mut::visit_path_mut(self, p);
		self.qual(p);
	}
	fn visit_expr_path_mut(&mut self, p: &mut ExprPath) { crate::qself_path(self, &mut p.qself, &mut p.path) }
	fn visit_type_path_mut(&mut self, p: &mut TypePath) { crate::qself_path(self, &mut p.qself, &mut p.path) }
	fn visit_block_mut(&mut self, b: &mut Block) { self.block(b) }
	fn visit_expr_mut(&mut self, e: &mut Expr) {
		match e {
			Expr::Path(p) if p.qself.is_none() && p.path.segments.len() == 1 => {
				let id = &p.path.segments[0].ident;
				if let Some(n) = self.lookup(&id.to_string()) {
					p.path.segments[0].ident = Ident::new(&n, id.span());
				} else { self.qual(&mut p.path) }
			}
			Expr::Struct(s) => {
				self.visit_path_mut(&mut s.path);
				for f in s.fields.iter_mut() {
					if f.colon_token.is_none() { f.colon_token = Some(Default::default()); }
					self.visit_expr_mut(&mut f.expr);
				}
				if let Some(r) = &mut s.rest { self.visit_expr_mut(r) }
			}
			Expr::If(i) => {
				self.push();
				self.cond(&mut i.cond);
				self.block(&mut i.then_branch);
				self.pop();
				if let Some((_, e)) = &mut i.else_branch { self.visit_expr_mut(e) }
			}
			Expr::While(w) => {
				self.push();
				self.cond(&mut w.cond);
				self.block(&mut w.body);
				self.pop();
			}
			Expr::ForLoop(f) => {
				self.visit_expr_mut(&mut f.expr);
				self.push();
				self.bind_pat(&mut f.pat);
				self.block(&mut f.body);
				self.pop();
			}
			Expr::Match(m) => {
				self.visit_expr_mut(&mut m.expr);
				for a in &mut m.arms {
					self.push();
					self.bind_pat(&mut a.pat);
					if let Some((_, g)) = &mut a.guard { self.cond(g) }
					self.visit_expr_mut(&mut a.body);
					self.pop();
				}
			}
			Expr::Closure(c) => {
				self.push();
				for p in c.inputs.iter_mut() { self.bind_pat(p) }
				self.visit_expr_mut(&mut c.body);
				self.pop();
			}
			Expr::Macro(_) => {}
			e => visit_mut::visit_expr_mut(self, e),
		}
	}
}
