//! Mechanical extraction of functions of the repository into Verus input.
//!
//! Input: a JSON configuration naming the crates (one expanded source file, or a source tree)
//! and the functions that carry contracts. Output: JSON with every type and function, the
//! function bodies rewritten by the semantics-preserving passes described in DESIGN.md.
mod clean;
mod desugar;
mod inline;
mod mono;
mod rename;
mod tail;
mod ty;

use quote::ToTokens;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap, HashSet};
use syn::visit_mut::VisitMut;
use syn::*;
use ty::Ty;

pub struct FnInfo {
	pub key: String,
	pub module: Vec<String>,
	pub name: String,
	pub self_ty: Option<String>,
	pub self_type: Option<Type>,
	pub impl_generics: Generics,
	pub trait_: Option<(String, Path)>,
	pub assoc: Vec<(String, Type)>,
	pub sig: Signature,
	pub block: Option<Block>,
	pub local_of: Option<String>,
	pub scope: HashMap<String, String>,
}

#[derive(Default)]
pub struct Db {
	pub fns: BTreeMap<String, FnInfo>,
	pub fields: HashMap<(String, String), Ty>,
	pub types: HashSet<String>,
	pub modules: HashSet<String>,
	pub items: HashMap<(String, String), ()>,
	pub aliases: HashMap<(String, String), String>,
	pub consts: HashMap<String, Expr>,
	pub contracted: HashSet<String>,
	pub world: HashMap<String, HashSet<String>>,
	pub ext: HashSet<String>,
	pub roots: HashSet<String>,
	pub type_alias: HashMap<String, Type>,
	pub assoc_opaque: bool,
}

impl Db {
	pub fn is_type(&self, s: &str) -> bool { self.types.iter().any(|t| t == s || t.ends_with(&format!("::{}", s))) }
	pub fn ret_of(&self, f: &FnInfo) -> Ty {
		match &f.sig.output {
			ReturnType::Default => Ty::Tup(vec![]),
			ReturnType::Type(_, t) => {
				let mut t = (**t).clone();
				Qualify { db: self, module: &f.module, scope: &f.scope }.visit_type_mut(&mut t);
				ty::from_type(&t, f.self_ty.as_deref().unwrap_or(""))
			}
		}
	}
	pub fn find_path(&self, segs: &[String], self_ty: &str) -> Option<&FnInfo> {
		let mut p = segs.join("::");
		if let Some(r) = p.strip_prefix("Self::") { p = format!("{}::{}", self_ty, r) }
		let p = p.strip_prefix("crate::").unwrap_or(&p).to_string();
		self.fns.get(&p)
	}
	pub fn ret_of_path(&self, segs: &[String], self_ty: &str) -> Ty {
		if let Some(f) = self.find_path(segs, self_ty) { return self.ret_of(f) }
		// a tuple struct or an enum variant used as a function
		let p = segs.join("::");
		let p2 = p.strip_prefix("crate::").unwrap_or(&p);
		if self.types.contains(p2) { return Ty::Named(format!("crate::{}", p2)) }
		if let Some((t, _)) = p2.rsplit_once("::") { if self.types.contains(t) && segs.last().unwrap().starts_with(|c: char| c.is_uppercase()) { return Ty::Named(format!("crate::{}", t)) } }
		Ty::Unk
	}
	pub fn find_method(&self, r: &Ty, name: &str) -> Option<&FnInfo> {
		if let Ty::Named(n) = r {
			let n = n.strip_prefix("crate::").unwrap_or(n);
			if let Some(f) = self.fns.get(&format!("{}::{}", n, name)) { return Some(f) }
			return self.fns.values().find(|f| f.name == name && f.self_ty.as_deref() == Some(&format!("crate::{}", n)));
		}
		None
	}
	pub fn ret_of_method(&self, r: &Ty, name: &str) -> Ty { self.find_method(r, name).map_or(Ty::Unk, |f| self.ret_of(f)) }

	/// Resolves a path to absolute segments (`crate::...`), or None if it is not ours.
	pub fn resolve(&self, module: &[String], segs: &[String]) -> Option<Vec<String>> {
		let mut module: Vec<String> = module.to_vec();
		let mut rest = segs.to_vec();
		for _ in 0..50 {
			if rest.is_empty() { break }
			match rest[0].as_str() {
				"crate" => { module.truncate(1); rest.remove(0); }
				"self" => { rest.remove(0); }
				"super" => { module.pop(); rest.remove(0); }
				_ => break,
			}
		}
		self.walk(module, rest, true)
	}
	fn walk(&self, mut module: Vec<String>, mut rest: Vec<String>, mut first: bool) -> Option<Vec<String>> {
		for _ in 0..100 {
			if rest.is_empty() { let mut v = vec!["crate".to_string()]; v.extend(module); return Some(v) }
			let m = module.join("::");
			let s = rest[0].clone();
			if let Some(a) = self.aliases.get(&(m.clone(), s.clone())) {
				let mut segs: Vec<String> = a.split("::").map(|x| x.to_string()).collect();
				segs.extend(rest.drain(1..));
				if segs[0] == "crate" || segs[0] == "super" || segs[0] == "self" { return self.resolve(&module, &segs) }
				if segs[0] != s || self.modules.contains(&format!("{}::{}", m, s)) || self.items.contains_key(&(m.clone(), segs[0].clone())) {
					// relative or external
					if self.modules.contains(&format!("{}::{}", m, segs[0])) || self.items.contains_key(&(m.clone(), segs[0].clone())) || self.aliases.contains_key(&(m.clone(), segs[0].clone())) {
						rest = segs; first = true; continue;
					}
				}
				return self.external(&segs);
			}
			if self.modules.contains(&format!("{}::{}", m, s)) { module.push(s); rest.remove(0); first = false; continue }
			if self.items.contains_key(&(m.clone(), s.clone())) {
				let mut v = vec!["crate".to_string()]; v.extend(module); v.extend(rest); return Some(v)
			}
			if first { return self.external(&rest) }
			return None;
		}
		None
	}
	fn external(&self, segs: &[String]) -> Option<Vec<String>> {
		if self.roots.contains(&segs[0]) { return self.walk(vec![segs[0].clone()], segs[1..].to_vec(), false) }
		if self.ext.contains(&segs[0]) { let mut v = vec!["crate".into(), "ext".into()]; v.extend(segs.iter().cloned()); return Some(v) }
		if matches!(segs[0].as_str(), "core" | "std" | "alloc") { return Some(segs.to_vec()) }
		None
	}
}

/// Makes paths absolute (types, patterns, expressions with more than one segment).
pub struct Qualify<'a> { pub db: &'a Db, pub module: &'a [String], pub scope: &'a HashMap<String, String> }
impl<'a> Qualify<'a> {
	pub fn path(&self, p: &mut Path) {
		if p.leading_colon.is_some() { p.leading_colon = None; return }
		let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
		if segs[0] == "Self" || (segs[0] == "self" && segs.len() == 1) { return }
		let mut all = segs.clone();
		if let Some(t) = self.scope.get(&segs[0]) {
			let mut v: Vec<String> = t.split("::").map(|x| x.to_string()).collect();
			v.extend(all.drain(1..));
			if v[0] == "vp_local" { replace_prefix(p, &v); return }
			all = v;
		}
		if segs.len() == 1 && all.len() == 1 && matches!(segs[0].as_str(), "Some" | "None" | "Ok" | "Err" | "Option" | "Result" | "u8" | "u16" | "u32" | "u64" | "usize" | "bool" | "str" | "Vec" | "Box" | "self") {
			if self.db.resolve(self.module, &all).map_or(true, |r| r[0] != "crate") { return }
		}
		if let Some(r) = self.db.resolve(self.module, &all) { if r != segs { replace_prefix(p, &r) } }
		else if all != segs { replace_prefix(p, &all) }
	}
}
fn replace_prefix(p: &mut Path, to: &[String]) {
	// keep generic arguments of the last segments: align from the end
	let old: Vec<PathSegment> = p.segments.iter().cloned().collect();
	let mut new: Vec<PathSegment> = vec![];
	for (i, t) in to.iter().enumerate() {
		let from_end = to.len() - 1 - i;
		let mut seg = PathSegment::from(Ident::new(t, proc_macro2::Span::call_site()));
		if from_end < old.len() { seg.arguments = old[old.len() - 1 - from_end].arguments.clone() }
		new.push(seg);
	}
	p.segments = new.into_iter().collect();
}
impl<'a> VisitMut for Qualify<'a> {
	fn visit_path_mut(&mut self, p: &mut Path) { visit_mut::visit_path_mut(self, p); self.path(p) }
	fn visit_expr_path_mut(&mut self, p: &mut ExprPath) { qself_path(self, &mut p.qself, &mut p.path) }
	fn visit_type_path_mut(&mut self, p: &mut TypePath) { qself_path(self, &mut p.qself, &mut p.path) }
}
/// `<T>::f` has no trait path to resolve; only T and the generic arguments are visited.
pub fn qself_path<V: VisitMut>(v: &mut V, q: &mut Option<QSelf>, p: &mut Path) {
	match q {
		None => v.visit_path_mut(p),
		Some(q) => { v.visit_type_mut(&mut q.ty); visit_mut::visit_path_mut(v, p) }
	}
}

fn attr_is(a: &Attribute, n: &str) -> bool { a.path().is_ident(n) }
fn is_test_cfg(attrs: &[Attribute]) -> bool { attrs.iter().any(|a| attr_is(a, "cfg") && a.meta.to_token_stream().to_string().contains("test")) || attrs.iter().any(|a| attr_is(a, "test")) }

pub struct TypeItem { pub module: Vec<String>, pub name: String, pub text_kind: &'static str, pub generics: Generics, pub item: Item, pub copy: bool }

struct Loader<'a> { db: &'a mut Db, types: Vec<TypeItem>, copies: HashSet<String>, raw_consts: Vec<(Vec<String>, Option<String>, String, Expr)>, traits: Vec<(Vec<String>, ItemTrait)>, errors: Vec<String>, views: HashMap<(String, String), ItemStruct> }

fn strip_lt(s: &str) -> String {
	// remove lifetimes and spaces from a type's token text
	let mut out = String::new();
	let cs: Vec<char> = s.chars().collect();
	let mut i = 0;
	while i < cs.len() {
		if cs[i] == '\'' { i += 1; while i < cs.len() && (cs[i].is_alphanumeric() || cs[i] == '_') { i += 1 } continue }
		if cs[i] == ' ' {
			// keep one space between identifiers (dyn X, mut x)
			if let (Some(l), Some(n)) = (out.chars().last(), cs.get(i + 1)) { if (l.is_alphanumeric() || l == '_') && (n.is_alphanumeric() || *n == '_') { out.push(' ') } }
			i += 1; continue
		}
		out.push(cs[i]); i += 1;
	}
	out.replace("<>", "").replace("<,", "<").replace(",>", ">").replace("::core::", "")
}

fn use_tree(t: &UseTree, prefix: Vec<String>, out: &mut Vec<(String, String)>) {
	match t {
		UseTree::Path(p) => { let mut v = prefix; v.push(p.ident.to_string()); use_tree(&p.tree, v, out) }
		UseTree::Name(n) => {
			let n = n.ident.to_string();
			if n == "self" { out.push((prefix.last().unwrap().clone(), prefix.join("::"))) }
			else { let mut v = prefix; v.push(n.clone()); out.push((n, v.join("::"))) }
		}
		UseTree::Rename(r) => {
			let mut v = prefix;
			if r.ident != "self" { v.push(r.ident.to_string()) }
			out.push((r.rename.to_string(), v.join("::")))
		}
		UseTree::Group(g) => for t in &g.items { use_tree(t, prefix.clone(), out) },
		UseTree::Glob(_) => {}
	}
}
pub fn flatten_use(u: &ItemUse) -> Vec<(String, String)> { let mut o = vec![]; use_tree(&u.tree, vec![], &mut o); o }

impl<'a> Loader<'a> {
	/// Pass 1: names.
	fn names(&mut self, m: &[String], items: &[Item], dir: Option<&std::path::Path>, loaded: &mut Vec<(Vec<String>, Vec<Item>)>) {
		let mk = m.join("::");
		self.db.modules.insert(mk.clone());
		for it in items {
			match it {
				Item::Struct(s) if !is_test_cfg(&s.attrs) => { self.db.items.insert((mk.clone(), s.ident.to_string()), ()); self.db.types.insert(format!("{}::{}", mk, s.ident)); }
				Item::Enum(s) => { self.db.items.insert((mk.clone(), s.ident.to_string()), ()); self.db.types.insert(format!("{}::{}", mk, s.ident)); }
				Item::Trait(s) => { self.db.items.insert((mk.clone(), s.ident.to_string()), ()); }
				Item::Type(s) => { self.db.items.insert((mk.clone(), s.ident.to_string()), ()); self.db.type_alias.insert(format!("{}::{}", mk, s.ident), (*s.ty).clone()); }
				Item::Fn(s) if !is_test_cfg(&s.attrs) => { self.db.items.insert((mk.clone(), s.sig.ident.to_string()), ()); }
				Item::Const(s) => { self.db.items.insert((mk.clone(), s.ident.to_string()), ()); }
				Item::Static(s) => { self.db.items.insert((mk.clone(), s.ident.to_string()), ()); }
				Item::Use(u) => for (n, p) in flatten_use(u) { if n != "_" { self.db.aliases.insert((mk.clone(), n), p); } },
				Item::Mod(md) if !is_test_cfg(&md.attrs) => {
					let mut m2 = m.to_vec(); m2.push(md.ident.to_string());
					if let Some((_, its)) = &md.content { self.names(&m2, its, dir.map(|d| d.join(md.ident.to_string())).as_deref(), loaded) }
					else if let Some(d) = dir {
						let a = d.join(format!("{}.rs", md.ident)); let b = d.join(md.ident.to_string()).join("mod.rs");
						let f = if a.exists() { a } else { b };
						match std::fs::read_to_string(&f).map_err(|e| e.to_string()).and_then(|s| parse_file(&s).map_err(|e| e.to_string())) {
							Ok(file) => self.names(&m2, &file.items, Some(&d.join(md.ident.to_string())), loaded),
							Err(e) => self.errors.push(format!("{}: {}", f.display(), e)),
						}
					}
				}
				_ => {}
			}
		}
		loaded.push((m.to_vec(), items.to_vec()));
	}
	/// Pass 2: items.
	fn items(&mut self, m: &[String], items: &[Item]) {
		let mk = m.join("::");
		for it in items {
			match it {
				Item::Struct(s) if !is_test_cfg(&s.attrs) => {
					let mut s = s.clone();
					self.clean_type(m, &mut s.generics, &mut s.attrs);
					for f in s.fields.iter_mut() { f.attrs.clear(); f.vis = parse_quote!(pub); Qualify { db: self.db, module: m, scope: &HashMap::new() }.visit_type_mut(&mut f.ty) }
					s.vis = parse_quote!(pub);
					let full = format!("crate::{}::{}", mk, s.ident);
					let mut fv = self.views.get(&(mk.clone(), s.ident.to_string())).map_or(s.fields.clone(), |v| v.fields.clone());
					for f in fv.iter_mut() { Qualify { db: self.db, module: m, scope: &HashMap::new() }.visit_type_mut(&mut f.ty) }
					for (i, f) in fv.iter().enumerate() {
						let n = f.ident.as_ref().map_or(i.to_string(), |x| x.to_string());
						self.db.fields.insert((full.clone(), n), ty::from_type(&f.ty, &full));
					}
					self.types.push(TypeItem { module: m.to_vec(), name: s.ident.to_string(), text_kind: "struct", generics: s.generics.clone(), item: Item::Struct(s), copy: false });
				}
				Item::Enum(s) => {
					let mut s = s.clone();
					self.clean_type(m, &mut s.generics, &mut s.attrs);
					for v in s.variants.iter_mut() { v.attrs.clear(); for f in v.fields.iter_mut() { f.attrs.clear(); Qualify { db: self.db, module: m, scope: &HashMap::new() }.visit_type_mut(&mut f.ty) } }
					s.vis = parse_quote!(pub);
					let full = format!("crate::{}::{}", mk, s.ident);
					for v in &s.variants { for (i, f) in v.fields.iter().enumerate() {
						let n = f.ident.as_ref().map_or(i.to_string(), |x| x.to_string());
						self.db.fields.insert((format!("{}::{}", full, v.ident), n), ty::from_type(&f.ty, &full));
					} }
					self.types.push(TypeItem { module: m.to_vec(), name: s.ident.to_string(), text_kind: "enum", generics: s.generics.clone(), item: Item::Enum(s), copy: false });
				}
				Item::Const(c) => self.raw_consts.push((m.to_vec(), None, c.ident.to_string(), (*c.expr).clone())),
				Item::Trait(t) => {
					let full = format!("crate::{}::{}", mk, t.ident);
					for ti in &t.items { if let TraitItem::Fn(f) = ti {
						let key = format!("{}::{}::{}", mk, t.ident, f.sig.ident);
						self.db.fns.insert(key.clone(), FnInfo { key, module: m.to_vec(), name: f.sig.ident.to_string(), self_ty: Some(full.clone()), self_type: None, impl_generics: t.generics.clone(), trait_: None, assoc: vec![], sig: f.sig.clone(), block: None, local_of: None, scope: HashMap::new() });
					} }
					self.traits.push((m.to_vec(), t.clone()));
				}
				Item::Fn(f) if !is_test_cfg(&f.attrs) => {
					let key = format!("{}::{}", mk, f.sig.ident);
					self.db.fns.insert(key.clone(), FnInfo { key, module: m.to_vec(), name: f.sig.ident.to_string(), self_ty: None, self_type: None, impl_generics: Generics::default(), trait_: None, assoc: vec![], sig: f.sig.clone(), block: Some((*f.block).clone()), local_of: None, scope: HashMap::new() });
				}
				Item::Impl(im) => self.impl_(m, im),
				_ => {}
			}
		}
	}
	fn clean_type(&self, m: &[String], g: &mut Generics, attrs: &mut Vec<Attribute>) {
		attrs.clear();
		let e = HashMap::new();
		let mut q = Qualify { db: self.db, module: m, scope: &e };
		q.visit_generics_mut(g);
		drop_where(g);
	}
	fn impl_(&mut self, m: &[String], im: &ItemImpl) {
		let e = HashMap::new();
		let mut st = (*im.self_ty).clone();
		Qualify { db: self.db, module: m, scope: &e }.visit_type_mut(&mut st);
		let self_name = match &st { Type::Path(p) => Some(p.path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::")), _ => None };
		if let Some((_, tp, _)) = &im.trait_ {
			let tn = tp.segments.last().unwrap().ident.to_string();
			if tn == "Copy" { if let Some(n) = &self_name { self.copies.insert(n.clone()); } return }
			if im.attrs.iter().any(|a| attr_is(a, "automatically_derived")) {
				if tn != "Default" { return }
			}
			if matches!(tn.as_str(), "Clone" | "Debug" | "Display" | "TrivialClone" | "StructuralPartialEq") { return }
		}
		let mut g = im.generics.clone();
		Qualify { db: self.db, module: m, scope: &e }.visit_generics_mut(&mut g);
		drop_where(&mut g);
		let tr = im.trait_.as_ref().map(|(_, p, _)| {
			let mut p = p.clone();
			let text = strip_lt(&p.to_token_stream().to_string());
			Qualify { db: self.db, module: m, scope: &e }.visit_path_mut(&mut p);
			(text, p)
		});
		let mut assoc = vec![];
		for it in &im.items { if let ImplItem::Type(t) = it {
			let mut ty = t.ty.clone();
			Qualify { db: self.db, module: m, scope: &e }.visit_type_mut(&mut ty);
			assoc.push((t.ident.to_string(), ty));
		} }
		for it in &im.items {
			match it {
				ImplItem::Const(c) => if let Some(n) = &self_name { self.raw_consts.push((m.to_vec(), Some(n.clone()), c.ident.to_string(), c.expr.clone())) },
				ImplItem::Fn(f) if !is_test_cfg(&f.attrs) => {
					let name = f.sig.ident.to_string();
					let key = match (&tr, &self_name) {
						(None, Some(n)) => format!("{}::{}", n.strip_prefix("crate::").unwrap_or(n), name),
						(Some((t, _)), _) => format!("{}::<{} as {}>::{}", m.join("::"), strip_lt(&im.self_ty.to_token_stream().to_string()), t, name),
						_ => continue,
					};
					self.db.fns.insert(key.clone(), FnInfo { key, module: m.to_vec(), name, self_ty: self_name.clone(), self_type: Some(st.clone()), impl_generics: g.clone(), trait_: tr.clone(), assoc: assoc.clone(), sig: f.sig.clone(), block: Some(f.block.clone()), local_of: None, scope: HashMap::new() });
				}
				_ => {}
			}
		}
	}
}

fn drop_where(g: &mut Generics) {
	if let Some(w) = &mut g.where_clause {
		let keep: Vec<WherePredicate> = w.predicates.iter().filter(|p| { let s = p.to_token_stream().to_string(); !s.contains("Scalar") && !s.contains("SignatureSize") && !s.contains("UInt") && !s.starts_with("Self") }).cloned().collect();
		w.predicates = keep.into_iter().collect();
		if w.predicates.is_empty() { g.where_clause = None }
	}
}

pub fn tok<T: ToTokens>(t: &T) -> String { t.to_token_stream().to_string() }

fn main() {
	let cfg: Value = serde_json::from_str(&std::fs::read_to_string(std::env::args().nth(1).expect("config")).unwrap()).unwrap();
	let mut db = Db::default();
	for s in cfg["ext"].as_array().unwrap() { db.ext.insert(s.as_str().unwrap().into()); }
	for s in cfg["contracted"].as_array().unwrap() { db.contracted.insert(s.as_str().unwrap().into()); }
	if let Some(o) = cfg["world"].as_object() { for (k, v) in o { db.world.insert(k.clone(), v.as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect()); } }
	for c in cfg["crates"].as_array().unwrap() { db.roots.insert(c["name"].as_str().unwrap().into()); }
	let mut ld = Loader { db: &mut db, types: vec![], copies: HashSet::new(), raw_consts: vec![], traits: vec![], errors: vec![], views: HashMap::new() };
	let mut loaded = vec![];
	for c in cfg["crates"].as_array().unwrap() {
		let f = c["file"].as_str().unwrap();
		let src = std::fs::read_to_string(f).unwrap();
		match parse_file(&src) {
			Ok(file) => {
				let dir = c["tree"].as_bool().unwrap_or(false).then(|| std::path::Path::new(f).parent().unwrap().to_path_buf());
				ld.names(&[c["name"].as_str().unwrap().to_string()], &file.items, dir.as_deref(), &mut loaded)
			}
			Err(e) => ld.errors.push(format!("{}: {}", f, e)),
		}
	}
	let mp = |k: &str| -> HashMap<String, String> { cfg[k].as_object().map_or(HashMap::new(), |o| o.iter().map(|(a, b)| (a.clone(), b.as_str().unwrap().to_string())).collect()) };
	let mc = mono::Cfg { by_trait: mp("inst"), by_assoc: mp("inst_assoc") };
	let mono_crates: HashSet<String> = cfg["crates"].as_array().unwrap().iter().filter(|c| c["tree"].as_bool().unwrap_or(false)).map(|c| c["name"].as_str().unwrap().to_string()).collect();
	for (m, its) in loaded.iter_mut() { if mono_crates.contains(&m[0]) {
		let views: Vec<Item> = its.iter().map(|i| mono::field_view(i, &mc)).collect();
		mono::run(its, &mc);
		for (it, v) in its.iter().zip(views) { if let (Item::Struct(_), Item::Struct(v)) = (it, v) { ld.views.insert((m.join("::"), v.ident.to_string()), v); } }
	} }
	for (m, its) in &loaded { ld.items(m, its) }
	let Loader { types, copies, raw_consts, traits, errors, .. } = ld;
	// constants
	for (m, st, n, e) in &raw_consts {
		let mut e = e.clone();
		let sc = HashMap::new();
		Qualify { db: &db, module: m, scope: &sc }.visit_expr_mut(&mut e);
		if let Some(s) = st { clean::SelfTo(s.clone()).visit_expr_mut(&mut e) }
		let key = match st { Some(s) => format!("{}::{}", s, n), None => format!("crate::{}::{}", m.join("::"), n) };
		db.consts.insert(key, e);
	}
	clean::fold_consts(&mut db);
	let mut types = types;
	types.extend(clean::hoist_local_items(&mut db));

	let mut out_types = vec![];
	for t in &types {
		let full = format!("crate::{}::{}", t.module.join("::"), t.name);
		let mut item = t.item.clone();
		clean::ConstInliner { db: &db }.visit_item_mut(&mut item);
		let fields: Vec<Value> = match &item {
			Item::Struct(s) => s.fields.iter().enumerate().map(|(i, f)| json!({"name": f.ident.as_ref().map_or(i.to_string(), |x| x.to_string()), "ty": strip_lt(&tok(&f.ty))})).collect(),
			_ => vec![],
		};
		let variants: Vec<Value> = match &item {
			Item::Enum(s) => s.variants.iter().map(|v| json!({"name": v.ident.to_string(), "fields": v.fields.iter().enumerate().map(|(i, f)| json!({"name": f.ident.as_ref().map_or(i.to_string(), |x| x.to_string()), "ty": strip_lt(&tok(&f.ty))})).collect::<Vec<_>>()})).collect(),
			_ => vec![],
		};
		out_types.push(json!({"module": t.module.join("::"), "name": t.name, "kind": t.text_kind, "generics": tok(&t.generics.params), "text": tok(&item), "copy": t.copy || copies.contains(&full), "fields": fields, "variants": variants}));
	}
	let mut out_fns = vec![];
	let keys: Vec<String> = db.fns.keys().cloned().collect();
	for k in &keys {
		let f = &db.fns[k];
		if f.local_of.is_some() || f.block.is_none() { continue }
		out_fns.push(process(&db, f));
	}
	let mut out_traits = vec![];
	for (m, t) in &traits {
		let mut t = t.clone();
		let e = HashMap::new();
		Qualify { db: &db, module: m, scope: &e }.visit_item_trait_mut(&mut t);
		let fns: Vec<Value> = t.items.iter().filter_map(|i| if let TraitItem::Fn(f) = i {
			let mut sig = f.sig.clone(); sig.asyncness = None;
			Some(json!({"name": sig.ident.to_string(), "sig": sig_json(&sig)}))
		} else { None }).collect();
		out_traits.push(json!({"module": m.join("::"), "name": t.ident.to_string(), "fns": fns}));
	}
	let consts: BTreeMap<String, String> = db.consts.iter().map(|(k, v)| (k.clone(), tok(v))).collect();
	println!("{}", serde_json::to_string_pretty(&json!({"types": out_types, "fns": out_fns, "traits": out_traits, "consts": consts, "errors": errors})).unwrap());
}

fn sig_json(sig: &Signature) -> Value {
	let params: Vec<Value> = sig.inputs.iter().map(|a| match a {
		FnArg::Receiver(r) => json!({"name": "self", "ty": "", "text": tok(r), "mut": r.mutability.is_some() && r.reference.is_some(), "by_val": r.reference.is_none()}),
		FnArg::Typed(t) => json!({"name": tok(&t.pat), "ty": tok(&t.ty), "text": tok(t), "mut": matches!(&*t.ty, Type::Reference(r) if r.mutability.is_some())}),
	}).collect();
	let ret = match &sig.output { ReturnType::Default => "()".to_string(), ReturnType::Type(_, t) => tok(t) };
	json!({"generics": tok(&sig.generics.params), "where": sig.generics.where_clause.as_ref().map_or(String::new(), |w| tok(w)), "params": params, "ret": ret})
}

fn process(db: &Db, f: &FnInfo) -> Value {
	let mut notes: Vec<String> = vec![];
	let mut sig = f.sig.clone();
	sig.asyncness = None;
	let sc = f.scope.clone();
	{
		let mut q = Qualify { db, module: &f.module, scope: &sc };
		q.visit_signature_mut(&mut sig);
	}
	let mut g = sig.generics.clone();
	drop_where(&mut g);
	sig.generics = g;
	clean::ConstInliner { db }.visit_signature_mut(&mut sig);
	let mut ok = true;
	let mut body = String::new();
	let mut loops = 0;
	let mut closures = 0;
	let mut locals: Vec<String> = vec![];
	let mut calls: Vec<String> = vec![];
	let mut inlined: Vec<String> = vec![];
	let low = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| inline::lower(db, f, &mut sig))).unwrap_or_else(|_| Err("the extractor cannot read this function".into()));
	match low {
		Ok(mut l) => {
			if let Some(w) = db.world.get(&f.key) { clean::World { names: w }.visit_block_mut(&mut l.block) }
			loops = l.loops;
			closures = l.closures;
			locals = l.locals;
			calls = l.calls;
			inlined = l.inlined;
			notes.extend(l.notes);
			body = tok(&l.block);
		}
		Err(e) => { ok = false; notes.push(e) }
	}
	json!({
		"key": f.key, "module": f.module.join("::"), "name": f.name,
		"self_ty": f.self_ty, "self_type": f.self_type.as_ref().map(|t| tok(t)),
		"impl_generics": tok(&f.impl_generics.params), "impl_where": f.impl_generics.where_clause.as_ref().map_or(String::new(), |w| tok(w)),
		"trait": f.trait_.as_ref().map(|(t, p)| json!({"key": t, "path": tok(p)})),
		"assoc": f.assoc.iter().map(|(n, t)| json!([n, tok(t)])).collect::<Vec<_>>(),
		"sig": sig_json(&sig), "ok": ok, "body": body, "loops": loops, "closures": closures, "locals": locals, "calls": calls, "inlined": inlined, "notes": notes,
	})
}
