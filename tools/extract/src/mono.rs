//! Instantiation of type parameters that have a single implementation in the repository
//! (`D: Cipher`, `C: SignKey`, `Handlers::Crypt`, `Handlers::Sign`), and removal of auto-trait and
//! lifetime bounds.
use quote::ToTokens;
use std::collections::{HashMap, HashSet};
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Cfg { pub by_trait: HashMap<String, String>, pub by_assoc: HashMap<String, String> }

fn bound_name(b: &TypeParamBound) -> Option<String> {
	match b { TypeParamBound::Trait(t) => t.path.segments.last().map(|s| s.ident.to_string()), _ => None }
}
fn drop_bounds(b: &mut punctuated::Punctuated<TypeParamBound, Token![+]>, also: &HashSet<String>) {
	let keep: Vec<TypeParamBound> = b.iter().filter(|x| match bound_name(x) { None => false, Some(n) => !matches!(n.as_str(), "Unpin" | "Send" | "Sync" | "Sized") && !also.contains(&n) }).cloned().collect();
	*b = keep.into_iter().collect();
}

/// Type parameters to instantiate.
fn params(g: &Generics, c: &Cfg) -> HashMap<String, String> {
	let mut m = HashMap::new();
	for p in g.type_params() {
		let n = p.ident.to_string();
		for b in &p.bounds { if let Some(t) = bound_name(b).and_then(|x| c.by_trait.get(&x).cloned()) { m.insert(n.clone(), t); } }
	}
	if let Some(w) = &g.where_clause { for p in &w.predicates { if let WherePredicate::Type(t) = p {
		let n = t.bounded_ty.to_token_stream().to_string();
		if g.type_params().any(|q| q.ident == n) { for b in &t.bounds { if let Some(x) = bound_name(b).and_then(|x| c.by_trait.get(&x).cloned()) { m.insert(n.clone(), x); } } }
	} } }
	m
}
fn clean(g: &mut Generics, gone: &HashMap<String, String>, remove: bool, c: &Cfg) {
	let also: HashSet<String> = c.by_trait.keys().cloned().collect();
	if remove {
		let keep: Vec<GenericParam> = g.params.iter().filter(|p| !matches!(p, GenericParam::Type(t) if gone.contains_key(&t.ident.to_string()))).cloned().collect();
		g.params = keep.into_iter().collect();
	}
	for p in g.params.iter_mut() {
		if let GenericParam::Type(t) = p { drop_bounds(&mut t.bounds, &also); if t.bounds.is_empty() { t.colon_token = None } }
	}
	if let Some(w) = &mut g.where_clause {
		let mut keep: Vec<WherePredicate> = vec![];
		for p in w.predicates.iter() {
			let mut p = p.clone();
			if let WherePredicate::Type(t) = &mut p {
				if gone.contains_key(&t.bounded_ty.to_token_stream().to_string()) { continue }
				drop_bounds(&mut t.bounds, &also);
				if t.bounds.is_empty() { continue }
			}
			keep.push(p);
		}
		w.predicates = keep.into_iter().collect();
		if w.predicates.is_empty() { g.where_clause = None }
	}
}

struct Sub<'a> { m: HashMap<String, String>, c: &'a Cfg }
impl<'a> VisitMut for Sub<'a> {
	fn visit_path_mut(&mut self, p: &mut Path) {
		visit_mut::visit_path_mut(self, p);
		let f = p.segments[0].ident.to_string();
		let (n, t) = match self.m.get(&f) {
			Some(t) => (1, t.clone()),
			None if p.segments.len() >= 2 && (f == "Handlers" || f == "Self") => match self.c.by_assoc.get(&p.segments[1].ident.to_string()) { Some(t) => (2, t.clone()), None => return },
			None => return,
		};
		let base: Path = parse_str(&t).unwrap();
		let mut segs: Vec<PathSegment> = base.segments.into_iter().collect();
		segs.extend(p.segments.iter().skip(n).cloned());
		p.segments = segs.into_iter().collect();
	}
	fn visit_signature_mut(&mut self, s: &mut Signature) {
		let g = params(&s.generics, self.c);
		clean(&mut s.generics, &g, true, self.c);
		visit_mut::visit_signature_mut(self, s);
	}
}

/// Field types of a type declaration as seen after instantiation.
pub fn field_view(it: &Item, c: &Cfg) -> Item {
	let mut it = it.clone();
	let m = match &it { Item::Struct(s) => params(&s.generics, c), Item::Enum(s) => params(&s.generics, c), _ => HashMap::new() };
	Sub { m, c }.visit_item_mut(&mut it);
	it
}

pub fn run(items: &mut Vec<Item>, c: &Cfg) {
	for it in items.iter_mut() {
		match it {
			Item::Struct(s) => { let g = params(&s.generics, c); clean(&mut s.generics, &g, false, c); Sub { m: HashMap::new(), c }.visit_item_struct_mut(s) }
			Item::Enum(s) => { let g = params(&s.generics, c); clean(&mut s.generics, &g, false, c); Sub { m: HashMap::new(), c }.visit_item_enum_mut(s) }
			Item::Impl(i) => { let m = params(&i.generics, c); clean(&mut i.generics, &m, true, c); Sub { m, c }.visit_item_impl_mut(i) }
			Item::Fn(f) => { let m = params(&f.sig.generics, c); clean(&mut f.sig.generics, &m, true, c); Sub { m, c }.visit_item_fn_mut(f) }
			_ => {}
		}
	}
}
