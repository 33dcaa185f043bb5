//! Name and type mapping, derived-trait checks, callee keys.
use crate::load::*;
use crate::rewrite::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use syn::visit_mut::VisitMut;
use syn::*;

pub struct TypeInfo {
    pub module: Vec<String>,
    pub derives: BTreeSet<String>,
    pub item: Item,
}

pub struct Ctx {
    pub modules: Vec<Module>,
    /// names declared or imported explicitly in a module
    pub names: HashMap<String, HashSet<String>>,
    pub top: HashSet<String>,
    pub externs: Vec<(String, String)>,
    pub statics: HashMap<String, String>,
    pub fn_err: RefCell<String>,
    pub types: HashMap<String, TypeInfo>,
    pub effects: RefCell<BTreeSet<String>>,
    /// types with state behind a lock
    pub state: BTreeSet<String>,
    pub unmapped: RefCell<BTreeSet<String>>,
    /// imported names without a counterpart in the verified crate
    pub dropped: RefCell<HashMap<String, HashSet<String>>>,
}

pub const STD_CRATES: &[&str] = &["std", "core", "alloc"];
pub const EXT_CRATES: &[&str] = &[
    "serde", "serde_json", "tokio", "k256", "rand_chacha", "base64", "axum", "reqwest", "easy_upnp", "flate2", "brotli", "aes_gcm", "chacha20poly1305", "lazy_static", "thiserror",
    "async_trait", "tracing", "ecdsa", "signature", "hkdf", "aead", "elliptic_curve", "rand_core", "generic_array", "digest",
];

/// rustc's definition path without the generic arguments of its segments
pub fn norm(d: &str) -> String {
    let cs: Vec<char> = d.chars().collect();
    let mut out = String::new();
    let mut i = 0;
    while i < cs.len() {
        if cs[i] == ':' && i + 2 < cs.len() && cs[i + 1] == ':' && cs[i + 2] == '<' && !d[byte(&cs, i + 2)..].starts_with("<impl ") {
            let mut depth = 0;
            let mut j = i + 2;
            while j < cs.len() {
                if cs[j] == '<' {
                    depth += 1;
                }
                if cs[j] == '>' && cs[j - 1] != '-' {
                    depth -= 1;
                    if depth == 0 {
                        break;
                    }
                }
                j += 1;
            }
            i = j + 1;
            continue;
        }
        out.push(cs[i]);
        i += 1;
    }
    out
}
fn byte(cs: &[char], n: usize) -> usize {
    cs[..n].iter().map(|c| c.len_utf8()).sum()
}

/// `<X as Trait>::m` with rustc's paths -> (X, Trait, m)
pub fn split_inst(i: &str) -> Option<(String, String, String)> {
    let r = i.strip_prefix('<')?;
    let mut depth = 0i32;
    let cs: Vec<(usize, char)> = r.char_indices().collect();
    let mut as_at = None;
    let mut end = None;
    for &(k, c) in &cs {
        match c {
            '<' | '(' | '[' => depth += 1,
            '>' if k > 0 && r.as_bytes()[k - 1] == b'-' => {}
            '>' | ')' | ']' => {
                depth -= 1;
                if depth < 0 {
                    end = Some(k);
                    break;
                }
            }
            ' ' if depth == 0 && r[k..].starts_with(" as ") && as_at.is_none() => as_at = Some(k),
            _ => {}
        }
    }
    let (a, e) = (as_at?, end?);
    let m = r[e + 1..].strip_prefix("::")?;
    Some((r[..a].to_string(), r[a + 4..e].to_string(), norm(m)))
}

impl Ctx {
    pub fn extern_path(&self, p: &str) -> Option<String> {
        let mut best: Option<(&String, &String)> = None;
        for (k, v) in &self.externs {
            if p == k || p.starts_with(&format!("{k}::")) {
                if best.map(|b| b.0.len() < k.len()).unwrap_or(true) {
                    best = Some((k, v));
                }
            }
        }
        best.map(|(k, v)| match v.strip_suffix('!') {
            Some(v) if k.len() < p.len() => format!("{v}{}", &p[k.len()..]),
            _ => format!("{v}{}", &p[k.len()..]),
        })
    }

    pub fn map_path(&self, p: &Path, module: &[String], self_err: Option<&Type>) -> R<Path> {
        let mut p = p.clone();
        // a counterpart marked with `!` has no generic arguments
        let full: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        if let Some(m) = self.extern_path(&full.join("::")) {
            if let Some(m) = m.strip_suffix('!') {
                return parse_str(m).map_err(|e| format!("{m}: {e}"));
            }
        }
        for s in p.segments.iter_mut() {
            if let PathArguments::AngleBracketed(a) = &mut s.arguments {
                let mut out = punctuated::Punctuated::new();
                for g in a.args.iter() {
                    match g {
                        GenericArgument::Type(t) => out.push(GenericArgument::Type(self.map_type(t, module, self_err)?)),
                        GenericArgument::Lifetime(l) if l.ident == "_" => {}
                        g => out.push(g.clone()),
                    }
                }
                if out.is_empty() {
                    s.arguments = PathArguments::None;
                } else {
                    a.args = out;
                }
            }
        }
        let first = p.segments[0].ident.to_string();
        if matches!(first.as_str(), "crate" | "self" | "super" | "Self") {
            return Ok(p);
        }
        if self.dropped.borrow().get(&module.join("::")).map(|d| d.contains(&first)).unwrap_or(false) {
            return Err(format!("{first} has no counterpart"));
        }
        let locals = self.names.get(&module.join("::"));
        if p.leading_colon.is_none() && locals.map(|l| l.contains(&first)).unwrap_or(false) {
            return Ok(p);
        }
        let is_ext = STD_CRATES.contains(&first.as_str()) || EXT_CRATES.contains(&first.as_str());
        if !is_ext {
            return Ok(p);
        }
        let idents: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        let full = idents.join("::");
        let Some(m) = self.extern_path(&full) else {
            self.unmapped.borrow_mut().insert(full.clone());
            return Err(format!("no contract for {full}"));
        };
        // keep generic arguments from the end
        let mut q: Path = parse_str(&m).map_err(|e| format!("{m}: {e}"))?;
        let (n, k) = (q.segments.len(), p.segments.len());
        for d in 0..k.min(n) {
            let a = p.segments[k - 1 - d].arguments.clone();
            if !a.is_none() {
                q.segments[n - 1 - d].arguments = a;
            }
        }
        Ok(q)
    }

    pub fn map_type(&self, t: &Type, module: &[String], self_err: Option<&Type>) -> R<Type> {
        struct V<'a> {
            cx: &'a Ctx,
            module: &'a [String],
            self_err: Option<&'a Type>,
            err: Option<String>,
        }
        impl<'a> VisitMut for V<'a> {
            fn visit_type_mut(&mut self, t: &mut Type) {
                if self.err.is_some() {
                    return;
                }
                match t {
                    Type::Path(p) if p.qself.is_none() => {
                        let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                        if segs == ["Self", "Err"] {
                            if let Some(e) = self.self_err {
                                *t = e.clone();
                                return;
                            }
                        }
                        if segs.last().map(|s| s == "Box").unwrap_or(false) {
                            if let PathArguments::AngleBracketed(a) = &p.path.segments.last().unwrap().arguments {
                                let inner = match a.args.first() {
                                    Some(GenericArgument::Type(Type::Paren(p))) => Some((*p.elem).clone()),
                                    Some(GenericArgument::Type(t)) => Some(t.clone()),
                                    _ => None,
                                };
                                if let Some(Type::TraitObject(_)) = inner {
                                    *t = parse_quote!(crate::ext::BoxErr);
                                    return;
                                }
                            }
                        }
                        match self.cx.map_path(&p.path, self.module, self.self_err) {
                            Ok(q) => p.path = q,
                            Err(e) => self.err = Some(e),
                        }
                    }
                    Type::ImplTrait(i) => match self.cx.map_bounds(&i.bounds, self.module, self.self_err) {
                        Ok(b) if !b.is_empty() => i.bounds = b,
                        Ok(_) => self.err = Some("impl type without a known bound".into()),
                        Err(e) => self.err = Some(e),
                    },
                    Type::Reference(r) => {
                        if let Some(l) = &r.lifetime {
                            if l.ident == "_" {
                                r.lifetime = None;
                            }
                        }
                        self.visit_type_mut(&mut r.elem);
                    }
                    Type::Array(a) => self.visit_type_mut(&mut a.elem),
                    Type::Tuple(_) | Type::Slice(_) | Type::Paren(_) | Type::Group(_) => visit_mut::visit_type_mut(self, t),
                    Type::Infer(_) | Type::Never(_) => {}
                    Type::Path(_) => visit_mut::visit_type_mut(self, t),
                    _ => self.err = Some("unsupported type".into()),
                }
            }
        }
        let mut t = t.clone();
        let mut v = V { cx: self, module, self_err, err: None };
        v.visit_type_mut(&mut t);
        match v.err {
            Some(e) => Err(e),
            None => Ok(t),
        }
    }

    pub fn map_bounds(&self, b: &punctuated::Punctuated<TypeParamBound, Token![+]>, module: &[String], self_err: Option<&Type>) -> R<punctuated::Punctuated<TypeParamBound, Token![+]>> {
        let mut out = punctuated::Punctuated::new();
        for x in b {
            let TypeParamBound::Trait(t) = x else { continue };
            if matches!(t.modifier, TraitBoundModifier::Maybe(_)) {
                continue;
            }
            let last = t.path.segments.last().unwrap();
            let n = last.ident.to_string();
            let arg = match &last.arguments {
                PathArguments::AngleBracketed(a) => match a.args.first() {
                    Some(GenericArgument::Type(t)) => Some(t.clone()),
                    _ => None,
                },
                _ => None,
            };
            let q: Option<Path> = match n.as_str() {
                "Send" | "Sync" | "Clone" | "Sized" | "Debug" | "PartialEq" | "Eq" | "Hash" | "Copy" | "Unpin" | "Default" => None,
                "AsRef" => match arg {
                    Some(Type::Path(p)) if p.path.is_ident("str") => Some(parse_quote!(crate::ext::VxStr)),
                    Some(Type::Slice(_)) => Some(parse_quote!(crate::ext::VxBytes)),
                    _ => return Err("AsRef bound".into()),
                },
                "ToString" | "Display" => Some(parse_quote!(crate::ext::VxDisplay)),
                "Error" if t.path.segments.first().unwrap().ident == "std" => Some(parse_quote!(crate::ext::VxDisplay)),
                "Into" => {
                    let a = self.map_type(&arg.ok_or("Into bound")?, module, self_err)?;
                    Some(parse_quote!(crate::ext::VxInto<#a>))
                }
                "Future" => return Err("future bound".into()),
                "FnOnce" | "Fn" | "FnMut" => Some(self.map_fn_bound(last, module, self_err)?),
                _ => Some(self.map_path(&t.path, module, self_err)?),
            };
            if let Some(q) = q {
                out.push(TypeParamBound::Trait(TraitBound { paren_token: None, modifier: TraitBoundModifier::None, lifetimes: None, path: q }));
            }
        }
        Ok(out)
    }

    /// `FnOnce(A, B) -> R` : a callback, called through its contract
    fn map_fn_bound(&self, s: &PathSegment, module: &[String], self_err: Option<&Type>) -> R<Path> {
        let PathArguments::Parenthesized(a) = &s.arguments else { return Err("function bound".into()) };
        let ins: Vec<Type> = a.inputs.iter().map(|t| self.map_type(t, module, self_err)).collect::<R<_>>()?;
        let out: Type = match &a.output {
            ReturnType::Type(_, t) => self.map_type(t, module, self_err)?,
            _ => parse_quote!(()),
        };
        Ok(parse_quote!(crate::ext::VxCallback<(#(#ins,)*), #out>))
    }

    /// a type as printed by rustc
    pub fn type_of_oracle(&self, s: &str) -> R<Type> {
        let s = s.replace("'static ", "").replace("&'_ ", "&").replace(" + 'static", "");
        let t: Type = parse_str(&s).map_err(|_| format!("type {s}"))?;
        struct V<'a>(&'a Ctx);
        impl<'a> VisitMut for V<'a> {
            fn visit_path_mut(&mut self, p: &mut Path) {
                let f = p.segments[0].ident.to_string();
                if self.0.top.contains(&f) && p.segments.len() > 1 {
                    p.segments.insert(0, parse_quote!(crate));
                }
                visit_mut::visit_path_mut(self, p);
            }
            fn visit_type_reference_mut(&mut self, r: &mut TypeReference) {
                r.lifetime = None;
                visit_mut::visit_type_reference_mut(self, r);
            }
        }
        let mut t = t;
        V(self).visit_type_mut(&mut t);
        self.map_type(&t, &["\u{0}".to_string()], None)
    }

    fn derived(&self, t: &str, tr: &str, seen: &mut BTreeSet<String>) -> R<()> {
        let t = strip_refs(t);
        if !seen.insert(t.to_string()) {
            return Ok(());
        }
        if t.starts_with('(') || t.starts_with('[') {
            let inner = &t[1..t.len() - 1];
            let inner = inner.split(';').next().unwrap_or("");
            for a in ty_args(&format!("X<{inner}>")) {
                self.derived(&a, tr, seen)?;
            }
            return Ok(());
        }
        let h = ty_head(t);
        for a in ty_args(t) {
            self.derived(&a, tr, seen)?;
        }
        if let Some(i) = self.types.get(h) {
            if !i.derives.contains(tr) {
                return Err(format!("{h} has its own {tr}"));
            }
            let tys: Vec<Type> = match &i.item {
                Item::Struct(s) => s.fields.iter().map(|f| f.ty.clone()).collect(),
                Item::Enum(e) => e.variants.iter().flat_map(|v| v.fields.iter().map(|f| f.ty.clone()).collect::<Vec<_>>()).collect(),
                _ => vec![],
            };
            for ty in tys {
                for (full, n) in self.types_named(&ty) {
                    let _ = n;
                    self.derived(&full, tr, seen)?;
                }
            }
        }
        Ok(())
    }

    /// local types whose name occurs in a source type
    fn types_named(&self, t: &Type) -> Vec<(String, String)> {
        let txt = quote::ToTokens::to_token_stream(t).to_string();
        let words: BTreeSet<&str> = txt.split(|c: char| !c.is_alphanumeric() && c != '_').collect();
        self.types
            .keys()
            .filter_map(|k| {
                let n = k.rsplit("::").next().unwrap();
                if words.contains(n) {
                    Some((k.clone(), n.to_string()))
                } else {
                    None
                }
            })
            .collect()
    }

    pub fn check_derived_eq(&self, t: &str) -> R<()> {
        self.derived(t, "PartialEq", &mut BTreeSet::new())
    }
    pub fn check_derived_clone(&self, t: &str) -> R<()> {
        self.derived(t, "Clone", &mut BTreeSet::new())
    }

    pub fn generic_param(&self, t: &str) -> bool {
        let t = strip_refs(t);
        !t.contains("::") && t.chars().next().map(|c| c.is_uppercase()).unwrap_or(false) && !t.contains('<')
    }

    pub fn stateful(&self, key: &str) -> bool {
        self.state.iter().any(|t| key.strip_prefix(t.as_str()).map(|r| r.starts_with("::") || r.starts_with(" as ")).unwrap_or(false))
    }

    pub fn is_effect(&self, d: &str, inst: &str) -> bool {
        let e = self.effects.borrow();
        e.contains(&norm(d)) || (!inst.is_empty() && self.inst_key(inst).map(|k| e.contains(&k)).unwrap_or(false))
    }

    /// key of the local function an instantiated trait function refers to
    pub fn inst_key(&self, inst: &str) -> Option<String> {
        let (x, tr, m) = split_inst(inst)?;
        self.impl_key(&x, &tr, &m)
    }

    pub fn impl_key(&self, x: &str, tr: &str, m: &str) -> Option<String> {
        let h = ty_head(strip_refs(x)).to_string();
        let tl = ty_head(tr).rsplit("::").next().unwrap().to_string();
        let t = self.types.get(&h)?;
        let tn = h.rsplit("::").next().unwrap();
        let mut p = t.module.clone();
        p.push(format!("{tn} as {tl}"));
        Some(format!("{}::{m}", p.join("::")))
    }

    /// key of the impl method when the receiver's type is known
    pub fn trait_impl_key(&self, d: &str, recv: &str, name: &str) -> Option<String> {
        let d = norm(d);
        let tr = d.rsplit_once("::")?.0.to_string();
        self.impl_key(recv, &tr, name)
    }
}

pub fn names_of(m: &Module, all: &[Module]) -> HashSet<String> {
    let mut s = HashSet::new();
    for it in &m.items {
        match it {
            Item::Struct(x) => {
                s.insert(x.ident.to_string());
            }
            Item::Enum(x) => {
                s.insert(x.ident.to_string());
            }
            Item::Fn(x) => {
                s.insert(x.sig.ident.to_string());
            }
            Item::Const(x) => {
                s.insert(x.ident.to_string());
            }
            Item::Trait(x) => {
                s.insert(x.ident.to_string());
            }
            Item::Type(x) => {
                s.insert(x.ident.to_string());
            }
            Item::Use(u) => {
                for (_, alias) in use_leaves(&u.tree) {
                    if alias != "*" && alias != "_" {
                        s.insert(alias);
                    }
                }
            }
            _ => {}
        }
    }
    for c in all {
        if c.path.len() == m.path.len() + 1 && c.path[..m.path.len()] == m.path[..] {
            s.insert(c.path.last().unwrap().clone());
        }
    }
    s
}

/// (path segments, name bound) of every leaf; "*" for globs
pub fn use_leaves(t: &UseTree) -> Vec<(Vec<String>, String)> {
    fn go(t: &UseTree, pre: &mut Vec<String>, out: &mut Vec<(Vec<String>, String)>) {
        match t {
            UseTree::Path(p) => {
                pre.push(p.ident.to_string());
                go(&p.tree, pre, out);
                pre.pop();
            }
            UseTree::Name(n) => {
                if n.ident == "self" {
                    let l = pre.last().cloned().unwrap_or_default();
                    out.push((pre.clone(), l));
                } else {
                    let mut p = pre.clone();
                    p.push(n.ident.to_string());
                    out.push((p, n.ident.to_string()));
                }
            }
            UseTree::Rename(r) => {
                let mut p = pre.clone();
                if r.ident != "self" {
                    p.push(r.ident.to_string());
                }
                out.push((p, r.rename.to_string()));
            }
            UseTree::Glob(_) => {
                let mut p = pre.clone();
                p.push("*".into());
                out.push((p, "*".into()));
            }
            UseTree::Group(g) => {
                for i in &g.items {
                    go(i, pre, out);
                }
            }
        }
    }
    let mut out = vec![];
    go(t, &mut vec![], &mut out);
    out
}

pub fn derives(attrs: &[Attribute]) -> BTreeSet<String> {
    let mut s = BTreeSet::new();
    for a in attrs {
        if a.path().is_ident("derive") {
            let _ = a.parse_nested_meta(|m| {
                s.insert(m.path.segments.last().unwrap().ident.to_string());
                Ok(())
            });
        }
    }
    s
}

#[allow(dead_code)]
pub type Map<K, V> = BTreeMap<K, V>;
