mod contracts;
mod ctx;
mod load;
mod print;
mod rewrite;

use contracts::Contracts;
pub use ctx::Ctx;
use ctx::*;
use load::*;
use quote::{format_ident, quote, ToTokens};
use rewrite::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::path::PathBuf;
use syn::*;

#[derive(Clone, PartialEq)]
enum Kind {
    Free,
    Inherent(usize),
    TraitImpl(usize),
    TraitDefault(usize),
    TraitRequired(usize),
    Static,
    Default_,
}

struct FnInfo {
    key: String,
    module: usize,
    kind: Kind,
    sig: Signature,
    block: Option<Block>,
    expr: Option<Expr>,
    self_err: Option<Type>,
    /// for lifted closures: the impl they come from and extra parameters
    lifted: Option<Lifted>,
    generics_of: Option<Generics>,
}

struct Lifted {
    params: Vec<(String, String)>,
    callbacks: BTreeMap<String, TypeParamBound>,
}

struct Done {
    sig: std::result::Result<String, String>,
    body: std::result::Result<String, String>,
    calls: BTreeSet<String>,
    loops: usize,
    world: bool,
    lits: BTreeSet<String>,
    notes: BTreeSet<String>,
    inlined: Vec<String>,
}

/// contracts name parameters by position: `$0` is the first one after self
/// a specification function of the module is meant, whatever locals are called
fn local_specs(con: &Contracts, module: &[String], text: &str) -> String {
    let Some(decl) = con.mods.get(&module.join("::")) else { return text.to_string() };
    let mut names = BTreeSet::new();
    for part in decl.split("fn ").skip(1) {
        let n: String = part.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
        if !n.is_empty() {
            names.insert(n);
        }
    }
    let cs: Vec<char> = text.chars().collect();
    let mut out = String::new();
    let mut i = 0;
    while i < cs.len() {
        if cs[i].is_alphabetic() || cs[i] == '_' {
            let mut j = i;
            while j < cs.len() && (cs[j].is_alphanumeric() || cs[j] == '_') {
                j += 1;
            }
            let w: String = cs[i..j].iter().collect();
            let before = if i > 0 { cs[i - 1] } else { ' ' };
            if cs.get(j) == Some(&'(') && before != '.' && before != ':' && names.contains(&w) {
                out.push_str("self::");
            }
            out.push_str(&w);
            i = j;
        } else if cs[i].is_numeric() {
            while i < cs.len() && (cs[i].is_alphanumeric() || cs[i] == '_') {
                out.push(cs[i]);
                i += 1;
            }
        } else {
            out.push(cs[i]);
            i += 1;
        }
    }
    out
}

/// a loop's contract with the numbers its function has named
fn with_bound(spec: &str, bound: Option<&Vec<(String, String)>>) -> String {
    let Some(b) = bound else { return spec.to_string() };
    if b.is_empty() || spec.trim().is_empty() {
        return spec.to_string();
    }
    let add: String = b.iter().map(|(n, v)| format!(" {n} == {v},")).collect();
    let words = |w: &str| -> Option<usize> {
        spec.match_indices(w).map(|x| x.0).find(|i| {
            let after = spec[i + w.len()..].chars().next().unwrap_or(' ');
            let before = spec[..*i].chars().last().unwrap_or(' ');
            after.is_whitespace() && before.is_whitespace()
        })
    };
    let at = |i: usize, s: String| format!("{}{s}{}", &spec[..i], &spec[i..]);
    if let Some(i) = words("invariant") {
        at(i + "invariant".len(), add)
    } else if let Some(i) = words("ensures").or(words("decreases")) {
        at(i, format!("invariant{add}\n"))
    } else {
        format!("{spec} invariant{add}\n")
    }
}

fn positional(f: &FnInfo, text: &str) -> String {
    if !text.contains('$') {
        return text.to_string();
    }
    let mut out = text.to_string();
    let names: Vec<String> = f
        .sig
        .inputs
        .iter()
        .filter_map(|a| match a {
            FnArg::Typed(p) => Some(match &*p.pat {
                Pat::Ident(i) => i.ident.to_string(),
                _ => "vx_unnamed".into(),
            }),
            _ => None,
        })
        .collect();
    let names = match &f.lifted {
        Some(l) => l.params.iter().skip(1).map(|p| p.0.clone()).collect(),
        None => names,
    };
    for (i, n) in names.iter().enumerate() {
        out = out.replace(&format!("${i}"), n);
    }
    out
}

/// does a contract use this name as a variable of its own (not as a field)
fn names_itself(text: &str, n: &str) -> bool {
    let b: Vec<char> = text.chars().collect();
    let w = |c: char| c.is_alphanumeric() || c == '_';
    let k: Vec<char> = n.chars().collect();
    (0..b.len()).any(|i| {
        if b.len() < i + k.len() || b[i..i + k.len()] != k[..] {
            return false;
        }
        let prev = b[..i].iter().rev().find(|c| !c.is_whitespace());
        if (i > 0 && w(b[i - 1])) || matches!(prev, Some('.') | Some('"')) {
            return false;
        }
        let rest: String = b[i + k.len()..].iter().collect();
        if rest.chars().next().map_or(false, w) {
            return false;
        }
        let rest = rest.trim_start();
        !(rest.starts_with("::") || (rest.starts_with(':') && !rest.starts_with("::")))
    })
}

fn arg(n: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == n).and_then(|i| a.get(i + 1).cloned())
}

fn mpath(m: &Module) -> String {
    m.path.join("::")
}

fn type_name(t: &Type) -> Option<String> {
    match t {
        Type::Path(p) => Some(p.path.segments.last()?.ident.to_string()),
        Type::Tuple(t) if t.elems.is_empty() => Some("()".into()),
        _ => None,
    }
}

fn impl_name(i: &ItemImpl) -> Option<String> {
    let t = type_name(&i.self_ty)?;
    Some(match &i.trait_ {
        Some((_, p, _)) => {
            let s = p.segments.last()?;
            let tn = s.ident.to_string();
            if tn == "From" {
                format!("{t} as {}", s.to_token_stream().to_string().replace(' ', ""))
            } else {
                format!("{t} as {tn}")
            }
        }
        None => t,
    })
}

fn impl_trait_name(i: &ItemImpl) -> Option<String> {
    i.trait_.as_ref().map(|(_, p, _)| p.segments.last().unwrap().ident.to_string())
}

fn main() {
    if let Err(e) = run() {
        eprintln!("vx: {e}");
        std::process::exit(3);
    }
}

fn run() -> R<()> {
    let repo = PathBuf::from(arg("--repo").unwrap_or("/repo".into()));
    let dir = PathBuf::from(arg("--contracts").ok_or("--contracts")?);
    let out = PathBuf::from(arg("--out").ok_or("--out")?);
    let roots: Vec<String> = std::fs::read_to_string(arg("--roots").ok_or("--roots")?).map_err(|e| e.to_string())?.lines().map(|s| s.trim().to_string()).filter(|s| !s.is_empty()).collect();
    let stubs: BTreeSet<String> = arg("--stubs").map(|f| std::fs::read_to_string(f).unwrap_or_default().lines().map(|s| s.trim().to_string()).collect()).unwrap_or_default();
    let con = Contracts::load(&dir)?;
    let oracle = Oracle::load(&PathBuf::from(arg("--oracle").ok_or("--oracle")?))?;
    let modules = load_crate(&repo)?;
    let mut names = HashMap::new();
    let mut types = HashMap::new();
    let mut top = HashSet::new();
    let mut dropped: HashMap<String, HashSet<String>> = HashMap::new();
    for m in &modules {
        names.insert(mpath(m), names_of(m, &modules));
        if m.path.len() == 1 {
            top.insert(m.path[0].clone());
        }
        for it in &m.items {
            let (id, attrs) = match it {
                Item::Struct(s) => (&s.ident, &s.attrs),
                Item::Enum(s) => (&s.ident, &s.attrs),
                _ => continue,
            };
            let mut p = m.path.clone();
            p.push(id.to_string());
            types.insert(p.join("::"), TypeInfo { module: m.path.clone(), derives: derives(attrs), item: it.clone() });
        }
    }
    for n in &names[""] {
        // items of the crate root are addressed without a prefix by rustc
        top.insert(n.clone());
    }
    // a file-scope extern import that has no counterpart is dropped
    let mut cx = Ctx {
        names,
        top,
        externs: con.externs.clone(),
        statics: HashMap::new(),
        fn_err: RefCell::new(String::new()),
        types,
        effects: RefCell::new(con.effects.clone()),
        state: con.state.clone(),
        unmapped: RefCell::new(BTreeSet::new()),
        dropped: RefCell::new(HashMap::new()),
        modules: vec![],
    };
    let is_local_use = |m: &Module, p: &[String]| -> bool {
        matches!(p[0].as_str(), "crate" | "self" | "super")
            || m.items.iter().any(|i| match i {
                Item::Struct(x) => x.ident == p[0],
                Item::Enum(x) => x.ident == p[0],
                Item::Trait(x) => x.ident == p[0],
                Item::Fn(x) => x.sig.ident == p[0],
                _ => false,
            })
            || modules.iter().any(|c| c.path.len() == m.path.len() + 1 && c.path[..m.path.len()] == m.path[..] && c.path.last().unwrap() == &p[0])
    };
    for m in &modules {
        for it in &m.items {
            if let Item::Use(u) = it {
                for (p, alias) in use_leaves(&u.tree) {
                    if is_local_use(m, &p) {
                        if p.last().unwrap() == "impl_as_json" {
                            dropped.entry(mpath(m)).or_default().insert(alias);
                        }
                        continue;
                    }
                    if alias != "*" && cx.extern_path(&p.join("::")).is_none() {
                        dropped.entry(mpath(m)).or_default().insert(alias);
                    }
                }
            }
        }
    }
    *cx.dropped.borrow_mut() = dropped;

    // ------------------------------------------------------------------ types
    // a type that cannot be expressed is dropped, with everything that names it
    let mut ty_txt: BTreeMap<(usize, usize), String> = BTreeMap::new();
    let mut ty_errs: BTreeMap<String, String> = BTreeMap::new();
    for (mi, m) in modules.iter().enumerate() {
        for (ii, it) in m.items.iter().enumerate() {
            let (id, r) = match it {
                Item::Struct(s) => (s.ident.to_string(), emit_struct(&cx, m, s)),
                Item::Enum(e) => (e.ident.to_string(), emit_enum(&cx, m, e)),
                _ => continue,
            };
            match r {
                Ok(t) => {
                    ty_txt.insert((mi, ii), t);
                }
                Err(e) => {
                    ty_errs.insert(format!("{}::{id}", mpath(m)), e);
                    cx.dropped.borrow_mut().entry(mpath(m)).or_default().insert(id);
                }
            }
        }
    }

    // ------------------------------------------------------------------ functions
    let mut fns: BTreeMap<String, FnInfo> = BTreeMap::new();
    for (mi, m) in modules.iter().enumerate() {
        let mp = mpath(m);
        let pre = |s: &str| if mp.is_empty() { s.to_string() } else { format!("{mp}::{s}") };
        for (ii, it) in m.items.iter().enumerate() {
            match it {
                Item::Fn(f) => {
                    let key = pre(&f.sig.ident.to_string());
                    fns.insert(key.clone(), FnInfo { key, module: mi, kind: Kind::Free, sig: f.sig.clone(), block: Some((*f.block).clone()), expr: None, self_err: None, lifted: None, generics_of: None });
                }
                Item::Impl(i) => {
                    let Some(tn) = impl_name(i) else { continue };
                    let tr = impl_trait_name(i);
                    let self_err = i.items.iter().find_map(|x| match x {
                        ImplItem::Type(t) if t.ident == "Err" => cx.map_type(&t.ty, &m.path, None).ok(),
                        _ => None,
                    });
                    for x in &i.items {
                        let ImplItem::Fn(f) = x else { continue };
                        if !cfg_on(&f.attrs) {
                            continue;
                        }
                        let key = pre(&format!("{tn}::{}", f.sig.ident));
                        let kind = if tr.is_some() { Kind::TraitImpl(ii) } else { Kind::Inherent(ii) };
                        fns.insert(
                            key.clone(),
                            FnInfo { key, module: mi, kind, sig: f.sig.clone(), block: Some(f.block.clone()), expr: None, self_err: self_err.clone(), lifted: None, generics_of: Some(i.generics.clone()) },
                        );
                    }
                }
                Item::Trait(t) => {
                    for x in &t.items {
                        let TraitItem::Fn(f) = x else { continue };
                        let key = pre(&format!("{}::{}", t.ident, f.sig.ident));
                        let kind = if f.default.is_some() { Kind::TraitDefault(ii) } else { Kind::TraitRequired(ii) };
                        fns.insert(key.clone(), FnInfo { key, module: mi, kind, sig: f.sig.clone(), block: f.default.clone(), expr: None, self_err: None, lifted: None, generics_of: None });
                    }
                }
                Item::Macro(mm) if mm.mac.path.segments.last().unwrap().ident == "lazy_static" => {
                    // pub static ref NAME: T = expr;
                    struct L(Ident, Type, Expr);
                    impl parse::Parse for L {
                        fn parse(i: parse::ParseStream) -> Result<Self> {
                            let _: Vec<Attribute> = i.call(Attribute::parse_outer)?;
                            let _: Visibility = i.parse()?;
                            i.parse::<Token![static]>()?;
                            i.parse::<Token![ref]>()?;
                            let n = i.parse()?;
                            i.parse::<Token![:]>()?;
                            let t = i.parse()?;
                            i.parse::<Token![=]>()?;
                            let e = i.parse()?;
                            i.parse::<Token![;]>()?;
                            Ok(L(n, t, e))
                        }
                    }
                    if let Ok(L(n, t, e)) = mm.mac.parse_body::<L>() {
                        let key = pre(&n.to_string());
                        let id = format_ident!("vx_static_{}", n);
                        cx.statics.insert(key.clone(), format!("crate::{}", pre(&id.to_string())));
                        let sig: Signature = parse_quote!(fn #id() -> #t);
                        fns.insert(key.clone(), FnInfo { key, module: mi, kind: Kind::Static, sig, block: None, expr: Some(e), self_err: None, lifted: None, generics_of: None });
                    }
                }
                Item::Struct(s) if derives(&s.attrs).contains("Default") => {
                    let key = pre(&format!("{}::default", s.ident));
                    let id = &s.ident;
                    let fs: Vec<_> = s
                        .fields
                        .iter()
                        .enumerate()
                        .map(|(k, f)| {
                            let m = f.ident.clone().map(Member::Named).unwrap_or(Member::Unnamed(k.into()));
                            let t = &f.ty;
                            quote!(#m: <#t as core::default::Default>::default())
                        })
                        .collect();
                    let _ = (id, &fs);
                    let sig: Signature = parse_quote!(fn default() -> Self);
                    fns.insert(key.clone(), FnInfo { key, module: mi, kind: Kind::Default_, sig, block: None, expr: None, self_err: None, lifted: None, generics_of: Some(s.generics.clone()) });
                }
                _ => {}
            }
        }
    }
    // handlers passed to the HTTP layer become functions of their own
    lift_handlers(&modules, &oracle, &mut fns);
    for f in fns.values_mut() {
        defuture(&mut f.sig);
    }

    // effects: trait methods pass theirs to their implementations; callers inherit them
    let trait_of: BTreeMap<String, String> = fns
        .values()
        .filter_map(|f| match f.kind {
            Kind::TraitImpl(ii) => {
                let m = &modules[f.module];
                let Item::Impl(i) = &m.items[ii] else { return None };
                let tn = impl_trait_name(i)?;
                let t = fns.values().find(|g| matches!(g.kind, Kind::TraitRequired(_) | Kind::TraitDefault(_)) && g.key.ends_with(&format!("::{tn}::{}", f.sig.ident)))?;
                Some((f.key.clone(), t.key.clone()))
            }
            _ => None,
        })
        .collect();
    let mut done: BTreeMap<String, Done> = BTreeMap::new();
    for _round in 0..8 {
        done.clear();
        for (k, t) in &trait_of {
            if cx.effects.borrow().contains(t) {
                cx.effects.borrow_mut().insert(k.clone());
            }
        }
        let mut grown = false;
        for f in fns.values() {
            let d = process(&cx, &modules, &oracle, f, &fns, &con, 0);
            if d.world && !cx.effects.borrow().contains(&f.key) {
                if let Some(t) = trait_of.get(&f.key) {
                    cx.effects.borrow_mut().insert(t.clone());
                }
                cx.effects.borrow_mut().insert(f.key.clone());
                grown = true;
            }
            done.insert(f.key.clone(), d);
        }
        if !grown {
            break;
        }
    }

    // ------------------------------------------------------------------ slice
    let mut slice: BTreeSet<String> = BTreeSet::new();
    let mut missing: BTreeSet<String> = BTreeSet::new();
    let mut todo: Vec<String> = vec![];
    for r in &roots {
        if let Some(p) = r.strip_suffix('*') {
            let v: Vec<String> = fns.keys().filter(|k| k.starts_with(p)).cloned().collect();
            if v.is_empty() {
                missing.insert(r.clone());
            }
            todo.extend(v);
        } else if fns.contains_key(r) {
            todo.push(r.clone());
        } else {
            missing.insert(r.clone());
        }
    }
    // methods of traits that the slice declares
    let mut live: BTreeSet<String> = BTreeSet::new();
    while let Some(k) = todo.pop() {
        if !slice.insert(k.clone()) {
            continue;
        }
        if let Some(t) = trait_of.get(&k) {
            if !con.inherent.contains(t.rsplit_once("::").map(|x| x.0).unwrap_or("")) {
                live.insert(t.clone());
            }
        }
        if matches!(fns[&k].kind, Kind::TraitRequired(_) | Kind::TraitDefault(_)) {
            live.insert(k.clone());
        }
        let Some(d) = done.get(&k) else { continue };
        if stubs.contains(&k) {
            continue;
        }
        for c in &d.calls {
            let n = norm(c);
            let cands = [Some(n.clone()), cx.inst_key(c), inherent_inst(c)];
            for c in cands.into_iter().flatten() {
                if let Some(f) = fns.get(&c) {
                    if matches!(f.kind, Kind::TraitRequired(_) | Kind::TraitDefault(_)) {
                        live.insert(c.clone());
                    }
                    if let Some(t) = trait_of.get(&c) {
                        if !con.inherent.contains(t.rsplit_once("::").map(|x| x.0).unwrap_or("")) {
                            live.insert(t.clone());
                        }
                    }
                    if f.block.is_some() || f.expr.is_some() || f.kind == Kind::Default_ {
                        todo.push(c);
                    }
                }
            }
        }
    }

    // ------------------------------------------------------------------ emission
    let mut failed: BTreeMap<String, String> = BTreeMap::new();
    let mut verified: BTreeSet<String> = BTreeSet::new();
    let mut lits: BTreeSet<String> = BTreeSet::new();
    let mut w = Out { txt: String::new(), map: vec![] };
    w.push("#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_parens, unused_braces, unused_assignments, non_snake_case, unreachable_code, non_camel_case_types, ambiguous_glob_reexports)]\nuse vstd::prelude::*;\n");
    let prelude = std::fs::read_to_string(dir.join("prelude.rs")).map_err(|e| format!("prelude: {e}"))?;
    w.push("verus! {\n");
    w.push("global size_of usize == 8;\n");
    w.push(&prelude);
    // literals used in the contracts
    let mut ctext = prelude.clone();
    for m in [&con.fns, &con.begin, &con.tail, &con.impls, &con.traits, &con.mods] {
        for v in m.values() {
            ctext.push_str(v);
        }
    }
    for m in [&con.loops, &con.loopbegin, &con.loopend, &con.loopafter] {
        for v in m.values() {
            ctext.push_str(v);
        }
    }
    scan_lits(&ctext, &mut lits);
    for k in &slice {
        lits.extend(done[k].lits.iter().cloned());
    }
    w.push("// TRUSTED: distinct string literals are distinct texts\npub uninterp spec fn vx_sid(s: Seq<char>) -> int;\n#[verifier::external_body]\npub proof fn vx_lits()\n    ensures\n");
    for (i, l) in lits.iter().enumerate() {
        w.push(&format!("        vx_sid({:?}@) == {i},\n", l));
        if !l.is_empty() && l.chars().all(|c| c.is_ascii_alphanumeric() || "-_=".contains(c)) {
            w.push(&format!("        crate::ext::plain({:?}@),\n", l));
        }
        if !l.is_empty() && !l.chars().all(|c| c.is_ascii_digit()) {
            w.push(&format!("        !crate::ext::digits({:?}@),\n", l));
        }
    }
    // a text put together from two or three of the others
    for l in &lits {
        for a in lits.iter().filter(|a| !a.is_empty() && a.len() < l.len() && l.starts_with(a.as_str())) {
            let rest = &l[a.len()..];
            if lits.contains(rest) {
                w.push(&format!("        {a:?}@ + {rest:?}@ == {l:?}@,\n"));
            }
            for b in lits.iter().filter(|b| !b.is_empty() && b.len() < rest.len() && rest.starts_with(b.as_str())) {
                if lits.contains(&rest[b.len()..]) {
                    w.push(&format!("        {a:?}@ + {b:?}@ + {:?}@ == {l:?}@,\n", &rest[b.len()..]));
                }
            }
        }
    }
    w.push("{ }\n");

    let emit = Emit { cx: &cx, modules: &modules, con: &con, fns: &fns, done: &done, slice: &slice, stubs: &stubs, ty_txt: &ty_txt, live: &live, trait_of: &trait_of, provided: std::cell::Cell::new(false) };
    emit.module(&[], &mut w, &mut failed, &mut verified)?;
    w.push("}\nfn main() {}\n");
    std::fs::write(&out, &w.txt).map_err(|e| e.to_string())?;

    let uncontracted: Vec<&String> = slice.iter().filter(|k| !con.fns.contains_key(*k) && !trait_of.contains_key(*k) && !matches!(fns[*k].kind, Kind::TraitDefault(_)) && !done[*k].inlined.is_empty()).collect();
    let _ = uncontracted;
    let meta = serde_json::json!({
        "slice": slice.iter().collect::<Vec<_>>(),
        "verified": verified,
        "failed": failed,
        "missing": missing,
        "dropped_types": ty_errs,
        "uncontracted": slice.iter().filter(|k| verified.contains(*k) && !con.fns.contains_key(*k)
            && !trait_of.get(*k).map(|t| con.fns.contains_key(t)).unwrap_or(false)).collect::<Vec<_>>(),
        "inlined": done.iter().filter(|(k, d)| slice.contains(*k) && !d.inlined.is_empty()).map(|(k, d)| (k.clone(), d.inlined.clone())).collect::<BTreeMap<_, _>>(),
        "notes": done.iter().filter(|(k, d)| slice.contains(*k) && !d.notes.is_empty()).map(|(k, d)| (k.clone(), d.notes.iter().cloned().collect::<Vec<_>>())).collect::<BTreeMap<_, _>>(),
        "effects": cx.effects.borrow().iter().collect::<Vec<_>>(),
        "lines": w.map.iter().map(|(a, b, k)| serde_json::json!([a, b, k])).collect::<Vec<_>>(),
        "calls": done.iter().filter(|(k, _)| slice.contains(*k)).map(|(k, d)| (k.clone(), d.calls.iter().cloned().collect::<Vec<_>>())).collect::<BTreeMap<_, _>>(),
        "all": fns.keys().collect::<Vec<_>>(),
        "errors": done.iter().filter_map(|(k, d)| d.body.as_ref().err().or(d.sig.as_ref().err()).map(|e| (k.clone(), e.clone()))).collect::<BTreeMap<_, _>>(),
        "unused_contracts": con.fns.keys().filter(|k| !fns.contains_key(k.strip_suffix("#default").unwrap_or(k))).collect::<Vec<_>>(),
    });
    if let Some(m) = arg("--meta") {
        std::fs::write(m, serde_json::to_string_pretty(&meta).unwrap()).map_err(|e| e.to_string())?;
    }
    Ok(())
}

/// `<X>::m` (a receiver type and a method)
fn inherent_inst(c: &str) -> Option<String> {
    let r = c.strip_prefix('<')?;
    let i = r.rfind(">::")?;
    Some(format!("{}::{}", ty_head(&r[..i]), &r[i + 3..]))
}

fn scan_lits(t: &str, out: &mut BTreeSet<String>) {
    // string literals of verifier text, skipping comments
    let cs: Vec<char> = t.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        if cs[i] == '/' && cs.get(i + 1) == Some(&'/') {
            while i < cs.len() && cs[i] != '\n' {
                i += 1;
            }
            continue;
        }
        if cs[i] == '\'' && cs.get(i + 2) == Some(&'\'') {
            i += 3;
            continue;
        }
        if cs[i] == '"' {
            let mut s = String::from("\"");
            i += 1;
            while i < cs.len() && cs[i] != '"' {
                s.push(cs[i]);
                if cs[i] == '\\' {
                    i += 1;
                    s.push(cs[i]);
                }
                i += 1;
            }
            s.push('"');
            if let Ok(l) = parse_str::<LitStr>(&s) {
                out.insert(l.value());
            }
        }
        i += 1;
    }
}

struct Out {
    txt: String,
    map: Vec<(usize, usize, String)>,
}
impl Out {
    fn push(&mut self, s: &str) {
        self.txt.push_str(s);
    }
    fn line(&self) -> usize {
        self.txt.matches('\n').count() + 1
    }
}

fn vis_fields(cx: &Ctx, m: &Module, f: &Fields) -> R<String> {
    Ok(match f {
        Fields::Named(n) => {
            let mut s = String::from(" {\n");
            for x in &n.named {
                if !cfg_on(&x.attrs) {
                    continue;
                }
                let t = cx.map_type(&x.ty, &m.path, None)?;
                s += &format!("    pub {}: {},\n", x.ident.as_ref().unwrap(), t.to_token_stream());
            }
            s + "}"
        }
        Fields::Unnamed(u) => {
            let mut s = String::from("(");
            for x in &u.unnamed {
                let t = cx.map_type(&x.ty, &m.path, None)?;
                s += &format!("pub {}, ", t.to_token_stream());
            }
            s + ")"
        }
        Fields::Unit => String::new(),
    })
}

fn generics(cx: &Ctx, m: &Module, g: &Generics) -> R<(String, String)> {
    let mut g2 = g.clone();
    for p in g2.params.iter_mut() {
        if let GenericParam::Type(t) = p {
            t.bounds = cx.map_bounds(&t.bounds, &m.path, None)?;
            t.colon_token = if t.bounds.is_empty() { None } else { Some(Default::default()) };
        }
    }
    let mut wh: Vec<String> = vec![];
    if let Some(w) = &g.where_clause {
        for p in &w.predicates {
            if let WherePredicate::Type(t) = p {
                if t.bounded_ty.to_token_stream().to_string() == "Self" {
                    continue;
                }
                let b = cx.map_bounds(&t.bounds, &m.path, None)?;
                if !b.is_empty() {
                    let ty = cx.map_type(&t.bounded_ty, &m.path, None)?;
                    wh.push(format!("{}: {}", ty.to_token_stream(), b.to_token_stream()));
                }
            }
        }
    }
    g2.where_clause = None;
    let gs = if g2.params.is_empty() { String::new() } else { let p = &g2.params; quote!(<#p>).to_string() };
    let ws = if wh.is_empty() { String::new() } else { format!(" where {}", wh.join(", ")) };
    Ok((gs, ws))
}

fn reject_attrs(g: &Generics) -> String {
    // generic parameters may hold recursive types only when asked; none is needed here
    let _ = g;
    String::new()
}

fn emit_struct(cx: &Ctx, m: &Module, s: &ItemStruct) -> R<String> {
    let d = derives(&s.attrs);
    let (g, w) = generics(cx, m, &s.generics)?;
    let f = vis_fields(cx, m, &s.fields)?;
    let der = if d.contains("Copy") { "#[derive(Clone, Copy)]\n" } else { "" };
    let end = if matches!(s.fields, Fields::Named(_)) { "" } else { ";" };
    Ok(match &s.fields {
        Fields::Named(_) => format!("{}{der}pub struct {}{g}{w}{f}{end}\n", reject_attrs(&s.generics), s.ident),
        _ => format!("{}{der}pub struct {}{g}{f}{w}{end}\n", reject_attrs(&s.generics), s.ident),
    })
}

fn emit_enum(cx: &Ctx, m: &Module, e: &ItemEnum) -> R<String> {
    let d = derives(&e.attrs);
    let (g, w) = generics(cx, m, &e.generics)?;
    let der = if d.contains("Copy") { "#[derive(Clone, Copy)]\n" } else { "" };
    let mut s = format!("{der}pub enum {}{g}{w} {{\n", e.ident);
    let mut extra = String::new();
    for v in &e.variants {
        let f = vis_fields(cx, m, &v.fields)?.replace("pub ", "");
        s += &format!("    {}{f},\n", v.ident);
        if v.attrs.iter().any(|a| a.path().is_ident("default")) {
            extra += &format!("impl {} {{ pub fn default() -> (r: Self) ensures r == {}::{} {{ {}::{} }} }}\n", e.ident, e.ident, v.ident, e.ident, v.ident);
        }
        if let Fields::Unnamed(u) = &v.fields {
            if u.unnamed.len() == 1 && u.unnamed[0].attrs.iter().any(|a| a.path().is_ident("from")) {
                let t = cx.map_type(&u.unnamed[0].ty, &m.path, None)?.to_token_stream().to_string();
                let n = &e.ident;
                let vn = &v.ident;
                extra += &format!("impl core::convert::From<{t}> for {n} {{ #[verifier::external_body] fn from(v: {t}) -> (r: {n}) {{ {n}::{vn}(v) }} }}\n");
                extra += &format!(
                    "impl vstd::std_specs::convert::FromSpecImpl<{t}> for {n} {{ open spec fn obeys_from_spec() -> bool {{ true }} open spec fn from_spec(v: {t}) -> {n} {{ {n}::{vn}(v) }} }}\n"
                );
            }
        }
    }
    if d.contains("Error") {
        extra += &format!("impl crate::ext::VxDisplay for {} {{ uninterp spec fn disp(&self) -> Seq<char>; }}\n", e.ident);
    }
    Ok(s + "}\n" + &extra)
}

/// the error type of a function, as rustc prints it
fn fn_err_of(fo: &FileOracle, f: &FnInfo) -> String {
    let t = match (&f.block, &f.expr) {
        (Some(b), _) => fo.exprs.get(&span4(b.brace_token.span.join())).cloned().unwrap_or_default(),
        (_, Some(e)) => fo.exprs.get(&sp(e)).cloned().unwrap_or_default(),
        _ => String::new(),
    };
    if ty_head(&t) == "std::result::Result" {
        ty_args(&t).get(1).cloned().unwrap_or_default()
    } else {
        String::new()
    }
}

fn emit_sig(cx: &Ctx, m: &Module, f: &FnInfo, name: &str, world: bool) -> R<String> {
    let mut ps: Vec<String> = vec![];
    let mut lifted_out: Option<String> = None;
    // an `impl` argument beside a by-value `self` keeps the verifier busy for ever: it is named
    let mut by_value = false;
    // and one of a trait's function is not the one of its implementation
    let of_trait = matches!(f.kind, Kind::TraitRequired(_)) || f.key.contains(" as ");
    let mut named: Vec<String> = vec![];
    for a in &f.sig.inputs {
        match a {
            FnArg::Receiver(r) => {
                by_value = r.reference.is_none();
                ps.push(match (&r.reference, &r.mutability) {
                    (Some(_), Some(_)) => "&mut self".into(),
                    // the value behind a lock changes hands by exclusive access here
                    (Some(_), None) if cx.stateful(&f.key) => "&mut self".into(),
                    (Some(_), None) => "&self".into(),
                    _ => "self".into(),
                });
            }
            FnArg::Typed(t) => {
                let ty = cx.map_type(&t.ty, &m.path, f.self_err.as_ref())?;
                let p = match &*t.pat {
                    Pat::Ident(i) => format!("{}{}", if i.mutability.is_some() { "mut " } else { "" }, i.ident),
                    Pat::Wild(_) => "_vx_unused".into(),
                    _ => return Err("parameter pattern".into()),
                };
                match &ty {
                    Type::ImplTrait(b) if by_value || of_trait => {
                        let g = format!("VxArg{}", named.len());
                        named.push(format!("{g}: {}", b.bounds.to_token_stream()));
                        ps.push(format!("{p}: {g}"));
                    }
                    _ => ps.push(format!("{p}: {}", ty.to_token_stream())),
                }
            }
        }
    }
    if let Some(l) = &f.lifted {
        ps.clear();
        for (n, t) in &l.params {
            if n == "\u{3}" {
                lifted_out = Some(format!(" -> (r: {})", cx.type_of_oracle(t)?.to_token_stream()));
                continue;
            }
            let ty = if let Some(t) = t.strip_prefix('\u{1}') {
                cx.type_of_oracle(t)?
            } else {
                let t = t.strip_prefix('\u{2}').unwrap_or(t);
                let t: Type = parse_str(t).map_err(|e| e.to_string())?;
                cx.map_type(&t, &m.path, f.self_err.as_ref())?
            };
            ps.push(format!("{n}: {}", ty.to_token_stream()));
        }
    }
    if world {
        ps.push("vx_w: &mut crate::ext::World".into());
    }
    let (mut g, w) = generics(cx, m, &f.sig.generics)?;
    if !named.is_empty() && f.lifted.is_none() {
        let n = named.join(", ");
        g = match g.trim().strip_suffix('>') {
            Some(x) => format!("{}, {n}>", x.trim_end().trim_end_matches(',')),
            None => format!("<{n}>"),
        };
    }
    let out = match &f.sig.output {
        _ if lifted_out.is_some() => lifted_out.unwrap(),
        ReturnType::Default => String::new(),
        ReturnType::Type(_, t) => format!(" -> (r: {})", cx.map_type(t, &m.path, f.self_err.as_ref())?.to_token_stream()),
    };
    Ok(format!("fn {name}{g}({}){out}{w}", ps.join(", ")))
}

fn process(cx: &Ctx, modules: &[Module], oracle: &Oracle, f: &FnInfo, fns: &BTreeMap<String, FnInfo>, con: &Contracts, _d: usize) -> Done {
    let m = &modules[f.module];
    let empty = FileOracle::default();
    let fo = oracle.files.get(&m.file).unwrap_or(&empty);
    *cx.fn_err.borrow_mut() = fn_err_of(fo, f);
    let inliner = Inliner { fns, con, modules, oracle };
    let _ = &inliner;
    let mut rw = Rw {
        cx,
        fo,
        module: m.path.clone(),
        key: f.key.clone(),
        loops: 0,
        notes: BTreeSet::new(),
        world: false,
        acts: false,
        calls: BTreeSet::new(),
        self_err: f.self_err.clone(),
        depth: 0,
        consts: vec![],
        bound: vec![],
        loop_consts: Default::default(),
        inlined: vec![],
        lits: BTreeSet::new(),
        helper: &|k: &str| inliner.find(k, f),
        callbacks: f.lifted.as_ref().map(|l| l.callbacks.keys().cloned().collect()).unwrap_or_default(),
        stack: vec![f.key.clone()],
        mode: Mode::No,
    };
    let body = match (&f.block, &f.expr) {
        (Some(b), _) => rw.body(b).map(|b| {
            let stmts = &b.stmts;
            (quote!(#(#stmts)*)).into_token_stream()
        }),
        (_, Some(e)) => rw.expr(e).map(|e| e.to_token_stream()),
        _ => {
            if f.kind == Kind::Default_ {
                default_body(cx, &mut rw, modules, f)
            } else {
                Err("no body".into())
            }
        }
    };
    let world = rw.world || cx.effects.borrow().contains(&f.key);
    let name = f.sig.ident.to_string();
    let sig = emit_sig(cx, m, f, &name, world);
    let key = f.key.clone();
    // `mut self` is a local of the body
    let own = f.lifted.is_none() && f.sig.inputs.iter().any(|a| matches!(a, FnArg::Receiver(r) if r.reference.is_none() && r.mutability.is_some()));
    let body = body.map(|ts| {
        let ts = if own {
            let b = rename_self(ts);
            quote!(let mut vx_self = self; #b)
        } else {
            ts
        };
        let get = |mac: &str, n: usize| -> String {
            let k = (key.clone(), n);
            let text = match mac {
                "vx_loop_spec" => {
                    let t = con.loops.get(&k).cloned().unwrap_or_default();
                    with_bound(&t, rw.loop_consts.get(&n))
                }
                "vx_loop_head" => {
                    // a loop is a query of its own: the lemmas in use are named again
                    let b = con.begin.get(&key).cloned().unwrap_or_default();
                    let used: String = b.lines().filter(|l| l.trim_start().starts_with("broadcast use")).map(|l| format!("{l}\n")).collect();
                    if b.contains("@nolits") { used } else { format!("broadcast use crate::ext::vx_group;\nproof {{ crate::vx_lits(); }}\n{used}") }
                }
                "vx_loop_begin" => con.loopbegin.get(&k).map(|s| s.to_string()).unwrap_or_default(),
                "vx_loop_end" => con.loopend.get(&k).map(|s| s.to_string()).unwrap_or_default(),
                "vx_loop_after" => con.loopafter.get(&k).map(|s| s.to_string()).unwrap_or_default(),
                _ => String::new(),
            };
            local_specs(con, &m.path, &positional(f, &text))
        };
        print::tokens(ts, &get)
    });
    Done { sig, body, calls: rw.calls, loops: rw.loops, world: rw.world, lits: rw.lits, notes: rw.notes, inlined: rw.inlined }
}

fn rename_self(ts: proc_macro2::TokenStream) -> proc_macro2::TokenStream {
    use proc_macro2::{Group, Ident, TokenTree};
    ts.into_iter()
        .map(|t| match t {
            TokenTree::Ident(i) if i == "self" => TokenTree::Ident(Ident::new("vx_self", i.span())),
            TokenTree::Group(g) => {
                let mut n = Group::new(g.delimiter(), rename_self(g.stream()));
                n.set_span(g.span());
                TokenTree::Group(n)
            }
            t => t,
        })
        .collect()
}

fn default_body(_cx: &Ctx, rw: &mut Rw, modules: &[Module], f: &FnInfo) -> R<proc_macro2::TokenStream> {
    let m = &modules[f.module];
    let name = f.key.rsplit("::").nth(1).unwrap().to_string();
    for it in &m.items {
        if let Item::Struct(s) = it {
            if s.ident == name {
                let id = &s.ident;
                let mut fs = vec![];
                for (k, x) in s.fields.iter().enumerate() {
                    let mem = x.ident.clone().map(Member::Named).unwrap_or(Member::Unnamed(k.into()));
                    let e = rw.default_of_type(&x.ty)?;
                    fs.push(quote!(#mem: #e));
                }
                return Ok(quote!(#id { #(#fs),* }));
            }
        }
    }
    Err("no struct".into())
}

/// finds helpers without a contract, whose bodies may be inlined
pub struct Inliner<'a> {
    fns: &'a BTreeMap<String, FnInfo>,
    con: &'a Contracts,
    modules: &'a [Module],
    oracle: &'a Oracle,
}


impl<'a> Inliner<'a> {
    fn find(&self, k: &str, caller: &FnInfo) -> Option<Helper<'a>> {
        let f = self.fns.get(k)?;
        if self.con.fns.contains_key(k) || f.key == caller.key || f.lifted.is_some() {
            return None;
        }
        let same_impl = match f.kind {
            Kind::Free => true,
            Kind::Inherent(_) => self_of(&f.key) == self_of(&caller.key) || !uses_self_type(f),
            _ => return None,
        };
        if f.module != caller.module || !same_impl {
            return None;
        }
        let m = &self.modules[f.module];
        let fo = self.oracle.files.get(&m.file)?;
        Some(Helper { key: f.key.clone(), fo, block: f.block.as_ref()?, sig: &f.sig, err: fn_err_of(fo, f) })
    }
}

/// the type a method belongs to, whether it is its own or a trait's
fn self_of(k: &str) -> Option<&str> {
    let t = k.rsplit_once("::")?.0;
    Some(t.split(" as ").next().unwrap_or(t))
}

fn uses_self_type(f: &FnInfo) -> bool {
    let t = f.block.as_ref().map(|b| b.to_token_stream().to_string()).unwrap_or_default();
    t.split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| w == "Self")
}

fn future_output(b: &TypeParamBound) -> Option<Type> {
    let TypeParamBound::Trait(t) = b else { return None };
    let l = t.path.segments.last()?;
    if l.ident != "Future" {
        return None;
    }
    let PathArguments::AngleBracketed(a) = &l.arguments else { return None };
    a.args.iter().find_map(|x| match x {
        GenericArgument::AssocType(a) if a.ident == "Output" => Some(a.ty.clone()),
        _ => None,
    })
}

/// takes the type parameters that stand for futures out of a signature; answers what each of them yields
fn drop_futures(s: &mut Signature) -> Vec<(String, Type)> {
    let mut fut: Vec<(String, Type)> = vec![];
    s.generics.params = s.generics.params.iter().filter(|g| match g {
        GenericParam::Type(t) => match t.bounds.iter().find_map(future_output) {
            Some(o) => {
                fut.push((t.ident.to_string(), o));
                false
            }
            None => true,
        },
        _ => true,
    }).cloned().collect();
    fut
}

/// the same function with futures replaced by what they yield
fn defuture(s: &mut Signature) {
    let fut = drop_futures(s);
    if fut.is_empty() {
        return;
    }
    for a in s.inputs.iter_mut() {
        if let FnArg::Typed(t) = a {
            subst(&mut t.ty, &fut);
        }
    }
    if let ReturnType::Type(_, t) = &mut s.output {
        subst(t, &fut);
    }
}

fn subst(t: &mut Type, m: &[(String, Type)]) {
    struct V<'a>(&'a [(String, Type)]);
    impl<'a> visit_mut::VisitMut for V<'a> {
        fn visit_type_mut(&mut self, t: &mut Type) {
            if let Type::Path(p) = t {
                if let Some(i) = p.path.get_ident() {
                    if let Some((_, n)) = self.0.iter().find(|(k, _)| i == k) {
                        *t = n.clone();
                        return;
                    }
                }
            }
            visit_mut::visit_type_mut(self, t);
        }
    }
    visit_mut::VisitMut::visit_type_mut(&mut V(m), t);
}

/// closures passed to an HTTP server's get/post become functions
fn lift_handlers(modules: &[Module], oracle: &Oracle, fns: &mut BTreeMap<String, FnInfo>) {
    let mut add = vec![];
    for f in fns.values() {
        let Some(b) = &f.block else { continue };
        let m = &modules[f.module];
        let Some(fo) = oracle.files.get(&m.file) else { continue };
        struct V<'a> {
            fo: &'a FileOracle,
            lets: Vec<(String, String)>,
            out: Vec<(String, ExprClosure, Vec<(String, String)>)>,
        }
        fn strip(e: &Expr) -> Option<(&ExprClosure, bool)> {
            match e {
                Expr::Closure(c) => Some((c, true)),
                Expr::Block(b) => match b.block.stmts.last() {
                    Some(Stmt::Expr(e, None)) => strip(e),
                    _ => None,
                },
                _ => None,
            }
        }
        impl<'a, 'ast> visit::Visit<'ast> for V<'a> {
            fn visit_local(&mut self, l: &'ast Local) {
                if let (Pat::Ident(i), Some(init)) = (&l.pat, &l.init) {
                    if let Some(t) = self.fo.exprs.get(&sp(&*init.expr)) {
                        self.lets.retain(|(n, _)| i.ident != n);
                        self.lets.push((i.ident.to_string(), t.clone()));
                    }
                }
                visit::visit_local(self, l);
            }
            fn visit_expr_method_call(&mut self, c: &'ast ExprMethodCall) {
                let s = c.method.span().start();
                if let Some((d, _)) = self.fo.methods.get(&(s.line, s.column)) {
                    if d.starts_with("http::server::HttpServer::") && c.args.len() == 2 {
                        let p = match &c.args[0] {
                            Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => s.value(),
                            _ => "?".into(),
                        };
                        if let Some((cl, _)) = strip(&c.args[1]) {
                            let mut lets = self.lets.clone();
                            if let Expr::Block(b) = &c.args[1] {
                                for st in &b.block.stmts {
                                    if let Stmt::Local(Local { pat: Pat::Ident(i), init: Some(init), .. }) = st {
                                        if let Some(t) = self.fo.exprs.get(&sp(&*init.expr)) {
                                            lets.retain(|(n, _)| i.ident != n);
                                            lets.push((i.ident.to_string(), t.clone()));
                                        }
                                    }
                                }
                            }
                            self.out.push((format!("{} {p}", c.method), cl.clone(), lets));
                            return;
                        }
                    }
                }
                visit::visit_expr_method_call(self, c);
            }
            fn visit_expr_call(&mut self, c: &'ast ExprCall) {
                if let Expr::Path(p) = &*c.func {
                    if let Some((d, _)) = self.fo.paths.get(&sp(p)) {
                        if d == "axum::routing::get" || d == "axum::routing::post" {
                            if let Some(Expr::Closure(cl)) = c.args.first() {
                                self.out.push((format!("axum {}", d.rsplit("::").next().unwrap()), cl.clone(), self.lets.clone()));
                                return;
                            }
                        }
                    }
                }
                visit::visit_expr_call(self, c);
            }
        }
        let mut v = V { fo, lets: vec![], out: vec![] };
        visit::Visit::visit_block(&mut v, b);
        for (route, cl, lets) in v.out {
            add.push((f.key.clone(), f.module, f.kind.clone(), f.sig.clone(), f.generics_of.clone(), route, cl, lets));
        }
    }
    for (key, module, kind, sig, generics_of, route, cl, lets) in add {
        let m = &modules[module];
        let fo = &oracle.files[&m.file];
        let body = match &*cl.body {
            Expr::Async(a) => a.block.clone(),
            Expr::Block(b) => match b.block.stmts.last() {
                Some(Stmt::Expr(Expr::Async(a), None)) if b.block.stmts.len() == 1 => a.block.clone(),
                _ => b.block.clone(),
            },
            _ => continue,
        };
        let mut params: Vec<(String, String)> = vec![];
        let mut callbacks = BTreeMap::new();
        let txt: BTreeSet<String> = body.to_token_stream().to_string().split(|c: char| !c.is_alphanumeric() && c != '_').map(|s| s.to_string()).collect();
        let mut own = BTreeSet::new();
        let mut closure_params = vec![];
        for p in &cl.inputs {
            let (n, t) = match p {
                Pat::Type(t) => match &*t.pat {
                    Pat::Ident(i) => (i.ident.to_string(), Some((*t.ty).clone())),
                    // ConnectInfo(client_address): ConnectInfo<SocketAddr>
                    Pat::TupleStruct(ts) if ts.elems.len() == 1 => match (&ts.elems[0], &*t.ty) {
                        (Pat::Ident(i), Type::Path(tp)) => {
                            let inner = match &tp.path.segments.last().unwrap().arguments {
                                PathArguments::AngleBracketed(a) => match a.args.first() {
                                    Some(GenericArgument::Type(t)) => Some(t.clone()),
                                    _ => None,
                                },
                                _ => None,
                            };
                            (i.ident.to_string(), inner)
                        }
                        _ => continue,
                    },
                    _ => continue,
                },
                Pat::Ident(i) => (i.ident.to_string(), None),
                Pat::Wild(_) => ("_vx_unused".to_string(), None),
                _ => continue,
            };
            own.insert(n.clone());
            closure_params.push((n, t));
        }
        // captured variables, with the types rustc gave them
        for (n, t) in &lets {
            if own.contains(n) || !txt.contains(n) {
                continue;
            }
            params.push((n.clone(), format!("\u{1}{t}")));
        }
        for a in &sig.inputs {
            if let FnArg::Typed(t) = a {
                if let Pat::Ident(i) = &*t.pat {
                    let n = i.ident.to_string();
                    if own.contains(&n) || !txt.contains(&n) || params.iter().any(|p| p.0 == n) {
                        continue;
                    }
                    if let Type::ImplTrait(it) = &*t.ty {
                        if let Some(b) = it.bounds.iter().find(|b| matches!(b, TypeParamBound::Trait(t) if t.path.segments.last().unwrap().ident.to_string().starts_with("Fn"))) {
                            callbacks.insert(n.clone(), b.clone());
                        }
                    }
                    params.push((n, format!("\u{2}{}", t.ty.to_token_stream())));
                }
            }
        }
        for (n, t) in closure_params {
            match t {
                Some(t) => params.push((n, format!("\u{2}{}", t.to_token_stream()))),
                None => params.push((n, "\u{2}SocketAddr".into())),
            }
        }
        let id = format_ident!("vx_handler_{}", route.replace(|c: char| !c.is_alphanumeric(), "_"));
        // the answer's type, as rustc inferred it
        let ret = fo.exprs.get(&span4(body.brace_token.span.join())).cloned().unwrap_or_default();
        let mut s: Signature = parse_quote!(fn #id());
        s.generics = sig.generics.clone();
        let fut = drop_futures(&mut s);
        for (_, t) in params.iter_mut() {
            if let Some(x) = t.strip_prefix('\u{2}') {
                if let Ok(mut ty) = parse_str::<Type>(x) {
                    subst(&mut ty, &fut);
                    *t = format!("\u{2}{}", ty.to_token_stream());
                }
            }
        }
        let key2 = format!("{key}#{route}");
        fns.insert(
            key2.clone(),
            FnInfo {
                key: key2,
                module,
                kind,
                sig: s,
                block: Some(body),
                expr: None,
                self_err: None,
                lifted: Some(Lifted { params: { let mut p = params; p.insert(0, ("\u{3}".into(), ret)); p }, callbacks }),
                generics_of,
            },
        );
    }
}

struct Emit<'a> {
    cx: &'a Ctx,
    modules: &'a [Module],
    con: &'a Contracts,
    fns: &'a BTreeMap<String, FnInfo>,
    done: &'a BTreeMap<String, Done>,
    slice: &'a BTreeSet<String>,
    stubs: &'a BTreeSet<String>,
    ty_txt: &'a BTreeMap<(usize, usize), String>,
    live: &'a BTreeSet<String>,
    trait_of: &'a BTreeMap<String, String>,
    /// emitting the bodies of provided trait methods
    provided: std::cell::Cell<bool>,
}

impl<'a> Emit<'a> {
    fn indent_push(&self, w: &mut Out, s: &str) {
        w.push(s);
        if !s.ends_with('\n') {
            w.push("\n");
        }
    }

    /// one function; `always` forces a declaration even outside the slice
    fn func(&self, w: &mut Out, key: &str, vis: &str, always: bool, failed: &mut BTreeMap<String, String>, verified: &mut BTreeSet<String>) -> bool {
        let f = &self.fns[key];
        let d = &self.done[key];
        let in_slice = self.slice.contains(key);
        if !in_slice && !always {
            return false;
        }
        let start = w.line();
        let sig = match &d.sig {
            Ok(s) => s.clone(),
            Err(e) => {
                if in_slice {
                    failed.insert(key.to_string(), e.clone());
                }
                return false;
            }
        };
        // a contract's own bindings must not be captured by a parameter of the same name
        let split = matches!(f.kind, Kind::TraitDefault(_)) && self.con.fns.contains_key(&format!("{key}#default"));
        let provided = split && self.provided.get();
        let raw = self.con.fns.get(&if provided { format!("{key}#default") } else { key.to_string() }).cloned().unwrap_or_default();
        let mut sig = sig;
        if provided {
            sig = sig.replacen(&format!("fn {}", f.sig.ident), &format!("fn vx_provided_{}", f.sig.ident), 1);
        }
        let mut spec = raw.clone();
        let mut rebind = String::new();
        for (i, a) in f.sig.inputs.iter().filter(|a| matches!(a, FnArg::Typed(_))).enumerate() {
            let FnArg::Typed(p) = a else { continue };
            let Pat::Ident(id) = &*p.pat else { continue };
            let n = id.ident.to_string();
            if !names_itself(&raw, &n) {
                continue;
            }
            for (from, to) in [(format!("({n}: "), format!("(vx_p_{n}: ")), (format!(", {n}: "), format!(", vx_p_{n}: ")), (format!("mut {n}: "), format!("vx_p_{n}: "))] {
                if let Some(x) = sig.find(&from) {
                    sig = format!("{}{}{}", &sig[..x], to, &sig[x + from.len()..]);
                    rebind += &format!("let {}{n} = vx_p_{n};\n", if id.mutability.is_some() { "mut " } else { "" });
                    spec = spec.replace(&format!("${i}"), &format!("vx_p_{n}"));
                    break;
                }
            }
        }
        let spec = positional(f, &spec);
        let required = matches!(f.kind, Kind::TraitRequired(_));
        if required || (split && !provided) {
            w.push(&format!("{vis}{sig}\n{spec};\n"));
            return true;
        }
        let mut why: Option<String> = None;
        if !in_slice {
            why = Some(String::new());
        } else if self.stubs.contains(key) {
            why = Some("the verifier does not accept the extracted text".into());
        } else if let Err(e) = &d.body {
            why = Some(e.clone());
        } else {
            let want = self.con.loops.keys().filter(|(k, _)| k == key).count();
            if want != d.loops {
                why = Some(format!("{} loops, {} loop contracts", d.loops, want));
            }
        }
        if matches!(f.kind, Kind::TraitDefault(_)) && why.is_some() {
            // a provided method outside the slice is declared without a body
            if in_slice {
                failed.insert(key.to_string(), why.unwrap());
            }
            w.push(&format!("{vis}{sig}\n{spec};\n"));
            return true;
        }
        if let Some(e) = why {
            if in_slice {
                failed.insert(key.to_string(), e);
            }
            w.push(&format!("#[verifier::external_body]\n{vis}{sig}\n{spec}{{ unimplemented!() }}\n"));
            w.map.push((start, w.line(), format!("!{key}")));
            return true;
        }
        let at = self.con.attr.get(key).cloned().unwrap_or_default();
        let mpath = &self.modules[f.module].path;
        let begin = local_specs(self.con, mpath, &positional(f, &self.con.begin.get(key).cloned().unwrap_or_default()));
        let body = d.body.as_ref().unwrap();
        let body = match self.con.tail.get(key) {
            Some(t) => print::with_tail(body, &local_specs(self.con, mpath, &positional(f, t))),
            None => body.clone(),
        };
        // what is hidden has to be named first
        let (hidden, begin): (Vec<&str>, Vec<&str>) = begin.lines().partition(|l| l.starts_with("hide("));
        let (hidden, begin) = (hidden.join("\n"), begin.join("\n"));
        let begin = match &begin {
            b if b.contains("@nolits") => b.replace("@nolits", ""),
            b => format!("broadcast use crate::ext::vx_group;\nproof {{ crate::vx_lits(); crate::ext::vx_bits(); }}\n{b}"),
        };
        // with --probe every function claims the impossible, and must be refused
        let begin = if arg("--probe").is_some() { format!("{begin}\nproof {{ assert(false); }}\n") } else { begin };
        w.push(&format!("{at}{vis}{sig}\n{spec}{{\n{hidden}\n{rebind}{begin}\n"));
        w.push(&body);
        w.push("\n}\n");
        w.map.push((start, w.line(), key.to_string()));
        verified.insert(key.to_string());
        true
    }

    fn module(&self, path: &[String], w: &mut Out, failed: &mut BTreeMap<String, String>, verified: &mut BTreeSet<String>) -> R<()> {
        let cx = self.cx;
        let (mi, m) = self.modules.iter().enumerate().find(|(_, m)| m.path == path).unwrap();
        let mp = mpath(m);
        let pre = |s: &str| if mp.is_empty() { s.to_string() } else { format!("{mp}::{s}") };
        if !path.is_empty() {
            w.push(&format!("pub mod {} {{\nuse vstd::prelude::*;\nuse crate::ext::*;\nuse crate::crypt::*;\n", path.last().unwrap()));
        }
        if let Some(t) = self.con.mods.get(&mp) {
            // names the source imports or defines itself are not imported twice
            let mut taken: HashSet<String> = HashSet::new();
            for it in &m.items {
                match it {
                    Item::Use(u) => taken.extend(use_leaves(&u.tree).into_iter().map(|(_, a)| a)),
                    Item::Struct(x) => drop(taken.insert(x.ident.to_string())),
                    Item::Enum(x) => drop(taken.insert(x.ident.to_string())),
                    Item::Trait(x) => drop(taken.insert(x.ident.to_string())),
                    Item::Type(x) => drop(taken.insert(x.ident.to_string())),
                    _ => {}
                }
            }
            for line in t.lines() {
                match parse_str::<ItemUse>(line.trim()) {
                    Ok(u) => {
                        for (p, alias) in use_leaves(&u.tree) {
                            if alias == "*" || taken.insert(alias.clone()) {
                                let path = p.join("::");
                                if alias == "*" || p.last() == Some(&alias) {
                                    w.push(&format!("use {path};\n"));
                                } else {
                                    w.push(&format!("use {path} as {alias};\n"));
                                }
                            }
                        }
                    }
                    Err(_) => w.push(&format!("{line}\n")),
                }
            }
        }
        let empty = HashSet::new();
        let dropped_all = cx.dropped.borrow();
        let dropped = dropped_all.get(&mp).unwrap_or(&empty);
        for (ii, it) in m.items.iter().enumerate() {
            match it {
                Item::Use(u) => {
                    let v = if matches!(u.vis, Visibility::Inherited) { "" } else { "pub " };
                    for (p, alias) in use_leaves(&u.tree) {
                        if dropped.contains(&alias) && alias != "*" {
                            continue;
                        }
                        // names re-exported from modules where they were dropped
                        if self.leaf_dropped(&m.path, &p, &dropped_all) {
                            continue;
                        }
                        let local = matches!(p[0].as_str(), "crate" | "self" | "super") || self.is_local_name(m, &p[0]);
                        let txt = if local {
                            if matches!(p[0].as_str(), "crate" | "self" | "super") { p.join("::") } else { format!("self::{}", p.join("::")) }
                        } else if alias == "*" {
                            match cx.extern_path(&p[..p.len() - 1].join("::")) {
                                Some(q) => format!("{q}::*"),
                                None => continue,
                            }
                        } else {
                            match cx.extern_path(&p.join("::")) {
                                Some(q) => q,
                                None => continue,
                            }
                        };
                        if txt.contains('<') {
                            continue;
                        }
                        let txt = txt.trim_end_matches('!').to_string();
                        if alias == "*" || txt.rsplit("::").next() == Some(alias.as_str()) {
                            w.push(&format!("{v}use {txt};\n"));
                        } else {
                            w.push(&format!("{v}use {txt} as {alias};\n"));
                        }
                    }
                }
                Item::Struct(_) | Item::Enum(_) => {
                    if let Some(t) = self.ty_txt.get(&(mi, ii)) {
                        w.push(t);
                    }
                    if let Item::Struct(s) = it {
                        let k = pre(&format!("{}::default", s.ident));
                        if self.fns.get(&k).map(|f| f.kind == Kind::Default_).unwrap_or(false) && self.slice.contains(&k) {
                            let (g, wh) = generics(cx, m, &s.generics)?;
                            let names: Vec<String> = s.generics.type_params().map(|p| p.ident.to_string()).collect();
                            let a = if names.is_empty() { String::new() } else { format!("<{}>", names.join(", ")) };
                            w.push(&format!("impl{g} {}{a}{wh} {{\n", s.ident));
                            self.func(w, &k, "pub ", false, failed, verified);
                            w.push("}\n");
                        }
                    }
                }
                Item::Const(c) => {
                    let e = &c.expr;
                    let t = match cx.map_type(&c.ty, &m.path, None) {
                        Ok(t) => t,
                        Err(_) => continue,
                    };
                    if matches!(**e, Expr::Macro(_)) {
                        continue;
                    }
                    w.push(&format!("pub const {}: {} = {};\n", c.ident, t.to_token_stream(), e.to_token_stream()));
                }
                Item::Fn(f) => {
                    self.func(w, &pre(&f.sig.ident.to_string()), "pub ", false, failed, verified);
                }
                Item::Macro(mm) if mm.mac.path.segments.last().unwrap().ident == "lazy_static" => {
                    let ks: Vec<String> = self.fns.values().filter(|f| f.kind == Kind::Static && f.module == mi).map(|f| f.key.clone()).collect();
                    for k in ks {
                        self.func(w, &k, "pub ", false, failed, verified);
                    }
                }
                Item::Trait(t) => self.trait_(w, m, t, &pre(&t.ident.to_string()), failed, verified)?,
                Item::Impl(i) => self.impl_(w, m, ii, i, failed, verified)?,
                _ => {}
            }
        }
        // children
        for c in self.modules {
            if c.path.len() == path.len() + 1 && c.path[..path.len()] == path[..] {
                self.module(&c.path, w, failed, verified)?;
            }
        }
        if !path.is_empty() {
            w.push("}\n");
        }
        Ok(())
    }

    fn is_local_name(&self, m: &Module, n: &str) -> bool {
        m.items.iter().any(|i| match i {
            Item::Struct(x) => x.ident == n,
            Item::Enum(x) => x.ident == n,
            Item::Trait(x) => x.ident == n,
            Item::Fn(x) => x.sig.ident == n,
            _ => false,
        }) || self.modules.iter().any(|c| c.path.len() == m.path.len() + 1 && c.path[..m.path.len()] == m.path[..] && c.path.last().unwrap() == n)
    }

    /// whether a local use leaf names something that is not emitted
    fn leaf_dropped(&self, module: &[String], p: &[String], dropped: &HashMap<String, HashSet<String>>) -> bool {
        let mut cur: Vec<String> = module.to_vec();
        let mut i = 0;
        while i < p.len() {
            match p[i].as_str() {
                "crate" => cur.clear(),
                "self" => {}
                "super" => {
                    cur.pop();
                }
                n => {
                    let mut q = cur.clone();
                    q.push(n.to_string());
                    if self.modules.iter().any(|m| m.path == q) {
                        cur = q;
                    } else {
                        break;
                    }
                }
            }
            i += 1;
        }
        if i >= p.len() {
            return false;
        }
        let n = &p[i];
        if n == "*" {
            return false;
        }
        let Some(m) = self.modules.iter().find(|m| m.path == cur) else { return false };
        if dropped.get(&mpath(m)).map(|d| d.contains(n)).unwrap_or(false) {
            return true;
        }
        // a function outside the slice, a macro, a dropped constant
        let key = if mpath(m).is_empty() { n.clone() } else { format!("{}::{n}", mpath(m)) };
        if let Some(f) = self.fns.get(&key) {
            if f.kind == Kind::Free && !self.slice.contains(&key) {
                return true;
            }
            if f.kind == Kind::Static {
                return true;
            }
        }
        for it in &m.items {
            match it {
                Item::Const(c) if c.ident == n && matches!(*c.expr, Expr::Macro(_)) => return true,
                Item::Macro(mm) if mm.ident.as_ref().map(|i| i == n).unwrap_or(false) => return true,
                Item::Use(u) => {
                    for (lp, alias) in use_leaves(&u.tree) {
                        if &alias == n && (self.is_local_name(m, &lp[0]) || matches!(lp[0].as_str(), "crate" | "self" | "super")) && m.path != module {
                            return self.leaf_dropped(&m.path, &lp, dropped);
                        }
                    }
                }
                _ => {}
            }
        }
        false
    }

    fn trait_(&self, w: &mut Out, m: &Module, t: &ItemTrait, key: &str, failed: &mut BTreeMap<String, String>, verified: &mut BTreeSet<String>) -> R<()> {
        let (g, wh) = generics(self.cx, m, &t.generics)?;
        w.push(&format!("pub trait {}{g}: Sized{wh} {{\n", t.ident));
        for x in &t.items {
            if let TraitItem::Type(a) = x {
                let b = self.cx.map_bounds(&a.bounds, &m.path, None)?;
                if b.is_empty() {
                    w.push(&format!("type {};\n", a.ident));
                } else {
                    w.push(&format!("type {}: {};\n", a.ident, b.to_token_stream()));
                }
            }
        }
        if let Some(s) = self.con.traits.get(key) {
            self.indent_push(w, s);
        }
        for x in &t.items {
            if let TraitItem::Fn(f) = x {
                if !self.live.contains(&format!("{key}::{}", f.sig.ident)) {
                    continue;
                }
                self.func(w, &format!("{key}::{}", f.sig.ident), "", true, failed, verified);
            }
        }
        w.push("}\n");
        // bodies of provided methods that are more than what callers may rely on
        let own: Vec<String> = t
            .items
            .iter()
            .filter_map(|x| match x {
                TraitItem::Fn(f) => Some(format!("{key}::{}", f.sig.ident)),
                _ => None,
            })
            .filter(|k| self.slice.contains(k) && self.con.fns.contains_key(&format!("{k}#default")) && matches!(self.fns[k].kind, Kind::TraitDefault(_)))
            .collect();
        if !own.is_empty() {
            w.push(&format!("pub trait VxProvided{}: {} {{\n", t.ident, t.ident));
            self.provided.set(true);
            for k in &own {
                self.func(w, k, "", false, failed, verified);
            }
            self.provided.set(false);
            w.push("}\n");
        }
        Ok(())
    }

    fn impl_(&self, w: &mut Out, m: &Module, ii: usize, i: &ItemImpl, failed: &mut BTreeMap<String, String>, verified: &mut BTreeSet<String>) -> R<()> {
        let Some(tn) = impl_name(i) else { return Ok(()) };
        let mp = mpath(m);
        let pre = |s: &str| if mp.is_empty() { s.to_string() } else { format!("{mp}::{s}") };
        let key = pre(&tn);
        let Ok(self_ty) = self.cx.map_type(&i.self_ty, &m.path, None) else { return Ok(()) };
        if let Type::Path(p) = &*i.self_ty {
            let n = p.path.segments.last().unwrap().ident.to_string();
            if self.cx.dropped.borrow().get(&mp).map(|d| d.contains(&n)).unwrap_or(false) {
                return Ok(());
            }
        }
        let Ok((g, wh)) = generics(self.cx, m, &i.generics) else { return Ok(()) };
        let st = self_ty.to_token_stream().to_string();
        let keys: Vec<String> = i
            .items
            .iter()
            .filter_map(|x| match x {
                ImplItem::Fn(f) if cfg_on(&f.attrs) => Some(format!("{key}::{}", f.sig.ident)),
                _ => None,
            })
            .collect();
        let lifted: Vec<String> = self
            .fns
            .values()
            .filter(|f| f.lifted.is_some() && self.slice.contains(&f.key) && keys.iter().any(|k| f.key.starts_with(&format!("{k}#"))))
            .map(|f| f.key.clone())
            .collect();
        if !lifted.is_empty() {
            let gen_names: String = i.generics.type_params().map(|p| p.ident.to_string()).collect::<Vec<_>>().join(", ");
            let _ = gen_names;
            w.push(&format!("impl{g} {st}{wh} {{\n"));
            for k in &lifted {
                self.func(w, k, "pub ", false, failed, verified);
            }
            w.push("}\n");
        }
        let any = keys.iter().any(|k| self.slice.contains(k));
        match impl_trait_name(i).as_deref() {
            None => {
                if !any {
                    return Ok(());
                }
                w.push(&format!("impl{g} {st}{wh} {{\n"));
                for k in &keys {
                    self.func(w, k, "pub ", false, failed, verified);
                }
                w.push("}\n");
            }
            Some("FromStr") | Some("Default") => {
                if any {
                    w.push(&format!("impl{g} {st}{wh} {{\n"));
                    for k in &keys {
                        self.func(w, k, "pub ", false, failed, verified);
                    }
                    w.push("}\n");
                }
            }
            Some("Display") => {
                let spec = self.con.impls.get(&key).cloned().unwrap_or("uninterp spec fn disp(&self) -> Seq<char>;\n".into());
                w.push(&format!("impl{g} crate::ext::VxDisplay for {st}{wh} {{\n{spec}}}\n"));
                if any {
                    w.push(&format!("impl{g} {st}{wh} {{\n"));
                    for k in &keys {
                        self.func(w, k, "pub ", false, failed, verified);
                    }
                    w.push("}\n");
                }
            }
            Some("From") => {
                let (_, p, _) = i.trait_.as_ref().unwrap();
                let a = match &p.segments.last().unwrap().arguments {
                    PathArguments::AngleBracketed(a) => match a.args.first() {
                        Some(GenericArgument::Type(t)) => match self.cx.map_type(t, &m.path, None) {
                            Ok(t) => t.to_token_stream().to_string(),
                            Err(_) => return Ok(()),
                        },
                        _ => return Ok(()),
                    },
                    _ => return Ok(()),
                };
                let spec = self.con.impls.get(&key).cloned();
                let spec_fns = spec.unwrap_or(format!("open spec fn obeys_from_spec() -> bool {{ false }} open spec fn from_spec(v: {a}) -> {st} {{ arbitrary() }}\n"));
                w.push(&format!("impl{g} vstd::std_specs::convert::FromSpecImpl<{a}> for {st}{wh} {{ {spec_fns} }}\n"));
                w.push(&format!("impl{g} core::convert::From<{a}> for {st}{wh} {{\n"));
                for k in &keys {
                    self.func(w, k, "", true, failed, verified);
                }
                w.push("}\n");
            }
            Some("Hash") | Some("Serialize") | Some("Deserialize") | Some("Error") | Some("Debug") => {}
            Some(trn) => {
                let _ = ii;
                // a trait of the crate
                let (_, p, _) = i.trait_.as_ref().unwrap();
                let tkey = self.modules.iter().find_map(|mm| mm.items.iter().find_map(|x| match x { Item::Trait(t) if t.ident == trn => Some(if mpath(mm).is_empty() { trn.to_string() } else { format!("{}::{trn}", mpath(mm)) }), _ => None }));
                let Some(tkey) = tkey else { return Ok(()) };
                let needs_spec = self.con.traits.get(&tkey).map(|s| s.contains("spec fn")).unwrap_or(false);
                let spec = self.con.impls.get(&key).cloned();
                if !any && needs_spec && spec.is_none() {
                    return Ok(());
                }
                let Ok(p) = self.cx.map_path(p, &m.path, None) else { return Ok(()) };
                if self.con.inherent.contains(&tkey) {
                    // an implementation is an inherent one here: callers through the trait rely on the trait's contract
                    let pre = format!("{tkey}::");
                    if !self.live.iter().any(|l| l.starts_with(&pre) && !l[pre.len()..].contains(':') && matches!(self.fns[l].kind, Kind::TraitRequired(_))) {
                        let mut tys = String::new();
                        for x in &i.items {
                            if let ImplItem::Type(t) = x {
                                let ty = self.cx.map_type(&t.ty, &m.path, None)?;
                                tys += &format!("type {} = {};", t.ident, ty.to_token_stream());
                            }
                        }
                        w.push(&format!("impl{g} {} for {st}{wh} {{{tys}}}\n", p.to_token_stream()));
                    }
                    w.push(&format!("impl{g} {st}{wh} {{\n"));
                    let at = w.txt.len();
                    for k in &keys {
                        self.func(w, k, "pub ", false, failed, verified);
                    }
                    // an inherent impl has no associated types: name what they stand for
                    for x in &i.items {
                        if let ImplItem::Type(t) = x {
                            let ty = self.cx.map_type(&t.ty, &m.path, None)?.to_token_stream().to_string();
                            let tail = w.txt.split_off(at);
                            let mut tail = tail.replace(&format!("Self :: {}", t.ident), &ty);
                            tail = tail.replace(&format!("Self::{}", t.ident), &ty);
                            w.txt.push_str(&tail);
                        }
                    }
                    w.push("}\n");
                    return Ok(());
                }
                let keys: Vec<String> = keys.into_iter().filter(|k| self.trait_of.get(k).map(|t| self.live.contains(t)).unwrap_or(true)).collect();
                if keys.iter().any(|k| self.done[k].sig.is_err()) {
                    for k in &keys {
                        if self.slice.contains(k) {
                            failed.insert(k.clone(), "the implementation cannot be expressed".into());
                        }
                    }
                    return Ok(());
                }
                w.push(&format!("impl{g} {} for {st}{wh} {{\n", p.to_token_stream()));
                for x in &i.items {
                    if let ImplItem::Type(t) = x {
                        let ty = self.cx.map_type(&t.ty, &m.path, None)?;
                        w.push(&format!("type {} = {};\n", t.ident, ty.to_token_stream()));
                    }
                }
                if let Some(s) = spec {
                    self.indent_push(w, &s);
                }
                for k in &keys {
                    self.func(w, k, "", true, failed, verified);
                }
                w.push("}\n");
            }
        }
        Ok(())
    }
}
