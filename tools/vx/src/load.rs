//! Loads the crate's module tree from /repo's working tree, and the oracle's dump.
use std::collections::{BTreeMap, HashMap};
use std::path::{Path, PathBuf};
use syn::spanned::Spanned;

pub struct Module {
    pub path: Vec<String>,
    pub file: String,
    pub items: Vec<syn::Item>,
}

fn feature_on(f: &str) -> bool {
    // logging is dropped by the extraction; serde's derives are outside the verified subset
    !matches!(f, "tracing" | "serde")
}

fn cfg_eval(m: &syn::Meta) -> bool {
    match m {
        syn::Meta::Path(p) => {
            if p.is_ident("test") {
                return false;
            }
            true
        }
        syn::Meta::NameValue(nv) => {
            if nv.path.is_ident("feature") {
                if let syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) = &nv.value {
                    return feature_on(&s.value());
                }
            }
            true
        }
        syn::Meta::List(l) => {
            let inner = l
                .parse_args_with(syn::punctuated::Punctuated::<syn::Meta, syn::Token![,]>::parse_terminated)
                .map(|p| p.into_iter().collect::<Vec<_>>())
                .unwrap_or_default();
            if l.path.is_ident("not") {
                return !inner.iter().all(cfg_eval);
            }
            if l.path.is_ident("any") {
                return inner.iter().any(cfg_eval);
            }
            inner.iter().all(cfg_eval)
        }
    }
}

/// whether an item or statement with these attributes is part of the extracted configuration
pub fn cfg_on(attrs: &[syn::Attribute]) -> bool {
    for a in attrs {
        if a.path().is_ident("cfg") {
            if let Ok(m) = a.parse_args::<syn::Meta>() {
                if !cfg_eval(&m) {
                    return false;
                }
            }
        }
        if a.path().is_ident("test") {
            return false;
        }
    }
    true
}

pub fn item_attrs(i: &syn::Item) -> &[syn::Attribute] {
    use syn::Item::*;
    match i {
        Const(x) => &x.attrs,
        Enum(x) => &x.attrs,
        Fn(x) => &x.attrs,
        Impl(x) => &x.attrs,
        Macro(x) => &x.attrs,
        Mod(x) => &x.attrs,
        Static(x) => &x.attrs,
        Struct(x) => &x.attrs,
        Trait(x) => &x.attrs,
        Type(x) => &x.attrs,
        Use(x) => &x.attrs,
        _ => &[],
    }
}

fn load_items(dir: &Path, file: &Path, rel_root: &Path, path: Vec<String>, items: Vec<syn::Item>, out: &mut Vec<Module>) -> Result<(), String> {
    let rel = file.strip_prefix(rel_root).unwrap_or(file).display().to_string();
    let mut own = vec![];
    for it in items {
        if !cfg_on(item_attrs(&it)) {
            continue;
        }
        if let syn::Item::Mod(m) = &it {
            let mut p = path.clone();
            p.push(m.ident.to_string());
            match &m.content {
                Some((_, items)) => {
                    load_items(&dir.join(m.ident.to_string()), file, rel_root, p, items.clone(), out)?;
                }
                None => {
                    let a = dir.join(format!("{}.rs", m.ident));
                    let b = dir.join(m.ident.to_string()).join("mod.rs");
                    let f = if a.exists() { a } else { b };
                    load_file(&f, &dir.join(m.ident.to_string()), rel_root, p, out)?;
                }
            }
            continue;
        }
        own.push(it);
    }
    out.push(Module { path, file: rel, items: own });
    Ok(())
}

fn load_file(f: &Path, dir: &Path, rel_root: &Path, path: Vec<String>, out: &mut Vec<Module>) -> Result<(), String> {
    let src = std::fs::read_to_string(f).map_err(|e| format!("{}: {e}", f.display()))?;
    let parsed = syn::parse_file(&src).map_err(|e| format!("{}: {e}", f.display()))?;
    load_items(dir, f, rel_root, path, parsed.items, out)
}

pub fn load_crate(repo: &Path) -> Result<Vec<Module>, String> {
    let mut out = vec![];
    let src = repo.join("src");
    load_file(&src.join("lib.rs"), &src, repo, vec![], &mut out)?;
    Ok(out)
}

#[derive(Default)]
pub struct FileOracle {
    /// method name position -> (callee, receiver type)
    pub methods: HashMap<(usize, usize), (String, String)>,
    /// path expression span -> (definition, type)
    pub paths: HashMap<(usize, usize, usize, usize), (String, String)>,
    /// expression span -> type
    pub exprs: HashMap<(usize, usize, usize, usize), String>,
    pub pats: HashMap<(usize, usize, usize, usize), String>,
    /// every type seen at a span: the header of a `for` loop has the iterator's as well as its own
    pub seen: HashMap<(usize, usize, usize, usize), Vec<String>>,
}

pub struct Oracle {
    pub files: BTreeMap<String, FileOracle>,
}

impl Oracle {
    pub fn load(p: &PathBuf) -> Result<Oracle, String> {
        let mut files: BTreeMap<String, FileOracle> = BTreeMap::new();
        for l in std::fs::read_to_string(p).map_err(|e| format!("oracle: {e}"))?.lines() {
            let v: serde_json::Value = serde_json::from_str(l).map_err(|e| format!("oracle: {e}"))?;
            let f = files.entry(v["f"].as_str().unwrap_or("").to_string()).or_default();
            let s: Vec<usize> = v["s"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
            let key = (s[0], s[1], s[2], s[3]);
            let d = v["d"].as_str().unwrap().to_string();
            let t = v["t"].as_str().unwrap().to_string();
            if matches!(v["k"].as_str().unwrap(), "e" | "p") {
                f.seen.entry(key).or_default().push(t.clone());
            }
            match v["k"].as_str().unwrap() {
                "m" => {
                    f.methods.entry((s[0], s[1])).or_insert((d, t));
                }
                "p" => {
                    f.paths.entry(key).or_insert((d, t.clone()));
                    f.exprs.entry(key).or_insert(t);
                }
                "e" => {
                    // the body of an async function: keep its value's type, not the future's
                    match f.exprs.get(&key) {
                        Some(o) if !(o.starts_with("{async") || o.starts_with("std::pin::Pin<") || o.starts_with("{closure") || o == "!") => {}
                        _ => {
                            f.exprs.insert(key, t);
                        }
                    }
                }
                "pat" => {
                    f.pats.entry(key).or_insert(t);
                }
                _ => {}
            }
        }
        Ok(Oracle { files })
    }
}

pub fn span4(s: proc_macro2::Span) -> (usize, usize, usize, usize) {
    let a = s.start();
    let b = s.end();
    (a.line, a.column, b.line, b.column)
}

pub fn sp<T: Spanned>(t: &T) -> (usize, usize, usize, usize) {
    span4(t.span())
}
