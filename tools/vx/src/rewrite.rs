//! Mechanical, type-directed desugaring of function bodies into the verifier's subset.
//! Every rule keeps the evaluation order and the meaning of the source; what is dropped
//! (async, logging, attributes) is listed in DESIGN.md.
use crate::load::*;
use crate::Ctx;
use proc_macro2::{Span, TokenStream};
use quote::{format_ident, quote, ToTokens};
use std::collections::BTreeSet;
use syn::punctuated::Punctuated;
use syn::spanned::Spanned;
use syn::*;

pub type R<T> = std::result::Result<T, String>;

pub struct Rw<'a> {
    pub cx: &'a Ctx,
    pub fo: &'a FileOracle,
    pub module: Vec<String>,
    pub key: String,
    pub loops: usize,
    pub notes: BTreeSet<String>,
    pub world: bool,
    /// the iterator source last looked at acts on the world
    pub acts: bool,
    pub calls: BTreeSet<String>,
    pub self_err: Option<Type>,
    /// closures lifted out of this function: (name, params, body)
    pub depth: usize,
    pub inlined: Vec<String>,
    /// inside an inlined helper called under `?`: early exits are the caller's
    pub lits: BTreeSet<String>,
    /// bodies of local helpers without a contract
    pub helper: &'a dyn Fn(&str) -> Option<Helper<'a>>,
    /// parameters that are closures of the caller
    pub callbacks: BTreeSet<String>,
    /// helpers being inlined
    pub stack: Vec<String>,
    /// constants declared inside the function
    pub consts: Vec<String>,
    /// locals in scope that are bound, once, to a number: a loop is a query of its own and is told them again
    pub bound: Vec<(String, String)>,
    pub loop_consts: std::collections::BTreeMap<usize, Vec<(String, String)>>,
    pub mode: Mode,
}

/// what an early exit of an inlined helper would leave
#[derive(Clone, Copy, PartialEq, Default)]
pub enum Mode {
    #[default]
    No,
    /// the call is the function's result
    Tail,
    /// the call is under `?`
    Try,
}

pub struct Helper<'a> {
    pub key: String,
    pub fo: &'a FileOracle,
    pub block: &'a Block,
    pub sig: &'a Signature,
    pub err: String,
}

/// early exits of a block: (any, other than `?` and `return Err(..)`)
fn exits(b: &Block) -> (bool, bool) {
    struct V(bool, bool);
    impl<'ast> visit::Visit<'ast> for V {
        fn visit_expr(&mut self, e: &'ast Expr) {
            match e {
                Expr::Try(_) => self.0 = true,
                Expr::Return(r) => {
                    self.0 = true;
                    let err = matches!(r.expr.as_deref(), Some(Expr::Call(c)) if c.func.to_token_stream().to_string() == "Err");
                    if !err {
                        self.1 = true;
                    }
                }
                Expr::Closure(_) => return,
                _ => {}
            }
            visit::visit_expr(self, e);
        }
        fn visit_macro(&mut self, m: &'ast Macro) {
            if m.tokens.to_string().contains('?') {
                self.0 = true;
                self.1 = true;
            }
        }
    }
    let mut v = V(false, false);
    visit::Visit::visit_block(&mut v, b);
    (v.0, v.1)
}

fn rename_self(ts: TokenStream, to: &str) -> TokenStream {
    ts.into_iter()
        .map(|t| match t {
            proc_macro2::TokenTree::Ident(i) if i == "self" => proc_macro2::TokenTree::Ident(Ident::new(to, i.span())),
            proc_macro2::TokenTree::Group(g) => {
                let mut n = proc_macro2::Group::new(g.delimiter(), rename_self(g.stream(), to));
                n.set_span(g.span());
                proc_macro2::TokenTree::Group(n)
            }
            t => t,
        })
        .collect()
}

fn ex(ts: TokenStream) -> Expr {
    match syn::parse2::<Expr>(ts.clone()) {
        Ok(e) => e,
        Err(_) => Expr::Verbatim(ts),
    }
}

/// head of a type printed by rustc: "std::option::Option<T>" -> "std::option::Option"
pub fn ty_head(t: &str) -> &str {
    let t = t.trim_start_matches('&').trim_start();
    let t = if let Some(r) = t.strip_prefix('\'') { r.split_once(' ').map(|x| x.1).unwrap_or(r) } else { t };
    let t = t.strip_prefix("mut ").unwrap_or(t);
    match t.find(['<', ' ', '(']) {
        Some(0) | None => t,
        Some(i) => &t[..i],
    }
}

pub fn strip_refs(t: &str) -> &str {
    let mut t = t.trim();
    loop {
        if let Some(r) = t.strip_prefix('&') {
            t = r.trim_start();
            if t.starts_with('\'') {
                t = t.split_once(' ').map(|x| x.1).unwrap_or(t);
            }
            t = t.strip_prefix("mut ").unwrap_or(t);
        } else {
            return t;
        }
    }
}

/// top-level generic arguments of a printed type
pub fn ty_args(t: &str) -> Vec<String> {
    let t = strip_refs(t);
    let Some(i) = t.find('<') else { return vec![] };
    let inner = &t[i + 1..t.rfind('>').unwrap_or(t.len())];
    let mut depth = 0i32;
    let mut cur = String::new();
    let mut out = vec![];
    let cs: Vec<char> = inner.chars().collect();
    for (i, &c) in cs.iter().enumerate() {
        match c {
            '<' | '(' | '[' | '{' => depth += 1,
            '>' if i > 0 && cs[i - 1] == '-' => {}
            '>' | ')' | ']' | '}' => depth -= 1,
            ',' if depth == 0 => {
                out.push(cur.trim().to_string());
                cur.clear();
                continue;
            }
            _ => {}
        }
        cur.push(c);
    }
    if !cur.trim().is_empty() {
        out.push(cur.trim().to_string());
    }
    out
}

const PRIMS: &[&str] = &["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize", "bool", "char", "()"];

fn is_prim(t: &str) -> bool {
    PRIMS.contains(&t)
}

fn is_str(t: &str) -> bool {
    matches!(strip_refs(t), "str" | "std::string::String")
}

/// does the expression contain `?`, `return`, `break`, `continue` or `.await?` that would leave it
struct Leaves(bool, bool);
impl<'ast> visit::Visit<'ast> for Leaves {
    fn visit_expr(&mut self, e: &'ast Expr) {
        match e {
            Expr::Try(_) => self.0 = true,
            Expr::Return(_) => self.1 = true,
            Expr::Closure(_) => return,
            Expr::Async(_) => return,
            _ => {}
        }
        visit::visit_expr(self, e);
    }
    fn visit_macro(&mut self, m: &'ast Macro) {
        if m.tokens.to_string().contains('?') {
            self.0 = true;
        }
    }
}
fn leaves(e: &Expr) -> bool {
    let mut l = Leaves(false, false);
    visit::Visit::visit_expr(&mut l, e);
    l.0 || l.1
}

impl<'a> Rw<'a> {
    fn err<T>(&self, what: impl Into<String>, sp: Span) -> R<T> {
        Err(format!("{} (line {})", what.into(), sp.start().line))
    }

    /// `x` (what became of `e`) as a slice
    fn slref(&self, e: &Expr, x: &Expr) -> Expr {
        if self.ety(e).starts_with('&') {
            ex(quote!(crate::ext::vx_sl(#x)))
        } else if matches!(e, Expr::Call(_) | Expr::MethodCall(_) | Expr::Try(_) | Expr::Await(_)) {
            // a temporary that lives to the end of the statement
            ex(quote!(crate::ext::vx_sl(crate::ext::vx_keep(#x))))
        } else {
            ex(quote!(crate::ext::vx_sl(&#x)))
        }
    }

    fn ety(&self, e: &Expr) -> String {
        match e {
            Expr::Paren(p) => self.ety(&p.expr),
            Expr::Group(p) => self.ety(&p.expr),
            _ => self.fo.exprs.get(&sp(e)).cloned().unwrap_or_default(),
        }
    }

    fn fresh(&self, n: &str) -> Ident {
        format_ident!("vx_{}{}", n, self.depth)
    }

    // ---------------------------------------------------------------- types and paths

    pub fn ty(&self, t: &Type) -> R<Type> {
        self.cx.map_type(t, &self.module, self.self_err.as_ref())
    }

    fn path(&self, p: &Path) -> R<Path> {
        self.cx.map_path(p, &self.module, self.self_err.as_ref())
    }

    fn ty_of_str(&self, s: &str) -> R<Type> {
        self.cx.type_of_oracle(s)
    }

    // ---------------------------------------------------------------- blocks and statements

    /// a function's body
    pub fn body(&mut self, b: &Block) -> R<Block> {
        self.block_(b, true)
    }

    pub fn block(&mut self, b: &Block) -> R<Block> {
        self.block_(b, false)
    }

    fn block_(&mut self, b: &Block, tail: bool) -> R<Block> {
        let keep = self.bound.clone();
        let r = self.block_in(b, tail);
        self.bound = keep;
        r
    }

    fn bind(&mut self, p: &Pat, init: Option<&Expr>) {
        let mut names = vec![];
        struct V<'b>(&'b mut Vec<String>);
        impl<'b, 'ast> syn::visit::Visit<'ast> for V<'b> {
            fn visit_pat_ident(&mut self, i: &'ast PatIdent) {
                self.0.push(i.ident.to_string());
                syn::visit::visit_pat_ident(self, i);
            }
        }
        syn::visit::Visit::visit_pat(&mut V(&mut names), p);
        self.bound.retain(|b| !names.contains(&b.0));
        let q = match p {
            Pat::Type(t) => &*t.pat,
            p => p,
        };
        if let (Pat::Ident(i), Some(Expr::Lit(l))) = (q, init) {
            if i.mutability.is_none() && i.by_ref.is_none() && i.subpat.is_none() {
                if let Lit::Int(l) = &l.lit {
                    self.bound.push((i.ident.to_string(), l.base10_digits().to_string()));
                }
            }
        }
    }

    fn block_in(&mut self, b: &Block, tail: bool) -> R<Block> {
        let mut stmts = vec![];
        // a constant of the block can be used before its item
        for s in &b.stmts {
            if let Stmt::Item(Item::Const(c)) = s {
                if !cfg_on(&c.attrs) {
                    continue;
                }
                self.consts.push(c.ident.to_string());
                let (i, t, e) = (&c.ident, self.ty(&c.ty)?, self.expr(&c.expr)?);
                stmts.push(parse_quote!(let #i: #t = #e;));
                if let (Expr::Lit(ExprLit { lit: Lit::Int(l), .. }), Type::Path(_)) = (&*c.expr, &*c.ty) {
                    self.bound.push((c.ident.to_string(), l.base10_digits().to_string()));
                }
            }
        }
        for (k, s) in b.stmts.iter().enumerate() {
            match s {
                Stmt::Local(l) => {
                    if !cfg_on(&l.attrs) {
                        continue;
                    }
                    let mut l = l.clone();
                    l.attrs.clear();
                    l.pat = self.pat(&l.pat)?;
                    if let Some(init) = &mut l.init {
                        init.expr = Box::new(self.expr(&init.expr)?);
                        if let Some((_, d)) = &mut init.diverge {
                            **d = self.expr(d)?;
                        }
                    }
                    let src = match s { Stmt::Local(l) => l, _ => unreachable!() };
                    self.bind(&src.pat, src.init.as_ref().filter(|i| i.diverge.is_none()).map(|i| &*i.expr));
                    stmts.push(Stmt::Local(l));
                }
                Stmt::Item(i) => {
                    if !cfg_on(item_attrs(i)) {
                        continue;
                    }
                    match i {
                        Item::Const(_) => {}
                        _ => return self.err("nested item", i.span()),
                    }
                }
                Stmt::Expr(e, semi) => {
                    if !cfg_on(expr_attrs(e)) {
                        continue;
                    }
                    if tail && semi.is_none() && k + 1 == b.stmts.len() {
                        self.mode = Mode::Tail;
                    }
                    let e2 = self.expr(e)?;
                    stmts.push(Stmt::Expr(e2, *semi));
                }
                Stmt::Macro(m) => {
                    if !cfg_on(&m.attrs) {
                        continue;
                    }
                    let name = m.mac.path.segments.last().unwrap().ident.to_string();
                    if m.mac.path.segments.first().unwrap().ident == "tracing"
                        || matches!(name.as_str(), "debug_assert" | "debug_assert_eq" | "debug_assert_ne" | "println" | "eprintln" | "print" | "eprint" | "trace" | "debug" | "info" | "warn" | "dbg")
                    {
                        self.notes.insert(format!("dropped {name}!"));
                        continue;
                    }
                    let e = Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac.clone() });
                    let e2 = self.expr(&e)?;
                    stmts.push(Stmt::Expr(e2, m.semi_token));
                }
            }
        }
        Ok(Block { brace_token: b.brace_token, stmts })
    }

    pub fn pat(&self, p: &Pat) -> R<Pat> {
        let mut p = p.clone();
        struct V<'b, 'a>(&'b Rw<'a>, Option<String>);
        impl<'b, 'a> visit_mut::VisitMut for V<'b, 'a> {
            fn visit_path_mut(&mut self, p: &mut Path) {
                match self.0.path(p) {
                    Ok(q) => *p = q,
                    Err(e) => self.1 = Some(e),
                }
            }
            fn visit_type_mut(&mut self, t: &mut Type) {
                match self.0.ty(t) {
                    Ok(q) => *t = q,
                    Err(e) => self.1 = Some(e),
                }
            }
            fn visit_pat_ident_mut(&mut self, i: &mut PatIdent) {
                i.attrs.clear();
                if self.0.consts.contains(&i.ident.to_string()) {
                    self.1 = Some(format!("pattern with the constant {} of the function", i.ident));
                }
                visit_mut::visit_pat_ident_mut(self, i);
            }
        }
        let mut v = V(self, None);
        visit_mut::VisitMut::visit_pat_mut(&mut v, &mut p);
        match v.1 {
            Some(e) => Err(e),
            None => Ok(p),
        }
    }

    // ---------------------------------------------------------------- expressions

    fn exprs<'b>(&mut self, it: impl Iterator<Item = &'b Expr>) -> R<Vec<Expr>> {
        it.map(|e| self.expr(e)).collect()
    }

    pub fn expr(&mut self, e: &Expr) -> R<Expr> {
        self.depth += 1;
        let r = self.expr_(e);
        self.depth -= 1;
        r
    }

    fn expr_(&mut self, e: &Expr) -> R<Expr> {
        let mode = std::mem::take(&mut self.mode);
        if matches!(e, Expr::Paren(_) | Expr::Group(_) | Expr::Await(_) | Expr::Call(_) | Expr::MethodCall(_)) {
            self.mode = mode;
        }
        Ok(match e {
            Expr::Lit(l) => {
                if let Lit::Str(s) = &l.lit {
                    self.lits.insert(s.value());
                }
                if let Lit::ByteStr(b) = &l.lit {
                    let bytes = b.value();
                    return Ok(ex(quote!(&[#(#bytes),*])));
                }
                if let Lit::Float(_) = &l.lit {
                    return self.err("float literal", e.span());
                }
                e.clone()
            }
            Expr::Path(p) => self.path_expr(p)?,
            Expr::Paren(p) => {
                let i = self.expr(&p.expr)?;
                ex(quote!((#i)))
            }
            Expr::Group(p) => self.expr(&p.expr)?,
            Expr::Block(b) => {
                if b.label.is_some() {
                    return self.err("labelled block", e.span());
                }
                let bl = self.block(&b.block)?;
                ex(quote!(#bl))
            }
            Expr::Unsafe(u) => {
                // the obligations of unsafe operations are the preconditions of their stubs
                let bl = self.block(&u.block)?;
                self.notes.insert("unsafe block: its operations are stubs with preconditions".into());
                ex(quote!(#bl))
            }
            Expr::Await(a) => self.expr(&a.base)?,
            Expr::Async(a) => {
                let bl = self.block(&a.block)?;
                ex(quote!(#bl))
            }
            Expr::Assign(a) => {
                let r = self.expr(&a.right)?;
                let l = self.expr(&a.left)?;
                ex(quote!(#l = #r))
            }
            Expr::Binary(b) => self.binary(b)?,
            Expr::Unary(u) => {
                let i = self.expr(&u.expr)?;
                let op = &u.op;
                ex(quote!(#op #i))
            }
            Expr::Reference(r) => {
                // &x[a..b]
                if let Expr::Index(ix) = &*r.expr {
                    if let Expr::Range(_) = &*ix.index {
                        if r.mutability.is_some() {
                            return self.err("mutable subslice", e.span());
                        }
                        return self.subslice(&ix.expr, &ix.index);
                    }
                    if self.ety(&ix.expr).contains("serde_json::Value") {
                        return self.expr(&r.expr).map(|e| match e {
                            Expr::Unary(u) => *u.expr,
                            x => ex(quote!(&#x)),
                        });
                    }
                }
                let i = self.expr(&r.expr)?;
                let m = &r.mutability;
                ex(quote!(& #m #i))
            }
            Expr::Cast(c) => {
                let i = self.expr(&c.expr)?;
                let t = self.ty(&c.ty)?;
                ex(quote!((#i as #t)))
            }
            Expr::Field(f) => {
                let b = self.expr(&f.base)?;
                let m = &f.member;
                ex(quote!(#b.#m))
            }
            Expr::Tuple(t) => {
                let v = self.exprs(t.elems.iter())?;
                if v.len() == 1 {
                    ex(quote!((#(#v),*,)))
                } else {
                    ex(quote!((#(#v),*)))
                }
            }
            Expr::Array(t) => {
                let v = self.exprs(t.elems.iter())?;
                ex(quote!([#(#v),*]))
            }
            Expr::Repeat(r) => {
                let v = self.expr(&r.expr)?;
                let n = &r.len;
                ex(quote!([#v; #n]))
            }
            Expr::Struct(s) => {
                let p = self.path(&s.path)?;
                let mut fs = vec![];
                for f in &s.fields {
                    let m = &f.member;
                    let v = self.expr(&f.expr)?;
                    fs.push(quote!(#m: #v));
                }
                let rest = match &s.rest {
                    Some(r) => {
                        let r = self.expr(r)?;
                        quote!(, ..#r)
                    }
                    None => quote!(),
                };
                ex(quote!(#p { #(#fs),* #rest }))
            }
            Expr::Index(i) => self.index(i)?,
            Expr::Range(_) => return self.err("range value", e.span()),
            Expr::Return(r) => match &r.expr {
                Some(x) => {
                    self.mode = Mode::Tail;
                    let x = self.expr(x)?;
                    ex(quote!(return #x))
                }
                None => e.clone(),
            },
            Expr::Break(b) => {
                if b.expr.is_some() || b.label.is_some() {
                    return self.err("break with value or label", e.span());
                }
                e.clone()
            }
            Expr::Continue(c) => {
                if c.label.is_some() {
                    return self.err("continue with label", e.span());
                }
                e.clone()
            }
            Expr::If(i) => {
                let c = self.expr(&i.cond)?;
                let t = self.block(&i.then_branch)?;
                match &i.else_branch {
                    Some((_, el)) => {
                        let el = self.expr(el)?;
                        let el = match el {
                            Expr::If(_) | Expr::Block(_) => el,
                            o => ex(quote!({ #o })),
                        };
                        ex(quote!(if #c #t else #el))
                    }
                    None => ex(quote!(if #c #t)),
                }
            }
            Expr::Let(l) => {
                let p = self.pat(&l.pat)?;
                if is_str(&self.ety(&l.expr)) && has_lit_str(&l.pat) {
                    return self.err("if let with text literal", e.span());
                }
                let v = self.expr(&l.expr)?;
                ex(quote!(let #p = #v))
            }
            Expr::Match(m) => self.match_(m)?,
            Expr::Try(t) => self.try_(t)?,
            Expr::While(w) => self.while_(w)?,
            Expr::Loop(l) => {
                let n = self.next_loop();
                let b = self.block(&l.body)?;
                let st = &b.stmts;
                ex(quote!(loop { vx_loop_spec!{#n} vx_loop_begin!{#n} #(#st)* vx_loop_end!{#n} }))
            }
            Expr::ForLoop(f) => self.for_(f)?,
            Expr::Closure(_) => return self.err("closure value", e.span()),
            Expr::Macro(m) => self.macro_(m)?,
            Expr::Call(c) => self.call(c)?,
            Expr::MethodCall(m) => self.method(m)?,
            _ => return self.err(format!("unsupported expression {}", short(e)), e.span()),
        })
    }

    fn next_loop(&mut self) -> usize {
        let n = self.loops;
        self.loops += 1;
        self.loop_consts.insert(n, self.bound.clone());
        n
    }

    fn path_expr(&mut self, p: &ExprPath) -> R<Expr> {
        let (d, t) = self.fo.paths.get(&sp(p)).cloned().unwrap_or_default();
        if let Some(f) = self.cx.statics.get(&d) {
            let f: Path = parse_str(f).unwrap();
            self.calls.insert(d.clone());
            return Ok(ex(quote!((&#f()))));
        }
        if let Some(i) = p.path.get_ident() {
            if self.consts.contains(&i.to_string()) {
                return Ok(ex(quote!(#i)));
            }
        }
        let _ = &t; if d.is_empty() && p.qself.is_none() && p.path.get_ident().is_some() {
            // a local variable
            let i = p.path.get_ident().unwrap();
            return Ok(ex(quote!(#i)));
        }
        if let Some(q) = &p.qself {
            let t = self.ty(&q.ty)?;
            let path = &p.path;
            return Ok(ex(quote!(<#t>::#path)));
        }
        let q = self.path(&p.path)?;
        Ok(ex(quote!(#q)))
    }

    fn subslice(&mut self, base: &Expr, idx: &Expr) -> R<Expr> {
        let Expr::Range(r) = idx else { return self.err("subslice", base.span()) };
        let bt = self.ety(base);
        if is_str(&bt) {
            return self.err("text slicing", base.span());
        }
        let b = self.expr(base)?;
        let a = match &r.start {
            Some(x) => self.expr(x)?,
            None => ex(quote!(0)),
        };
        Ok(match &r.end {
            Some(x) => {
                let z = self.expr(x)?;
                let z = if matches!(r.limits, RangeLimits::Closed(_)) { ex(quote!((#z + 1))) } else { z };
                ex(quote!(crate::ext::vx_subslice(crate::ext::vx_sl(&#b), #a, #z)))
            }
            None => ex(quote!(crate::ext::vx_subslice_from(crate::ext::vx_sl(&#b), #a))),
        })
    }

    fn index(&mut self, i: &ExprIndex) -> R<Expr> {
        if let Expr::Range(_) = &*i.index {
            // a slice in place: only ever used through a reference
            return self.subslice(&i.expr, &i.index);
        }
        let bt = self.ety(&i.expr);
        let b = self.expr(&i.expr)?;
        let x = self.expr(&i.index)?;
        if bt.contains("serde_json::Value") {
            return Ok(ex(quote!((*crate::ext::vx_json_index(&#b, #x)))));
        }
        Ok(ex(quote!(#b[#x])))
    }

    fn binary(&mut self, b: &ExprBinary) -> R<Expr> {
        let lt = self.ety(&b.left);
        let rt = self.ety(&b.right);
        let l = self.expr(&b.left)?;
        let r = self.expr(&b.right)?;
        let op = &b.op;
        if matches!(op, BinOp::Eq(_) | BinOp::Ne(_)) {
            let (ls, rs) = (strip_refs(&lt), strip_refs(&rt));
            if is_prim(ls) && ls == lt && rs == rt {
                return Ok(ex(quote!((#l #op #r))));
            }
            let call = if is_str(&lt) && is_str(&rt) {
                quote!(crate::ext::vx_str_eq(crate::ext::vx_s(&#l), crate::ext::vx_s(&#r)))
            } else if ls == rs && !ls.is_empty() {
                self.cx.check_derived_eq(ls)?;
                let a = if lt.starts_with('&') { quote!(#l) } else { quote!(&#l) };
                let c = if rt.starts_with('&') { quote!(#r) } else { quote!(&#r) };
                if lt.starts_with("&&") || rt.starts_with("&&") {
                    return self.err("comparison of double references", b.span());
                }
                quote!(crate::ext::vx_eq(#a, #c))
            } else if bytes_like(ls) && bytes_like(rs) {
                quote!(crate::ext::vx_bytes_eq(#l.vx_bytes(), #r.vx_bytes()))
            } else {
                return self.err(format!("comparison of {lt} and {rt}"), b.span());
            };
            return Ok(if matches!(op, BinOp::Ne(_)) { ex(quote!((!#call))) } else { ex(quote!(#call)) });
        }
        if matches!(op, BinOp::Add(_)) && is_str(&lt) {
            return Ok(ex(quote!(crate::ext::vx_concat(crate::ext::vx_s(&#l), crate::ext::vx_s(&#r)))));
        }
        if matches!(op, BinOp::AddAssign(_)) && is_str(&lt) {
            return Ok(ex(quote!(crate::ext::vx_push_str(&mut #l, crate::ext::vx_s(&#r)))));
        }
        // compound assignment: keep it, Verus supports it for integers
        if let Some(pop) = compound(op) {
            return Ok(ex(quote!(#l = #l #pop #r)));
        }
        if matches!(op, BinOp::And(_) | BinOp::Or(_)) {
            return Ok(ex(quote!((#l #op #r))));
        }
        Ok(ex(quote!((#l #op #r))))
    }

    /// match; text literals become comparisons
    fn match_(&mut self, m: &ExprMatch) -> R<Expr> {
        let t = self.ety(&m.expr);
        if is_str(&t) && m.arms.iter().any(|a| has_lit_str(&a.pat)) {
            let v = format_ident!("vx_m{}", self.depth);
            let s = self.expr(&m.expr)?;
            let mut chain: Vec<(TokenStream, TokenStream)> = vec![];
            let mut last: Option<TokenStream> = None;
            for a in &m.arms {
                let body = self.expr(&a.body)?;
                let guard = match &a.guard {
                    Some((_, g)) => Some(self.expr(g)?),
                    None => None,
                };
                if let Some(lits) = lit_strs(&a.pat) {
                    for l in &lits {
                        self.lits.insert(l.clone());
                    }
                    let mut c = quote!((#(crate::ext::vx_str_eq(#v, #lits))||*));
                    if let Some(g) = guard {
                        c = quote!(#c && #g);
                    }
                    chain.push((c, quote!({ #body })));
                } else if let Pat::Wild(_) = &a.pat {
                    match guard {
                        Some(g) => chain.push((quote!(#g), quote!({ #body }))),
                        None => {
                            last = Some(quote!({ #body }));
                            break;
                        }
                    }
                } else if let Pat::Ident(i) = &a.pat {
                    let id = &i.ident;
                    match guard {
                        Some(_) => return self.err("guarded binding of a text", a.pat.span()),
                        None => {
                            last = Some(quote!({ let #id = #v; #body }));
                            break;
                        }
                    }
                } else {
                    return self.err("text pattern", a.pat.span());
                }
            }
            let Some(last) = last else { return self.err("text match without default", m.span()) };
            let mut out = last;
            for (c, b) in chain.into_iter().rev() {
                out = quote!(if #c #b else { #out });
            }
            return Ok(ex(quote!({ let #v = crate::ext::vx_s(&#s); #out })));
        }
        if m.arms.iter().any(|a| has_lit_str(&a.pat)) {
            return self.err("text literal inside a pattern", m.span());
        }
        let s = self.expr(&m.expr)?;
        let mut arms = vec![];
        for a in &m.arms {
            if !cfg_on(&a.attrs) {
                continue;
            }
            let p = self.pat(&a.pat)?;
            let g = match &a.guard {
                Some((_, g)) => {
                    let g = self.expr(g)?;
                    quote!(if #g)
                }
                None => quote!(),
            };
            let b = self.expr(&a.body)?;
            let b = match b {
                Expr::Block(_) => quote!(#b),
                _ => quote!({ #b }),
            };
            arms.push(quote!(#p #g => #b));
        }
        Ok(ex(quote!(match #s { #(#arms),* })))
    }

    /// `x?` on Result and Option, with the conversion of the error made explicit
    fn try_(&mut self, t: &ExprTry) -> R<Expr> {
        let ot = self.ety(&t.expr);
        self.mode = Mode::Try;
        let inner = self.expr(&t.expr)?;
        let v = format_ident!("vx_v{}", self.depth);
        match ty_head(&ot) {
            "std::option::Option" => Ok(ex(quote!((match #inner { Some(#v) => #v, None => return None })))),
            "std::result::Result" => {
                let conv = self.try_conv(&ot)?;
                let e = format_ident!("vx_e{}", self.depth);
                let c = match conv {
                    None => quote!(#e),
                    Some(c) => quote!(#c(#e)),
                };
                Ok(ex(quote!((match #inner { Ok(#v) => #v, Err(#e) => return Err(#c) }))))
            }
            "" => self.err("type of ? operand unknown", t.span()),
            o => self.err(format!("? on {o}"), t.span()),
        }
    }

    fn try_conv(&mut self, operand: &str) -> R<Option<TokenStream>> {
        let e1 = ty_args(operand).get(1).cloned().unwrap_or_else(|| "?".into());
        let e2 = self.cx.fn_err.borrow().clone();
        if e2.is_empty() || e1 == e2 {
            return Ok(None);
        }
        if ty_head(&e2) == "std::boxed::Box" && e2.contains("dyn") {
            return Ok(Some(quote!(crate::ext::vx_box_err)));
        }
        Ok(Some(quote!(core::convert::From::from)))
    }

    fn while_(&mut self, w: &ExprWhile) -> R<Expr> {
        let n = self.next_loop();
        if let Expr::Let(l) = &*w.cond {
            let p = self.pat(&l.pat)?;
            let v = self.expr(&l.expr)?;
            let b = self.block(&w.body)?;
            let st = &b.stmts;
            return Ok(ex(quote!(loop { vx_loop_spec!{#n} let #p = #v else { break; }; vx_loop_begin!{#n} #(#st)* vx_loop_end!{#n} })));
        }
        let c = self.expr(&w.cond)?;
        let b = self.block(&w.body)?;
        let st = &b.stmts;
        Ok(ex(quote!(while #c { vx_loop_spec!{#n} vx_loop_begin!{#n} #(#st)* vx_loop_end!{#n} })))
    }

    /// an expression of iterator type, as a VxIter
    /// an iterator whose steps act on the world outside
    fn acting(t: &str) -> bool {
        t.starts_with("impl std::iter::Iterator<Item = ") && t.contains("easy_upnp::")
    }

    /// the arguments of `next` on the source last looked at
    fn next_args(&mut self) -> TokenStream {
        if self.acts {
            self.world = true;
            quote!(vx_w)
        } else {
            quote!()
        }
    }

    fn iter_source(&mut self, e: &Expr, t: &str) -> R<Expr> {
        let r = self.iter_source_(e, t);
        self.acts = Self::acting(strip_refs(t));
        r
    }

    fn iter_source_(&mut self, e: &Expr, t: &str) -> R<Expr> {
        let h = strip_refs(t);
        let by_ref = t.starts_with('&');
        let head = ty_head(t);
        if let Expr::Range(r) = e {
            let (Some(a), Some(z)) = (&r.start, &r.end) else { return self.err("open range", e.span()) };
            let (a, z) = (self.expr(a)?, self.expr(z)?);
            if matches!(r.limits, RangeLimits::Closed(_)) {
                return self.err("closed range", e.span());
            }
            return Ok(ex(quote!(crate::ext::vx_range(#a as u64, #z as u64))));
        }
        let x = self.expr(e)?;
        if head == "std::vec::Vec" || h.starts_with('[') {
            if by_ref {
                if t.starts_with("&mut") {
                    return self.err("mutable iteration", e.span());
                }
                return Ok(ex(quote!(crate::ext::vx_iter(crate::ext::vx_sl(#x)))));
            }
            if h.starts_with('[') {
                return Ok(ex(quote!(crate::ext::vx_into_iter_arr(#x))));
            }
            return Ok(ex(quote!(crate::ext::vx_into_iter(#x))));
        }
        if head == "std::collections::VecDeque" || head == "std::collections::HashSet" || head == "std::collections::HashMap" {
            return if by_ref { Ok(ex(quote!((#x).iter()))) } else { Ok(ex(quote!((#x).into_iter()))) };
        }
        if head == "std::option::Option" {
            return self.err("iteration over Option", e.span());
        }
        Ok(x)
    }

    /// a loop over a literal list: its body once per element
    fn unrolled(&mut self, f: &ExprForLoop) -> R<Option<Expr>> {
        let Some((list, by_ref)) = literal_list(&f.expr) else { return Ok(None) };
        if list.len() > 16 || f.label.is_some() || leaves_loop(&f.body) {
            return Ok(None);
        }
        let before = self.loops;
        let d = self.depth;
        let mut out = quote!();
        let names: Vec<Ident> = (0..list.len()).map(|i| format_ident!("vx_ul{}_{}", d, i)).collect();
        for (n, e) in names.iter().zip(&list) {
            let e = self.expr(e)?;
            out.extend(quote!(let #n = #e;));
        }
        let p = self.pat(&f.pat)?;
        let b = self.block(&f.body)?;
        if self.loops != before {
            return self.err("loop inside a loop over a literal list", f.span());
        }
        let st = &b.stmts;
        for n in &names {
            let v = if by_ref { quote!(&#n) } else { quote!(#n) };
            out.extend(quote!({ let #p = #v; #(#st)* }));
        }
        Ok(Some(ex(quote!({ #out }))))
    }

    fn for_(&mut self, f: &ExprForLoop) -> R<Expr> {
        if let Some(e) = self.unrolled(f)? {
            return Ok(e);
        }
        let mut t = self.ety(&f.expr);
        if t.starts_with("std::vec::IntoIter<") || t.starts_with("std::collections::") {
            const OWN: [&str; 6] = ["std::vec::Vec", "std::collections::VecDeque", "std::collections::HashSet", "std::collections::HashMap", "std::collections::BTreeSet", "std::collections::BTreeMap"];
            if let Some(o) = self.fo.seen.get(&sp(&f.expr)).and_then(|v| v.iter().find(|t| OWN.contains(&ty_head(t)))) {
                t = o.clone();
            }
        }
        let n = self.next_loop();
        let src = self.iter_chain(&f.expr, &t)?;
        let na = self.next_args();
        if !src.1.is_empty() {
            // adaptors in the header of a for loop
            let body = self.block(&f.body)?;
            let p = self.pat(&f.pat)?;
            let st = &body.stmts;
            let it = format_ident!("vx_it{}", n);
            let item = format_ident!("vx_x{}", n);
            let inner = quote!({ let #p = #item; #(#st)* });
            if src.1.iter().any(|s| matches!(s, Stage::Filter(_) | Stage::FilterMap(_))) && contains_continue(&f.body) {
                return self.err("continue below an adaptor", f.span());
            }
            let staged = self.stages(&src.1, &item, inner)?;
            let s0 = src.0;
            return Ok(ex(quote!({ let mut #it = #s0; loop { vx_loop_spec!{#n} let Some(#item) = #it.next(#na) else { break; }; vx_loop_begin!{#n} #staged vx_loop_end!{#n} } })));
        }
        let s = src.0;
        let p = self.pat(&f.pat)?;
        let b = self.block(&f.body)?;
        let st = &b.stmts;
        let it = format_ident!("vx_it{}", n);
        Ok(ex(quote!({ let mut #it = #s; loop { vx_loop_spec!{#n} let Some(#p) = #it.next(#na) else { break; }; vx_loop_begin!{#n} #(#st)* vx_loop_end!{#n} } })))
    }

    /// a slice made an array
    fn try_array(&mut self, ret_args: &[String], args: &[Expr]) -> R<Option<Expr>> {
        let Some(t) = ret_args.first() else { return Ok(None) };
        let Some((_, n)) = t.strip_prefix('[').and_then(|t| t.strip_suffix(']')).and_then(|t| t.rsplit_once("; ")) else { return Ok(None) };
        let Ok(n) = n.trim_end_matches("usize").parse::<usize>() else { return Ok(None) };
        let n = proc_macro2::Literal::usize_unsuffixed(n);
        Ok(Some(ex(quote!(crate::ext::vx_try_arr::<_, #n>(#(crate::ext::vx_sl(&#args)),*)))))
    }

    /// splits an iterator expression into its source and adaptor stages
    fn iter_chain(&mut self, e: &Expr, t: &str) -> R<(Expr, Vec<Stage>)> {
        if let Expr::MethodCall(m) = e {
            let (d, rt) = self.mdef(m);
            if d == "core::slice::<impl [T]>::iter" {
                let x = self.expr(&m.receiver)?;
                let sl = self.slref(&m.receiver, &x);
                self.acts = false;
                return Ok((ex(quote!(crate::ext::vx_iter(#sl))), vec![]));
            }
            if d == "std::iter::IntoIterator::into_iter" {
                let recv_t = self.ety(&m.receiver);
                if rt.starts_with("std::") && !["std::vec::Vec", "std::collections::VecDeque", "std::collections::HashSet", "std::collections::HashMap"].contains(&ty_head(&rt)) {
                    return self.iter_chain(&m.receiver, &recv_t);
                }
                return Ok((self.iter_source(&m.receiver, &rt)?, vec![]));
            }
            let name = m.method.to_string();
            if d.starts_with("std::iter::Iterator::") {
                let rt2 = self.ety(&m.receiver);
                let arg = m.args.first().cloned();
                if matches!(name.as_str(), "rev" | "take" | "skip" | "enumerate" | "zip" | "chain") {
                    let (s, st) = self.iter_chain(&m.receiver, &rt2)?;
                    if !st.is_empty() {
                        return self.err(format!("iterator adaptor {name} after others"), m.span());
                    }
                    let f = format_ident!("vx_it_{}", name);
                    let a = match (name.as_str(), arg) {
                        ("zip" | "chain", Some(a)) => {
                            let at = self.ety(&a);
                            let (o, st) = self.iter_chain(&a, &at)?;
                            if !st.is_empty() {
                                return self.err(format!("iterator adaptor {name} with adaptors"), m.span());
                            }
                            quote!(, #o)
                        }
                        (_, Some(a)) => {
                            let a = self.expr(&a)?;
                            quote!(, #a)
                        }
                        _ => quote!(),
                    };
                    return Ok((ex(quote!(crate::ext::#f(#s #a))), vec![]));
                }
                let stage = match (name.as_str(), arg) {
                    ("map", Some(a)) => Stage::Map(a),
                    ("filter", Some(a)) => Stage::Filter(a),
                    ("filter_map", Some(a)) => Stage::FilterMap(a),
                    ("inspect", Some(_)) => return self.err("inspect", m.span()),
                    ("cloned", None) | ("copied", None) => Stage::Cloned,
                    ("by_ref", None) => {
                        return self.iter_chain(&m.receiver, &rt2);
                    }
                    _ => return self.err(format!("iterator adaptor {name}"), m.span()),
                };
                let (s, mut st) = self.iter_chain(&m.receiver, &rt2)?;
                st.push(stage);
                return Ok((s, st));
            }
        }
        Ok((self.iter_source(e, t)?, vec![]))
    }

    /// code that feeds `item` through the stages and runs `sink` (which uses `item`)
    fn stages(&mut self, st: &[Stage], item: &Ident, sink: TokenStream) -> R<TokenStream> {
        let Some(s) = st.first() else { return Ok(sink) };
        let rest = self.stages(&st[1..], item, sink)?;
        Ok(match s {
            Stage::Map(f) => {
                let v = self.apply(f, quote!(#item))?;
                quote!({ let #item = #v; #rest })
            }
            Stage::Filter(f) => {
                let v = self.apply(f, quote!(&#item))?;
                quote!(if #v { #rest })
            }
            Stage::FilterMap(f) => {
                let v = self.apply(f, quote!(#item))?;
                quote!(if let Some(#item) = #v { #rest })
            }
            Stage::Cloned => quote!({ let #item = crate::ext::vx_clone(#item); #rest }),
        })
    }

    /// applies a closure expression or a function path to an argument
    fn apply(&mut self, f: &Expr, arg: TokenStream) -> R<TokenStream> {
        self.applyn(f, vec![arg])
    }

    fn applyn(&mut self, f: &Expr, args: Vec<TokenStream>) -> R<TokenStream> {
        match f {
            Expr::Closure(c) => {
                if leaves(&c.body) {
                    // early exits would leave the closure, not the function
                    return self.err("early exit inside a closure", c.span());
                }
                if c.inputs.len() != args.len() {
                    return self.err("closure arity", c.span());
                }
                let mut lets = vec![];
                for (p, a) in c.inputs.iter().zip(args) {
                    let p = match p {
                        Pat::Type(t) => self.pat(&t.pat)?,
                        p => self.pat(p)?,
                    };
                    match &p {
                        Pat::Wild(_) => lets.push(quote!(let _ = #a;)),
                        _ => lets.push(quote!(let #p = #a;)),
                    }
                }
                let body = match &*c.body {
                    Expr::Async(a) => {
                        let b = self.block(&a.block)?;
                        ex(quote!(#b))
                    }
                    b => self.expr(b)?,
                };
                Ok(quote!({ #(#lets)* #body }))
            }
            Expr::Path(p) => {
                let args: Vec<Expr> = args.into_iter().map(|a| Expr::Verbatim(a)).collect();
                let e = self.call_path(p, args, "")?;
                Ok(quote!(#e))
            }
            Expr::Reference(r) => self.applyn(&r.expr, args),
            _ => self.err("function value", f.span()),
        }
    }

    fn mdef(&self, m: &ExprMethodCall) -> (String, String) {
        let s = m.method.span().start();
        self.fo.methods.get(&(s.line, s.column)).cloned().unwrap_or_default()
    }

    // ---------------------------------------------------------------- calls

    fn call(&mut self, c: &ExprCall) -> R<Expr> {
        let func = match &*c.func {
            Expr::Paren(p) => &p.expr,
            f => f,
        };
        let mode = std::mem::take(&mut self.mode);
        let rt = self.ety(&Expr::Call(c.clone()));
        if let Expr::Path(p) = func {
            if let Some(i) = p.path.get_ident() {
                if self.callbacks.contains(&i.to_string()) {
                    let args = self.exprs(c.args.iter())?;
                    self.world = true;
                    return Ok(ex(quote!(#i.vx_call((#(#args,)*), vx_w))));
                }
            }
            let d = self.fo.paths.get(&sp(p)).cloned().unwrap_or_default().0;
            // the handler itself is a function of its own
            if (d == "axum::routing::get" || d == "axum::routing::post") && matches!(c.args.first(), Some(Expr::Closure(_))) {
                let post = d.ends_with("post");
                return Ok(ex(quote!(crate::web::on_method(#post))));
            }
            let av: Vec<&Expr> = c.args.iter().collect();
            if let Some(e) = self.inline(&d, None, &av, mode)? {
                return Ok(e);
            }
            let args = self.exprs(c.args.iter())?;
            return self.call_path(p, args, &rt);
        }
        self.err("call of a function value", c.span())
    }

    fn call_path(&mut self, p: &ExprPath, args: Vec<Expr>, _rt: &str) -> R<Expr> {
        let (d, t) = self.fo.paths.get(&sp(p)).cloned().unwrap_or_default();
        // the exact callee, when a trait function is named: fn(..) -> .. {<X as Trait>::f}
        let inst = t.rfind(" {").map(|i| t[i + 2..].trim_end_matches('}').to_string()).unwrap_or_default();
        let ret = t.rfind(" {").map(|i| &t[..i]).and_then(|s| s.split_once(") -> ").map(|x| x.1.to_string())).unwrap_or_default();
        match d.as_str() {
            "std::convert::From::from" | "std::convert::Into::into" => {
                let target = ty_head(&ret).to_string();
                let src = t.strip_prefix("fn(").and_then(|s| s.split_once(") -> ")).map(|x| x.0.to_string()).unwrap_or_default();
                if target == "std::string::String" {
                    return Ok(ex(quote!(crate::ext::vx_string_from(#(crate::ext::vx_s(&#args)),*))));
                }
                if ret.starts_with("std::boxed::Box<dyn") {
                    return Ok(ex(quote!(crate::ext::vx_box_err(#(#args),*))));
                }
                if target == "std::collections::VecDeque" {
                    return Ok(ex(quote!(crate::ext::VxDeque::from(#(#args),*))));
                }
                if target == "std::path::PathBuf" {
                    return Ok(ex(quote!(crate::ext::PathBuf::vx_from(#(#args),*))));
                }
                if target == "std::vec::Vec" && bytes_like(strip_refs(&src)) {
                    return Ok(ex(quote!(#(#args.vx_bytes().to_vec()),*)));
                }
                let tt = self.ty_of_str(&ret)?;
                if is_prim(&ret) {
                    return Ok(ex(quote!((#(#args),* as #tt))));
                }
                self.note_call(&d, &inst);
                return Ok(ex(quote!(<#tt as core::convert::From<_>>::from(#(#args),*))));
            }
            "std::clone::Clone::clone" => return Ok(ex(quote!(crate::ext::vx_clone(#(#args),*)))),
            "std::default::Default::default" => {
                return self.default_of(&ret);
            }
            "std::string::ToString::to_string" => return Ok(ex(quote!(crate::ext::vx_to_string(#(#args),*)))),
            "std::borrow::ToOwned::to_owned" => return Ok(ex(quote!(crate::ext::vx_clone(#(#args),*)))),
            "std::boxed::Box::<T>::new" if t.contains("dyn ") => {}
            "std::mem::replace" => return Ok(ex(quote!(crate::ext::vx_mem_replace(#(#args),*)))),
            "std::mem::swap" => return Ok(ex(quote!(crate::ext::vx_mem_swap(#(#args),*)))),
            "std::mem::take" => match ty_head(&ret) {
                "std::vec::Vec" => return Ok(ex(quote!(crate::ext::vx_take_vec(#(#args),*)))),
                "std::string::String" => return Ok(ex(quote!(crate::ext::vx_take_string(#(#args),*)))),
                "std::option::Option" => return Ok(ex(quote!(crate::ext::vx_take(#(#args),*)))),
                _ => return self.err(format!("take of {ret}"), p.span()),
            },
            "std::str::from_utf8" => return Ok(ex(quote!(crate::ext::vx_from_utf8(#(crate::ext::vx_sl(&#args)),*)))),
            "std::mem::drop" => return Ok(ex(quote!({ let _ = #(#args),*; }))),
            "core::num::<impl u64>::from_be_bytes" => return Ok(ex(quote!(crate::ext::vx_u64_from_be(#(#args),*)))),
            "core::num::<impl u64>::from_le_bytes" => return Ok(ex(quote!(crate::ext::vx_u64_from_le(#(#args),*)))),
            "std::option::Option::<T>::is_some" | "std::option::Option::<T>::is_none" => {}
            "core::str::<impl str>::len" | "std::string::String::len" => return Ok(ex(quote!(crate::ext::vx_str_len(#(crate::ext::vx_s(&#args)),*)))),
            "std::convert::TryFrom::try_from" | "std::convert::TryInto::try_into" => {
                let a = ty_args(&ret);
                if a.first().map(|s| s == "u32").unwrap_or(false) {
                    return Ok(ex(quote!(crate::ext::vx_u32_try_from(#(#args),*))));
                }
                if let Some(x) = self.try_array(&a, &args)? {
                    return Ok(x);
                }
                return self.err(format!("conversion {ret}"), p.span());
            }
            _ => {}
        }
        self.note_call(&d, &inst);
        // FromStr is turned into an inherent function of the type
        if d == "std::str::FromStr::from_str" {
            let target = ty_args(&ret).first().cloned().unwrap_or_default();
            let tt = self.ty_of_str(&target)?;
            return Ok(ex(quote!(<#tt>::from_str(#(#args),*))));
        }
        let mut args = args;
        if self.cx.is_effect(&d, &inst) {
            self.world = true;
            args.push(ex(quote!(vx_w)));
        }
        let f = self.path_expr(p)?;
        Ok(ex(quote!(#f(#(#args),*))))
    }

    fn default_of(&mut self, t: &str) -> R<Expr> {
        let h = ty_head(t);
        Ok(match h {
            "std::vec::Vec" => ex(quote!(Vec::new())),
            "std::string::String" => ex(quote!(String::new())),
            "std::option::Option" => ex(quote!(None)),
            "bool" => ex(quote!(false)),
            x if is_prim(x) => ex(quote!(0)),
            _ => {
                let tt = self.ty_of_str(t)?;
                self.note_call("std::default::Default::default", &format!("<{t} as std::default::Default>::default"));
                ex(quote!(<#tt>::default()))
            }
        })
    }

    fn note_call(&mut self, d: &str, inst: &str) {
        self.calls.insert(d.to_string());
        if !inst.is_empty() {
            self.calls.insert(inst.to_string());
        }
    }

    /// the body of a local helper that has no contract, in place of the call
    fn inline(&mut self, d: &str, recv: Option<(&Expr, &str)>, args: &[&Expr], mode: Mode) -> R<Option<Expr>> {
        let k = crate::ctx::norm(d);
        if self.stack.contains(&k) || self.stack.len() > 3 {
            return Ok(None);
        }
        let Some(h) = (self.helper)(&k) else { return Ok(None) };
        let (any, other) = exits(h.block);
        let cur = self.cx.fn_err.borrow().clone();
        let ok = match mode {
            _ if !any => true,
            Mode::Tail => cur == h.err || cur.is_empty(),
            Mode::Try => !other && cur == h.err,
            Mode::No => false,
        };
        if !ok || !h.sig.generics.params.is_empty() {
            return Ok(None);
        }
        let n = self.depth + 100 * (self.stack.len() + 1);
        let mut lets: Vec<TokenStream> = vec![];
        let mut binds: Vec<TokenStream> = vec![];
        let mut block = h.block.clone();
        let mut ai = 0usize;
        for a in &h.sig.inputs {
            match a {
                FnArg::Receiver(r) => {
                    let Some((re, rt)) = recv else { return Ok(None) };
                    let is_self = matches!(re, Expr::Path(p) if p.path.is_ident("self"));
                    if is_self {
                        continue;
                    }
                    let s = format_ident!("vx_self{}", n);
                    let x = self.expr(re)?;
                    let x = if r.reference.is_some() && !rt.starts_with('&') {
                        let mu = &r.mutability;
                        quote!(&#mu #x)
                    } else {
                        quote!(#x)
                    };
                    lets.push(quote!(let #s = #x;));
                    block = match syn::parse2::<Block>(rename_self(block.to_token_stream(), &s.to_string())) {
                        Ok(b) => b,
                        Err(_) => return Ok(None),
                    };
                }
                FnArg::Typed(t) => {
                    let Some(x) = args.get(ai) else { return Ok(None) };
                    ai += 1;
                    let x = self.expr(x)?;
                    let s = format_ident!("vx_a{}_{}", n, ai);
                    let p = self.pat(&t.pat)?;
                    if matches!(&*t.ty, Type::ImplTrait(_)) {
                        lets.push(quote!(let #s = #x;));
                    } else {
                        let ty = self.ty(&t.ty)?;
                        lets.push(quote!(let #s: #ty = #x;));
                    }
                    binds.push(quote!(let #p = #s;));
                }
            }
        }
        self.stack.push(k.clone());
        let fo = std::mem::replace(&mut self.fo, h.fo);
        let old = std::mem::replace(&mut *self.cx.fn_err.borrow_mut(), h.err.clone());
        let b = if mode == Mode::Tail { self.body(&block) } else { self.block(&block) };
        self.fo = fo;
        *self.cx.fn_err.borrow_mut() = old;
        self.stack.pop();
        let b = b?;
        let st = &b.stmts;
        self.inlined.push(k);
        Ok(Some(ex(quote!({ #(#lets)* #(#binds)* #(#st)* }))))
    }

    pub fn default_of_type(&mut self, t: &Type) -> R<Expr> {
        let s = t.to_token_stream().to_string();
        let h = s.split('<').next().unwrap().trim().rsplit("::").next().unwrap().trim().to_string();
        Ok(match h.as_str() {
            "Vec" => ex(quote!(Vec::new())),
            "String" => ex(quote!(String::new())),
            "Option" => ex(quote!(None)),
            "bool" => ex(quote!(false)),
            x if is_prim(x) => ex(quote!(0)),
            _ => {
                let tt = self.ty(t)?;
                let txt = tt.to_token_stream().to_string().replace(' ', "");
                self.calls.insert(format!("{}::default", txt.trim_start_matches("crate::")));
                ex(quote!(<#tt>::default()))
            }
        })
    }

    /// a closure given as an endpoint's handler, which stands for itself
    fn handler(&mut self, e: &Expr) -> R<Option<Expr>> {
        match e {
            Expr::Block(b) => {
                let Some((Stmt::Expr(last, None), before)) = b.block.stmts.split_last() else { return Ok(None) };
                let Some(h) = self.handler(last)? else { return Ok(None) };
                let mut lets = vec![];
                for s in before {
                    match s {
                        // what it captures is shared, not changed
                        Stmt::Local(Local { pat: Pat::Ident(_), init: Some(i), .. }) if i.diverge.is_none() => {
                            let x = self.expr(&i.expr)?;
                            lets.push(quote!(let _ = #x;));
                        }
                        _ => return Ok(None),
                    }
                }
                Ok(Some(ex(quote!({ #(#lets)* #h }))))
            }
            Expr::Closure(c) => {
                let at = match &*c.body {
                    Expr::Async(a) => crate::load::span4(a.block.brace_token.span.join()),
                    Expr::Block(b) => match b.block.stmts.as_slice() {
                        [Stmt::Expr(Expr::Async(a), None)] => crate::load::span4(a.block.brace_token.span.join()),
                        _ => return Ok(None),
                    },
                    _ => return Ok(None),
                };
                let Some(ret) = self.fo.exprs.get(&at).cloned() else { return Ok(None) };
                let ret = self.cx.type_of_oracle(&ret)?;
                let mut ins = vec![];
                for (n, i) in c.inputs.iter().enumerate() {
                    match i {
                        Pat::Type(t) => {
                            let t = self.ty(&t.ty)?;
                            ins.push(quote!(#t));
                        }
                        _ if n == 0 => ins.push(quote!(crate::ext::SocketAddr)),
                        _ => return Ok(None),
                    }
                }
                Ok(Some(ex(quote!(crate::web::vx_handler::<(#(#ins,)*), #ret>()))))
            }
            _ => Ok(None),
        }
    }

    fn method(&mut self, m: &ExprMethodCall) -> R<Expr> {
        let mode = std::mem::take(&mut self.mode);
        let (d, rt) = self.mdef(m);
        let name = m.method.to_string();
        let me = Expr::MethodCall(m.clone());
        let mut res_t = self.ety(&me);
        // the header of a `for` loop has the iterator's type as well as its own
        if name.starts_with("unwrap") && res_t.contains("::IntoIter<") {
            let rt = self.ety(&m.receiver);
            if let Some(t) = ty_args(&rt).first() {
                res_t = t.clone();
            }
        }
        let v = format_ident!("vx_v{}", self.depth);
        let e = format_ident!("vx_e{}", self.depth);

        // ---- a handler given to the HTTP server is a function of its own
        if d.starts_with("http::server::HttpServer::") && m.args.len() == 2 {
            if let Some(h) = self.handler(&m.args[1])? {
                self.note_call(&d, &rt);
                let recv = self.expr(&m.receiver)?;
                let path = self.expr(&m.args[0])?;
                let f = &m.method;
                return Ok(ex(quote!(#recv.#f(#path, #h))));
            }
        }
        // ---- iterator pipelines
        if d.starts_with("std::iter::Iterator::") {
            return self.sink(m, &name, &res_t);
        }
        // ---- Option
        if d.starts_with("std::option::Option::<") {
            let args: Vec<&Expr> = m.args.iter().collect();
            let r = self.expr(&m.receiver)?;
            let out = match name.as_str() {
                "map" => {
                    let b = self.apply(args[0], quote!(#v))?;
                    quote!((match #r { Some(#v) => Some(#b), None => None }))
                }
                "and_then" => {
                    let b = self.apply(args[0], quote!(#v))?;
                    quote!((match #r { Some(#v) => #b, None => None }))
                }
                "filter" => {
                    let b = self.apply(args[0], quote!(&#v))?;
                    quote!((match #r { Some(#v) => if #b { Some(#v) } else { None }, None => None }))
                }
                "ok_or_else" => {
                    let b = self.applyn(args[0], vec![])?;
                    quote!((match #r { Some(#v) => Ok(#v), None => Err(#b) }))
                }
                "ok_or" => {
                    let b = self.expr(args[0])?;
                    quote!({ let #v = #r; let #e = #b; match #v { Some(#v) => Ok(#v), None => Err(#e) } })
                }
                "unwrap_or_else" => {
                    let b = self.applyn(args[0], vec![])?;
                    quote!((match #r { Some(#v) => #v, None => #b }))
                }
                "unwrap_or" => {
                    let b = self.expr(args[0])?;
                    quote!({ let #v = #r; let #e = #b; match #v { Some(#v) => #v, None => #e } })
                }
                "unwrap_or_default" => {
                    let b = self.default_of(&res_t)?;
                    quote!((match #r { Some(#v) => #v, None => #b }))
                }
                "or_else" => {
                    let b = self.applyn(args[0], vec![])?;
                    quote!((match #r { Some(#v) => Some(#v), None => #b }))
                }
                "or" => {
                    let b = self.expr(args[0])?;
                    quote!({ let #v = #r; let #e = #b; match #v { Some(#v) => Some(#v), None => #e } })
                }
                "map_or" => {
                    let dft = self.expr(args[0])?;
                    let b = self.apply(args[1], quote!(#v))?;
                    quote!({ let #v = #r; let #e = #dft; match #v { Some(#v) => #b, None => #e } })
                }
                "map_or_else" => {
                    let dft = self.applyn(args[0], vec![])?;
                    let b = self.apply(args[1], quote!(#v))?;
                    quote!((match #r { Some(#v) => #b, None => #dft }))
                }
                "is_some_and" => {
                    let b = self.apply(args[0], quote!(#v))?;
                    quote!((match #r { Some(#v) => #b, None => false }))
                }
                "is_none_or" => {
                    let b = self.apply(args[0], quote!(#v))?;
                    quote!((match #r { Some(#v) => #b, None => true }))
                }
                "is_some" => quote!((match &#r { Some(_) => true, None => false })),
                "is_none" => quote!((match &#r { Some(_) => false, None => true })),
                "cloned" | "copied" => quote!((match #r { Some(#v) => Some(crate::ext::vx_clone(#v)), None => None })),
                "as_ref" => quote!((match &#r { Some(#v) => Some(#v), None => None })),
                "as_deref" => quote!((match &#r { Some(#v) => Some(&**#v), None => None })),
                "transpose" => quote!((match #r { Some(Ok(#v)) => Ok(Some(#v)), Some(Err(#v)) => Err(#v), None => Ok(None) })),
                "flatten" => quote!((match #r { Some(#v) => #v, None => None })),
                "unwrap" | "expect" => quote!(crate::ext::vx_unwrap_opt(#r)),
                "unwrap_unchecked" => quote!(crate::ext::vx_unwrap_opt(#r)),
                "take" => quote!(crate::ext::vx_take(&mut #r)),
                _ => return self.err(format!("Option::{name}"), m.span()),
            };
            return Ok(ex(out));
        }
        // ---- Result
        if d.starts_with("std::result::Result::<") {
            let args: Vec<&Expr> = m.args.iter().collect();
            let r = self.expr(&m.receiver)?;
            let out = match name.as_str() {
                "map" => {
                    let b = self.apply(args[0], quote!(#v))?;
                    quote!((match #r { Ok(#v) => Ok(#b), Err(#e) => Err(#e) }))
                }
                "map_err" => {
                    let b = self.apply(args[0], quote!(#e))?;
                    quote!((match #r { Ok(#v) => Ok(#v), Err(#e) => Err(#b) }))
                }
                "and_then" => {
                    let b = self.apply(args[0], quote!(#v))?;
                    quote!((match #r { Ok(#v) => #b, Err(#e) => Err(#e) }))
                }
                "or_else" => {
                    let b = self.apply(args[0], quote!(#e))?;
                    quote!((match #r { Ok(#v) => Ok(#v), Err(#e) => #b }))
                }
                "ok" => quote!((match #r { Ok(#v) => Some(#v), Err(_) => None })),
                "err" => quote!((match #r { Ok(_) => None, Err(#e) => Some(#e) })),
                "is_ok" => quote!((match &#r { Ok(_) => true, Err(_) => false })),
                "is_err" => quote!((match &#r { Ok(_) => false, Err(_) => true })),
                "is_ok_and" => {
                    let b = self.apply(args[0], quote!(#v))?;
                    quote!((match #r { Ok(#v) => #b, Err(_) => false }))
                }
                "unwrap_or" => {
                    let b = self.expr(args[0])?;
                    quote!({ let #v = #r; let #e = #b; match #v { Ok(#v) => #v, Err(_) => #e } })
                }
                "unwrap_or_else" => {
                    let b = self.apply(args[0], quote!(#e))?;
                    quote!((match #r { Ok(#v) => #v, Err(#e) => #b }))
                }
                "unwrap_or_default" => {
                    let b = self.default_of(&res_t)?;
                    quote!((match #r { Ok(#v) => #v, Err(_) => #b }))
                }
                "map_or" => {
                    let dft = self.expr(args[0])?;
                    let b = self.apply(args[1], quote!(#v))?;
                    quote!({ let #v = #r; let #e = #dft; match #v { Ok(#v) => #b, Err(_) => #e } })
                }
                "map_or_else" => {
                    let dft = self.apply(args[0], quote!(#e))?;
                    let b = self.apply(args[1], quote!(#v))?;
                    quote!((match #r { Ok(#v) => #b, Err(#e) => #dft }))
                }
                "unwrap" | "expect" => quote!(crate::ext::vx_unwrap_res(#r)),
                "unwrap_unchecked" => quote!(crate::ext::vx_unwrap_res(#r)),
                _ => return self.err(format!("Result::{name}"), m.span()),
            };
            return Ok(ex(out));
        }
        // ---- slices
        match d.as_str() {
            "core::slice::<impl [T]>::copy_from_slice" | "core::slice::<impl [T]>::clone_from_slice" => {
                let s = self.expr(&m.args[0])?;
                if let Expr::Index(ix) = &*m.receiver {
                    let Expr::Range(r) = &*ix.index else { return self.err("copy_from_slice", m.span()) };
                    let b = self.expr(&ix.expr)?;
                    let a = match &r.start {
                        Some(x) => self.expr(x)?,
                        None => ex(quote!(0)),
                    };
                    return Ok(match &r.end {
                        Some(z) => {
                            let z = self.expr(z)?;
                            ex(quote!(crate::ext::vx_copy_range(&mut #b, #a, #z, crate::ext::vx_sl(#s))))
                        }
                        None => ex(quote!(crate::ext::vx_copy_from(&mut #b, #a, crate::ext::vx_sl(#s)))),
                    });
                }
                let b = self.expr(&m.receiver)?;
                return Ok(ex(quote!(crate::ext::vx_copy_from(&mut #b, 0, crate::ext::vx_sl(#s)))));
            }
            "core::slice::<impl [T]>::iter" => {
                let x = self.expr(&m.receiver)?;
                let sl = self.slref(&m.receiver, &x);
                return Ok(ex(quote!(crate::ext::vx_iter(#sl))));
            }
            "core::slice::<impl [T]>::chunks" => {
                let x = self.expr(&m.receiver)?;
                let sl = self.slref(&m.receiver, &x);
                let n = self.expr(&m.args[0])?;
                return Ok(ex(quote!(crate::ext::vx_chunks(#sl, #n))));
            }
            "core::slice::<impl [T]>::len" | "std::vec::Vec::<T, A>::len" => {
                let x = self.expr(&m.receiver)?;
                let sl = self.slref(&m.receiver, &x);
                return Ok(ex(quote!(#x.len())));
            }
            "core::slice::<impl [T]>::is_empty" | "std::vec::Vec::<T, A>::is_empty" => {
                let x = self.expr(&m.receiver)?;
                let sl = self.slref(&m.receiver, &x);
                return Ok(ex(quote!((#x.len() == 0))));
            }
            "core::slice::<impl [T]>::get" if is_prim(&self.ety(&m.args[0])) => {
                let x = self.expr(&m.receiver)?;
                let sl = self.slref(&m.receiver, &x);
                let i = self.expr(&m.args[0])?;
                return Ok(ex(quote!(crate::ext::vx_get(#sl, #i))));
            }
            "core::slice::<impl [T]>::get" => {
                if let Expr::Range(r) = &m.args[0] {
                    if matches!(r.limits, RangeLimits::HalfOpen(_)) {
                        let x = self.expr(&m.receiver)?;
                let sl = self.slref(&m.receiver, &x);
                        let a = match &r.start { Some(s) => self.expr(s)?, None => ex(quote!(0)) };
                        return Ok(match &r.end {
                            Some(z) => { let z = self.expr(z)?; ex(quote!(crate::ext::vx_get_range(#sl, #a, #z))) }
                            None => ex(quote!(crate::ext::vx_get_from(#sl, #a))),
                        });
                    }
                }
                return self.err("slice get", m.span());
            }
            "core::slice::<impl [T]>::first" => {
                let x = self.expr(&m.receiver)?;
                let sl = self.slref(&m.receiver, &x);
                return Ok(ex(quote!(crate::ext::vx_get(#sl, 0))));
            }
            "core::slice::<impl [T]>::to_vec" | "std::slice::<impl [T]>::to_vec" => {
                let x = self.expr(&m.receiver)?;
                let sl = self.slref(&m.receiver, &x);
                return Ok(ex(quote!(crate::ext::vx_to_vec(#sl))));
            }
            "std::vec::Vec::<T, A>::as_slice" => {
                let x = self.expr(&m.receiver)?;
                let sl = self.slref(&m.receiver, &x);
                return Ok(ex(quote!(#sl)));
            }
            "std::vec::Vec::<T, A>::drain" => {
                let Expr::Range(r) = &m.args[0] else { return self.err("drain", m.span()) };
                if r.start.is_some() || r.end.is_some() {
                    return self.err("partial drain", m.span());
                }
                let x = self.expr(&m.receiver)?;
                return Ok(ex(quote!(crate::ext::vx_drain(&mut #x))));
            }
            "std::vec::Vec::<T, A>::extend_from_slice" => {
                let x = self.expr(&m.receiver)?;
                let a = self.expr(&m.args[0])?;
                return Ok(ex(quote!(crate::ext::vx_extend(&mut #x, crate::ext::vx_sl(#a)))));
            }
            "std::iter::Extend::extend" => {
                if ty_head(&rt) == "std::vec::Vec" && ty_args(strip_refs(&rt)).first().map(|s| s == "u8").unwrap_or(false) {
                    let x = self.expr(&m.receiver)?;
                    let a = self.expr(&m.args[0])?;
                    return Ok(ex(quote!(crate::ext::vx_extend(&mut #x, #a.vx_bytes()))));
                }
                if ty_head(&rt) == "std::collections::VecDeque" || ty_head(&rt) == "std::vec::Vec" {
                    let at = self.ety(&m.args[0]);
                    if ty_head(&at) == "std::vec::Vec" && !at.starts_with('&') {
                        let x = self.expr(&m.receiver)?;
                        let a = self.expr(&m.args[0])?;
                        return Ok(ex(quote!(#x.vx_extend_vec(#a))));
                    }
                    // x.extend(pipeline): push every item
                    let n = self.next_loop();
                    let (src, st) = self.iter_chain(&m.args[0], &at)?;
                    let na = self.next_args();
                    let x = self.expr(&m.receiver)?;
                    let push = if ty_head(&rt) == "std::vec::Vec" { quote!(push) } else { quote!(push_back) };
                    let it = format_ident!("vx_it{}", n);
                    let item = format_ident!("vx_x{}", n);
                    let body = self.stages(&st, &item, quote!(#x.#push(#item);))?;
                    return Ok(ex(quote!({ let mut #it = #src; loop { vx_loop_spec!{#n} let Some(#item) = #it.next(#na) else { break; }; vx_loop_begin!{#n} #body vx_loop_end!{#n} } })));
                }
                return self.err("extend", m.span());
            }
            "core::num::<impl u64>::to_be_bytes" => {
                let x = self.expr(&m.receiver)?;
                return Ok(ex(quote!(crate::ext::vx_u64_to_be(#x))));
            }
            "core::num::<impl u64>::to_le_bytes" => {
                let x = self.expr(&m.receiver)?;
                return Ok(ex(quote!(crate::ext::vx_u64_to_le(#x))));
            }
            "std::convert::AsRef::as_ref" => {
                let x = self.expr(&m.receiver)?;
                let t = strip_refs(&res_t).to_string();
                if t == "str" {
                    return Ok(ex(quote!(#x.vx_str())));
                }
                if t == "[u8]" {
                    return Ok(ex(quote!(#x.vx_bytes())));
                }
                if ty_head(&rt) == "std::boxed::Box" {
                    return Ok(ex(quote!((&**#x))));
                }
                return self.err(format!("as_ref to {res_t}"), m.span());
            }
            "std::convert::Into::into" => {
                let src = self.ety(&m.receiver);
                let x = self.expr(&m.receiver)?;
                if res_t.starts_with("std::boxed::Box<dyn") {
                    return Ok(ex(quote!(crate::ext::vx_box_err(#x))));
                }
                if src.starts_with("impl ") || self.cx.generic_param(&src) {
                    return Ok(ex(quote!(#x.vx_into())));
                }
                if res_t == "std::string::String" {
                    return Ok(ex(quote!(crate::ext::vx_string_from(crate::ext::vx_s(&#x)))));
                }
                if res_t == src {
                    return Ok(x);
                }
                let tt = self.ty_of_str(&res_t)?;
                self.note_call("std::convert::From::from", &format!("<{res_t} as std::convert::From<{src}>>::from"));
                return Ok(ex(quote!(<#tt as core::convert::From<_>>::from(#x))));
            }
            "std::clone::Clone::clone" => {
                let x = self.expr(&m.receiver)?;
                let src = self.ety(&m.receiver);
                self.cx.check_derived_clone(strip_refs(&rt))?;
                // method resolution: on a reference variable clone() clones the referent
                if src.starts_with('&') && strip_refs(&rt) == strip_refs(&src) {
                    return Ok(ex(quote!(crate::ext::vx_clone(#x))));
                }
                return Ok(ex(quote!(crate::ext::vx_clone(&#x))));
            }
            "std::borrow::ToOwned::to_owned" => {
                let x = self.expr(&m.receiver)?;
                if is_str(&rt) {
                    return Ok(ex(quote!(crate::ext::vx_string_from(crate::ext::vx_s(&#x)))));
                }
                if strip_refs(&rt) == "[u8]" {
                    return Ok(ex(quote!(crate::ext::vx_to_vec(crate::ext::vx_sl(&#x)))));
                }
                return Ok(ex(quote!(crate::ext::vx_clone(&#x))));
            }
            "std::string::ToString::to_string" => {
                let x = self.expr(&m.receiver)?;
                self.note_call("std::fmt::Display::fmt", &format!("<{} as std::fmt::Display>::fmt", strip_refs(&rt)));
                return Ok(ex(quote!(crate::ext::vx_to_string(&#x))));
            }
            "core::str::<impl str>::parse" => {
                let target = ty_args(&res_t).first().cloned().unwrap_or_default();
                let tt = self.ty_of_str(&target)?;
                self.note_call("std::str::FromStr::from_str", &format!("<{target} as std::str::FromStr>::from_str"));
                let x = self.expr(&m.receiver)?;
                return Ok(ex(quote!(<#tt>::from_str(crate::ext::vx_s(&#x)))));
            }
            "std::string::String::as_str" | "std::string::String::as_mut_str" => {
                let x = self.expr(&m.receiver)?;
                return Ok(ex(quote!(crate::ext::vx_s(&#x))));
            }
            "core::str::<impl str>::as_bytes" | "std::string::String::as_bytes" => {
                let x = self.expr(&m.receiver)?;
                return Ok(ex(quote!(crate::ext::vx_s(&#x).vx_bytes())));
            }
            "std::string::String::push_str" => {
                let x = self.expr(&m.receiver)?;
                let a = self.expr(&m.args[0])?;
                return Ok(ex(quote!(crate::ext::vx_push_str(&mut #x, crate::ext::vx_s(&#a)))));
            }
            _ => {}
        }
        if d.starts_with("core::str::<impl str>::") || d.starts_with("std::str::<impl str>::") || d == "std::string::String::len" || d == "std::string::String::is_empty" {
            let f = format_ident!("vx_str_{}", name);
            let x = self.expr(&m.receiver)?;
            let mut args = vec![];
            for a in &m.args {
                let t = self.ety(a);
                let a2 = self.expr(a)?;
                if is_str(&t) {
                    args.push(quote!(crate::ext::vx_s(&#a2)));
                } else if strip_refs(&t) == "char" {
                    args.push(quote!(#a2));
                } else {
                    return self.err("text pattern argument", a.span());
                }
            }
            let f = if m.args.len() == 1 && strip_refs(&self.ety(&m.args[0])) == "char" { format_ident!("{}_char", f) } else { f };
            return Ok(ex(quote!(crate::ext::#f(crate::ext::vx_s(&#x) #(, #args)*))));
        }
        if d == "core::bool::<impl bool>::then" || d == "core::bool::<impl bool>::then_some" {
            let x = self.expr(&m.receiver)?;
            return Ok(if name == "then" {
                let b = self.applyn(&m.args[0], vec![])?;
                ex(quote!((if #x { Some(#b) } else { None })))
            } else {
                let b = self.expr(&m.args[0])?;
                ex(quote!({ let vx_c = #x; let vx_b = #b; if vx_c { Some(vx_b) } else { None } }))
            });
        }
        if d.starts_with("core::num::<impl ") {
            let x = self.expr(&m.receiver)?;
            let args = self.exprs(m.args.iter())?;
            if name == "min" || name == "max" {
                let f = format_ident!("vx_{}_{}", name, strip_refs(&rt));
                return Ok(ex(quote!(crate::ext::#f(#x #(, #args)*))));
            }
            // checked_/saturating_/wrapping_ operations have specifications in vstd
            let mm = &m.method;
            return Ok(ex(quote!((#x).#mm(#(#args),*))));
        }
        if d.starts_with("std::ops::Range") && name == "contains" {
            let rcv = match &*m.receiver {
                Expr::Paren(p) => &*p.expr,
                e => e,
            };
            let Expr::Range(r) = rcv else { return self.err("range value", m.span()) };
            let lo = match &r.start { Some(a) => { let a = self.expr(a)?; quote!(#a <= vx_rc) } None => quote!(true) };
            let hi = match &r.end {
                Some(b) => {
                    let b = self.expr(b)?;
                    if matches!(r.limits, RangeLimits::Closed(_)) { quote!(vx_rc <= #b) } else { quote!(vx_rc < #b) }
                }
                None => quote!(true),
            };
            let a = self.expr(&m.args[0])?;
            return Ok(ex(quote!({ let vx_rc = *#a; #lo && #hi })));
        }
        if d == "std::cmp::Ord::min" || d == "std::cmp::Ord::max" {
            let x = self.expr(&m.receiver)?;
            let args = self.exprs(m.args.iter())?;
            let f = format_ident!("vx_{}_{}", name, strip_refs(&rt));
            return Ok(ex(quote!(crate::ext::#f(#x #(, #args)*))));
        }
        // ---- everything else: a method of a local or stub type
        let av: Vec<&Expr> = m.args.iter().collect();
        if let Some(e) = self.inline(&d, Some((&m.receiver, &rt)), &av, mode)? {
            return Ok(e);
        }
        self.note_call(&d, &format!("<{}>::{}", strip_refs(&rt), name));
        if let Some(k) = self.cx.trait_impl_key(&d, strip_refs(&rt), &name) {
            self.calls.insert(k);
        }
        let x = self.expr(&m.receiver)?;
        let mut args: Vec<Expr> = vec![];
        for a in &m.args {
            if let Expr::Closure(_) = a {
                return self.err(format!("closure passed to {d}"), a.span());
            }
            args.push(self.expr(a)?);
        }
        if self.cx.is_effect(&d, "") {
            self.world = true;
            args.push(ex(quote!(vx_w)));
        }
        let mm = &m.method;
        let tf = match &m.turbofish {
            Some(t) => {
                let mut v = vec![];
                for a in &t.args {
                    match a {
                        GenericArgument::Type(t) => {
                            let t = self.ty(t)?;
                            v.push(quote!(#t));
                        }
                        a => v.push(quote!(#a)),
                    }
                }
                quote!(::<#(#v),*>)
            }
            None => quote!(),
        };
        Ok(ex(quote!(#x.#mm #tf (#(#args),*))))
    }

    /// the consuming end of an iterator pipeline, as a loop
    fn sink(&mut self, m: &ExprMethodCall, name: &str, res_t: &str) -> R<Expr> {
        let rt = self.ety(&m.receiver);
        if name == "next" && m.args.is_empty() {
            let (s, st) = self.iter_chain(&m.receiver, &rt)?;
            if st.is_empty() {
                let na = self.next_args();
                return Ok(ex(quote!((#s).next(#na))));
            }
            return self.err("next after adaptors", m.span());
        }
        if name == "count" || name == "last" {
            let (s, st) = self.iter_chain(&m.receiver, &rt)?;
            if st.is_empty() {
                let f = format_ident!("vx_it_{}", name);
                return Ok(ex(quote!(crate::ext::#f(#s))));
            }
            return self.err(format!("{name} after adaptors"), m.span());
        }
        let n = self.next_loop();
        let (src, st) = self.iter_chain(&m.receiver, &rt)?;
        let na = self.next_args();
        let it = format_ident!("vx_it{}", n);
        let item = format_ident!("vx_x{}", n);
        let out = format_ident!("vx_out{}", n);
        let e = format_ident!("vx_e{}", n);
        let (init, sink, fin): (TokenStream, TokenStream, TokenStream) = match name {
            "collect" => match ty_head(res_t) {
                "std::vec::Vec" => {
                    if st.is_empty() {
                        // a plain collection of the source
                        self.loops -= 1;
                        if !na.is_empty() {
                            return Ok(ex(quote!(crate::upnp::vx_collect(#src, vx_w))));
                        }
                        return Ok(ex(quote!(crate::ext::vx_collect(#src))));
                    }
                    let t = self.ty_of_str(res_t).map(|t| quote!(: #t)).unwrap_or_default();
                    (quote!(let mut #out #t = Vec::new();), quote!(#out.push(#item);), quote!(#out))
                }
                "std::result::Result" => {
                    let a = ty_args(res_t);
                    if a.first().map(|s| ty_head(s) != "std::vec::Vec").unwrap_or(true) {
                        return self.err(format!("collect into {res_t}"), m.span());
                    }
                    if st.is_empty() && na.is_empty() {
                        self.loops -= 1;
                        return Ok(ex(quote!(crate::ext::vx_collect_ok(#src))));
                    }
                    let e1 = self.ty_of_str(&a[1])?;
                    let v1 = self.ty_of_str(&a[0])?;
                    (
                        quote!(let mut #out: #v1 = Vec::new(); let mut #e: Option<#e1> = None;),
                        quote!(match #item { Ok(#item) => { #out.push(#item); }, Err(vx_err) => { #e = Some(vx_err); break; } }),
                        quote!(match #e { Some(vx_err) => Err(vx_err), None => Ok(#out) }),
                    )
                }
                "std::option::Option" => {
                    let a = ty_args(res_t);
                    if a.first().map(|s| ty_head(s) != "std::vec::Vec").unwrap_or(true) {
                        return self.err(format!("collect into {res_t}"), m.span());
                    }
                    let v1 = self.ty_of_str(&a[0])?;
                    (
                        quote!(let mut #out: #v1 = Vec::new(); let mut #e: bool = false;),
                        quote!(match #item { Some(#item) => { #out.push(#item); }, None => { #e = true; break; } }),
                        quote!(if #e { None } else { Some(#out) }),
                    )
                }
                _ => return self.err(format!("collect into {res_t}"), m.span()),
            },
            "position" => {
                let c = self.apply(&m.args[0], quote!(#item))?;
                let k = format_ident!("vx_k{}", n);
                (quote!(let mut #out: Option<usize> = None; let mut #k: usize = 0;), quote!(if #c { #out = Some(#k); break; } #k = #k + 1;), quote!(#out))
            }
            "find" => {
                let c = self.apply(&m.args[0], quote!(&#item))?;
                let t = self.ty_of_str(res_t).map(|t| quote!(: #t)).unwrap_or_default();
                (quote!(let mut #out #t = None;), quote!(if #c { #out = Some(#item); break; }), quote!(#out))
            }
            "any" => {
                let c = self.apply(&m.args[0], quote!(#item))?;
                (quote!(let mut #out = false;), quote!(if #c { #out = true; break; }), quote!(#out))
            }
            "all" => {
                let c = self.apply(&m.args[0], quote!(#item))?;
                (quote!(let mut #out = true;), quote!(if !#c { #out = false; break; }), quote!(#out))
            }
            "for_each" => {
                let c = self.apply(&m.args[0], quote!(#item))?;
                (quote!(), quote!(#c;), quote!(()))
            }
            _ => return self.err(format!("iterator consumer {name}"), m.span()),
        };
        let body = self.stages(&st, &item, sink)?;
        Ok(ex(quote!({ let mut #it = #src; #init loop { vx_loop_spec!{#n} let Some(#item) = #it.next(#na) else { break; }; vx_loop_begin!{#n} #body vx_loop_end!{#n} } #fin })))
    }

    // ---------------------------------------------------------------- macros

    fn macro_(&mut self, m: &ExprMacro) -> R<Expr> {
        let name = m.mac.path.segments.last().unwrap().ident.to_string();
        let ts = m.mac.tokens.clone();
        match name.as_str() {
            "json" => {
                let j = JsonTree::parse(ts)?;
                self.json(&j)
            }
            "vec" => {
                if ts.is_empty() {
                    return Ok(ex(quote!(Vec::new())));
                }
                if let Ok(r) = parse2::<VecRepeat>(ts.clone()) {
                    let v = self.expr(&r.0)?;
                    let n = self.expr(&r.1)?;
                    return Ok(ex(quote!(crate::ext::vx_vec_repeat(#v, #n))));
                }
                let args = Punctuated::<Expr, Token![,]>::parse_terminated;
                let args = syn::parse::Parser::parse2(args, ts).map_err(|e| e.to_string())?;
                let v = self.exprs(args.iter())?;
                Ok(ex(quote!({ let mut vx_vec = Vec::new(); #(vx_vec.push(#v);)* vx_vec })))
            }
            "format" => {
                let parts = self.format_parts(ts)?;
                Ok(self.concat(parts))
            }
            "write" => {
                let args = Punctuated::<Expr, Token![,]>::parse_terminated;
                let args = syn::parse::Parser::parse2(args, ts).map_err(|e| e.to_string())?;
                let mut it = args.into_iter();
                let f = it.next().ok_or("write! without formatter")?;
                let f = self.expr(&f)?;
                let rest: Punctuated<Expr, Token![,]> = it.collect();
                let parts = self.format_parts(quote!(#rest))?;
                let s = self.concat(parts);
                Ok(ex(quote!(crate::ext::vx_write(#f, #s))))
            }
            "matches" => {
                let MatchesArgs(e, p, g) = parse2(ts).map_err(|e| e.to_string())?;
                let et = self.ety(&e);
                if has_lit_str(&p) {
                    let Some(l) = lit_strs(&p) else { return self.err("matches! with texts", m.span()) };
                    if !is_str(&et) {
                        return self.err("matches! with texts", m.span());
                    }
                    for x in &l {
                        self.lits.insert(x.clone());
                    }
                    let e = self.expr(&e)?;
                    return Ok(ex(quote!({ let vx_m = crate::ext::vx_s(&#e); (#(crate::ext::vx_str_eq(vx_m, #l))||*) })));
                }
                let e = self.expr(&e)?;
                let p = self.pat(&p)?;
                let g = match g {
                    Some(g) => {
                        let g = self.expr(&g)?;
                        quote!(if #g)
                    }
                    None => quote!(),
                };
                Ok(ex(quote!((match #e { #p #g => true, _ => false }))))
            }
            "assert" => {
                let args = Punctuated::<Expr, Token![,]>::parse_terminated;
                let args = syn::parse::Parser::parse2(args, ts).map_err(|e| e.to_string())?;
                let c = self.expr(args.first().ok_or("assert!")?)?;
                Ok(ex(quote!(crate::ext::vx_must(#c))))
            }
            "assert_eq" | "assert_ne" => {
                let args = Punctuated::<Expr, Token![,]>::parse_terminated;
                let args = syn::parse::Parser::parse2(args, ts).map_err(|e| e.to_string())?;
                if args.len() < 2 {
                    return self.err("assert_eq", m.span());
                }
                let (a, b) = (&args[0], &args[1]);
                let op: BinOp = if name == "assert_eq" { parse_quote!(==) } else { parse_quote!(!=) };
                let be = ExprBinary { attrs: vec![], left: Box::new(a.clone()), op, right: Box::new(b.clone()) };
                let c = self.binary(&be)?;
                Ok(ex(quote!(crate::ext::vx_must(#c))))
            }
            "unreachable" | "panic" | "todo" | "unimplemented" => Ok(ex(quote!(crate::ext::vx_panic()))),
            "tracing" => Ok(ex(quote!(()))),
            _ => self.err(format!("macro {name}!"), m.span()),
        }
    }

    fn concat(&self, parts: Vec<TokenStream>) -> Expr {
        let mut out = quote!(String::new());
        for p in parts {
            out = quote!(crate::ext::vx_cat(#out, #p));
        }
        ex(out)
    }

    /// the pieces of a format string, each a &str expression
    fn format_parts(&mut self, ts: TokenStream) -> R<Vec<TokenStream>> {
        let args = Punctuated::<Expr, Token![,]>::parse_terminated;
        let args = syn::parse::Parser::parse2(args, ts).map_err(|e| e.to_string())?;
        let mut it = args.iter();
        let Some(Expr::Lit(ExprLit { lit: Lit::Str(f), .. })) = it.next() else { return Err("format string".into()) };
        let rest: Vec<&Expr> = it.collect();
        let s = f.value();
        let mut parts = vec![];
        let mut cur = String::new();
        let mut pos = 0;
        let cs: Vec<char> = s.chars().collect();
        let mut i = 0;
        while i < cs.len() {
            let c = cs[i];
            if c == '{' && cs.get(i + 1) == Some(&'{') {
                cur.push('{');
                i += 2;
                continue;
            }
            if c == '}' && cs.get(i + 1) == Some(&'}') {
                cur.push('}');
                i += 2;
                continue;
            }
            if c == '{' {
                let mut j = i + 1;
                while j < cs.len() && cs[j] != '}' {
                    j += 1;
                }
                let spec: String = cs[i + 1..j].iter().collect();
                i = j + 1;
                if !cur.is_empty() {
                    self.lits.insert(cur.clone());
                    parts.push(quote!(#cur));
                    cur.clear();
                }
                let (nm, fm) = match spec.split_once(':') {
                    Some((a, b)) => (a.to_string(), b.to_string()),
                    None => (spec.clone(), String::new()),
                };
                let arg: TokenStream = if nm.is_empty() {
                    let a = rest.get(pos).ok_or("format argument")?;
                    pos += 1;
                    let a = self.expr(a)?;
                    quote!(#a)
                } else if let Ok(k) = nm.parse::<usize>() {
                    let a = rest.get(k).ok_or("format argument")?;
                    let a = self.expr(a)?;
                    quote!(#a)
                } else {
                    let named = rest.iter().find_map(|e| match e {
                        Expr::Assign(a) if a.left.to_token_stream().to_string() == nm => Some((*a.right).clone()),
                        _ => None,
                    });
                    match named {
                        Some(e) => {
                            let e = self.expr(&e)?;
                            quote!(#e)
                        }
                        None => {
                            let id = format_ident!("{}", nm);
                            quote!(#id)
                        }
                    }
                };
                let p = match fm.as_str() {
                    "" => quote!(crate::ext::vx_s(&crate::ext::vx_to_string(&#arg))),
                    _ => quote!(crate::ext::vx_s(&crate::ext::vx_debug(&#arg))),
                };
                parts.push(p);
                continue;
            }
            cur.push(c);
            i += 1;
        }
        if !cur.is_empty() {
            self.lits.insert(cur.clone());
            parts.push(quote!(#cur));
        }
        Ok(parts)
    }

    fn json(&mut self, j: &JsonTree) -> R<Expr> {
        Ok(match j {
            JsonTree::Null => ex(quote!(crate::ext::Json::vx_null())),
            JsonTree::Obj(kv) => {
                let mut out = quote!(crate::ext::Json::vx_obj());
                for (k, v) in kv {
                    let k2 = match k {
                        Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => {
                            self.lits.insert(s.value());
                            quote!(#s)
                        }
                        k => {
                            let k = self.expr(k)?;
                            quote!(crate::ext::vx_s(&#k))
                        }
                    };
                    let v = self.json(v)?;
                    out = quote!(#out.vx_with(#k2, #v));
                }
                ex(out)
            }
            JsonTree::Arr(v) => {
                let mut out = quote!(crate::ext::Json::vx_arr());
                for v in v {
                    let v = self.json(v)?;
                    out = quote!(#out.vx_push(#v));
                }
                ex(out)
            }
            JsonTree::Val(e) => {
                let v = self.expr(e)?;
                ex(quote!(crate::ext::vx_json(&(#v))))
            }
        })
    }
}

pub enum Stage {
    Map(Expr),
    Filter(Expr),
    FilterMap(Expr),
    Cloned,
}

pub enum JsonTree {
    Null,
    Obj(Vec<(Expr, JsonTree)>),
    Arr(Vec<JsonTree>),
    Val(Expr),
}

impl JsonTree {
    fn parse(ts: TokenStream) -> R<JsonTree> {
        let v: Vec<proc_macro2::TokenTree> = ts.clone().into_iter().collect();
        if v.len() == 1 {
            match &v[0] {
                proc_macro2::TokenTree::Group(g) if g.delimiter() == proc_macro2::Delimiter::Brace => {
                    let mut kv = vec![];
                    for part in split_commas(g.stream()) {
                        let toks: Vec<proc_macro2::TokenTree> = part.into_iter().collect();
                        let i = toks
                            .iter()
                            .position(|t| matches!(t, proc_macro2::TokenTree::Punct(p) if p.as_char() == ':' && p.spacing() == proc_macro2::Spacing::Alone))
                            .ok_or("json! key")?;
                        let k: TokenStream = toks[..i].iter().cloned().collect();
                        let val: TokenStream = toks[i + 1..].iter().cloned().collect();
                        let k: Expr = parse2(k).map_err(|e| e.to_string())?;
                        kv.push((k, JsonTree::parse(val)?));
                    }
                    return Ok(JsonTree::Obj(kv));
                }
                proc_macro2::TokenTree::Group(g) if g.delimiter() == proc_macro2::Delimiter::Bracket => {
                    let mut out = vec![];
                    for part in split_commas(g.stream()) {
                        out.push(JsonTree::parse(part)?);
                    }
                    return Ok(JsonTree::Arr(out));
                }
                proc_macro2::TokenTree::Ident(i) if i == "null" => return Ok(JsonTree::Null),
                _ => {}
            }
        }
        Ok(JsonTree::Val(parse2(ts).map_err(|e| e.to_string())?))
    }
}

fn split_commas(ts: TokenStream) -> Vec<TokenStream> {
    let mut out = vec![];
    let mut cur = vec![];
    // commas between the angle brackets of a turbofish separate nothing
    let mut depth = 0;
    let mut prev = ' ';
    for t in ts {
        let c = if let proc_macro2::TokenTree::Punct(p) = &t { p.as_char() } else { ' ' };
        if c == '<' && (depth > 0 || prev == ':') {
            depth += 1;
        } else if c == '>' && depth > 0 && prev != '-' {
            depth -= 1;
        } else if c == ',' && depth == 0 {
            out.push(cur.drain(..).collect());
            prev = c;
            continue;
        }
        prev = c;
        cur.push(t);
    }
    if !cur.is_empty() {
        out.push(cur.into_iter().collect());
    }
    out
}

struct VecRepeat(Expr, Expr);
impl parse::Parse for VecRepeat {
    fn parse(i: parse::ParseStream) -> Result<Self> {
        let a = i.parse()?;
        i.parse::<Token![;]>()?;
        Ok(VecRepeat(a, i.parse()?))
    }
}

struct MatchesArgs(Expr, Pat, Option<Expr>);
impl parse::Parse for MatchesArgs {
    fn parse(i: parse::ParseStream) -> Result<Self> {
        let e = i.parse()?;
        i.parse::<Token![,]>()?;
        let p = Pat::parse_multi_with_leading_vert(i)?;
        let g = if i.peek(Token![if]) {
            i.parse::<Token![if]>()?;
            Some(i.parse()?)
        } else {
            None
        };
        let _ = i.parse::<Option<Token![,]>>()?;
        Ok(MatchesArgs(e, p, g))
    }
}

fn compound(op: &BinOp) -> Option<TokenStream> {
    Some(match op {
        BinOp::AddAssign(_) => quote!(+),
        BinOp::SubAssign(_) => quote!(-),
        BinOp::MulAssign(_) => quote!(*),
        BinOp::DivAssign(_) => quote!(/),
        BinOp::RemAssign(_) => quote!(%),
        BinOp::BitAndAssign(_) => quote!(&),
        BinOp::BitOrAssign(_) => quote!(|),
        BinOp::BitXorAssign(_) => quote!(^),
        BinOp::ShlAssign(_) => quote!(<<),
        BinOp::ShrAssign(_) => quote!(>>),
        _ => return None,
    })
}

fn bytes_like(t: &str) -> bool {
    t == "std::vec::Vec<u8>" || t == "[u8]" || (t.starts_with("[u8;"))
}

fn has_lit_str(p: &Pat) -> bool {
    struct V(bool);
    impl<'a> visit::Visit<'a> for V {
        fn visit_lit(&mut self, l: &'a Lit) {
            if let Lit::Str(_) = l {
                self.0 = true;
            }
        }
    }
    let mut v = V(false);
    visit::Visit::visit_pat(&mut v, p);
    v.0
}

fn lit_strs(p: &Pat) -> Option<Vec<String>> {
    match p {
        Pat::Lit(ExprLit { lit: Lit::Str(s), .. }) => Some(vec![s.value()]),
        Pat::Or(o) => {
            let mut v = vec![];
            for c in &o.cases {
                v.extend(lit_strs(c)?);
            }
            Some(v)
        }
        Pat::Paren(p) => lit_strs(&p.pat),
        _ => None,
    }
}

/// `[a, b]`, `&[a, b]`, `[a, b].iter()`, ...: the elements, and whether the loop sees references to them
fn literal_list(e: &Expr) -> Option<(Vec<Expr>, bool)> {
    match e {
        Expr::Array(a) => Some((a.elems.iter().cloned().collect(), false)),
        Expr::Paren(p) => literal_list(&p.expr),
        Expr::Reference(r) if r.mutability.is_none() => match literal_list(&r.expr)? {
            (v, false) => Some((v, true)),
            _ => None,
        },
        Expr::MethodCall(m) if m.args.is_empty() => {
            let (v, r) = literal_list(&m.receiver)?;
            match m.method.to_string().as_str() {
                "iter" if !r => Some((v, true)),
                "into_iter" => Some((v, r)),
                "copied" | "cloned" if r => Some((v, false)),
                _ => None,
            }
        }
        _ => None,
    }
}

/// `break` or `continue` of this loop
fn leaves_loop(b: &Block) -> bool {
    struct V(bool);
    impl<'a> visit::Visit<'a> for V {
        fn visit_expr_break(&mut self, _: &'a ExprBreak) {
            self.0 = true;
        }
        fn visit_expr_continue(&mut self, _: &'a ExprContinue) {
            self.0 = true;
        }
    }
    let mut v = V(false);
    visit::Visit::visit_block(&mut v, b);
    v.0
}

fn contains_continue(b: &Block) -> bool {
    struct V(bool);
    impl<'a> visit::Visit<'a> for V {
        fn visit_expr_continue(&mut self, _: &'a ExprContinue) {
            self.0 = true;
        }
    }
    let mut v = V(false);
    visit::Visit::visit_block(&mut v, b);
    v.0
}

pub fn expr_attrs(e: &Expr) -> &[Attribute] {
    match e {
        Expr::Macro(m) => &m.attrs,
        Expr::Block(m) => &m.attrs,
        Expr::If(m) => &m.attrs,
        Expr::Call(m) => &m.attrs,
        Expr::MethodCall(m) => &m.attrs,
        Expr::Match(m) => &m.attrs,
        Expr::Return(m) => &m.attrs,
        Expr::Assign(m) => &m.attrs,
        Expr::ForLoop(m) => &m.attrs,
        Expr::While(m) => &m.attrs,
        _ => &[],
    }
}

fn short(e: &Expr) -> String {
    let s = e.to_token_stream().to_string();
    s.chars().take(40).collect()
}
