//! Type oracle: a rustc driver which type-checks the crate and dumps, for every
//! expression, its source span, its type and (for calls and paths) the resolved
//! definition. The extractor uses it to desugar combinators; it changes nothing.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_driver_impl;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver_impl::{Callbacks, Compilation};
use rustc_hir as hir;
use rustc_hir::intravisit::{self, Visitor};
use rustc_middle::ty::{TyCtxt, TypeckResults};
use rustc_span::{FileName, Span};
use std::collections::HashSet;
use std::io::Write;

struct V<'tcx, 'o> {
    tcx: TyCtxt<'tcx>,
    tr: &'tcx TypeckResults<'tcx>,
    out: &'o mut Vec<String>,
    seen: &'o mut HashSet<String>,
}

fn esc(s: &str) -> String {
    let mut r = String::new();
    for c in s.chars() {
        match c {
            '\\' => r.push_str("\\\\"),
            '"' => r.push_str("\\\""),
            '\n' => r.push_str("\\n"),
            '\t' => r.push_str("\\t"),
            c => r.push(c),
        }
    }
    r
}

fn loc(tcx: TyCtxt<'_>, sp: Span) -> Option<(String, u32, u32, u32, u32)> {
    if sp.is_dummy() {
        return None;
    }
    let sm = tcx.sess.source_map();
    let lo = sm.lookup_char_pos(sp.lo());
    let hi = sm.lookup_char_pos(sp.hi());
    let name = match &lo.file.name {
        FileName::Real(r) => format!("{}", r.local_path()?.display()),
        _ => return None,
    };
    Some((name, lo.line as u32, lo.col.0 as u32, hi.line as u32, hi.col.0 as u32))
}

impl<'tcx, 'o> V<'tcx, 'o> {
    fn emit(&mut self, sp: Span, kind: &str, def: &str, ty: &str) {
        if let Some((f, l1, c1, l2, c2)) = loc(self.tcx, sp) {
            let line = format!(
                "{{\"f\":\"{}\",\"s\":[{},{},{},{}],\"k\":\"{}\",\"d\":\"{}\",\"t\":\"{}\"}}",
                esc(&f), l1, c1, l2, c2, kind, esc(def), esc(ty)
            );
            if self.seen.insert(line.clone()) {
                self.out.push(line);
            }
        }
    }
    fn def_path(&self, d: hir::def_id::DefId) -> String {
        self.tcx.def_path_str(d)
    }
}

impl<'tcx, 'o> Visitor<'tcx> for V<'tcx, 'o> {
    type NestedFilter = rustc_middle::hir::nested_filter::OnlyBodies;
    fn maybe_tcx(&mut self) -> Self::MaybeTyCtxt {
        self.tcx
    }
    fn visit_expr(&mut self, e: &'tcx hir::Expr<'tcx>) {
        let ty = self.tr.expr_ty_opt(e).map(|t| t.to_string()).unwrap_or_default();
        match e.kind {
            hir::ExprKind::MethodCall(seg, recv, _, _) => {
                let d = self.tr.type_dependent_def_id(e.hir_id).map(|d| self.def_path(d)).unwrap_or_default();
                let rt = self.tr.expr_ty_adjusted_opt(recv).map(|t| t.to_string()).unwrap_or_default();
                self.emit(seg.ident.span, "m", &d, &rt);
                self.emit(e.span, "e", &d, &ty);
            }
            hir::ExprKind::Path(ref q) => {
                let res = self.tr.qpath_res(q, e.hir_id);
                let d = res.opt_def_id().map(|d| self.def_path(d)).unwrap_or_default();
                self.emit(e.span, "p", &d, &ty);
            }
            _ => self.emit(e.span, "e", "", &ty),
        }
        intravisit::walk_expr(self, e);
    }
    fn visit_pat(&mut self, p: &'tcx hir::Pat<'tcx>) {
        if let Some(t) = self.tr.node_type_opt(p.hir_id) {
            let s = t.to_string();
            self.emit(p.span, "pat", "", &s);
        }
        intravisit::walk_pat(self, p);
    }
}

struct Cb;
impl Callbacks for Cb {
    fn after_expansion<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let Ok(path) = std::env::var("VX_ORACLE_OUT") else { return Compilation::Continue };
        let mut out = Vec::new();
        let mut seen = HashSet::new();
        for did in tcx.hir_body_owners() {
            if tcx.is_typeck_child(did.to_def_id()) {
                continue;
            }
            let tr = tcx.typeck(did);
            let Some(body) = tcx.hir_maybe_body_owned_by(did) else { continue };
            let mut v = V { tcx, tr, out: &mut out, seen: &mut seen };
            v.visit_body(body);
        }
        let mut f = std::fs::File::create(path).unwrap();
        for l in out {
            writeln!(f, "{}", l).unwrap();
        }
        Compilation::Stop
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // invoked by cargo as RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    rustc_driver_impl::compiler_entrypoint(&args, &mut Cb);
}
