//! Dumps, for one crate, what rustc knows about every expression: its type, and
//! the function a call resolves to.  Used by the weaver so that its rewriting of
//! iterator chains and helper calls is driven by the compiler's own typing.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_driver_impl;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_hir::intravisit::{self, Visitor};
use rustc_middle::hir::nested_filter;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{TyCtxt, TypeckResults};
use rustc_span::Span;
use std::io::Write;

struct V<'tcx> {
    tcx: TyCtxt<'tcx>,
    res: &'tcx TypeckResults<'tcx>,
    out: Vec<String>,
    owner: String,
}

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('"', "\\\"").replace('\n', " ")
}

impl<'tcx> V<'tcx> {
    fn loc(&self, sp: Span) -> Option<String> {
        if sp.from_expansion() || sp.is_dummy() {
            return None;
        }
        let sm = self.tcx.sess.source_map();
        let a = sm.lookup_char_pos(sp.lo());
        let b = sm.lookup_char_pos(sp.hi());
        let f = match &a.file.name {
            rustc_span::FileName::Real(r) => r
                .local_path()
                .map(|p| p.display().to_string())
                .unwrap_or_default(),
            _ => return None,
        };
        Some(format!(
            "{}|{}|{}|{}|{}",
            f, a.line, a.col.0, b.line, b.col.0
        ))
    }
    fn emit(&mut self, kind: &str, sp: Span, a: &str, b: &str) {
        if let Some(l) = self.loc(sp) {
            let o = self.owner.clone();
            self.out.push(format!(
                "{}\t{}\t{}\t{}\t{}",
                kind,
                l,
                esc(a),
                esc(b),
                o
            ));
        }
    }
}

impl<'tcx> Visitor<'tcx> for V<'tcx> {
    type NestedFilter = nested_filter::OnlyBodies;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
        self.tcx
    }
    fn visit_expr(&mut self, e: &'tcx rustc_hir::Expr<'tcx>) {
        if let Some(t) = self.res.expr_ty_opt(e) {
            let adj = self.res.expr_ty_adjusted_opt(e).unwrap_or(t);
            let (a, b) = with_no_trimmed_paths!((format!("{}", t), format!("{}", adj)));
            self.emit("E", e.span, &a, &b);
        }
        match e.kind {
            rustc_hir::ExprKind::MethodCall(..) => {
                if let Some(d) = self.res.type_dependent_def_id(e.hir_id) {
                    let p = with_no_trimmed_paths!(self.tcx.def_path_str(d));
                    let l = if d.is_local() { "local" } else { "extern" };
                    self.emit("M", e.span, &p, l);
                }
            }
            rustc_hir::ExprKind::Call(f, _) => {
                if let rustc_hir::ExprKind::Path(q) = &f.kind {
                    if let rustc_hir::def::Res::Def(_, d) = self.res.qpath_res(q, f.hir_id) {
                        let p = with_no_trimmed_paths!(self.tcx.def_path_str(d));
                        let l = if d.is_local() { "local" } else { "extern" };
                        self.emit("M", e.span, &p, l);
                    }
                }
            }
            _ => {}
        }
        intravisit::walk_expr(self, e);
    }
    fn visit_pat(&mut self, p: &'tcx rustc_hir::Pat<'tcx>) {
        if let rustc_hir::PatKind::Binding(_, _, id, _) = p.kind {
            if let Some(t) = self.res.node_type_opt(p.hir_id) {
                let a = with_no_trimmed_paths!(format!("{}", t));
                self.emit("B", p.span, &a, id.name.as_str());
            }
        }
        intravisit::walk_pat(self, p);
    }
}

struct Cb {
    out: std::path::PathBuf,
}
impl rustc_driver_impl::Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> rustc_driver_impl::Compilation {
        let mut lines = vec![];
        for owner in tcx.hir_body_owners() {
            let path = with_no_trimmed_paths!(tcx.def_path_str(owner.to_def_id()));
            if tcx.is_typeck_child(owner.to_def_id()) {
                continue;
            }
            let body = tcx.hir_body_owned_by(owner);
            let res = tcx.typeck(owner);
            let mut v = V {
                tcx,
                res,
                out: vec![],
                owner: path,
            };
            v.visit_body(body);
            lines.append(&mut v.out);
        }
        let mut f = std::fs::File::create(&self.out).unwrap();
        for l in lines {
            writeln!(f, "{}", l).unwrap();
        }
        rustc_driver_impl::Compilation::Stop
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    let out = args.remove(1);
    rustc_driver_impl::compiler_entrypoint(&args, &mut Cb { out: out.into() });
}
