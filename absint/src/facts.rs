//! Facts about every item of a crate: what it owns, what it calls, and whether
//! any of it is unsafe, shared or outside `core`.

use rustc_hir as hir;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_hir::intravisit::{self, Visitor};
use rustc_middle::mir::{Rvalue, StatementKind, TerminatorKind};
use rustc_middle::ty::{self, Ty, TyCtxt, TypeVisitableExt};
use std::collections::{BTreeMap, BTreeSet};

/// Crates whose code never allocates, blocks or does I/O.
const PURE: [&str; 6] = ["core", "fugit", "gcd", "embedded_hal", "nb", "void"];

pub struct Facts {
    pub viol: Vec<(String, String, String, String)>,
    pub fns: BTreeSet<String>,
    pub types: BTreeSet<String>,
    pub statics: BTreeSet<String>,
    pub callees: BTreeMap<String, usize>,
    pub crates: Vec<String>,
}

struct Unsafe<'a, 'tcx> {
    tcx: TyCtxt<'tcx>,
    f: &'a mut Facts,
}
impl<'a, 'tcx> Unsafe<'a, 'tcx> {
    fn bad(&mut self, kind: &str, msg: &str, span: rustc_span::Span, id: hir::HirId) {
        let w = place(self.tcx, span);
        let n = self.tcx.def_path_str(self.tcx.hir_get_parent_item(id));
        self.f.viol.push((kind.into(), msg.into(), w, n));
    }
}
impl<'a, 'tcx> Visitor<'tcx> for Unsafe<'a, 'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::All;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
        self.tcx
    }
    fn visit_block(&mut self, b: &'tcx hir::Block<'tcx>) {
        if let hir::BlockCheckMode::UnsafeBlock(hir::UnsafeSource::UserProvided) = b.rules {
            self.bad("unsafe", "unsafe block", b.span, b.hir_id);
        }
        intravisit::walk_block(self, b)
    }
    fn visit_item(&mut self, i: &'tcx hir::Item<'tcx>) {
        match &i.kind {
            hir::ItemKind::ForeignMod { .. } => self.bad("unsafe", "foreign functions", i.span, i.hir_id()),
            hir::ItemKind::GlobalAsm { .. } => self.bad("unsafe", "assembler", i.span, i.hir_id()),
            hir::ItemKind::Impl(im) => {
                if let Some(t) = im.of_trait {
                    if t.safety.is_unsafe() && !i.span.in_derive_expansion() {
                        self.bad("unsafe", "unsafe impl", i.span, i.hir_id());
                    }
                }
            }
            _ => {}
        }
        intravisit::walk_item(self, i)
    }
    fn visit_fn(&mut self, k: intravisit::FnKind<'tcx>, d: &'tcx hir::FnDecl<'tcx>, b: hir::BodyId, s: rustc_span::Span, id: rustc_hir::def_id::LocalDefId) {
        if let Some(h) = k.header() {
            if h.is_unsafe() {
                let hid = self.tcx.local_def_id_to_hir_id(id);
                self.bad("unsafe", "unsafe function", s, hid);
            }
        }
        intravisit::walk_fn(self, k, d, b, id)
    }
}
fn place(tcx: TyCtxt<'_>, s: rustc_span::Span) -> String {
    let l = tcx.sess.source_map().lookup_char_pos(s.lo());
    format!("{}:{}", l.file.name.prefer_local_unconditionally(), l.line)
}

/// Interior mutability, raw pointers and owners of the heap inside a type.
fn inside<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>, seen: &mut Vec<Ty<'tcx>>) -> Option<String> {
    if seen.contains(&t) || seen.len() > 400 {
        return None;
    }
    seen.push(t);
    match t.kind() {
        ty::Adt(d, args) => {
            if Some(d.did()) == tcx.lang_items().unsafe_cell_type() {
                return Some("interior mutability".into());
            }
            let k = tcx.crate_name(d.did().krate).to_string();
            if d.did().krate != LOCAL_CRATE && !PURE.contains(&k.as_str()) {
                return Some(format!("a type of crate {k}"));
            }
            for f in d.all_fields() {
                if let Some(x) = inside(tcx, tcx.type_of(f.did).instantiate(tcx, args).skip_norm_wip(), seen) {
                    return Some(x);
                }
            }
            for a in args.iter() {
                if let Some(a) = a.as_type() {
                    if let Some(x) = inside(tcx, a, seen) {
                        return Some(x);
                    }
                }
            }
            None
        }
        ty::RawPtr(..) => None,
        ty::Array(e, _) | ty::Slice(e) => inside(tcx, *e, seen),
        ty::Ref(_, e, _) => inside(tcx, *e, seen),
        ty::Tuple(ts) => ts.iter().find_map(|x| inside(tcx, x, seen)),
        _ => None,
    }
}

pub fn collect(tcx: TyCtxt<'_>) -> Facts {
    let mut f = Facts { viol: vec![], fns: Default::default(), types: Default::default(), statics: Default::default(), callees: Default::default(), crates: vec![] };
    for c in tcx.crates(()) {
        let n = tcx.crate_name(*c).to_string();
        if ["std", "alloc", "proc_macro"].contains(&n.as_str()) {
            f.viol.push(("runtime".into(), format!("the library depends on crate {n}"), "src/lib.rs".into(), n.clone()));
        }
        f.crates.push(n);
    }
    tcx.hir_walk_toplevel_module(&mut Unsafe { tcx, f: &mut f });
    for d in tcx.hir_crate_items(()).definitions() {
        let did = d.to_def_id();
        let span = tcx.def_span(did);
        match tcx.def_kind(did) {
            DefKind::Static { mutability, .. } => {
                let n = tcx.def_path_str(did);
                f.statics.insert(n.clone());
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                if mutability.is_mut() {
                    f.viol.push(("shared".into(), "global mutable variable".into(), place(tcx, span), n));
                } else if let Some(x) = inside(tcx, t, &mut vec![]) {
                    f.viol.push(("shared".into(), format!("global variable with {x}"), place(tcx, span), n));
                }
            }
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let n = tcx.def_path_str(did);
                f.types.insert(n.clone());
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                if let Some(x) = inside(tcx, t, &mut vec![]) {
                    f.viol.push(("shared".into(), format!("type with {x}"), place(tcx, span), n));
                }
            }
            _ => {}
        }
    }
    for d in tcx.mir_keys(()) {
        let did = d.to_def_id();
        let n = tcx.def_path_str(did);
        let body = match tcx.def_kind(did) {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure => tcx.instance_mir(ty::InstanceKind::Item(did)),
            DefKind::Ctor(..) => continue,
            _ => tcx.mir_for_ctfe(did),
        };
        f.fns.insert(n.clone());
        let mut used: Vec<(DefId, rustc_span::Span)> = vec![];
        for b in body.basic_blocks.iter() {
            for s in &b.statements {
                if let StatementKind::Assign(a) = &s.kind {
                    if let Rvalue::ThreadLocalRef(x) = &a.1 {
                        f.viol.push(("shared".into(), format!("thread local {}", tcx.def_path_str(*x)), place(tcx, s.source_info.span), n.clone()));
                    }
                }
            }
            if let Some(t) = &b.terminator {
                if let TerminatorKind::InlineAsm { .. } = &t.kind {
                    f.viol.push(("unsafe".into(), "assembler".into(), place(tcx, t.source_info.span), n.clone()));
                }
            }
        }
        // everything that is mentioned as a function value
        struct V<'b, 'tcx>(&'b mut Vec<(DefId, rustc_span::Span)>, &'b mut Vec<Ty<'tcx>>);
        impl<'b, 'tcx> rustc_middle::mir::visit::Visitor<'tcx> for V<'b, 'tcx> {
            fn visit_const_operand(&mut self, c: &rustc_middle::mir::ConstOperand<'tcx>, _: rustc_middle::mir::Location) {
                if let ty::FnDef(d, _) = c.const_.ty().kind() {
                    self.0.push((*d, c.span));
                }
            }
        }
        let mut tys = vec![];
        rustc_middle::mir::visit::Visitor::visit_body(&mut V(&mut used, &mut tys), body);
        for l in body.local_decls.iter() {
            if l.ty.has_escaping_bound_vars() {
                continue;
            }
            if let Some(x) = inside(tcx, l.ty, &mut vec![]) {
                f.viol.push(("shared".into(), format!("value with {x}"), place(tcx, l.source_info.span), n.clone()));
            }
        }
        for (c, sp) in used {
            let k = tcx.crate_name(c.krate).to_string();
            let p = tcx.def_path_str(c);
            *f.callees.entry(p.clone()).or_default() += 1;
            if c.krate != LOCAL_CRATE && !PURE.contains(&k.as_str()) {
                f.viol.push(("runtime".into(), format!("calls {p} of crate {k}"), place(tcx, sp), n.clone()));
            }
        }
    }
    f
}
