//! Extraction of everything reachable from the analysis roots out of rustc.

use crate::ir::*;
use rustc_abi::{FieldIdx, Size, TagEncoding, Variants, FieldsShape};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::interpret::{alloc_range, AllocId, Allocation, ErrorHandled, GlobalAlloc, Scalar};
use rustc_middle::mir::{self, BinOp, Body, CastKind, ConstValue, Operand, Rvalue, StatementKind, TerminatorKind, UnOp};
use rustc_middle::ty::adjustment::PointerCoercion;
use rustc_middle::ty::{self, EarlyBinder, Instance, InstanceKind, Ty as RTy, TyCtxt, TyKind, TypeVisitableExt, TypingEnv};
use rustc_span::Span;
use std::collections::HashMap;

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
enum FnKey<'tcx> {
    Inst(Instance<'tcx>),
    Const(DefId, ty::GenericArgsRef<'tcx>, Option<mir::Promoted>),
}

pub struct Lower<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    pub p: Program,
    tys: HashMap<RTy<'tcx>, TyId>,
    fns: HashMap<FnKey<'tcx>, FuncId>,
    todo: Vec<(FnKey<'tcx>, FuncId, TypingEnv<'tcx>)>,
    callocs: HashMap<(AllocId, u64, RTy<'tcx>, Option<u64>), u32>,
    statics: HashMap<DefId, u32>,
    locs: HashMap<(String, u32), u32>,
}

impl<'tcx> Lower<'tcx> {
    pub fn new(tcx: TyCtxt<'tcx>) -> Self {
        Lower {
            tcx,
            env: TypingEnv::fully_monomorphized(),
            p: Program::default(),
            tys: HashMap::new(),
            fns: HashMap::new(),
            todo: vec![],
            callocs: HashMap::new(),
            statics: HashMap::new(),
            locs: HashMap::new(),
        }
    }

    pub fn add_root(&mut self, def: DefId) {
        let tcx = self.tcx;
        let args = ty::GenericArgs::identity_for_item(tcx, def);
        let generic = args.iter().any(|a| a.as_type().is_some() || a.as_const().is_some());
        self.env = if generic { TypingEnv::post_analysis(tcx, def) } else { TypingEnv::fully_monomorphized() };
        let args = if generic { args } else { tcx.erase_and_anonymize_regions(args) };
        let inst = Instance::new_raw(def, args);
        let id = self.func(FnKey::Inst(inst));
        let name = tcx.def_path_str(def);
        self.p.roots.push((name, id));
        while let Some((k, id, env)) = self.todo.pop() {
            self.env = env;
            self.lower_fn(k, id);
        }
    }

    fn func(&mut self, k: FnKey<'tcx>) -> FuncId {
        if let Some(i) = self.fns.get(&k) {
            return *i;
        }
        let id = self.p.funcs.len() as FuncId;
        self.p.funcs.push(Func {
            name: String::new(),
            krate: String::new(),
            file: String::new(),
            line: 0,
            nargs: 0,
            spread: None,
            locals: vec![],
            blocks: vec![],
            is_const_body: false,
            rpo: vec![],
            npreds: vec![],
            loops: vec![],
            loop_of: vec![],
            doomed: vec![],
            live_in: vec![],
        });
        self.fns.insert(k, id);
        self.todo.push((k, id, self.env));
        id
    }

    fn loc(&mut self, span: Span) -> u32 {
        let (f, l) = self.file_line(span);
        if let Some(i) = self.locs.get(&(f.clone(), l)) {
            return *i;
        }
        let i = self.p.locs.len() as u32;
        self.p.locs.push((f.clone(), l));
        self.locs.insert((f, l), i);
        i
    }

    fn file_line(&self, span: Span) -> (String, u32) {
        let span = span.source_callsite();
        let lo = self.tcx.sess.source_map().lookup_char_pos(span.lo());
        (format!("{}", lo.file.name.prefer_local_unconditionally()), lo.line as u32)
    }

    // ---------------------------------------------------------------- types
    pub fn norm(&self, t: RTy<'tcx>) -> RTy<'tcx> {
        self.tcx
            .try_normalize_erasing_regions(self.env, ty::Unnormalized::new(t))
            .unwrap_or(t)
    }

    pub fn ty(&mut self, t: RTy<'tcx>) -> TyId {
        let t = self.norm(t);
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let id = self.p.types.len() as TyId;
        self.p.types.push(Ty::Pending);
        self.tys.insert(t, id);
        let r = self.mk_ty(t);
        self.p.types[id as usize] = r;
        id
    }

    fn zst_rt(&self, t: RTy<'tcx>) -> bool {
        let t = self.norm(t);
        match t.kind() {
            TyKind::Tuple(f) => f.iter().all(|x| self.zst_rt(x)),
            TyKind::FnDef(..) => true,
            TyKind::Adt(def, args) if def.is_struct() => def.non_enum_variant().fields.iter().all(|f| self.zst_rt(self.fty(f, args))),
            TyKind::Array(e, n) => n.try_to_target_usize(self.tcx) == Some(0) || self.zst_rt(*e),
            TyKind::Closure(_, a) => a.as_closure().upvar_tys().iter().all(|x| self.zst_rt(x)),
            _ => false,
        }
    }

    fn fty(&self, f: &ty::FieldDef, args: ty::GenericArgsRef<'tcx>) -> RTy<'tcx> {
        self.norm(f.ty(self.tcx, args).skip_norm_wip())
    }

    fn mk_ty(&mut self, t: RTy<'tcx>) -> Ty {
        let tcx = self.tcx;
        match t.kind() {
            TyKind::Bool => Ty::Bool,
            TyKind::Char => Ty::Char,
            TyKind::Int(i) => Ty::Int { w: i.bit_width().unwrap_or(64) as u8, signed: true },
            TyKind::Uint(i) => Ty::Int { w: i.bit_width().unwrap_or(64) as u8, signed: false },
            TyKind::Float(f) => Ty::Float(f.bit_width() as u8),
            TyKind::Str => Ty::Str,
            TyKind::Never => Ty::Never,
            TyKind::Tuple(f) => Ty::Tuple(f.iter().map(|x| self.ty(x)).collect()),
            TyKind::Array(e, n) => {
                let e = self.ty(*e);
                match n.try_to_target_usize(tcx) {
                    Some(n) => Ty::Array(e, n),
                    None => Ty::Opaque(format!("{t}")),
                }
            }
            TyKind::Slice(e) => Ty::Slice(self.ty(*e)),
            TyKind::Ref(_, e, _) | TyKind::RawPtr(e, _) => Ty::Ptr(self.ty(*e)),
            TyKind::Pat(base, _) => {
                let b = self.ty(*base);
                Ty::Transparent("pat".into(), 0, vec![b])
            }
            TyKind::FnDef(d, _) => Ty::FnDef(tcx.def_path_str(*d)),
            TyKind::FnPtr(..) => Ty::FnPtr,
            TyKind::Closure(d, a) => Ty::Struct(tcx.def_path_str(*d), a.as_closure().upvar_tys().iter().map(|x| self.ty(x)).collect()),
            TyKind::Adt(def, args) => {
                let name = tcx.def_path_str(def.did());
                if def.is_struct() || def.is_union() {
                    let v = def.non_enum_variant();
                    let ftys: Vec<RTy<'tcx>> = v.fields.iter().map(|f| self.fty(f, args)).collect();
                    let ids: Vec<TyId> = ftys.iter().map(|x| self.ty(*x)).collect();
                    if def.repr().transparent() {
                        let nz: Vec<usize> = (0..ftys.len()).filter(|i| !self.zst_rt(ftys[*i])).collect();
                        if nz.len() == 1 {
                            return Ty::Transparent(name, nz[0], ids);
                        }
                        if nz.is_empty() && def.is_union() {
                            // MaybeUninit<ZST>
                            return Ty::Transparent(name, ids.len() - 1, ids);
                        }
                    }
                    if def.is_union() {
                        Ty::Union(name, ids)
                    } else {
                        Ty::Struct(name, ids)
                    }
                } else {
                    let w = match def.repr().discr_type() {
                        i => {
                            use rustc_middle::ty::util::IntTypeExt;
                            let t = i.to_ty(tcx);
                            match t.kind() {
                                TyKind::Int(i) => i.bit_width().unwrap_or(64) as u8,
                                TyKind::Uint(i) => i.bit_width().unwrap_or(64) as u8,
                                _ => 64,
                            }
                        }
                    };
                    let vs: Vec<(String, u128, Vec<RTy<'tcx>>)> = def
                        .discriminants(tcx)
                        .map(|(i, d)| {
                            let v = def.variant(i);
                            (v.name.to_string(), d.val, v.fields.iter().map(|f| self.fty(f, args)).collect())
                        })
                        .collect();
                    let vs = vs
                        .into_iter()
                        .map(|(name, discr, f)| Variant { name, discr, fields: f.into_iter().map(|x| self.ty(x)).collect() })
                        .collect();
                    Ty::Enum(name, vs, w)
                }
            }
            _ => Ty::Opaque(format!("{t}")),
        }
    }

    // ---------------------------------------------------------------- constants
    fn konst(&mut self, c: mir::Const<'tcx>, span: Span) -> CVal {
        let tcx = self.tcx;
        let ty = self.norm(c.ty());
        if let TyKind::FnDef(d, a) = ty.kind() {
            return CVal::Fn(self.callee(*d, a.skip_binder()));
        }
        match c {
            mir::Const::Ty(_, k) => {
                if let ty::ConstKind::Param(p) = k.kind() {
                    let w = match ty.kind() {
                        TyKind::Uint(u) => u.bit_width().unwrap_or(64) as u8,
                        TyKind::Int(u) => u.bit_width().unwrap_or(64) as u8,
                        _ => 1,
                    };
                    return CVal::Param(p.name.to_string(), w);
                }
            }
            mir::Const::Unevaluated(u, _) => {
                if u.args.has_non_region_param() {
                    // resolve associated constant to its impl
                    let def = u.def;
                    let inst = match u.promoted {
                        Some(_) => Some((def, u.args)),
                        None => match tcx.resolve_instance_raw(self.env.as_query_input((def, u.args))) {
                            Ok(Some(i)) => Some((i.def_id(), i.args)),
                            _ => None,
                        },
                    };
                    if let Some((d, a)) = inst {
                        let id = self.func(FnKey::Const(d, a, u.promoted));
                        return CVal::Body(id);
                    }
                    return CVal::Unsupported(format!("unresolved generic constant {}", tcx.def_path_str(def)));
                }
            }
            _ => {}
        }
        match c.eval(tcx, self.env, span) {
            Ok(v) => self.const_value(v, ty),
            Err(ErrorHandled::TooGeneric(_)) => CVal::Unsupported(format!("too generic constant of type {ty}")),
            Err(_) => CVal::Unsupported(format!("constant evaluation error {ty}")),
        }
    }

    fn const_value(&mut self, v: ConstValue, ty: RTy<'tcx>) -> CVal {
        let tcx = self.tcx;
        match v {
            ConstValue::ZeroSized => self.zst_value(ty),
            ConstValue::Scalar(s) => self.scalar_value(s, ty),
            ConstValue::Slice { alloc_id, meta } => {
                let TyKind::Ref(_, inner, _) = ty.kind() else { return CVal::Unsupported("slice const".into()) };
                self.ptr_to(alloc_id, 0, *inner, Some(meta))
            }
            ConstValue::Indirect { alloc_id, offset } => {
                let GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) else { return CVal::Unsupported("indirect const".into()) };
                self.from_mem(a.inner(), offset.bytes(), ty)
            }
        }
    }

    fn zst_value(&mut self, ty: RTy<'tcx>) -> CVal {
        let ty = self.norm(ty);
        match ty.kind() {
            TyKind::FnDef(d, a) => CVal::Fn(self.callee(*d, a.skip_binder())),
            TyKind::Tuple(f) => CVal::Agg(f.iter().map(|x| self.zst_value(x)).collect()),
            TyKind::Closure(_, a) => CVal::Agg(a.as_closure().upvar_tys().iter().map(|x| self.zst_value(x)).collect()),
            TyKind::Adt(def, args) if def.is_struct() => {
                let id = self.ty(ty);
                let f: Vec<_> = def.non_enum_variant().fields.iter().map(|f| self.fty(f, args)).collect();
                if let Ty::Transparent(_, k, _) = self.p.ty(id) {
                    let k = *k;
                    return self.zst_value(f[k]);
                }
                CVal::Agg(f.into_iter().map(|x| self.zst_value(x)).collect())
            }
            TyKind::Adt(def, args) if def.is_enum() => {
                let f: Vec<_> = def.variants().iter().next().map(|v| v.fields.iter().map(|f| self.fty(f, args)).collect()).unwrap_or_default();
                CVal::Enum(0, f.into_iter().map(|x| self.zst_value(x)).collect())
            }
            TyKind::Array(e, n) => {
                let n = n.try_to_target_usize(self.tcx).unwrap_or(0);
                CVal::Arr((0..n).map(|_| self.zst_value(*e)).collect())
            }
            _ => CVal::Agg(vec![]),
        }
    }

    fn scalar_value(&mut self, s: Scalar, ty: RTy<'tcx>) -> CVal {
        // build a small allocation view: scalars of scalar types directly
        let ty = self.norm(ty);
        match ty.kind() {
            TyKind::Bool | TyKind::Char | TyKind::Int(_) | TyKind::Uint(_) | TyKind::Float(_) => match s {
                Scalar::Int(i) => CVal::Int(self.w_of(ty), i.to_bits(i.size())),
                _ => CVal::Unsupported("pointer as int".into()),
            },
            TyKind::Ref(_, inner, _) | TyKind::RawPtr(inner, _) => self.scalar_ptr(s, *inner),
            TyKind::FnPtr(..) => self.scalar_ptr(s, ty),
            TyKind::Pat(b, _) => self.scalar_value(s, *b),
            TyKind::Adt(def, args) if def.is_struct() || def.is_union() => {
                let id = self.ty(ty);
                let f: Vec<_> = def.non_enum_variant().fields.iter().map(|f| self.fty(f, args)).collect();
                if let Ty::Transparent(_, k, _) = self.p.ty(id) {
                    let k = *k;
                    return self.scalar_value(s, f[k]);
                }
                let mut out = vec![];
                for x in f {
                    if self.zst_rt(x) {
                        out.push(self.zst_value(x));
                    } else {
                        out.push(self.scalar_value(s, x));
                    }
                }
                CVal::Agg(out)
            }
            TyKind::Tuple(f) => {
                let mut out = vec![];
                for x in f.iter() {
                    if self.zst_rt(x) {
                        out.push(self.zst_value(x));
                    } else {
                        out.push(self.scalar_value(s, x));
                    }
                }
                CVal::Agg(out)
            }
            TyKind::Adt(def, _) if def.is_enum() => {
                let mut a: Allocation = Allocation::from_bytes(vec![0u8; s.size().bytes() as usize], rustc_abi::Align::EIGHT, rustc_middle::mir::Mutability::Mut, ());
                if a.write_scalar(&self.tcx, alloc_range(Size::ZERO, s.size()), s).is_err() {
                    return CVal::Unsupported("enum scalar".into());
                }
                self.from_mem(&a, 0, ty)
            }
            TyKind::Array(e, n) if n.try_to_target_usize(self.tcx) == Some(1) => CVal::Arr(vec![self.scalar_value(s, *e)]),
            _ => CVal::Unsupported(format!("scalar of type {ty}")),
        }
    }

    fn w_of(&self, ty: RTy<'tcx>) -> u8 {
        match ty.kind() {
            TyKind::Bool => 1,
            TyKind::Char => 32,
            TyKind::Int(i) => i.bit_width().unwrap_or(64) as u8,
            TyKind::Uint(i) => i.bit_width().unwrap_or(64) as u8,
            TyKind::Float(f) => f.bit_width() as u8,
            _ => 64,
        }
    }

    fn scalar_ptr(&mut self, s: Scalar, inner: RTy<'tcx>) -> CVal {
        match s {
            Scalar::Int(i) => CVal::RawPtr(i.to_bits(i.size())),
            Scalar::Ptr(p, _) => {
                let (prov, off) = p.into_raw_parts();
                self.ptr_to(prov.alloc_id(), off.bytes(), inner, None)
            }
        }
    }

    fn ptr_to(&mut self, id: AllocId, off: u64, inner: RTy<'tcx>, meta: Option<u64>) -> CVal {
        let tcx = self.tcx;
        let inner = self.norm(inner);
        match tcx.global_alloc(id) {
            GlobalAlloc::Function { instance, .. } => CVal::Fn(self.callee_inst(instance)),
            GlobalAlloc::Static(d) => {
                if off != 0 {
                    return CVal::Unsupported("pointer into static".into());
                }
                let st = self.static_(d);
                CVal::StaticPtr { st, meta }
            }
            GlobalAlloc::Memory(a) => {
                let key = (id, off, inner, meta);
                let is_slice = matches!(inner.kind(), TyKind::Slice(_) | TyKind::Str);
                if let Some(i) = self.callocs.get(&key) {
                    return CVal::Ptr { alloc: *i, idx: if is_slice { Some(0) } else { None }, meta };
                }
                let idx = self.p.callocs.len() as u32;
                self.p.callocs.push(CVal::Uninit);
                self.callocs.insert(key, idx);
                let v = match inner.kind() {
                    TyKind::Slice(e) => {
                        let e = *e;
                        match tcx.layout_of(self.env.as_query_input(e)) {
                            Ok(l) => {
                                let sz = l.size.bytes();
                                CVal::Arr((0..meta.unwrap_or(0)).map(|i| self.from_mem(a.inner(), off + i * sz, e)).collect())
                            }
                            Err(_) => CVal::Unsupported("layout".into()),
                        }
                    }
                    TyKind::Str => CVal::Arr((0..meta.unwrap_or(0)).map(|i| self.from_mem(a.inner(), off + i, tcx.types.u8)).collect()),
                    _ => self.from_mem(a.inner(), off, inner),
                };
                self.p.callocs[idx as usize] = v;
                CVal::Ptr { alloc: idx, idx: if is_slice { Some(0) } else { None }, meta }
            }
            _ => CVal::Unsupported("vtable or type id pointer".into()),
        }
    }

    fn static_(&mut self, d: DefId) -> u32 {
        if let Some(i) = self.statics.get(&d) {
            return *i;
        }
        let tcx = self.tcx;
        let idx = self.p.statics.len() as u32;
        let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
        let t = self.norm(t);
        let ty = self.ty(t);
        self.p.statics.push(StaticDef { name: tcx.def_path_str(d), ty, init: CVal::Uninit, mutable: true });
        self.statics.insert(d, idx);
        let init = match tcx.eval_static_initializer(d) {
            Ok(a) => self.from_mem(a.inner(), 0, t),
            Err(_) => CVal::Unsupported("static init".into()),
        };
        self.p.statics[idx as usize].init = init;
        idx
    }

    fn from_mem(&mut self, a: &Allocation, off: u64, ty: RTy<'tcx>) -> CVal {
        let tcx = self.tcx;
        let ty = self.norm(ty);
        let Ok(layout) = tcx.layout_of(self.env.as_query_input(ty)) else { return CVal::Unsupported(format!("layout of {ty}")) };
        if layout.is_zst() {
            return self.zst_value(ty);
        }
        let read = |o: u64, sz: Size, prov: bool| a.read_scalar(&tcx, alloc_range(Size::from_bytes(o), sz), prov && sz == tcx.data_layout.pointer_size());
        let foff = |i: usize| match &layout.fields {
            FieldsShape::Arbitrary { offsets, .. } => offsets[FieldIdx::from_usize(i)].bytes(),
            FieldsShape::Array { stride, .. } => stride.bytes() * i as u64,
            _ => 0,
        };
        match ty.kind() {
            TyKind::Bool | TyKind::Char | TyKind::Int(_) | TyKind::Uint(_) | TyKind::Float(_) => match read(off, layout.size, false) {
                Ok(Scalar::Int(i)) => CVal::Int(self.w_of(ty), i.to_bits(i.size())),
                _ => CVal::Uninit,
            },
            TyKind::Ref(_, inner, _) | TyKind::RawPtr(inner, _) => {
                let inner = self.norm(*inner);
                let ps = tcx.data_layout.pointer_size();
                let Ok(s) = read(off, ps, true) else { return CVal::Uninit };
                if matches!(inner.kind(), TyKind::Slice(_) | TyKind::Str) {
                    let m = match read(off + ps.bytes(), ps, false) {
                        Ok(Scalar::Int(i)) => i.to_bits(i.size()) as u64,
                        _ => return CVal::Uninit,
                    };
                    match s {
                        Scalar::Ptr(p, _) => {
                            let (prov, o) = p.into_raw_parts();
                            self.ptr_to(prov.alloc_id(), o.bytes(), inner, Some(m))
                        }
                        Scalar::Int(i) => {
                            if m == 0 {
                                let idx = self.p.callocs.len() as u32;
                                self.p.callocs.push(CVal::Arr(vec![]));
                                CVal::Ptr { alloc: idx, idx: Some(0), meta: Some(0) }
                            } else {
                                CVal::RawPtr(i.to_bits(i.size()))
                            }
                        }
                    }
                } else {
                    self.scalar_ptr(s, inner)
                }
            }
            TyKind::FnPtr(..) => match read(off, layout.size, true) {
                Ok(s) => self.scalar_ptr(s, ty),
                _ => CVal::Uninit,
            },
            TyKind::Pat(b, _) => self.from_mem(a, off, *b),
            TyKind::Tuple(f) => CVal::Agg(f.iter().enumerate().map(|(i, x)| self.from_mem(a, off + foff(i), x)).collect()),
            TyKind::Closure(_, ar) => CVal::Agg(ar.as_closure().upvar_tys().iter().enumerate().map(|(i, x)| self.from_mem(a, off + foff(i), x)).collect()),
            TyKind::Array(e, n) => {
                let n = n.try_to_target_usize(tcx).unwrap_or(0);
                CVal::Arr((0..n).map(|i| self.from_mem(a, off + foff(i as usize), *e)).collect())
            }
            TyKind::Adt(def, args) if def.is_struct() => {
                let id = self.ty(ty);
                let f: Vec<_> = def.non_enum_variant().fields.iter().map(|f| self.fty(f, args)).collect();
                if let Ty::Transparent(_, k, _) = self.p.ty(id) {
                    let k = *k;
                    return self.from_mem(a, off + foff(k), f[k]);
                }
                CVal::Agg(f.into_iter().enumerate().map(|(i, x)| self.from_mem(a, off + foff(i), x)).collect())
            }
            TyKind::Adt(def, args) if def.is_union() => {
                let id = self.ty(ty);
                let f: Vec<_> = def.non_enum_variant().fields.iter().map(|f| self.fty(f, args)).collect();
                if let Ty::Transparent(_, k, _) = self.p.ty(id) {
                    let k = *k;
                    return self.from_mem(a, off, f[k]);
                }
                CVal::Unsupported("union constant".into())
            }
            TyKind::Adt(def, args) if def.is_enum() => {
                let (vi, vl) = match &layout.variants {
                    Variants::Single { index } => (*index, layout),
                    Variants::Empty => return CVal::Uninit,
                    Variants::Multiple { tag, tag_encoding, tag_field, .. } => {
                        let to = foff(tag_field.as_usize());
                        let ts = tag.size(&tcx);
                        let s = read(off + to, ts, true);
                        let idx = match tag_encoding {
                            TagEncoding::Direct => {
                                let Ok(Scalar::Int(i)) = s else { return CVal::Uninit };
                                let bits = i.to_bits(i.size());
                                let m = if ts.bits() >= 128 { u128::MAX } else { (1u128 << ts.bits()) - 1 };
                                match def.discriminants(tcx).find(|(_, d)| d.val & m == bits) {
                                    Some((i, _)) => i,
                                    None => return CVal::Uninit,
                                }
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => match s {
                                Ok(Scalar::Ptr(..)) => *untagged_variant,
                                Ok(Scalar::Int(i)) => {
                                    let bits = i.to_bits(i.size());
                                    let m = if ts.bits() >= 128 { u128::MAX } else { (1u128 << ts.bits()) - 1 };
                                    let rel = bits.wrapping_sub(*niche_start) & m;
                                    let cnt = (niche_variants.last.as_u32() - niche_variants.start.as_u32()) as u128;
                                    if rel <= cnt {
                                        rustc_abi::VariantIdx::from_u32(niche_variants.start.as_u32() + rel as u32)
                                    } else {
                                        *untagged_variant
                                    }
                                }
                                _ => return CVal::Uninit,
                            },
                        };
                        let cx = ty::layout::LayoutCx::new(tcx, self.env);
                        (idx, layout.for_variant(&cx, idx))
                    }
                };
                let f: Vec<_> = def.variant(vi).fields.iter().map(|f| self.fty(f, args)).collect();
                let offs: Vec<u64> = (0..f.len())
                    .map(|i| match &vl.fields {
                        FieldsShape::Arbitrary { offsets, .. } => offsets[FieldIdx::from_usize(i)].bytes(),
                        _ => 0,
                    })
                    .collect();
                CVal::Enum(vi.as_u32(), f.into_iter().enumerate().map(|(i, x)| self.from_mem(a, off + offs[i], x)).collect())
            }
            _ => CVal::Unsupported(format!("constant of type {ty}")),
        }
    }

    // ---------------------------------------------------------------- functions
    fn callee(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> Callee {
        let tcx = self.tcx;
        let args = tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new(args)).unwrap_or(args);
        if tcx.crate_name(d.krate).as_str() == "roots" {
            let p = tcx.def_path_str(d);
            if p.starts_with("vs::") || p.contains("::vs::") {
                let n = p.rsplit("::").next().unwrap().split('<').next().unwrap().to_string();
                let ts = args.types().map(|t| self.ty(t)).collect();
                return Callee::Harness(n, ts);
            }
        }
        match Instance::try_resolve(tcx, self.env, d, args) {
            Ok(Some(i)) => self.callee_inst(i),
            _ => Callee::Unresolved(tcx.def_path_str_with_args(d, args)),
        }
    }

    fn callee_inst(&mut self, i: Instance<'tcx>) -> Callee {
        let tcx = self.tcx;
        match i.def {
            InstanceKind::Intrinsic(d) => {
                let name = tcx.item_name(d).to_string();
                if !crate::exec::INTRINSICS.contains(&name.as_str()) && tcx.intrinsic(d).is_some_and(|x| !x.must_be_overridden) && tcx.is_mir_available(d) {
                    // defined by its fallback body
                    return Callee::Fn(self.func(FnKey::Inst(Instance { def: InstanceKind::Item(d), args: i.args })));
                }
                let ts = i.args.types().map(|t| self.ty(t)).collect();
                Callee::Intrinsic(name, ts)
            }
            InstanceKind::Virtual(d, _) => Callee::Unresolved(format!("virtual {}", tcx.def_path_str(d))),
            InstanceKind::LlvmIntrinsic(d) => Callee::NoBody(tcx.def_path_str(d)),
            InstanceKind::Item(d) => {
                if tcx.intrinsic(d).is_some() {
                    let name = tcx.item_name(d).to_string();
                    if crate::exec::INTRINSICS.contains(&name.as_str()) {
                        let ts = i.args.types().map(|t| self.ty(t)).collect();
                        return Callee::Intrinsic(name, ts);
                    }
                }
                if tcx.is_constructor(d) || tcx.is_mir_available(d) {
                    Callee::Fn(self.func(FnKey::Inst(i)))
                } else {
                    Callee::NoBody(tcx.def_path_str_with_args(d, i.args))
                }
            }
            InstanceKind::Shim(_) => Callee::Fn(self.func(FnKey::Inst(i))),
        }
    }

    fn lower_fn(&mut self, k: FnKey<'tcx>, id: FuncId) {
        let tcx = self.tcx;
        let (body, name, def): (Body<'tcx>, String, DefId) = match k {
            FnKey::Inst(i) => {
                let b = tcx.instance_mir(i.def);
                let b = i.instantiate_mir_and_normalize_erasing_regions(tcx, self.env, EarlyBinder::bind(tcx, b.clone()));
                let n = match i.def {
                    InstanceKind::Item(d) => tcx.def_path_str(d),
                    _ => format!("{} (shim)", tcx.def_path_str(i.def_id())),
                };
                (b, n, i.def_id())
            }
            FnKey::Const(d, args, prom) => {
                let b = match prom {
                    Some(p) => tcx.promoted_mir(d)[p].clone(),
                    None => tcx.mir_for_ctfe(d).clone(),
                };
                let b = tcx.instantiate_and_normalize_erasing_regions(args, self.env, EarlyBinder::bind(tcx, b));
                (b, format!("const {}", tcx.def_path_str(d)), d)
            }
        };
        let (file, line) = self.file_line(body.span);
        let locals: Vec<TyId> = body.local_decls.iter().map(|l| self.ty(l.ty)).collect();
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            if bb.is_cleanup {
                blocks.push(Block { stmts: vec![], term: Term::Unreachable, loc: 0, cleanup: true });
                continue;
            }
            let mut stmts = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(b) => {
                        let (p, r) = &**b;
                        let pl = self.place(&body, *p);
                        let rv = self.rvalue(&body, r, p.ty(&body, tcx).ty, s.source_info.span);
                        stmts.push(Stmt::Assign(pl, rv));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let pl = self.place(&body, **place);
                        stmts.push(Stmt::SetDiscr(pl, variant_index.as_u32()));
                    }
                    StatementKind::StorageLive(l) => stmts.push(Stmt::Live(l.as_u32())),
                    StatementKind::StorageDead(l) => stmts.push(Stmt::Dead(l.as_u32())),
                    StatementKind::Intrinsic(i) => match &**i {
                        mir::NonDivergingIntrinsic::Assume(o) => {
                            let o = self.operand(&body, o);
                            stmts.push(Stmt::Assume(o));
                        }
                        mir::NonDivergingIntrinsic::CopyNonOverlapping(c) => {
                            let t = c.src.ty(&body, tcx);
                            let inner = match t.kind() {
                                TyKind::RawPtr(i, _) | TyKind::Ref(_, i, _) => *i,
                                _ => t,
                            };
                            let inner = self.ty(inner);
                            let (a, b, n) = (self.operand(&body, &c.src), self.operand(&body, &c.dst), self.operand(&body, &c.count));
                            stmts.push(Stmt::CopyNonOverlapping(a, b, n, inner));
                        }
                    },
                    _ => {}
                }
            }
            let t = bb.terminator();
            let loc = self.loc(t.source_info.span);
            let term = self.term(&body, t);
            blocks.push(Block { stmts, term, loc, cleanup: false });
        }
        if let Ok(w) = std::env::var("DBGI") {
            if name.contains(&w) {
                let mut out = vec![];
                let _ = rustc_middle::mir::pretty::MirWriter::new(tcx).write_mir_fn(&body, &mut out);
                eprintln!("{}", String::from_utf8_lossy(&out));
            }
        }
        let f = &mut self.p.funcs[id as usize];
        f.name = name;
        f.krate = tcx.crate_name(def.krate).to_string();
        f.file = file;
        f.line = line;
        f.nargs = body.arg_count;
        f.spread = body.spread_arg.map(|l| l.as_u32());
        f.locals = locals;
        f.blocks = blocks;
        f.is_const_body = matches!(k, FnKey::Const(..));
        finish(f);
    }

    fn place(&mut self, body: &Body<'tcx>, p: mir::Place<'tcx>) -> Place {
        let tcx = self.tcx;
        let mut proj = vec![];
        let mut pt = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            match e {
                mir::ProjectionElem::Deref => proj.push(PE::Deref),
                mir::ProjectionElem::Field(f, ft) => {
                    let base = self.norm(pt.ty);
                    let bid = self.ty(base);
                    if pt.variant_index.is_some() {
                        proj.push(PE::Field(f.as_u32()));
                        pt = pt.projection_ty(tcx, e);
                        continue;
                    }
                    match self.p.ty(bid).clone() {
                        Ty::Transparent(_, k, _) => {
                            if f.as_usize() != k {
                                proj.push(PE::Zst);
                            }
                        }
                        Ty::Union(..) => {
                            let t = self.ty(ft);
                            proj.push(PE::UField(t));
                        }
                        _ if matches!(ft.kind(), TyKind::Slice(_) | TyKind::Str) => proj.push(PE::Tail(f.as_u32())),
                        _ => proj.push(PE::Field(f.as_u32())),
                    }
                }
                mir::ProjectionElem::Downcast(_, v) => {
                    let base = self.norm(pt.ty);
                    let bid = self.ty(base);
                    if matches!(self.p.ty(bid), Ty::Enum(..)) {
                        proj.push(PE::Down(v.as_u32()));
                    }
                }
                mir::ProjectionElem::Index(l) => proj.push(PE::Index(l.as_u32())),
                mir::ProjectionElem::ConstantIndex { offset, from_end, .. } => proj.push(PE::CIdx { off: offset, from_end }),
                mir::ProjectionElem::Subslice { from, to, from_end } => proj.push(PE::Sub { from, to, from_end }),
                _ => {}
            }
            pt = pt.projection_ty(tcx, e);
        }
        Place { local: p.local.as_u32(), proj, ty: self.ty(pt.ty) }
    }

    fn operand(&mut self, body: &Body<'tcx>, o: &Operand<'tcx>) -> Opnd {
        match o {
            Operand::Copy(p) => Opnd::Copy(self.place(body, *p)),
            Operand::Move(p) => Opnd::Move(self.place(body, *p)),
            Operand::Constant(c) => Opnd::Const(self.konst(c.const_, c.span)),
            Operand::RuntimeChecks(k) => Opnd::Const(CVal::Int(1, matches!(k, mir::RuntimeChecks::OverflowChecks) as u128)),
        }
    }

    fn rvalue(&mut self, body: &Body<'tcx>, r: &Rvalue<'tcx>, dst: RTy<'tcx>, _span: Span) -> Rv {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, _) => Rv::Use(self.operand(body, o)),
            Rvalue::Repeat(o, n) => match n.try_to_target_usize(tcx) {
                Some(n) => Rv::Repeat(self.operand(body, o), n),
                None => Rv::Unsupported("repeat with generic length".into()),
            },
            Rvalue::Ref(_, _, p) | Rvalue::RawPtr(_, p) => Rv::Ref(self.place(body, *p)),
            Rvalue::CopyForDeref(p) | Rvalue::Reborrow(_, _, p) => Rv::Use(Opnd::Copy(self.place(body, *p))),
            Rvalue::Cast(k, o, t) => {
                let from = o.ty(body, tcx);
                let (f, t2) = (self.ty(from), self.ty(*t));
                let op = self.operand(body, o);
                let ck = match k {
                    CastKind::IntToInt => CastK::IntToInt,
                    CastKind::PtrToPtr | CastKind::FnPtrToPtr => CastK::PtrToPtr,
                    CastKind::Transmute | CastKind::BoxDerefTransmute => CastK::Transmute,
                    CastKind::Subtype => CastK::Nop,
                    CastKind::PointerExposeProvenance => CastK::PtrToInt,
                    CastKind::PointerWithExposedProvenance => CastK::IntToPtr,
                    CastKind::PointerCoercion(c, _) => match c {
                        PointerCoercion::Unsize => CastK::Unsize,
                        PointerCoercion::MutToConstPointer | PointerCoercion::UnsafeFnPointer => CastK::Nop,
                        PointerCoercion::ArrayToPointer => CastK::PtrToPtr,
                        PointerCoercion::ReifyFnPointer(_) => CastK::FnPtr,
                        PointerCoercion::ClosureFnPointer(_) => {
                            let from = self.norm(from);
                            if let TyKind::Closure(d, a) = from.kind() {
                                let i = Instance::resolve_closure(tcx, *d, a, ty::ClosureKind::FnOnce);
                                let c = self.callee_inst(i);
                                return Rv::Use(Opnd::Const(CVal::Fn(c)));
                            }
                            CastK::Other(format!("{c:?}"))
                        }
                    },
                    other => CastK::Other(format!("{other:?}")),
                };
                Rv::Cast(ck, op, f, t2)
            }
            Rvalue::BinaryOp(op, b) => {
                let lt = b.0.ty(body, tcx);
                let rt = b.1.ty(body, tcx);
                let (lt, rt) = (self.ty(lt), self.ty(rt));
                let a = self.operand(body, &b.0);
                let c = self.operand(body, &b.1);
                let k = match op {
                    BinOp::Add | BinOp::AddUnchecked => Bop::Add,
                    BinOp::Sub | BinOp::SubUnchecked => Bop::Sub,
                    BinOp::Mul | BinOp::MulUnchecked => Bop::Mul,
                    BinOp::AddWithOverflow => Bop::AddOvf,
                    BinOp::SubWithOverflow => Bop::SubOvf,
                    BinOp::MulWithOverflow => Bop::MulOvf,
                    BinOp::Div => Bop::Div,
                    BinOp::Rem => Bop::Rem,
                    BinOp::BitXor => Bop::Xor,
                    BinOp::BitAnd => Bop::And,
                    BinOp::BitOr => Bop::Or,
                    BinOp::Shl | BinOp::ShlUnchecked => Bop::Shl,
                    BinOp::Shr | BinOp::ShrUnchecked => Bop::Shr,
                    BinOp::Eq => Bop::Eq,
                    BinOp::Ne => Bop::Ne,
                    BinOp::Lt => Bop::Lt,
                    BinOp::Le => Bop::Le,
                    BinOp::Gt => Bop::Gt,
                    BinOp::Ge => Bop::Ge,
                    BinOp::Cmp => Bop::Cmp,
                    BinOp::Offset => Bop::Offset,
                };
                Rv::Bin(k, a, c, lt, rt)
            }
            Rvalue::UnaryOp(op, o) => {
                let t = o.ty(body, tcx);
                let t = self.ty(t);
                let a = self.operand(body, o);
                match op {
                    UnOp::Not => Rv::Not(a, t),
                    UnOp::Neg => Rv::Neg(a, t),
                    UnOp::PtrMetadata => Rv::PtrMeta(a),
                }
            }
            Rvalue::Discriminant(p) => Rv::Discr(self.place(body, *p)),
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<Opnd> = ops.iter().map(|o| self.operand(body, o)).collect();
                match &**k {
                    mir::AggregateKind::Array(_) => Rv::Arr(v),
                    mir::AggregateKind::Tuple | mir::AggregateKind::Closure(..) => Rv::Agg(v),
                    mir::AggregateKind::RawPtr(..) => {
                        let mut it = v.into_iter();
                        let a = it.next().unwrap();
                        let b = it.next().unwrap();
                        Rv::FatPtr(a, b)
                    }
                    mir::AggregateKind::Adt(_, vi, _, _, _) => {
                        let id = self.ty(dst);
                        match self.p.ty(id) {
                            Ty::Transparent(_, kf, _) => {
                                let kf = *kf;
                                if v.len() == 1 {
                                    // union with one active field, or single-field wrapper
                                    if let Rvalue::Aggregate(ak, _) = r {
                                        if let mir::AggregateKind::Adt(_, _, _, _, Some(af)) = &**ak {
                                            if af.as_usize() != kf {
                                                return Rv::Use(Opnd::Const(CVal::Uninit));
                                            }
                                        }
                                    }
                                    Rv::Wrap(v.into_iter().next().unwrap())
                                } else {
                                    Rv::Wrap(v.into_iter().nth(kf).unwrap())
                                }
                            }
                            Ty::Union(..) => Rv::Wrap(v.into_iter().next().unwrap()),
                            Ty::Enum(..) => Rv::EnumAgg(vi.as_u32(), v),
                            _ => Rv::Agg(v),
                        }
                    }
                    other => Rv::Unsupported(format!("{other:?}")),
                }
            }
            other => Rv::Unsupported(format!("{other:?}")),
        }
    }

    fn term(&mut self, body: &Body<'tcx>, t: &mir::Terminator<'tcx>) -> Term {
        let tcx = self.tcx;
        match &t.kind {
            TerminatorKind::Goto { target, .. } => Term::Goto(target.as_u32()),
            TerminatorKind::SwitchInt { discr, targets } => {
                let ty = discr.ty(body, tcx);
                let ty = self.ty(ty);
                Term::Switch(self.operand(body, discr), ty, targets.iter().map(|(v, b)| (v, b.as_u32())).collect(), targets.otherwise().as_u32())
            }
            TerminatorKind::Return => Term::Return,
            TerminatorKind::Unreachable => Term::Unreachable,
            TerminatorKind::Drop { place, target, .. } => {
                let ty = self.norm(place.ty(body, tcx).ty);
                let c = if ty.needs_drop(tcx, self.env) {
                    let inst = Instance::resolve_drop_glue(tcx, ty);
                    Some(self.callee_inst(inst))
                } else {
                    None
                };
                Term::Drop(self.place(body, *place), c, target.as_u32())
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let fty = self.norm(func.ty(body, tcx));
                let a: Vec<Opnd> = args.iter().map(|x| self.operand(body, &x.node)).collect();
                let mut untuple = false;
                let callee = match fty.kind() {
                    TyKind::FnDef(d, ga) => {
                        let sig = fty.fn_sig(tcx);
                        untuple = matches!(sig.abi(), rustc_abi::ExternAbi::RustCall);
                        Ok(self.callee(*d, ga.skip_binder()))
                    }
                    _ => Err(self.operand(body, func)),
                };
                Term::Call { callee, untuple, args: a, dest: self.place(body, *destination), target: target.map(|b| b.as_u32()) }
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                use mir::AssertKind::*;
                let (kind, benign) = match &**msg {
                    BoundsCheck { .. } => ("index out of bounds".to_string(), false),
                    Overflow(op, ..) => (format!("arithmetic overflow ({op:?})"), false),
                    OverflowNeg(_) => ("negation overflow".into(), false),
                    DivisionByZero(_) => ("division by zero".into(), false),
                    RemainderByZero(_) => ("remainder by zero".into(), false),
                    MisalignedPointerDereference { .. } | NullPointerDereference | NullReferenceConstructed | InvalidEnumConstruction(_) => ("pointer check".into(), true),
                    _ => ("assertion".into(), false),
                };
                Term::Assert { cond: self.operand(body, cond), expected: *expected, kind, benign, target: target.as_u32() }
            }
            TerminatorKind::FalseEdge { real_target, .. } => Term::Goto(real_target.as_u32()),
            TerminatorKind::FalseUnwind { real_target, .. } => Term::Goto(real_target.as_u32()),
            other => Term::Unsupported(format!("{other:?}").chars().take(80).collect()),
        }
    }

    pub fn local_roots(tcx: TyCtxt<'tcx>) -> Vec<DefId> {
        let mut v = vec![];
        for d in tcx.mir_keys(()) {
            let d = d.to_def_id();
            if d.krate == LOCAL_CRATE && tcx.def_kind(d) == DefKind::Fn {
                let n = tcx.item_name(d).to_string();
                let b = n.as_bytes();
                if b.len() > 4 && b[0] == b'c' && b[1].is_ascii_digit() && b[2].is_ascii_digit() && b[3] == b'_' {
                    v.push(d);
                }
            }
        }
        v.sort_by_key(|d| tcx.def_path_str(*d));
        v
    }
}
