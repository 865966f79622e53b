//! Abstract interpreter over the lowered MIR.

use crate::dom::*;
use crate::ir::*;
use crate::merge;
use crate::refine::refine;
use crate::state::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;

/// Intrinsics interpreted directly even when they have a fallback body.
pub const INTRINSICS: &[&str] = &[
    "wrapping_add", "wrapping_sub", "wrapping_mul", "unchecked_add", "unchecked_sub", "unchecked_mul", "unchecked_shl", "unchecked_shr",
    "unchecked_div", "unchecked_rem", "exact_div", "saturating_add", "saturating_sub", "add_with_overflow", "sub_with_overflow", "mul_with_overflow",
    "ctpop", "ctlz", "ctlz_nonzero", "cttz", "cttz_nonzero", "bswap", "bitreverse", "rotate_left", "rotate_right", "unchecked_funnel_shl",
    "unchecked_funnel_shr", "offset", "arith_offset", "ptr_offset_from", "ptr_offset_from_unsigned", "transmute", "transmute_unchecked", "assume",
    "likely", "unlikely", "cold_path", "black_box", "discriminant_value", "copy", "copy_nonoverlapping", "write_bytes", "read_via_copy",
    "write_via_move", "volatile_load", "volatile_store", "compare_bytes", "raw_eq", "three_way_compare", "select_unpredictable", "const_eval_select",
    "slice_get_unchecked", "is_val_statically_known", "size_of", "align_of", "min_align_of", "size_of_val", "needs_drop", "abort", "unreachable",
    "assert_inhabited", "assert_zero_valid", "assert_mem_uninitialized_valid", "forget", "ptr_guaranteed_cmp", "ptr_metadata", "aggregate_raw_ptr",
    "ub_checks", "contract_checks", "overflow_checks", "typed_swap_nonoverlapping", "type_id", "type_name", "variant_count", "disjoint_bitor", "carryless_mul",
    "three_way_compare", "black_box", "type_id_eq", "minimumf32",
];

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Viol {
    pub root: String,
    pub kind: String,
    pub msg: String,
    pub at: String,
    pub func: String,
    pub chain: Vec<String>,
    pub hint: String,
}

#[derive(Default)]
struct Outs {
    back: Vec<State>,
    exits: Vec<(Bb, State)>,
    rets: Vec<State>,
}

pub struct Stats {
    pub stmts: u64,
    pub joins: u64,
    pub splits: u64,
    pub calls: u64,
    pub fix_iters: u64,
    pub partitions: u64,
    pub asserts: BTreeSet<String>,
    pub requires: BTreeSet<String>,
    pub reached: BTreeSet<String>,
    pub funcs: BTreeSet<String>,
    pub call_sites: HashSet<(FuncId, Bb)>,
    pub obligations: u64,
    pub unrolled: u64,
}

pub struct Eng<'p> {
    pub p: &'p Program,
    pub d: Dom,
    pub gen: HashSet<u64>,
    pub fixloops: HashSet<(FuncId, usize)>,
    pub viol: Vec<Viol>,
    pub st: Stats,
    pub params: HashMap<String, (u8, u128, u128)>,
    pub param_syms: HashMap<String, Int>,
    pub freq: Option<(u64, u64)>,
    pub freq_sym: Option<(T, u64, u64)>,
    pub freq_cut: Option<u64>,
    callocs: Vec<Val>,
    slots: HashMap<(FuncId, u32), u32>,
    chain: Vec<(FuncId, u32)>,
    pub root: String,
    const_depth: u32,
    nslices: u32,
    slices: Vec<(TyId, Int)>,
    pub limit: u64,
    pub over: bool,
    pick: Vec<bool>,
    pub cap: usize,
    pub soft: usize,
    pub policy: merge::Policy,
    pub hardgen: Vec<(u64, usize, bool)>,
    pub inline_cap: usize,
    pub verbose: bool,
    cur: (FuncId, Bb),
    keep: Vec<T>,
    watch: Option<Watch>,
    loopstack: Vec<(FuncId, usize)>,
    lenloops: HashSet<(FuncId, usize)>,
    pub need_freq: bool,
    pub freq_range: Option<(u64, u64)>,
    pub freq_pieces: u32,
}

struct Watch {
    _x: u32,
}

type Succ = (Bb, State);

/// Small loop-free functions with a number for a result (min, max, abs_diff and
/// the like): their paths are told apart until the caller's next join.
fn small(p: &Program, f: &Func) -> bool {
    f.loops.is_empty()
        && !f.locals.is_empty()
        && f.blocks.len() <= 16
        && f.nargs >= 1
        && matches!(p.ty(p.rty(f.locals[0])), Ty::Int { .. })
}

impl<'p> Eng<'p> {
    pub fn new(p: &'p Program) -> Eng<'p> {
        let mut e = Eng {
            p,
            d: Dom::new(),
            gen: HashSet::new(),
            fixloops: HashSet::new(),
            viol: vec![],
            st: Stats {
                stmts: 0,
                joins: 0,
                splits: 0,
                calls: 0,
                fix_iters: 0,
                partitions: 0,
                asserts: Default::default(),
                requires: Default::default(),
                reached: Default::default(),
                funcs: Default::default(),
                call_sites: Default::default(),
                obligations: 0,
                unrolled: 0,
            },
            params: HashMap::new(),
            param_syms: HashMap::new(),
            freq: None,
            freq_sym: None,
            freq_cut: None,
            callocs: vec![],
            slots: HashMap::new(),
            chain: vec![],
            root: String::new(),
            const_depth: 0,
            nslices: 0,
            slices: vec![],
            limit: 400_000_000,
            over: false,
            pick: p.funcs.iter().map(|f| small(p, f)).collect(),
            cap: 600,
            soft: 48,
            policy: Default::default(),
            hardgen: vec![],
            inline_cap: 40,
            verbose: false,
            cur: (0, 0),
            keep: vec![],
            watch: None,
            loopstack: vec![],
            lenloops: HashSet::new(),
            need_freq: false,
            freq_range: None,
            freq_pieces: 8,
        };
        let ca: Vec<Val> = p.callocs.iter().map(|c| e.cval_pure(c)).collect();
        e.callocs = ca;
        e
    }

    pub fn run_root(&mut self, name: &str, fid: FuncId) {
        self.root = name.to_string();
        self.slices.clear();
        self.nslices = 0;
        self.keep.clear();
        self.param_syms.clear();
        self.freq_sym = None;
        let mut statics: Vec<Val> = self.p.statics.iter().map(|s| self.cval_pure(&s.init)).collect();
        // slots for generic constants
        for _ in 0..256 {
            statics.push(Val::Uninit);
        }
        let mut st = State { frames: vec![], statics: Rc::new(statics), know: Rc::new(Know::default()), bounded: 0 };
        let mut ps: Vec<_> = self.params.clone().into_iter().collect();
        ps.sort();
        for (n, (w, lo, hi)) in ps {
            if lo == hi {
                self.param_syms.insert(n, Int::C(lo));
            } else {
                let t = self.d.fresh(w);
                Rc::make_mut(&mut st.know).iv.insert(t, (lo, hi));
                let i = self.d.mk_lin(Lin::t(t), w);
                self.keep.push(t);
                if n == "F" {
                    self.freq_sym = Some((t, lo as u64, hi as u64));
                }
                self.param_syms.insert(n, i);
            }
        }
        self.chain.clear();
        let outs = self.call_fn(st, fid, vec![]);
        if self.verbose {
            eprintln!("{name}: {} final states", outs.len());
        }
    }

    // ------------------------------------------------------------ reporting
    fn where_(&self, f: FuncId, b: Bb) -> (String, String) {
        let fun = &self.p.funcs[f as usize];
        let (file, line) = &self.p.locs[fun.blocks[b as usize].loc as usize];
        (format!("{file}:{line}"), fun.name.clone())
    }
    fn violation(&mut self, kind: &str, msg: String, st: Option<&State>) {
        let (f, b) = self.cur;
        let (at, func) = self.where_(f, b);
        let chain: Vec<String> = self
            .chain
            .iter()
            .map(|(f, l)| {
                let (file, line) = &self.p.locs[*l as usize];
                format!("{} ({file}:{line})", self.p.funcs[*f as usize].name)
            })
            .collect();
        let hint = match st {
            Some(s) => self.describe(s),
            None => String::new(),
        };
        let v = Viol { root: self.root.clone(), kind: kind.into(), msg, at, func, chain, hint };
        if self.viol.iter().any(|x| x.kind == v.kind && x.msg == v.msg && x.at == v.at && x.root == v.root) {
            return;
        }
        // a chunk of frequencies that fails is split: no need to finish it
        if matches!(self.freq, Some((l, h)) if l < h) {
            self.over = true;
        }
        if self.verbose {
            eprintln!("!! {} {} at {} in {} chain {:?} hint {}", v.kind, v.msg, v.at, v.func, v.chain, v.hint);
        }
        if let (Some(s), true) = (st, std::env::var("DBGT").is_ok()) {
            for f in &s.frames {
                for l in &f.locals {
                    if !matches!(l, Val::Uninit) {
                        eprintln!("{:?}", l);
                    }
                }
            }
            eprintln!("statics {:?}", s.statics);
            eprintln!("iv {:?}\nrw {:?}\nineq {:?}\nlens {:?} arw {:?}", s.know.iv, s.know.rw, s.know.ineq, s.know.lens, s.know.arw);
        }
        self.viol.push(v);
    }
    pub fn internal_error(&mut self) {
        self.cur = (self.cur.0, 0);
        self.violation("undecided", "internal error of the analyser".into(), None);
    }
    fn describe(&self, st: &State) -> String {
        let mut s = String::new();
        if let Some((t, ..)) = self.freq_sym {
            let iv = self.d.iv_t(&st.know, t);
            s.push_str(&format!("frequency {}..{} ", iv.0, iv.1));
        }
        for (n, f) in st.frames.iter().enumerate() {
            let name = &self.p.funcs[f.func as usize].name;
            s.push_str(&format!("[{}] ", name.rsplit("::").next().unwrap_or(name)));
            for (i, v) in f.locals.iter().enumerate() {
                if !matches!(v, Val::Uninit | Val::Ptr(_)) && !matches!(v, Val::Agg(a) if a.is_empty()) {
                    s.push_str(&format!("_{i}={} ", self.show_val(&st.know, v, 5)));
                }
                if s.len() > 600 * (n + 1) {
                    break;
                }
            }
        }
        s.truncate(2400);
        s
    }
    fn show_val(&self, k: &Know, v: &Val, d: u32) -> String {
        match v {
            Val::Int(w, i) => match i {
                Int::C(c) => format!("{c}"),
                i => {
                    let r = self.d.iv(k, *w, i);
                    format!("u{w}[{}..{}]", r.0, r.1)
                }
            },
            Val::Agg(a) | Val::Arr(a) if d > 0 => format!("({})", a.iter().map(|x| self.show_val(k, x, d - 1)).collect::<Vec<_>>().join(",")),
            Val::Enum(e, a) if d > 0 => format!("#{e}({})", a.iter().map(|x| self.show_val(k, x, d - 1)).collect::<Vec<_>>().join(",")),
            Val::Ptr(p) => format!("&{:?}", p.base),
            Val::Uninit => "?".into(),
            _ => "..".into(),
        }
    }

    // ------------------------------------------------------------ constants
    fn fnv(&self, c: &Callee) -> FnV {
        match c {
            Callee::Fn(f) => FnV::Fn(*f),
            Callee::Intrinsic(n, t) => FnV::Intrinsic(n.clone(), t.clone()),
            Callee::Harness(n, t) => FnV::Harness(n.clone(), t.clone()),
            Callee::NoBody(s) | Callee::Unresolved(s) => FnV::Bad(s.clone()),
        }
    }
    fn cval_pure(&self, c: &CVal) -> Val {
        match c {
            CVal::Int(w, v) => Val::c(*w, *v),
            CVal::Agg(v) => Val::agg(v.iter().map(|x| self.cval_pure(x)).collect()),
            CVal::Arr(v) => Val::Arr(Rc::new(v.iter().map(|x| self.cval_pure(x)).collect())),
            CVal::Enum(k, v) => Val::Enum(*k, Rc::new(v.iter().map(|x| self.cval_pure(x)).collect())),
            CVal::Ptr { alloc, idx, meta } => Val::Ptr(Rc::new(PtrV {
                base: Base::Const(*alloc),
                path: idx.iter().map(|i| PEl::I(*i)).collect(),
                meta: meta.map(|m| Int::C(m as u128)),
            })),
            CVal::StaticPtr { st, meta } => Val::Ptr(Rc::new(PtrV { base: Base::Static(*st), path: if meta.is_some() { vec![PEl::I(0)] } else { vec![] }, meta: meta.map(|m| Int::C(m as u128)) })),
            CVal::RawPtr(x) => Val::Raw(*x),
            CVal::Fn(c) => Val::Fn(Rc::new(self.fnv(c))),
            _ => Val::Uninit,
        }
    }
    fn cval(&mut self, st: &State, c: &CVal) -> R<Val> {
        match c {
            CVal::Param(n, w) => match self.param_syms.get(n) {
                Some(i) => {
                    // value may have been refined in this state
                    let i = self.current(st, *w, &i.clone());
                    Ok(Val::Int(*w, i))
                }
                None => bad(format!("unknown const parameter {n}")),
            },
            CVal::Body(f) => {
                let slot = self.slot(*f);
                match st.statics.get(slot as usize) {
                    Some(Val::Uninit) | None => Err(Ctl::NeedConst(*f)),
                    Some(v) => Ok(v.clone()),
                }
            }
            CVal::Unsupported(s) => bad(format!("unsupported constant: {s}")),
            c => Ok(self.cval_pure(c)),
        }
    }
    fn slot(&mut self, f: FuncId) -> u32 {
        let n = self.p.statics.len() as u32 + self.slots.len() as u32;
        *self.slots.entry((f, u32::MAX)).or_insert(n)
    }
    /// What a constant's value refers to outlives the constant's frame.
    fn lift(&mut self, s: &mut State, fr: &Frame, depth: u32, fid: FuncId, v: &Val) -> Val {
        match v {
            Val::Ptr(p) => match p.base {
                Base::Frame(d, l) if d == depth => {
                    let n = self.p.statics.len() as u32 + self.slots.len() as u32;
                    let slot = *self.slots.entry((fid, l)).or_insert(n);
                    let x = self.lift(s, fr, depth, fid, &fr.locals[l as usize]);
                    Rc::make_mut(&mut s.statics)[slot as usize] = x;
                    let mut q = (**p).clone();
                    q.base = Base::Static(slot);
                    Val::Ptr(Rc::new(q))
                }
                _ => v.clone(),
            },
            Val::Agg(x) => Val::Agg(Rc::new(x.iter().map(|y| self.lift(s, fr, depth, fid, y)).collect())),
            Val::Arr(x) => Val::Arr(Rc::new(x.iter().map(|y| self.lift(s, fr, depth, fid, y)).collect())),
            Val::Enum(k, x) => Val::Enum(*k, Rc::new(x.iter().map(|y| self.lift(s, fr, depth, fid, y)).collect())),
            _ => v.clone(),
        }
    }
    /// parameter symbols live outside of memory; look through substitutions
    fn current(&mut self, st: &State, w: u8, i: &Int) -> Int {
        if let Int::L(l) = i {
            if l.t.len() == 1 {
                let t = l.t[0].0;
                let (lo, hi) = self.d.iv_t(&st.know, t);
                if lo == hi {
                    return Int::C(lo);
                }
                if let Some(r) = st.know.rw.get(&t) {
                    return r.clone();
                }
            }
        }
        let _ = w;
        i.clone()
    }

    // ------------------------------------------------------------ places
    fn resolve(&mut self, st: &State, pl: &Place) -> R<PtrV> {
        let depth = st.frames.len() as u32 - 1;
        let mut cur = PtrV { base: Base::Frame(depth, pl.local), path: vec![], meta: None };
        let mut i = 0;
        while i < pl.proj.len() {
            match &pl.proj[i] {
                PE::Deref => match self.load(st, &cur)? {
                    Val::Ptr(p) => cur = (*p).clone(),
                    Val::Raw(x) => return bad(format!("dereference of address {x}")),
                    Val::Uninit => return bad("dereference of an uninitialised pointer"),
                    v => return bad(format!("dereference of {}", kind(&v))),
                },
                PE::Field(k) => {
                    cur.meta = None;
                    cur.path.push(PEl::F(*k));
                }
                PE::Tail(k) => {
                    cur.path.push(PEl::F(*k));
                    cur.path.push(PEl::I(0));
                }
                PE::Down(k) => cur.path.push(PEl::D(*k)),
                PE::Zst => {
                    return Ok(PtrV { base: Base::Const(u32::MAX), path: vec![], meta: None });
                }
                PE::UField(_) => {}
                PE::Index(l) => {
                    let v = st.top().locals[*l as usize].clone();
                    let Val::Int(_, ix) = v else { return bad("index is not an integer") };
                    self.index(st, &mut cur, &ix)?;
                }
                PE::CIdx { off, from_end } => {
                    let ix = if *from_end {
                        match &cur.meta {
                            Some(m) => {
                                let m = m.clone();
                                self.d.add(&st.know, 64, &m, &Int::C(*off as u128), true)
                            }
                            None => match self.load(st, &cur)? {
                                Val::Arr(a) => Int::C((a.len() as u64 - off) as u128),
                                _ => return bad("constant index from end"),
                            },
                        }
                    } else {
                        Int::C(*off as u128)
                    };
                    self.index(st, &mut cur, &ix)?;
                }
                PE::Sub { from, to, from_end } => match cur.meta.clone() {
                    Some(m) => {
                        let nl = if *from_end {
                            self.d.add(&st.know, 64, &m, &Int::C((from + to) as u128), true)
                        } else {
                            Int::C((to - from) as u128)
                        };
                        self.shift(st, &mut cur, &Int::C(*from as u128))?;
                        cur.meta = Some(nl);
                    }
                    None => {
                        let n = match self.load(st, &cur)? {
                            Val::Arr(a) => a.len() as u64,
                            _ => return bad("subslice of non array"),
                        };
                        let e = if *from_end { n - to } else { *to };
                        cur.path.push(PEl::W(*from, e - from));
                    }
                },
            }
            i += 1;
        }
        Ok(cur)
    }

    fn index(&mut self, st: &State, cur: &mut PtrV, ix: &Int) -> R<()> {
        if cur.meta.take().is_some() {
            self.shift(st, cur, ix)
        } else {
            if let Some(PEl::W(s, _)) = cur.path.last() {
                let s = *s;
                cur.path.pop();
                cur.path.push(PEl::I(s));
                return self.shift(st, cur, ix);
            }
            cur.path.push(match ix.k() {
                Some(c) => PEl::I(c as u64),
                None => PEl::S(ix.clone()),
            });
            Ok(())
        }
    }
    /// move an element pointer by ix elements (wrapping)
    fn shift(&mut self, st: &State, cur: &mut PtrV, ix: &Int) -> R<()> {
        if ix.k() == Some(0) {
            return Ok(());
        }
        let last = match cur.path.last() {
            Some(PEl::I(k)) => Int::C(*k as u128),
            Some(PEl::S(i)) => i.clone(),
            Some(PEl::One(k)) => match ix.k() {
                Some(c) => {
                    let n = (*k as u128).wrapping_add(c) as u64;
                    *cur.path.last_mut().unwrap() = PEl::One(n);
                    return Ok(());
                }
                None => return Err(Ctl::SplitIdx(64, ix.clone())),
            },
            _ => match ix.k() {
                Some(c) => {
                    cur.path.push(PEl::One(c as u64));
                    return Ok(());
                }
                None => return Err(Ctl::SplitIdx(64, ix.clone())),
            },
        };
        let n = self.d.add(&st.know, 64, &last, ix, false);
        *cur.path.last_mut().unwrap() = match n.k() {
            Some(c) => PEl::I(c as u64),
            None => PEl::S(n),
        };
        Ok(())
    }

    fn load(&mut self, st: &State, p: &PtrV) -> R<Val> {
        match p.base {
            Base::Const(u32::MAX) => Ok(Val::unit()),
            Base::Const(c) => {
                let v = self.callocs[c as usize].clone();
                nav(&v, &p.path)
            }
            Base::Slice(s) => {
                let (ty, _) = self.slices[s as usize].clone();
                let ix = match p.path.first() {
                    Some(PEl::I(k)) => Int::C(*k as u128),
                    Some(PEl::S(i)) => i.clone(),
                    _ => return bad("summary slice access"),
                };
                if p.path.len() > 1 {
                    return bad("summary slice of aggregates");
                }
                let Some((w, _)) = self.p.int_info(ty) else { return bad("summary slice of aggregates") };
                let k = st.know.clone();
                let i = self.d.opaque(&k, Op::Select(s), w, vec![(64, ix)]);
                Ok(Val::Int(w, i))
            }
            b => match st.root_ref(b) {
                Some(v) => nav(v, &p.path),
                None => bad("dangling pointer"),
            },
        }
    }
    fn store(&mut self, st: &mut State, p: &PtrV, v: Val) -> R<()> {
        match p.base {
            Base::Const(u32::MAX) => Ok(()),
            Base::Const(_) | Base::Slice(_) => bad("write to constant memory"),
            b => match st.root_mut(b) {
                Some(r) => put(r, &p.path, v),
                None => bad("write through dangling pointer"),
            },
        }
    }

    fn opnd(&mut self, st: &State, o: &Opnd) -> R<Val> {
        match o {
            Opnd::Copy(p) | Opnd::Move(p) => {
                if p.proj.is_empty() {
                    return Ok(st.top().locals[p.local as usize].clone());
                }
                let q = self.resolve(st, p)?;
                let v = self.load(st, &q)?;
                if let Val::Uninit = v {
                    if self.p.is_zst(p.ty) {
                        return Ok(self.zst(p.ty));
                    }
                }
                Ok(v)
            }
            Opnd::Const(c) => self.cval(st, c),
        }
    }
    fn zst(&self, t: TyId) -> Val {
        match self.p.ty(self.p.rty(t)) {
            Ty::Tuple(f) | Ty::Struct(_, f) => Val::agg(f.iter().map(|x| self.zst(*x)).collect()),
            Ty::Array(e, n) => Val::Arr(Rc::new((0..*n).map(|_| self.zst(*e)).collect())),
            Ty::Enum(_, v, _) => Val::Enum(0, Rc::new(v.first().map(|v| v.fields.iter().map(|x| self.zst(*x)).collect()).unwrap_or_default())),
            _ => Val::unit(),
        }
    }
    fn int(&mut self, v: &Val) -> R<(u8, Int)> {
        match v {
            Val::Int(w, i) => Ok((*w, i.clone())),
            Val::Uninit => bad("use of an uninitialised or unsupported value"),
            v => bad(format!("integer expected, found {}", kind(v))),
        }
    }

    // ------------------------------------------------------------ rvalues
    fn rvalue(&mut self, st: &mut State, rv: &Rv, dst_ty: TyId) -> R<Val> {
        match rv {
            Rv::Use(o) | Rv::Wrap(o) => self.opnd(st, o),
            Rv::Repeat(o, n) => {
                let v = self.opnd(st, o)?;
                if *n > 100_000 {
                    return bad("huge array");
                }
                Ok(Val::Arr(Rc::new(vec![v; *n as usize])))
            }
            Rv::Ref(p) => {
                let q = self.resolve(st, p)?;
                Ok(Val::Ptr(Rc::new(q)))
            }
            Rv::Cast(k, o, from, to) => {
                let v = self.opnd(st, o)?;
                self.cast(st, k, v, *from, *to)
            }
            Rv::Bin(op, a, b, lt, rt) => {
                let x = self.opnd(st, a)?;
                let y = self.opnd(st, b)?;
                self.bin(st, *op, x, y, *lt, *rt)
            }
            Rv::Not(o, _) => {
                let v = self.opnd(st, o)?;
                let (w, i) = self.int(&v)?;
                Ok(Val::Int(w, self.d.not(&st.know, w, &i)))
            }
            Rv::Neg(o, _) => {
                let v = self.opnd(st, o)?;
                let (w, i) = self.int(&v)?;
                Ok(Val::Int(w, self.d.add(&st.know, w, &Int::C(0), &i, true)))
            }
            Rv::PtrMeta(o) => match self.opnd(st, o)? {
                Val::Ptr(p) => match &p.meta {
                    Some(m) => Ok(Val::Int(64, m.clone())),
                    None => Ok(Val::unit()),
                },
                _ => Ok(Val::unit()),
            },
            Rv::Discr(p) => {
                let q = self.resolve(st, p)?;
                let v = self.load(st, &q)?;
                self.discr(&v, p.ty)
            }
            Rv::Agg(v) => {
                let mut out = Vec::with_capacity(v.len());
                for o in v {
                    out.push(self.opnd(st, o)?);
                }
                Ok(Val::agg(out))
            }
            Rv::Arr(v) => {
                let mut out = Vec::with_capacity(v.len());
                for o in v {
                    out.push(self.opnd(st, o)?);
                }
                Ok(Val::Arr(Rc::new(out)))
            }
            Rv::EnumAgg(k, v) => {
                let mut out = Vec::with_capacity(v.len());
                for o in v {
                    out.push(self.opnd(st, o)?);
                }
                Ok(Val::Enum(*k, Rc::new(out)))
            }
            Rv::FatPtr(a, b) => {
                let x = self.opnd(st, a)?;
                let y = self.opnd(st, b)?;
                self.fat(x, y)
            }
            Rv::Unsupported(s) => {
                let _ = dst_ty;
                bad(format!("unsupported operation {s}"))
            }
        }
    }

    fn fat(&mut self, x: Val, y: Val) -> R<Val> {
        match (x, y) {
            (Val::Ptr(p), Val::Int(_, m)) => {
                let mut q = (*p).clone();
                q.meta = Some(m);
                Ok(Val::Ptr(Rc::new(q)))
            }
            (Val::Raw(_), Val::Int(_, m)) => Ok(Val::Ptr(Rc::new(PtrV { base: Base::Const(u32::MAX), path: vec![PEl::I(0)], meta: Some(m) }))),
            (p, Val::Agg(_)) => Ok(p),
            _ => bad("fat pointer construction"),
        }
    }

    fn discr(&mut self, v: &Val, ty: TyId) -> R<Val> {
        let Ty::Enum(_, vs, w) = self.p.ty(self.p.rty(ty)) else {
            return match v {
                Val::Int(..) => Ok(v.clone()),
                _ => Ok(Val::c(64, 0)),
            };
        };
        match v {
            Val::Enum(k, _) => Ok(Val::c(*w, vs[*k as usize].discr)),
            Val::Uninit => {
                // a type with a single possible variant without contents has no representation
                let mut it = vs.iter().filter(|v| !v.fields.iter().any(|t| matches!(self.p.ty(self.p.rty(*t)), Ty::Never)));
                match (it.next(), it.next()) {
                    (Some(v), None) if v.fields.iter().all(|t| self.p.is_zst(*t)) => Ok(Val::c(*w, v.discr)),
                    _ => bad("discriminant of an uninitialised value"),
                }
            }
            v => bad(format!("discriminant of {}", kind(v))),
        }
    }

    fn fresh_int(&mut self, w: u8) -> Val {
        let t = self.d.fresh(w);
        let k = Know::default();
        let b: Vec<BF> = (0..w as u32).map(|j| self.d.atom_bf(&k, t, j)).collect();
        Val::Int(w, self.d.from_bits(b))
    }

    fn cast(&mut self, st: &State, k: &CastK, v: Val, from: TyId, to: TyId) -> R<Val> {
        match k {
            CastK::Nop => Ok(v),
            CastK::IntToInt => {
                // enums as integers
                let v = if let Val::Enum(..) = v { self.discr(&v, from)? } else { v };
                let (fw, i) = self.int(&v)?;
                let signed = match self.p.ty(self.p.rty(from)) {
                    Ty::Int { signed, .. } => *signed,
                    Ty::Enum(..) => true,
                    _ => false,
                };
                let Some((tw, _)) = self.p.int_info(to) else { return bad("cast target") };
                if signed && tw > fw && tw < 100 && matches!(i, Int::L(_)) {
                    let k = st.know.clone();
                    let z = self.d.zext(&k, fw, tw, &i);
                    return Ok(Val::Int(tw, if self.negative(&k, fw, &i)? { self.d.add(&k, tw, &z, &Int::C(mask(tw) - mask(fw)), false) } else { z }));
                }
                let r = if signed { self.d.sext(&st.know, fw, tw, &i) } else { self.d.zext(&st.know, fw, tw, &i) };
                Ok(Val::Int(tw, r))
            }
            CastK::FnPtr => match v {
                Val::Fn(_) => Ok(v),
                // zero sized function item
                _ => bad("function pointer"),
            },
            CastK::Unsize => {
                let Val::Ptr(p) = &v else { return Ok(Val::Uninit) };
                let (Ty::Ptr(a), Ty::Ptr(b)) = (self.p.ty(self.p.rty(from)), self.p.ty(self.p.rty(to))) else { return Ok(Val::Uninit) };
                match (self.p.ty(self.p.rty(*a)), self.p.ty(self.p.rty(*b))) {
                    (Ty::Array(_, n), Ty::Slice(_)) => {
                        let mut q = (**p).clone();
                        match q.path.last() {
                            Some(PEl::W(s, _)) => {
                                let s = *s;
                                *q.path.last_mut().unwrap() = PEl::I(s);
                            }
                            _ => q.path.push(PEl::I(0)),
                        }
                        q.meta = Some(Int::C(*n as u128));
                        Ok(Val::Ptr(Rc::new(q)))
                    }
                    (Ty::Struct(_, x), Ty::Struct(_, y)) if x.len() == y.len() && !x.is_empty() => {
                        match (self.p.ty(self.p.rty(*x.last().unwrap())), self.p.ty(self.p.rty(*y.last().unwrap()))) {
                            (Ty::Array(_, n), Ty::Slice(_)) => {
                                let mut q = (**p).clone();
                                q.meta = Some(Int::C(*n as u128));
                                Ok(Val::Ptr(Rc::new(q)))
                            }
                            _ => Ok(Val::Uninit),
                        }
                    }
                    _ => Ok(Val::Uninit),
                }
            }
            CastK::PtrToPtr => self.ptr_cast(v, from, to),
            CastK::PtrToInt => match v {
                Val::Raw(x) => Ok(Val::c(64, x)),
                _ => Ok(self.fresh_int(64)),
            },
            CastK::IntToPtr => match v {
                Val::Int(_, Int::C(c)) => Ok(Val::Raw(c)),
                _ => Ok(Val::Uninit),
            },
            CastK::Transmute => self.transmute(st, v, from, to),
            CastK::Other(s) => bad(format!("cast {s}")),
        }
    }

    fn ptr_cast(&mut self, v: Val, from: TyId, to: TyId) -> R<Val> {
        let Val::Ptr(p) = &v else { return Ok(v) };
        let (Ty::Ptr(a), Ty::Ptr(b)) = (self.p.ty(self.p.rty(from)), self.p.ty(self.p.rty(to))) else { return Ok(v) };
        let (ra, rb) = (self.p.rty(*a), self.p.rty(*b));
        if ra == rb {
            return Ok(v);
        }
        let mut q = (**p).clone();
        match (self.p.ty(ra), self.p.ty(rb)) {
            (Ty::Slice(_) | Ty::Str, Ty::Slice(_) | Ty::Str) => {}
            (Ty::Slice(_) | Ty::Str, Ty::Array(_, n)) => {
                q.meta = None;
                match q.path.pop() {
                    Some(PEl::I(k)) => q.path.push(PEl::W(k, *n)),
                    _ => return bad("slice to array pointer"),
                }
            }
            (Ty::Slice(_) | Ty::Str, _) => q.meta = None,
            (Ty::Array(e, _), Ty::Array(e2, _)) if self.p.rty(*e) == self.p.rty(*e2) => {}
            (Ty::Array(e, _), _) if self.p.rty(*e) == rb => match q.path.last() {
                Some(PEl::W(s, _)) => {
                    let s = *s;
                    *q.path.last_mut().unwrap() = PEl::I(s);
                }
                _ => q.path.push(PEl::I(0)),
            },
            (_, Ty::Array(e, n)) if self.p.rty(*e) == ra => match q.path.pop() {
                Some(PEl::I(k)) => q.path.push(PEl::W(k, *n)),
                Some(x) => {
                    q.path.push(x);
                    return bad("element to array pointer");
                }
                None => return bad("element to array pointer"),
            },
            _ => {}
        }
        Ok(Val::Ptr(Rc::new(q)))
    }

    fn to_bits(&mut self, st: &State, v: &Val, ty: TyId, out: &mut Vec<BF>) -> R<()> {
        match (self.p.ty(self.p.rty(ty)).clone(), v) {
            (Ty::Bool, Val::Int(_, i)) => {
                let b = self.d.bit(&st.know, 1, i, 0);
                out.push(b);
                out.extend(std::iter::repeat(BF::K(false)).take(7));
                Ok(())
            }
            (_, Val::Int(w, i)) => {
                let b = self.d.bits(&st.know, *w, i);
                out.extend(b);
                Ok(())
            }
            (Ty::Array(e, _), Val::Arr(a)) => {
                for x in a.iter() {
                    self.to_bits(st, x, e, out)?;
                }
                Ok(())
            }
            (Ty::Tuple(f), Val::Agg(a)) | (Ty::Struct(_, f), Val::Agg(a)) if f.len() == 1 || a.is_empty() => {
                for (x, t) in a.iter().zip(f) {
                    self.to_bits(st, x, t, out)?;
                }
                Ok(())
            }
            (Ty::Enum(_, vs, _), Val::Enum(k, f)) if f.is_empty() && vs.iter().all(|v| v.fields.is_empty()) => {
                // fieldless enum: size from the number of variants
                let max = vs.iter().map(|v| v.discr).max().unwrap_or(0);
                let w = if max < 256 { 8 } else { 16 };
                let dv = vs[*k as usize].discr;
                out.extend((0..w).map(|j| BF::K((dv >> j) & 1 == 1)));
                Ok(())
            }
            (_, v) => bad(format!("transmute of {}", kind(v))),
        }
    }
    fn of_bits(&mut self, st: &State, bits: &mut Vec<BF>, ty: TyId) -> R<Val> {
        match self.p.ty(self.p.rty(ty)).clone() {
            Ty::Bool => {
                let b: Vec<BF> = bits.drain(..8).collect();
                Ok(Val::bool(b[0].clone()))
            }
            Ty::Int { w, .. } | Ty::Float(w) => {
                let b: Vec<BF> = bits.drain(..w as usize).collect();
                Ok(Val::Int(w, self.d.from_bits_k(&st.know, b)))
            }
            Ty::Char => {
                let b: Vec<BF> = bits.drain(..32).collect();
                Ok(Val::Int(32, self.d.from_bits_k(&st.know, b)))
            }
            Ty::Array(e, n) => {
                let mut v = vec![];
                for _ in 0..n {
                    v.push(self.of_bits(st, bits, e)?);
                }
                Ok(Val::Arr(Rc::new(v)))
            }
            Ty::Tuple(f) | Ty::Struct(_, f) if f.len() <= 1 => {
                let mut v = vec![];
                for t in f {
                    v.push(self.of_bits(st, bits, t)?);
                }
                Ok(Val::agg(v))
            }
            Ty::Enum(_, vs, _) if vs.iter().all(|v| v.fields.is_empty()) => {
                let max = vs.iter().map(|v| v.discr).max().unwrap_or(0);
                let w = if max < 256 { 8 } else { 16 };
                let b: Vec<BF> = bits.drain(..w).collect();
                let i = self.d.from_bits(b);
                match i.k() {
                    Some(c) => match vs.iter().position(|v| v.discr & mask(w as u8) == c) {
                        Some(k) => Ok(Val::Enum(k as u32, Rc::new(vec![]))),
                        None => Err(Ctl::Bottom),
                    },
                    None => Err(Ctl::SplitIdx(w as u8, i)),
                }
            }
            // an option the size of its number: zero is None
            Ty::Enum(n, vs, _) if n.ends_with("Option") && vs.len() == 2 && vs[1].fields.len() == 1 && self.p.int_info(self.p.rty(vs[1].fields[0])).map(|x| x.0 as usize) == Some(bits.len()) => {
                let t = vs[1].fields[0];
                let w = bits.len() as u8;
                let i = self.d.from_bits_k(&st.know, bits.clone());
                match self.d.eq(&st.know, w, &i, &Int::C(0)) {
                    BF::K(true) => {
                        bits.clear();
                        Ok(Val::Enum(0, Rc::new(vec![])))
                    }
                    BF::K(false) => {
                        let v = self.of_bits(st, bits, t)?;
                        Ok(Val::Enum(1, Rc::new(vec![v])))
                    }
                    b => Err(Ctl::Split(b)),
                }
            }
            t => bad(format!("transmute target {t:?}").chars().take(150).collect::<String>()),
        }
    }

    fn transmute(&mut self, st: &State, v: Val, from: TyId, to: TyId) -> R<Val> {
        let (rf, rt) = (self.p.rty(from), self.p.rty(to));
        if rf == rt {
            return Ok(v);
        }
        match (self.p.ty(rf).clone(), self.p.ty(rt).clone()) {
            (Ty::Ptr(_), Ty::Ptr(_)) => return self.ptr_cast(v, from, to),
            (Ty::Ptr(_), _) if self.p.int_info(rt).is_some() => {
                return match v {
                    Val::Raw(x) => Ok(Val::c(64, x)),
                    _ => Ok(self.fresh_int(64)),
                }
            }
            (_, Ty::Ptr(_)) if self.p.int_info(rf).is_some() => {
                return match v {
                    Val::Int(_, Int::C(c)) => Ok(Val::Raw(c)),
                    _ => Ok(Val::Uninit),
                }
            }
            (Ty::Ptr(_), Ty::FnPtr) | (Ty::FnPtr, _) => return Ok(v),
            // option of pointer and similar niche types
            (Ty::Ptr(_), Ty::Enum(n, vs, _)) if n.ends_with("Option") && vs.len() == 2 => {
                return Ok(match v {
                    Val::Raw(0) => Val::Enum(0, Rc::new(vec![])),
                    v => Val::Enum(1, Rc::new(vec![v])),
                })
            }
            (Ty::Struct(_, f), _) if f.len() == 1 && self.p.rty(f[0]) == rt => {
                if let Val::Agg(a) = &v {
                    return Ok(a[0].clone());
                }
            }
            (_, Ty::Struct(_, f)) if f.len() == 1 && self.p.rty(f[0]) == rf => return Ok(Val::agg(vec![v])),
            (Ty::Array(a, n), Ty::Array(b, m)) if n == m && (self.p.rty(a) == self.p.rty(b)) => return Ok(v),
            _ => {}
        }
        if let Val::Uninit = v {
            return Ok(Val::Uninit);
        }
        let mut b = vec![];
        self.to_bits(st, &v, from, &mut b)?;
        let r = self.of_bits(st, &mut b, to)?;
        if !b.is_empty() {
            return bad("transmute size");
        }
        Ok(r)
    }

    fn ptr_index(p: &PtrV) -> (Vec<PEl>, Int) {
        let mut path = p.path.clone();
        match path.last() {
            Some(PEl::I(k)) => {
                let k = *k;
                path.pop();
                (path, Int::C(k as u128))
            }
            Some(PEl::S(i)) => {
                let i = i.clone();
                path.pop();
                (path, i)
            }
            Some(PEl::One(k)) => {
                let k = *k;
                path.pop();
                path.push(PEl::W(u64::MAX, 0));
                (path, Int::C(k as u128))
            }
            _ => {
                path.push(PEl::W(u64::MAX, 0));
                (path, Int::C(0))
            }
        }
    }

    fn ptr_eq(&mut self, st: &State, a: &Val, b: &Val) -> R<BF> {
        match (a, b) {
            (Val::Ptr(p), Val::Ptr(q)) => {
                if p.base != q.base {
                    return Ok(BF::K(false));
                }
                let ((x, i), (y, j)) = (Self::ptr_index(p), Self::ptr_index(q));
                if x != y {
                    return if p == q { Ok(BF::K(true)) } else { Ok(BF::K(false)) };
                }
                Ok(self.d.eq(&st.know, 64, &i, &j))
            }
            (Val::Raw(x), Val::Raw(y)) => Ok(BF::K(x == y)),
            (Val::Ptr(_), Val::Raw(_)) | (Val::Raw(_), Val::Ptr(_)) => Ok(BF::K(false)),
            (Val::Fn(x), Val::Fn(y)) => Ok(BF::K(x == y)),
            _ => bad("pointer comparison"),
        }
    }

    fn is_signed(&self, t: TyId) -> bool {
        matches!(self.p.ty(self.p.rty(t)), Ty::Int { signed: true, .. })
    }

    fn bin(&mut self, st: &State, op: Bop, a: Val, b: Val, lt: TyId, rt: TyId) -> R<Val> {
        if let (Val::Ptr(_) | Val::Raw(_) | Val::Fn(_), _) = (&a, &b) {
            match op {
                Bop::Eq => return Ok(Val::bool(self.ptr_eq(st, &a, &b)?)),
                Bop::Ne => return Ok(Val::bool(self.ptr_eq(st, &a, &b)?.not())),
                Bop::Lt | Bop::Le | Bop::Gt | Bop::Ge => {
                    if let (Val::Ptr(p), Val::Ptr(q)) = (&a, &b) {
                        if p.base == q.base {
                            let ((x, i), (y, j)) = (Self::ptr_index(p), Self::ptr_index(q));
                            if x == y {
                                return Ok(Val::bool(self.cmp_int(st, op, 64, false, &i, &j)));
                            }
                        }
                    }
                    return bad("pointer ordering");
                }
                Bop::Offset => return self.offset(st, &a, &b, rt, lt),
                _ => return bad("pointer arithmetic"),
            }
        }
        if let (Val::Agg(x), Val::Agg(y)) = (&a, &b) {
            if x.is_empty() && y.is_empty() {
                return Ok(Val::bool(BF::K(matches!(op, Bop::Eq | Bop::Le | Bop::Ge))));
            }
        }
        if let Ty::Float(_) = self.p.ty(self.p.rty(lt)) {
            return bad("floating point");
        }
        let (w, x) = self.int(&a)?;
        let (w2, y) = self.int(&b)?;
        let s = self.is_signed(lt);
        let k = st.know.clone();
        if s && w < 100 && (x.k().is_none() || y.k().is_none()) {
            let sh = matches!(op, Bop::Shr);
            let cmp = matches!(op, Bop::Lt | Bop::Le | Bop::Gt | Bop::Ge | Bop::Cmp);
            let arith = matches!(op, Bop::AddOvf | Bop::SubOvf | Bop::MulOvf);
            if sh || cmp || arith || matches!(op, Bop::Div | Bop::Rem) {
                // decide by the signs of the operands
                let nx = self.negative(&k, w, &x)?;
                let ny = if sh { false } else { self.negative(&k, w, &y)? };
                let d = &mut self.d;
                if cmp && nx != ny {
                    let lt = nx;
                    return Ok(match op {
                        Bop::Lt | Bop::Le => Val::bool(BF::K(lt)),
                        Bop::Cmp => Val::Enum(if lt { 0 } else { 2 }, Rc::new(vec![])),
                        _ => Val::bool(BF::K(!lt)),
                    });
                }
                if arith {
                    let p = 1i128 << w;
                    let sub = |z: Lin, n: bool| if n { z.add_k(&Lin::k(p), -1) } else { Some(z) };
                    let (zx, zy) = (d.to_z(&k, w, &x), d.to_z(&k, w, &y));
                    let val = match op {
                        Bop::AddOvf => d.add(&k, w, &x, &y, false),
                        Bop::SubOvf => d.add(&k, w, &x, &y, true),
                        _ => d.mul(&k, w, &x, &y),
                    };
                    if let (Some(zx), Some(zy)) = (sub(zx, nx), sub(zy, ny)) {
                        let r = match op {
                            Bop::AddOvf => zx.add_k(&zy, 1),
                            Bop::SubOvf => zx.add_k(&zy, -1),
                            _ if zy.t.is_empty() => zx.scale(zy.c),
                            _ if zx.t.is_empty() => zy.scale(zx.c),
                            _ => None,
                        };
                        if let Some(r) = r {
                            let h = Lin::k(p / 2);
                            if let (Some(a), Some(b)) = (h.add_k(&r, 1), Lin::k(p / 2 - 1).add_k(&r, -1)) {
                                let o = match d.ge0(&k, &a) {
                                    BF::K(false) => BF::K(true),
                                    BF::K(true) => d.ge0(&k, &b).not(),
                                    c => match d.ge0(&k, &b) {
                                        BF::K(false) => BF::K(true),
                                        BF::K(true) => c.not(),
                                        _ => return Err(Ctl::Split(c)),
                                    },
                                };
                                return Ok(Val::agg(vec![Val::Int(w, val), Val::bool(o)]));
                            }
                        }
                    }
                }
            }
        }
        let d = &mut self.d;
        Ok(match op {
            Bop::Add => Val::Int(w, d.add(&k, w, &x, &y, false)),
            Bop::Sub => Val::Int(w, d.add(&k, w, &x, &y, true)),
            Bop::Mul => Val::Int(w, d.mul(&k, w, &x, &y)),
            Bop::AddOvf | Bop::SubOvf | Bop::MulOvf => {
                let c = match op {
                    Bop::AddOvf => '+',
                    Bop::SubOvf => '-',
                    _ => '*',
                };
                let (v, o) = d.arith_ovf(&k, w, s, c, &x, &y);
                Val::agg(vec![Val::Int(w, v), Val::bool(o)])
            }
            Bop::Div | Bop::Rem => {
                let z = d.eq(&k, w, &y, &Int::C(0));
                match z {
                    BF::K(true) => return Err(Ctl::Bottom),
                    BF::K(false) => {}
                    _ => {}
                }
                Val::Int(w, d.divrem(&k, w, &x, &y, op == Bop::Rem, s))
            }
            Bop::Xor => Val::Int(w, d.bitop(&k, w, Op::Xor, &x, &y)),
            Bop::And => Val::Int(w, d.bitop(&k, w, Op::And, &x, &y)),
            Bop::Or => Val::Int(w, d.bitop(&k, w, Op::Or, &x, &y)),
            Bop::Shl | Bop::Shr => {
                let m = if w.is_power_of_two() { d.bitop(&k, w2, Op::And, &y, &Int::C(w as u128 - 1)) } else { y.clone() };
                match m.k() {
                    Some(n) => {
                        let n = n as u32;
                        Val::Int(w, if op == Bop::Shl { d.shl(&k, w, &x, n) } else { d.shr(&k, w, &x, n, s) })
                    }
                    None => {
                        if x.k() == Some(0) {
                            return Ok(Val::c(w, 0));
                        }
                        return Err(Ctl::SplitIdx(w2, m));
                    }
                }
            }
            Bop::Eq => Val::bool(d.eq(&k, w, &x, &y)),
            Bop::Ne => Val::bool(d.eq(&k, w, &x, &y).not()),
            Bop::Lt | Bop::Le | Bop::Gt | Bop::Ge => Val::bool(self.cmp_int(st, op, w, s, &x, &y)),
            Bop::Cmp => {
                let l = self.cmp_int(st, Bop::Lt, w, s, &x, &y);
                let e = self.d.eq(&k, w, &x, &y);
                let g = self.cmp_int(st, Bop::Gt, w, s, &x, &y);
                let t = BF::K(true);
                let f = BF::K(false);
                if l == t {
                    Val::Enum(0, Rc::new(vec![]))
                } else if e == t {
                    Val::Enum(1, Rc::new(vec![]))
                } else if g == t {
                    Val::Enum(2, Rc::new(vec![]))
                } else if l != f {
                    return Err(Ctl::Split(l));
                } else if g != f {
                    return Err(Ctl::Split(g));
                } else if e != f {
                    return Err(Ctl::Split(e));
                } else {
                    return Err(Ctl::Bottom);
                }
            }
            Bop::Offset => return bad("offset of non pointer"),
        })
    }

    /// Sign of a signed number; splits the state where it is not known.
    fn negative(&mut self, k: &Know, w: u8, x: &Int) -> R<bool> {
        let h = (1u128 << (w - 1)) - 1;
        match self.d.ult(k, w, &Int::C(h), x) {
            BF::K(b) => Ok(b),
            b => Err(Ctl::Split(b)),
        }
    }

    fn cmp_int(&mut self, st: &State, op: Bop, w: u8, s: bool, x: &Int, y: &Int) -> BF {
        let k = &st.know;
        let (a, b, neg) = match op {
            Bop::Lt => (x, y, false),
            Bop::Gt => (y, x, false),
            Bop::Le => (y, x, true),
            _ => (x, y, true),
        };
        let r = if s { self.d.slt(k, w, a, b) } else { self.d.ult(k, w, a, b) };
        if neg {
            r.not()
        } else {
            r
        }
    }

    fn offset(&mut self, st: &State, p: &Val, n: &Val, _nty: TyId, pty: TyId) -> R<Val> {
        let (_, i) = self.int(n)?;
        if let Ty::Ptr(e) = self.p.ty(self.p.rty(pty)) {
            if self.p.is_zst(*e) {
                return Ok(p.clone());
            }
        }
        match p {
            Val::Ptr(p) => {
                let mut q = (**p).clone();
                self.shift(st, &mut q, &i)?;
                Ok(Val::Ptr(Rc::new(q)))
            }
            Val::Raw(x) => match i.k() {
                Some(0) => Ok(Val::Raw(*x)),
                _ => bad("offset of address"),
            },
            _ => bad("offset of non pointer"),
        }
    }

    // ------------------------------------------------------------ statements
    fn stmt(&mut self, st: &mut State, s: &Stmt) -> R<()> {
        match s {
            Stmt::Assign(p, rv) => {
                let v = self.rvalue(st, rv, p.ty)?;
                if p.proj.is_empty() {
                    let f = Rc::make_mut(st.frames.last_mut().unwrap());
                    f.locals[p.local as usize] = v;
                    return Ok(());
                }
                let q = self.resolve(st, p)?;
                self.store(st, &q, v)
            }
            Stmt::SetDiscr(p, k) => {
                let q = self.resolve(st, p)?;
                let v = self.load(st, &q)?;
                let nv = match v {
                    Val::Enum(x, f) if x == *k => Val::Enum(x, f),
                    _ => Val::Enum(*k, Rc::new(vec![])),
                };
                self.store(st, &q, nv)
            }
            Stmt::Live(l) | Stmt::Dead(l) => {
                let f = Rc::make_mut(st.frames.last_mut().unwrap());
                f.locals[*l as usize] = Val::Uninit;
                Ok(())
            }
            Stmt::Assume(o) => {
                let v = self.opnd(st, o)?;
                let (_, i) = self.int(&v)?;
                let b = self.d.bit(&st.know, 1, &i, 0);
                if refine(&mut self.d, st, &b, true) {
                    Ok(())
                } else {
                    Err(Ctl::Bottom)
                }
            }
            Stmt::CopyNonOverlapping(a, b, n, _) => {
                let (x, y, n) = (self.opnd(st, a)?, self.opnd(st, b)?, self.opnd(st, n)?);
                self.copy(st, &x, &y, &n)
            }
        }
    }

    fn copy(&mut self, st: &mut State, src: &Val, dst: &Val, n: &Val) -> R<()> {
        let (_, n) = self.int(n)?;
        let Some(n) = n.k() else { return Err(Ctl::SplitIdx(64, n)) };
        if n == 0 {
            return Ok(());
        }
        let (Val::Ptr(p), Val::Ptr(q)) = (src, dst) else { return bad("copy of non pointers") };
        let mut vals = vec![];
        for i in 0..n {
            let mut a = (**p).clone();
            a.meta = None;
            self.shift(st, &mut a, &Int::C(i))?;
            vals.push(self.load(st, &a)?);
        }
        for (i, v) in vals.into_iter().enumerate() {
            let mut a = (**q).clone();
            a.meta = None;
            self.shift(st, &mut a, &Int::C(i as u128))?;
            self.store(st, &a, v)?;
        }
        Ok(())
    }

    /// Apply a control request: produce the refined states to retry with.
    fn retry(&mut self, st: State, c: Ctl) -> Vec<State> {
        match c {
            Ctl::Split(b) => {
                self.st.splits += 1;
                let mut out = vec![];
                for v in [true, false] {
                    let mut s = st.clone();
                    if refine(&mut self.d, &mut s, &b, v) {
                        out.push(s);
                    }
                }
                out
            }
            Ctl::SplitIdx(w, i) => {
                self.st.splits += 1;
                let (lo, hi) = self.d.iv(&st.know, w, &i);
                if hi - lo > 300 {
                    self.violation("undecided", format!("index or shift amount with large unknown range {lo}..{hi}"), Some(&st));
                    return vec![];
                }
                let mut out = vec![];
                for v in lo..=hi {
                    let b = self.d.eq(&st.know, w, &i, &Int::C(v));
                    if b == BF::K(false) {
                        continue;
                    }
                    let mut s = st.clone();
                    if refine(&mut self.d, &mut s, &b, true) {
                        out.push(s);
                    }
                }
                // progress guard
                if out.len() == 1 && lo != hi {
                    let s = &out[0];
                    let _ = s;
                }
                out
            }
            Ctl::NeedConst(f) => {
                let slot = self.slot(f);
                self.const_depth += 1;
                let outs = self.call_fn(st, f, vec![]);
                self.const_depth -= 1;
                outs.into_iter()
                    .map(|(mut s, v)| {
                        Rc::make_mut(&mut s.statics)[slot as usize] = v;
                        s
                    })
                    .collect()
            }
            Ctl::Bad(m) => {
                if self.const_depth == 0 || !m.contains("panic") {
                    self.violation("unsupported", m, Some(&st));
                }
                vec![]
            }
            Ctl::Bottom => vec![],
        }
    }

    // ------------------------------------------------------------ blocks
    fn exec_block(&mut self, fid: FuncId, b: Bb, st: State) -> (Vec<Succ>, Vec<State>) {
        let p = self.p;
        let f = &p.funcs[fid as usize];
        let blk = &f.blocks[b as usize];
        self.cur = (fid, b);
        let mut work = vec![(st, 0usize)];
        let mut succs = vec![];
        let mut rets = vec![];
        let mut tries = 0u32;
        'w: while let Some((mut st, mut i)) = work.pop() {
            while i < blk.stmts.len() {
                self.st.stmts += 1;
                match self.stmt(&mut st, &blk.stmts[i]) {
                    Ok(()) => i += 1,
                    Err(c) => {
                        tries += 1;
                        if tries > 5000 {
                            self.violation("undecided", "case split does not terminate".into(), Some(&st));
                            continue 'w;
                        }
                        for s in self.retry(st, c).into_iter().rev() {
                            work.push((s, i));
                        }
                        self.cur = (fid, b);
                        continue 'w;
                    }
                }
            }
            self.cur = (fid, b);
            match self.term(fid, b, &mut st, &mut succs, &mut rets) {
                Ok(()) => {}
                Err(c) => {
                    tries += 1;
                    if tries > 5000 {
                        self.violation("undecided", "case split does not terminate".into(), Some(&st));
                        continue 'w;
                    }
                    for s in self.retry(st, c).into_iter().rev() {
                        work.push((s, i));
                    }
                    self.cur = (fid, b);
                }
            }
        }
        (succs, rets)
    }

    fn panic_at(&mut self, what: String, st: &State) {
        if self.const_depth > 0 {
            return; // compile-time evaluation: such a program does not build
        }
        self.violation("panic", what, Some(st));
    }

    fn term(&mut self, fid: FuncId, b: Bb, st: &mut State, succs: &mut Vec<Succ>, rets: &mut Vec<State>) -> R<()> {
        let p = self.p;
        let f = &p.funcs[fid as usize];
        match &f.blocks[b as usize].term {
            Term::Goto(t) => {
                succs.push((*t, st.clone()));
                Ok(())
            }
            Term::Switch(o, ty, targets, other) => {
                let v = self.opnd(st, o)?;
                let _ = ty;
                let (w, i) = self.int(&v)?;
                if let Some(c) = i.k() {
                    let t = targets.iter().find(|x| x.0 & mask(w) == c).map_or(*other, |x| x.1);
                    succs.push((t, st.clone()));
                    return Ok(());
                }
                let mut rest = Some(st.clone());
                let mut rv = i;
                for (c, t) in targets {
                    let Some(mut r) = rest.take() else { break };
                    let e = self.d.eq(&r.know, w, &rv, &Int::C(*c & mask(w)));
                    match e {
                        BF::K(true) => {
                            succs.push((*t, r));
                            break;
                        }
                        BF::K(false) => rest = Some(r),
                        e => {
                            if !r.know.lens.is_empty() {
                                if let Some(l) = self.loopstack.last() {
                                    if !self.lenloops.contains(l) && merge::mentions(&mut self.d, &e, &r.know.lens) {
                                        self.lenloops.insert(*l);
                                    }
                                }
                            }
                            let mut y = r.clone();
                            let (oy, or) = (refine(&mut self.d, &mut y, &e, true), refine(&mut self.d, &mut r, &e, false));
                            if let (true, true, Some((ft, ..))) = (oy, or, self.freq_sym) {
                                // a decision by the frequency alone: split the chunk exactly there
                                let (p, q) = (self.d.iv_t(&y.know, ft), self.d.iv_t(&r.know, ft));
                                if p.1 + 1 == q.0 {
                                    self.freq_cut = Some(p.1 as u64);
                                } else if q.1 + 1 == p.0 {
                                    self.freq_cut = Some(q.1 as u64);
                                }
                                if self.freq_cut.is_some() && matches!(self.freq, Some((l, h)) if l < h) {
                                    self.violation("split", "frequency".into(), None);
                                    return Ok(());
                                }
                            }
                            if oy {
                                succs.push((*t, y));
                            }
                            if or {
                                // the operand may have been rewritten
                                if let Ok(v) = self.opnd(&r, o) {
                                    if let Ok((_, i2)) = self.int(&v) {
                                        rv = i2;
                                    }
                                }
                                rest = Some(r);
                            }
                        }
                    }
                }
                if let Some(r) = rest {
                    succs.push((*other, r));
                }
                Ok(())
            }
            Term::Return => {
                rets.push(st.clone());
                Ok(())
            }
            Term::Unreachable => Ok(()),
            Term::Drop(pl, c, t) => match c {
                None => {
                    succs.push((*t, st.clone()));
                    Ok(())
                }
                Some(c) => {
                    let q = self.resolve(st, pl)?;
                    let arg = Val::Ptr(Rc::new(q));
                    let fv = self.fnv(c);
                    let loc = f.blocks[b as usize].loc;
                    let outs = self.call(st.clone(), &fv, vec![arg], false, fid, loc, st.frames.len())?;
                    self.cur = (fid, b);
                    for (s, _) in outs {
                        succs.push((*t, s));
                    }
                    Ok(())
                }
            },
            Term::Assert { cond, expected, kind, benign, target } => {
                let v = self.opnd(st, cond)?;
                let (_, i) = self.int(&v)?;
                let c = self.d.bit(&st.know, 1, &i, 0);
                let c = if *expected { c } else { c.not() };
                if !*benign && self.const_depth == 0 {
                    self.st.obligations += 1;
                    if f.krate == "infrared" || f.krate == "fugit" {
                        let (at, _) = self.where_(fid, b);
                        self.st.asserts.insert(format!("{at} {kind}"));
                    }
                }
                match c {
                    BF::K(true) => {
                        succs.push((*target, st.clone()));
                    }
                    c => {
                        let mut bad_st = st.clone();
                        if !*benign && refine(&mut self.d, &mut bad_st, &c, false) {
                            self.panic_at(format!("{kind} may be reached"), &bad_st);
                        }
                        let mut ok = st.clone();
                        if refine(&mut self.d, &mut ok, &c, true) {
                            succs.push((*target, ok));
                        }
                    }
                }
                Ok(())
            }
            Term::Call { callee, untuple, args, dest, target } => {
                let fv = match callee {
                    Ok(c) => self.fnv(c),
                    Err(o) => match self.opnd(st, o)? {
                        Val::Fn(f) => (*f).clone(),
                        _ => return bad("call of unknown function value"),
                    },
                };
                let mut av = Vec::with_capacity(args.len());
                for a in args {
                    av.push(self.opnd(st, a)?);
                }
                if target.is_none() && !matches!(fv, FnV::Harness(..)) {
                    if let FnV::Intrinsic(n, _) = &fv {
                        if n == "unreachable" {
                            return Ok(());
                        }
                    }
                    let nm = match &fv {
                        FnV::Fn(f) => self.p.funcs[*f as usize].name.clone(),
                        FnV::Intrinsic(n, _) => n.clone(),
                        FnV::Harness(n, _) => n.clone(),
                        FnV::Bad(n) => n.clone(),
                    };
                    self.panic_at(format!("call of diverging {nm}"), st);
                    return Ok(());
                }
                // a closure turned into a function pointer
                if let (Err(_), FnV::Fn(g)) = (callee, &fv) {
                    let c = &self.p.funcs[*g as usize];
                    if c.spread.is_some() && c.nargs == 2 && c.name.ends_with("call_once (shim)") {
                        av = vec![self.zst(c.locals[1]), Val::agg(av)];
                    }
                }
                // destination first, as a pointer
                let dq = self.resolve(st, dest)?;
                let loc = f.blocks[b as usize].loc;
                self.st.call_sites.insert((fid, b));
                let outs = self.call(st.clone(), &fv, av, *untuple, fid, loc, st.frames.len())?;
                self.cur = (fid, b);
                let Some(t) = target else { return Ok(()) };
                for (mut s, v) in outs {
                    match self.store(&mut s, &dq, v) {
                        Ok(()) => succs.push((*t, s)),
                        Err(Ctl::Bad(m)) => self.violation("unsupported", m, None),
                        Err(_) => self.violation("unsupported", "result destination".into(), None),
                    }
                }
                Ok(())
            }
            Term::Unsupported(s) => bad(format!("unsupported terminator {s}")),
        }
    }

    fn call(&mut self, st: State, fv: &FnV, args: Vec<Val>, untuple: bool, fid: FuncId, loc: u32, _depth: usize) -> R<Vec<(State, Val)>> {
        match fv {
            FnV::Fn(f) => {
                let callee = &self.p.funcs[*f as usize];
                let mut args = args;
                if untuple && callee.spread.is_none() {
                    if let Some(Val::Agg(a)) = args.last().cloned() {
                        if a.len() + args.len() - 1 == callee.nargs {
                            args.pop();
                            args.extend(a.iter().cloned());
                        }
                    } else if let Some(Val::Uninit) = args.last() {
                        if callee.nargs == args.len() - 1 {
                            args.pop();
                        }
                    }
                }
                if args.len() != callee.nargs {
                    return bad(format!("argument count mismatch calling {} ({} given, {} expected)", callee.name, args.len(), callee.nargs));
                }
                self.st.calls += 1;
                if self.chain.len() > 200 {
                    return bad("call depth");
                }
                self.chain.push((fid, loc));
                let r = self.call_fn(st, *f, args);
                self.chain.pop();
                Ok(r)
            }
            FnV::Intrinsic(n, t) => self.intrinsic(st, n, t, args, fid, loc),
            FnV::Harness(n, t) => self.harness(st, n, t, args),
            FnV::Bad(s) => bad(format!("call of function without analysable body: {s}")),
        }
    }

    fn call_fn(&mut self, mut st: State, fid: FuncId, args: Vec<Val>) -> Vec<(State, Val)> {
        let p = self.p;
        let f = &p.funcs[fid as usize];
        if f.krate == "infrared" {
            self.st.funcs.insert(format!("{} ({}:{})", f.name, f.file, f.line));
        }
        let cd = self.const_depth;
        if f.is_const_body {
            self.const_depth += 1;
        }
        let mut locals = vec![Val::Uninit; f.locals.len()];
        for (i, a) in args.into_iter().enumerate() {
            locals[i + 1] = a;
        }
        // zero sized locals have a value from the start
        for (i, t) in f.locals.iter().enumerate() {
            if matches!(locals[i], Val::Uninit) && self.p.is_zst(*t) {
                locals[i] = self.zst(*t);
            }
        }
        st.frames.push(Rc::new(Frame { func: fid, locals }));
        let mut out = Outs::default();
        self.region(fid, None, 0, vec![st], &mut out);
        self.const_depth = cd;
        let mut res = vec![];
        for mut s in out.rets {
            let fr = s.frames.pop().unwrap();
            let v = fr.locals[0].clone();
            let v = if matches!(v, Val::Uninit) && self.p.is_zst(f.locals[0]) { self.zst(f.locals[0]) } else { v };
            let v = if f.is_const_body {
                let d = s.frames.len() as u32;
                self.lift(&mut s, &fr, d, fid, &v)
            } else {
                v
            };
            res.push((s, v));
        }
        res
    }

    // ------------------------------------------------------------ regions
    fn region(&mut self, fid: FuncId, lp: Option<usize>, entry: Bb, states: Vec<State>, out: &mut Outs) {
        let p = self.p;
        let f = &p.funcs[fid as usize];
        let mut pend: BTreeMap<(u32, Bb), Vec<State>> = BTreeMap::new();
        pend.insert((f.rpo[entry as usize], entry), states);
        let mut first = true;
        while let Some(((_, b), sts)) = pend.pop_first() {
            if self.over {
                return;
            }
            if self.st.stmts > self.limit || crate::dom::out_of_time() {
                self.over = true;
                self.violation("undecided", "analysis budget exhausted".into(), None);
                return;
            }
            let is_entry = first && b == entry;
            first = false;
            let inner = f.loops.iter().position(|l| l.header == b).filter(|l| Some(*l) != lp);
            if f.doomed[b as usize] {
                self.cur = (fid, b);
                let msg = self.doom_msg(fid, b);
                for s in &sts {
                    self.panic_at(msg.clone(), s);
                }
                continue;
            }
            let mut nexts: Vec<Succ> = vec![];
            if let Some(l) = inner {
                let mut o = Outs::default();
                let mut ms = sts;
                for s in ms.iter_mut() {
                    self.kill_dead(fid, b, s);
                }
                let ms = self.merge(ms);
                self.run_loop(fid, l, ms, &mut o);
                nexts = o.exits;
                out.rets.extend(o.rets);
            } else {
                let mut ms = sts;
                for s in ms.iter_mut() {
                    self.kill_dead(fid, b, s);
                }
                if !(is_entry && lp.is_some()) && (f.npreds[b as usize] > 1 || ms.len() > 8) && !(self.pick[fid as usize] && ms.len() <= 6) {
                    ms = self.merge(ms);
                }
                for s in ms {
                    let (su, re) = self.exec_block(fid, b, s);
                    nexts.extend(su);
                    out.rets.extend(re);
                }
            }
            for (t, s) in nexts {
                if let Some(l) = lp {
                    if t == f.loops[l].header {
                        out.back.push(s);
                        continue;
                    }
                    if !f.loops[l].blocks[t as usize] {
                        out.exits.push((t, s));
                        continue;
                    }
                }
                pend.entry((f.rpo[t as usize], t)).or_default().push(s);
            }
        }
    }

    fn doom_msg(&self, fid: FuncId, b: Bb) -> String {
        let f = &self.p.funcs[fid as usize];
        let mut b = b;
        for _ in 0..20 {
            match &f.blocks[b as usize].term {
                Term::Goto(t) | Term::Drop(_, _, t) | Term::Assert { target: t, .. } => b = *t,
                Term::Call { callee: Ok(c), target, .. } => match target {
                    Some(t) => b = *t,
                    None => {
                        return match c {
                            Callee::Fn(x) => format!("call of {}", self.p.funcs[*x as usize].name),
                            _ => "panic".into(),
                        }
                    }
                },
                _ => break,
            }
        }
        "panicking path".into()
    }

    fn kill_dead(&mut self, fid: FuncId, b: Bb, st: &mut State) {
        let f = &self.p.funcs[fid as usize];
        let dead = &f.live_in[b as usize];
        let top = st.frames.last().unwrap();
        if dead.iter().all(|l| matches!(top.locals[*l as usize], Val::Uninit)) {
            return;
        }
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        for l in dead {
            if !self.p.is_zst(f.locals[*l as usize]) {
                fr.locals[*l as usize] = Val::Uninit;
            }
        }
    }

    pub fn merge(&mut self, sts: Vec<State>) -> Vec<State> {
        let inl = if sts.iter().any(|s| !s.know.lens.is_empty()) { self.cap } else { self.inline_cap };
        self.merge_cap(sts, inl)
    }
    fn merge_cap(&mut self, sts: Vec<State>, cap: usize) -> Vec<State> {
        if sts.len() <= 1 || self.d.paths && sts.len() <= 64 {
            return sts;
        }
        loop {
            let mut order: Vec<u64> = vec![];
            let mut groups: HashMap<u64, Vec<usize>> = HashMap::new();
            for (i, s) in sts.iter().enumerate() {
                let k = merge::key(&self.d, &self.gen, s);
                groups.entry(k).or_insert_with(|| {
                    order.push(k);
                    vec![]
                })
                .push(i);
            }
            if order.len() > self.soft {
                let reps: Vec<&State> = order.iter().map(|k| &sts[groups[k][0]]).collect();
                if let Some((l, n, _)) = merge::busiest(&self.d, &self.gen, &reps, order.len() > cap, None, &self.policy) {
                    if self.verbose {
                        eprintln!("generalise {l:x} ({n} values of {} partitions) in {}", order.len(), self.where_(self.cur.0, self.cur.1).1);
                    }
                    merge::generalise(&mut self.gen, l, false);
                    continue;
                }
            }
            self.st.partitions = self.st.partitions.max(order.len() as u64);
            let mut out = vec![];
            for k in order {
                let g = &groups[&k];
                let mut acc = sts[g[0]].clone();
                for i in &g[1..] {
                    self.st.joins += 1;
                    acc = merge::join(&mut self.d, &acc, &sts[*i], 0);
                }
                if acc.know.iv.len() + acc.know.rw.len() + acc.know.ineq.len() + acc.know.arw.len() > 60 {
                    let kp = self.keep.clone();
                    merge::gc(&mut self.d, &mut acc, &kp);
                }
                out.push(acc);
            }
            return out;
        }
    }

    fn run_loop(&mut self, fid: FuncId, l: usize, entry: Vec<State>, out: &mut Outs) {
        self.loopstack.push((fid, l));
        self.run_loop_in(fid, l, entry, out);
        self.loopstack.pop();
    }
    fn run_loop_in(&mut self, fid: FuncId, l: usize, entry: Vec<State>, out: &mut Outs) {
        let p = self.p;
        let f = &p.funcs[fid as usize];
        let header = f.loops[l].header;
        let history = f.loops[l].history;
        let mut cur = entry;
        if !history && !self.fixloops.contains(&(fid, l)) {
            for it in 0..300 {
                if cur.is_empty() {
                    self.merge_exits(out);
                    return;
                }
                if it > 0 {
                    self.st.unrolled += 1;
                }
                let mut o = Outs::default();
                self.region(fid, Some(l), header, std::mem::take(&mut cur), &mut o);
                out.exits.extend(o.exits);
                out.rets.extend(o.rets);
                let mut back = o.back;
                for s in back.iter_mut() {
                    self.kill_dead(fid, header, s);
                }
                cur = self.merge(back);
                if self.over {
                    return;
                }
                // the number of iterations depends on an unknown length
                if it >= 1 && self.lenloops.contains(&(fid, l)) {
                    break;
                }
            }
            if cur.is_empty() {
                self.merge_exits(out);
                return;
            }
            if self.const_depth > 0 {
                self.violation("undecided", "loop in constant evaluation not unrolled".into(), None);
                return;
            }
            if self.verbose {
                let (a, n) = self.where_(fid, header);
                eprintln!("fixpoint for loop at {a} in {n}");
            }
            if cur.iter().any(|s| s.bounded > 0) {
                self.cur = (fid, header);
                self.violation("unbounded", "loop without a constant bound".into(), Some(&cur[0].clone()));
            }
            self.fixloops.insert((fid, l));
        } else if cur.iter().any(|s| s.bounded > 0) {
            self.cur = (fid, header);
            self.violation("unbounded", "loop without a constant bound".into(), Some(&cur[0].clone()));
        }
        // fixpoint over partitions
        struct Ent {
            st: State,
            n: u32,
            depth: usize,
            dirty: bool,
            exits: Vec<(Bb, State)>,
            rets: Vec<State>,
            viol: Vec<Viol>,
        }
        let mut map: HashMap<u64, Ent> = HashMap::new();
        let mut order: Vec<u64> = vec![];
        let mut incoming = cur;
        let (mut depth, mut maxdepth) = (0usize, 0usize);
        loop {
            // insert incoming
            for mut s in incoming.drain(..) {
                let kp = self.keep.clone();
                merge::gc(&mut self.d, &mut s, &kp);
                let k = merge::key(&self.d, &self.gen, &s);
                match map.get_mut(&k) {
                    None => {
                        order.push(k);
                        map.insert(k, Ent { st: s, n: 0, depth, dirty: true, exits: vec![], rets: vec![], viol: vec![] });
                    }
                    Some(e) => {
                        if !merge::included(&mut self.d, &s, &e.st) {
                            self.st.joins += 1;
                            e.n += 1;
                            if e.n >= 117 && std::env::var("DBGF").is_ok() {
                                for (nm, x) in [("new", &s), ("old", &e.st)] {
                                    eprintln!("{nm}");
                                    for f in &x.frames { for v in &f.locals { eprintln!("  {v:?}"); } }
                                    eprintln!("  iv {:?} rw {:?} ineq {:?} fsys {:?} arw {:?}", x.know.iv, x.know.rw, x.know.ineq, x.know.fsys, x.know.arw);
                                }
                            }
                            let mut j = merge::join(&mut self.d, &e.st, &s, e.n);
                            merge::gc(&mut self.d, &mut j, &kp);
                            e.st = j;
                            e.dirty = true;
                            if e.n > 120 {
                                self.cur = (fid, header);
                                let s2 = e.st.clone();
                                self.over = true;
                                self.violation("undecided", "fixpoint does not stabilise".into(), Some(&s2));
                                return;
                            }
                        }
                    }
                }
            }
            // generalise when there are too many partitions
            if order.len() > self.soft {
                let reps: Vec<&State> = order.iter().map(|k| &map[k].st).collect();
                if let Some((loc, n, en)) = merge::busiest(&self.d, &self.gen, &reps, order.len() > self.cap, Some(maxdepth), &self.policy) {
                    if order.len() > self.cap {
                        self.hardgen.push((loc, n, en));
                    }
                    if self.verbose {
                        eprintln!("generalise {loc:x} ({n} values of {} partitions) at history loop", order.len());
                    }
                    let whole = map.values().any(|e| !e.st.know.lens.is_empty());
                    merge::generalise(&mut self.gen, loc, order.len() > self.cap && !whole);
                    for k in order.drain(..) {
                        incoming.push(map.remove(&k).unwrap().st);
                    }
                    continue;
                }
            }
            let Some(k) = order.iter().find(|k| map[*k].dirty).cloned() else { break };
            self.st.fix_iters += 1;
            let e = map.get_mut(&k).unwrap();
            e.dirty = false;
            depth = e.depth + 1;
            maxdepth = maxdepth.max(depth);
            let s = e.st.clone();
            let saved = std::mem::take(&mut self.viol);
            let mut o = Outs::default();
            self.region(fid, Some(l), header, vec![s], &mut o);
            let v = std::mem::replace(&mut self.viol, saved);
            let e = map.get_mut(&k).unwrap();
            e.exits = o.exits;
            e.rets = o.rets;
            e.viol = v;
            if self.over {
                let v = std::mem::take(&mut map.get_mut(&k).unwrap().viol);
                self.viol.extend(v);
                return;
            }
            let mut back = o.back;
            for s in back.iter_mut() {
                self.kill_dead(fid, header, s);
            }
            incoming = self.merge(back);
        }
        self.st.partitions = self.st.partitions.max(order.len() as u64);
        if self.verbose {
            eprintln!("history loop in {}: {} partitions", f.name, order.len());
        }
        for k in order {
            let e = map.remove(&k).unwrap();
            out.exits.extend(e.exits);
            out.rets.extend(e.rets);
            for v in e.viol {
                if !self.viol.contains(&v) {
                    self.viol.push(v);
                }
            }
        }
        self.merge_exits(out);
    }

    fn merge_exits(&mut self, out: &mut Outs) {
        let mut m: BTreeMap<Bb, Vec<State>> = BTreeMap::new();
        for (b, s) in out.exits.drain(..) {
            m.entry(b).or_default().push(s);
        }
        for (b, v) in m {
            let cap = self.cap;
            for s in self.merge_cap(v, cap) {
                out.exits.push((b, s));
            }
        }
    }

    // ------------------------------------------------------------ intrinsics
    fn intrinsic(&mut self, mut st: State, n: &str, tys: &[TyId], a: Vec<Val>, fid: FuncId, loc: u32) -> R<Vec<(State, Val)>> {
        let k = st.know.clone();
        let signed = tys.first().map_or(false, |t| self.is_signed(*t));
        macro_rules! one {
            ($v:expr) => {{
                let v = $v;
                Ok(vec![(st, v)])
            }};
        }
        match n {
            "wrapping_add" | "unchecked_add" | "wrapping_sub" | "unchecked_sub" => {
                let ((w, x), (_, y)) = (self.int(&a[0])?, self.int(&a[1])?);
                one!(Val::Int(w, self.d.add(&k, w, &x, &y, n.ends_with("sub"))))
            }
            "wrapping_mul" | "unchecked_mul" => {
                let ((w, x), (_, y)) = (self.int(&a[0])?, self.int(&a[1])?);
                one!(Val::Int(w, self.d.mul(&k, w, &x, &y)))
            }
            "unchecked_div" | "unchecked_rem" | "exact_div" => {
                let ((w, x), (_, y)) = (self.int(&a[0])?, self.int(&a[1])?);
                one!(Val::Int(w, self.d.divrem(&k, w, &x, &y, n.ends_with("rem"), signed)))
            }
            "unchecked_shl" | "unchecked_shr" => {
                let op = if n.ends_with("shl") { Bop::Shl } else { Bop::Shr };
                let v = self.bin(&st, op, a[0].clone(), a[1].clone(), tys[0], tys[0])?;
                one!(v)
            }
            "add_with_overflow" | "sub_with_overflow" | "mul_with_overflow" => {
                let ((w, x), (_, y)) = (self.int(&a[0])?, self.int(&a[1])?);
                let c = match &n[..3] {
                    "add" => '+',
                    "sub" => '-',
                    _ => '*',
                };
                let (v, o) = self.d.arith_ovf(&k, w, signed, c, &x, &y);
                one!(Val::agg(vec![Val::Int(w, v), Val::bool(o)]))
            }
            "saturating_add" | "saturating_sub" => {
                let ((w, x), (_, y)) = (self.int(&a[0])?, self.int(&a[1])?);
                let (v, o) = self.d.arith_ovf(&k, w, signed, if n.ends_with("add") { '+' } else { '-' }, &x, &y);
                if signed && o != BF::K(false) {
                    return bad("signed saturation");
                }
                match o {
                    BF::K(false) => one!(Val::Int(w, v)),
                    BF::K(true) => one!(Val::c(w, if n.ends_with("add") { mask(w) } else { 0 })),
                    b => Err(Ctl::Split(b)),
                }
            }
            "ctpop" | "ctlz" | "cttz" | "ctlz_nonzero" | "cttz_nonzero" => {
                let (w, x) = self.int(&a[0])?;
                let op = match &n[..4] {
                    "ctpo" => Op::Popcnt,
                    "ctlz" => Op::Ctlz,
                    _ => Op::Cttz,
                };
                let parity = if op == Op::Popcnt { self.d.bits(&k, w, &x).iter().fold(BF::K(false), |a, b| a.xor(b)) } else { BF::K(false) };
                let r = self.d.eval_op(&k, op, 32, vec![(w, x)]);
                if op == Op::Popcnt && r.k().is_none() {
                    // the lowest bit of a population count is the parity
                    let mut b = self.d.bits(&k, 32, &r);
                    b[0] = parity;
                    one!(Val::Int(32, self.d.from_bits_k(&k, b)))
                } else {
                    one!(Val::Int(32, r))
                }
            }
            "bswap" | "bitreverse" => {
                let (w, x) = self.int(&a[0])?;
                let mut b = self.d.bits(&k, w, &x);
                if n == "bitreverse" {
                    b.reverse();
                } else {
                    let mut o = vec![];
                    for c in b.chunks(8).rev() {
                        o.extend_from_slice(c);
                    }
                    b = o;
                }
                one!(Val::Int(w, self.d.from_bits_k(&k, b)))
            }
            "rotate_left" | "rotate_right" => {
                let ((w, x), (w2, y)) = (self.int(&a[0])?, self.int(&a[1])?);
                let y = self.d.bitop(&k, w2, Op::And, &y, &Int::C(w as u128 - 1));
                let Some(c) = y.k() else { return Err(Ctl::SplitIdx(w2, y)) };
                let mut b = self.d.bits(&k, w, &x);
                if n == "rotate_left" {
                    b.rotate_right(c as usize);
                } else {
                    b.rotate_left(c as usize);
                }
                one!(Val::Int(w, self.d.from_bits_k(&k, b)))
            }
            "disjoint_bitor" => {
                let ((w, x), (_, y)) = (self.int(&a[0])?, self.int(&a[1])?);
                one!(Val::Int(w, self.d.bitop(&k, w, Op::Or, &x, &y)))
            }
            "offset" | "arith_offset" => {
                let pt = tys[0];
                // type argument is either the pointer or the pointee type
                let pointee_zst = match self.p.ty(self.p.rty(pt)) {
                    Ty::Ptr(e) => self.p.is_zst(*e),
                    _ => self.p.is_zst(pt),
                };
                if pointee_zst {
                    return one!(a[0].clone());
                }
                let (_, i) = self.int(&a[1])?;
                match &a[0] {
                    Val::Ptr(p) => {
                        let mut q = (**p).clone();
                        self.shift(&st, &mut q, &i)?;
                        one!(Val::Ptr(Rc::new(q)))
                    }
                    Val::Raw(x) if i.k() == Some(0) => one!(Val::Raw(*x)),
                    _ => bad("pointer offset"),
                }
            }
            "ptr_offset_from" | "ptr_offset_from_unsigned" => match (&a[0], &a[1]) {
                (Val::Ptr(p), Val::Ptr(q)) if p.base == q.base => {
                    let ((x, i), (y, j)) = (Self::ptr_index(p), Self::ptr_index(q));
                    if x != y {
                        return bad("pointer difference");
                    }
                    one!(Val::Int(64, self.d.add(&k, 64, &i, &j, true)))
                }
                _ => bad("pointer difference"),
            },
            "transmute" | "transmute_unchecked" => {
                let v = self.transmute(&st, a[0].clone(), tys[0], tys[1])?;
                one!(v)
            }
            "assume" => {
                let (_, i) = self.int(&a[0])?;
                let b = self.d.bit(&k, 1, &i, 0);
                if refine(&mut self.d, &mut st, &b, true) {
                    one!(Val::unit())
                } else {
                    Err(Ctl::Bottom)
                }
            }
            "likely" | "unlikely" | "black_box" => one!(a[0].clone()),
            "cold_path" | "assert_inhabited" | "assert_zero_valid" | "assert_mem_uninitialized_valid" | "forget" => one!(Val::unit()),
            "is_val_statically_known" | "ub_checks" | "contract_checks" => one!(Val::c(1, 0)),
            "overflow_checks" => one!(Val::c(1, 1)),
            "discriminant_value" => {
                let Val::Ptr(p) = &a[0] else { return bad("discriminant_value") };
                let v = self.load(&st, p)?;
                let d = self.discr(&v, tys[0])?;
                one!(d)
            }
            "copy" | "copy_nonoverlapping" => {
                if self.p.is_zst(tys[0]) {
                    return one!(Val::unit());
                }
                self.copy(&mut st, &a[0], &a[1], &a[2])?;
                one!(Val::unit())
            }
            "write_bytes" => {
                let (Val::Ptr(p), (_, b), (_, c)) = (&a[0], self.int(&a[1])?, self.int(&a[2])?) else { return bad("write_bytes") };
                let (Some(b), Some(c)) = (b.k(), c.k()) else { return bad("write_bytes with unknown arguments") };
                let Some((w, _)) = self.p.int_info(tys[0]) else { return bad("write_bytes of aggregates") };
                let mut v = 0u128;
                for j in 0..w.div_ceil(8) {
                    v |= b << (8 * j as u32);
                }
                for i in 0..c {
                    let mut q = (**p).clone();
                    self.shift(&st, &mut q, &Int::C(i))?;
                    self.store(&mut st, &q, Val::c(w, v))?;
                }
                one!(Val::unit())
            }
            "read_via_copy" | "volatile_load" => {
                let Val::Ptr(p) = &a[0] else { return if self.p.is_zst(tys[0]) { one!(self.zst(tys[0])) } else { bad("read through address") } };
                let v = self.load(&st, p)?;
                one!(v)
            }
            "write_via_move" | "volatile_store" => {
                let Val::Ptr(p) = &a[0] else { return if self.p.is_zst(tys[0]) { one!(Val::unit()) } else { bad("write through address") } };
                let p = p.clone();
                self.store(&mut st, &p, a[1].clone())?;
                one!(Val::unit())
            }
            "typed_swap_nonoverlapping" => {
                let (Val::Ptr(p), Val::Ptr(q)) = (&a[0], &a[1]) else { return bad("swap") };
                let (x, y) = (self.load(&st, p)?, self.load(&st, q)?);
                let (p, q) = (p.clone(), q.clone());
                self.store(&mut st, &p, y)?;
                self.store(&mut st, &q, x)?;
                one!(Val::unit())
            }
            "three_way_compare" => {
                let v = self.bin(&st, Bop::Cmp, a[0].clone(), a[1].clone(), tys[0], tys[0])?;
                one!(v)
            }
            "select_unpredictable" => {
                let (_, c) = self.int(&a[0])?;
                match self.d.bit(&k, 1, &c, 0) {
                    BF::K(true) => one!(a[1].clone()),
                    BF::K(false) => one!(a[2].clone()),
                    b => Err(Ctl::Split(b)),
                }
            }
            "const_eval_select" => {
                let f = if self.const_depth > 0 { &a[1] } else { &a[2] };
                let Val::Fn(f) = f else { return bad("const_eval_select") };
                let f = (**f).clone();
                let args = match &a[0] {
                    Val::Agg(v) => v.iter().cloned().collect(),
                    _ => vec![],
                };
                self.call(st, &f, args, false, fid, loc, 0)
            }
            "slice_get_unchecked" => {
                let Val::Ptr(p) = &a[0] else { return bad("slice_get_unchecked") };
                let (_, i) = self.int(&a[1])?;
                let mut q = (**p).clone();
                q.meta = None;
                self.shift(&st, &mut q, &i)?;
                one!(Val::Ptr(Rc::new(q)))
            }
            "compare_bytes" | "raw_eq" => {
                let cnt = if n == "raw_eq" {
                    match self.p.ty(self.p.rty(tys[0])) {
                        Ty::Array(_, m) => *m as u128,
                        _ => return bad("raw_eq"),
                    }
                } else {
                    let (_, c) = self.int(&a[2])?;
                    match c.k() {
                        Some(c) => c,
                        None => return Err(Ctl::SplitIdx(64, c)),
                    }
                };
                let (Val::Ptr(p), Val::Ptr(q)) = (&a[0], &a[1]) else {
                    return if cnt == 0 { one!(if n == "raw_eq" { Val::c(1, 1) } else { Val::c(32, 0) }) } else { bad("memory comparison") };
                };
                let (mut p, mut q) = ((**p).clone(), (**q).clone());
                if n == "raw_eq" {
                    p.path.push(PEl::I(0));
                    q.path.push(PEl::I(0));
                }
                let mut cnt = cnt;
                if n != "raw_eq" && cnt > 0 {
                    // the length is in bytes
                    let mut x = p.clone();
                    x.meta = None;
                    let v = self.load(&st, &x)?;
                    let (w, _) = self.int(&v)?;
                    cnt /= (w as u128 / 8).max(1);
                }
                for i in 0..cnt {
                    let (mut x, mut y) = (p.clone(), q.clone());
                    x.meta = None;
                    y.meta = None;
                    self.shift(&st, &mut x, &Int::C(i))?;
                    self.shift(&st, &mut y, &Int::C(i))?;
                    let (x, y) = (self.load(&st, &x)?, self.load(&st, &y)?);
                    let ((w, x), (_, y)) = (self.int(&x)?, self.int(&y)?);
                    match self.d.eq(&k, w, &x, &y) {
                        BF::K(true) => {}
                        BF::K(false) => {
                            if n == "raw_eq" {
                                return one!(Val::c(1, 0));
                            }
                            match self.d.ult(&k, w, &x, &y) {
                                BF::K(true) => return one!(Val::c(32, mask(32))),
                                BF::K(false) => return one!(Val::c(32, 1)),
                                b => return Err(Ctl::Split(b)),
                            }
                        }
                        b => return Err(Ctl::Split(b)),
                    }
                }
                one!(if n == "raw_eq" { Val::c(1, 1) } else { Val::c(32, 0) })
            }
            "size_of" | "size_of_val" => match self.size_of(tys[0]) {
                Some(s) => one!(Val::c(64, s as u128)),
                None => one!(self.fresh_int(64)),
            },
            "align_of" | "min_align_of" => one!(self.fresh_int(64)),
            "needs_drop" => one!(Val::c(1, 0)),
            "ptr_metadata" => match &a[0] {
                Val::Ptr(p) => match &p.meta {
                    Some(m) => one!(Val::Int(64, m.clone())),
                    None => one!(Val::unit()),
                },
                _ => one!(Val::unit()),
            },
            "aggregate_raw_ptr" => {
                let v = self.fat(a[0].clone(), a[1].clone())?;
                one!(v)
            }
            "ptr_guaranteed_cmp" => one!(Val::c(8, 2)),
            "unreachable" => Err(Ctl::Bottom),
            n if n.starts_with("atomic_") => {
                let Val::Ptr(p) = &a[0] else { return bad("atomic access through address") };
                let p = p.clone();
                let old = self.load(&st, &p)?;
                let op = &n[7..];
                if op.starts_with("load") {
                    return one!(old);
                }
                if op.starts_with("store") || op.starts_with("xchg") {
                    self.store(&mut st, &p, a[1].clone())?;
                    return if op.starts_with("store") { one!(Val::unit()) } else { one!(old) };
                }
                let ((w, x), (_, y)) = (self.int(&old)?, self.int(&a[1])?);
                let nv = if op.starts_with("xadd") {
                    self.d.add(&k, w, &x, &y, false)
                } else if op.starts_with("xsub") {
                    self.d.add(&k, w, &x, &y, true)
                } else if op.starts_with("or") {
                    self.d.bitop(&k, w, Op::Or, &x, &y)
                } else if op.starts_with("and") {
                    self.d.bitop(&k, w, Op::And, &x, &y)
                } else {
                    return bad(format!("atomic {op}"));
                };
                self.store(&mut st, &p, Val::Int(w, nv))?;
                one!(old)
            }
            _ => bad(format!("intrinsic {n}")),
        }
    }

    fn size_of(&self, t: TyId) -> Option<u64> {
        match self.p.ty(self.p.rty(t)) {
            Ty::Int { w, .. } | Ty::Float(w) => Some(*w as u64 / 8),
            Ty::Bool => Some(1),
            Ty::Char => Some(4),
            Ty::Array(e, n) => self.size_of(*e).map(|s| s * n),
            _ if self.p.is_zst(t) => Some(0),
            _ => None,
        }
    }

    // ------------------------------------------------------------ harness
    fn any_vals(&mut self, ty: TyId) -> R<Vec<Val>> {
        let t = self.p.ty(self.p.rty(ty)).clone();
        match t {
            Ty::Int { w, .. } => Ok(vec![self.fresh_int(w)]),
            Ty::Bool => Ok(vec![self.fresh_int(1)]),
            Ty::Tuple(f) | Ty::Struct(_, f) => Ok(self.any_fields(&f)?.into_iter().map(Val::agg).collect()),
            Ty::Array(e, n) => {
                let f = vec![e; n as usize];
                Ok(self.any_fields(&f)?.into_iter().map(|v| Val::Arr(Rc::new(v))).collect())
            }
            Ty::Enum(_, vs, _) => {
                let mut out = vec![];
                for (i, v) in vs.iter().enumerate() {
                    for f in self.any_fields(&v.fields)? {
                        out.push(Val::Enum(i as u32, Rc::new(f)));
                    }
                }
                Ok(out)
            }
            t => bad(format!("arbitrary value of type {t:?}")),
        }
    }
    fn any_fields(&mut self, f: &[TyId]) -> R<Vec<Vec<Val>>> {
        let mut acc: Vec<Vec<Val>> = vec![vec![]];
        for t in f {
            let vs = self.any_vals(*t)?;
            let mut n = vec![];
            for a in &acc {
                for v in &vs {
                    let mut b = a.clone();
                    b.push(v.clone());
                    n.push(b);
                }
            }
            acc = n;
        }
        Ok(acc)
    }

    fn text(&mut self, st: &State, v: &Val) -> String {
        if let Val::Ptr(p) = v {
            if let Some(n) = p.meta.as_ref().and_then(|m| m.k()) {
                let mut s = vec![];
                for i in 0..n {
                    let mut q = (**p).clone();
                    q.meta = None;
                    if self.shift(st, &mut q, &Int::C(i)).is_err() {
                        break;
                    }
                    if let Ok(Val::Int(_, Int::C(c))) = self.load(st, &q) {
                        s.push(c as u8);
                    }
                }
                return String::from_utf8_lossy(&s).into_owned();
            }
        }
        "?".into()
    }

    /// Equal in every part (false: not known to be equal).
    fn same_val(&mut self, st: &State, a: &Val, b: &Val) -> bool {
        match (a, b) {
            (Val::Int(w, x), Val::Int(w2, y)) => w == w2 && self.d.eq(&st.know, *w, x, y).konst() == Some(true),
            (Val::Agg(x), Val::Agg(y)) | (Val::Arr(x), Val::Arr(y)) => x.len() == y.len() && x.iter().zip(y.iter()).all(|(x, y)| self.same_val(st, x, y)),
            (Val::Enum(i, x), Val::Enum(j, y)) => i == j && x.len() == y.len() && x.iter().zip(y.iter()).all(|(x, y)| self.same_val(st, x, y)),
            (Val::Uninit, _) | (_, Val::Uninit) => false,
            _ => false,
        }
    }

    fn harness(&mut self, mut st: State, n: &str, tys: &[TyId], a: Vec<Val>) -> R<Vec<(State, Val)>> {
        match n {
            "any" => Ok(self.any_vals(tys[0])?.into_iter().map(|v| (st.clone(), v)).collect()),
            "any_in" => {
                let ((w, lo), (_, hi)) = (self.int(&a[0])?, self.int(&a[1])?);
                if lo == hi {
                    return Ok(vec![(st, Val::Int(w, lo))]);
                }
                let t = self.d.fresh(w);
                let v = self.d.mk_lin(Lin::t(t), w);
                for (x, y) in [(&lo, &v), (&v, &hi)] {
                    let b = self.d.ult(&st.know, w, y, x).not();
                    if !refine(&mut self.d, &mut st, &b, true) {
                        return Ok(vec![]);
                    }
                }
                // the symbol may have become a constant
                let (l, h) = self.d.iv_t(&st.know, t);
                let v = if l == h { Int::C(l) } else { self.current(&st, w, &v) };
                Ok(vec![(st, Val::Int(w, v))])
            }
            "any_slice" => {
                let id = self.nslices;
                self.nslices += 1;
                let len = self.d.fresh(64);
                let m = self.d.mk_lin(Lin::t(len), 64);
                {
                    let k = Rc::make_mut(&mut st.know);
                    k.iv.insert(len, (0, (1u128 << 60) - 1));
                    k.lens.push(len);
                }
                self.keep.push(len);
                self.slices.push((tys[0], m.clone()));
                Ok(vec![(st, Val::Ptr(Rc::new(PtrV { base: Base::Slice(id), path: vec![PEl::I(0)], meta: Some(m) })))])
            }
            "assume" => {
                let (_, i) = self.int(&a[0])?;
                let b = self.d.bit(&st.know, 1, &i, 0);
                if refine(&mut self.d, &mut st, &b, true) {
                    Ok(vec![(st, Val::unit())])
                } else {
                    Ok(vec![])
                }
            }
            "require" => {
                let msg = self.text(&st, &a[1]);
                self.st.requires.insert(format!("{}: {msg}", self.root));
                self.st.obligations += 1;
                let (_, i) = self.int(&a[0])?;
                match self.d.bit(&st.know, 1, &i, 0) {
                    BF::K(true) => Ok(vec![(st, Val::unit())]),
                    BF::K(false) => {
                        self.violation("requirement", msg, Some(&st));
                        Ok(vec![])
                    }
                    b => {
                        self.violation("requirement", format!("{msg} (not established)"), Some(&st));
                        if refine(&mut self.d, &mut st, &b, true) {
                            Ok(vec![(st, Val::unit())])
                        } else {
                            Ok(vec![])
                        }
                    }
                }
            }
            "reached" => {
                let msg = self.text(&st, &a[0]);
                self.st.reached.insert(format!("{}: {msg}", self.root));
                Ok(vec![(st, Val::unit())])
            }
            "history" => {
                let v = self.fresh_int(1);
                Ok(vec![(st, v)])
            }
            "frequency" | "frequency_whole" => {
                let ((_, lo), (_, hi)) = (self.int(&a[0])?, self.int(&a[1])?);
                let (Some(lo), Some(hi)) = (lo.k(), hi.k()) else { return bad("frequency bounds") };
                let Some((l, h)) = self.freq else {
                    self.need_freq = true;
                    self.freq_pieces = if n == "frequency" { 8 } else { 1 };
                    self.freq_range = Some((lo as u64, hi as u64));
                    self.over = true;
                    return Ok(vec![]);
                };
                if let Some(i) = self.param_syms.get("F").cloned() {
                    let i = self.current(&st, 32, &i);
                    return Ok(vec![(st, Val::Int(32, i))]);
                }
                if l == h {
                    return Ok(vec![(st, Val::c(32, l as u128))]);
                }
                let t = self.d.fresh(32);
                Rc::make_mut(&mut st.know).iv.insert(t, (l as u128, h as u128));
                self.freq_sym = Some((t, l, h));
                let i = self.d.mk_lin(Lin::t(t), 32);
                Ok(vec![(st, Val::Int(32, i))])
            }
            "same" => {
                let (Val::Ptr(p), Val::Ptr(q)) = (&a[0], &a[1]) else { return bad("same") };
                let (x, y) = (self.load(&st, p)?, self.load(&st, q)?);
                let r = self.same_val(&st, &x, &y);
                Ok(vec![(st, Val::bool(BF::K(r)))])
            }
            "paths" => {
                self.d.paths = true;
                Ok(vec![(st, Val::unit())])
            }
            "affine" => {
                self.d.affine = true;
                Ok(vec![(st, Val::unit())])
            }
            "bounded_enter" => {
                st.bounded += 1;
                Ok(vec![(st, Val::unit())])
            }
            "bounded_leave" => {
                st.bounded -= 1;
                Ok(vec![(st, Val::unit())])
            }
            "show" => {
                if self.verbose {
                    if let Val::Ptr(p) = &a[0] {
                        if let Ok(v) = self.load(&st, p) {
                            eprintln!("show {}: {v:?}", self.show_val(&st.know, &v, 8));
                        }
                    }
                }
                Ok(vec![(st, Val::unit())])
            }
            _ => bad(format!("harness function {n}")),
        }
    }
}
