//! Owned, fully resolved intermediate representation extracted from rustc MIR.

pub type TyId = u32;
pub type FuncId = u32;
pub type Bb = u32;

#[derive(Clone, Debug)]
pub struct Variant {
    pub name: String,
    pub discr: u128,
    pub fields: Vec<TyId>,
}

#[derive(Clone, Debug)]
pub enum Ty {
    Int { w: u8, signed: bool },
    Bool,
    Char,
    Float(u8),
    Tuple(Vec<TyId>),
    Array(TyId, u64),
    Slice(TyId),
    Str,
    Ptr(TyId),
    Struct(String, Vec<TyId>),
    /// repr(transparent) wrapper: same representation as field `k`
    Transparent(String, usize, Vec<TyId>),
    Enum(String, Vec<Variant>, u8),
    Union(String, Vec<TyId>),
    FnDef(String),
    FnPtr,
    Never,
    Opaque(String),
    Pending,
}

#[derive(Clone, Debug)]
pub enum CVal {
    Int(u8, u128),
    Agg(Vec<CVal>),
    Arr(Vec<CVal>),
    Enum(u32, Vec<CVal>),
    /// pointer into constant allocation (index), element index if it points at
    /// array elements, metadata (slice length)
    Ptr { alloc: u32, idx: Option<u64>, meta: Option<u64> },
    StaticPtr { st: u32, meta: Option<u64> },
    /// integer address (dangling etc.)
    RawPtr(u128),
    Fn(Callee),
    Uninit,
    /// symbolic const generic parameter
    Param(String, u8),
    /// generic constant: value is the result of the (argument-less) body
    Body(FuncId),
    Unsupported(String),
}

#[derive(Clone, Debug)]
pub enum Callee {
    Fn(FuncId),
    Intrinsic(String, Vec<TyId>),
    Harness(String, Vec<TyId>),
    /// function without available body
    NoBody(String),
    /// unresolved (generic or virtual) callee
    Unresolved(String),
}

#[derive(Clone, Debug)]
pub enum PE {
    Deref,
    Field(u32),
    /// unsized tail of a struct
    Tail(u32),
    Down(u32),
    /// field of a transparent wrapper that is zero sized
    Zst,
    Index(u32),
    CIdx { off: u64, from_end: bool },
    Sub { from: u64, to: u64, from_end: bool },
    /// union field access, type of field
    UField(TyId),
}

#[derive(Clone, Debug)]
pub struct Place {
    pub local: u32,
    pub proj: Vec<PE>,
    pub ty: TyId,
}

#[derive(Clone, Debug)]
pub enum Opnd {
    Copy(Place),
    Move(Place),
    Const(CVal),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Bop {
    Add,
    Sub,
    Mul,
    AddOvf,
    SubOvf,
    MulOvf,
    Div,
    Rem,
    Xor,
    And,
    Or,
    Shl,
    Shr,
    Eq,
    Ne,
    Lt,
    Le,
    Gt,
    Ge,
    Cmp,
    Offset,
}

#[derive(Clone, Debug)]
pub enum CastK {
    IntToInt,
    PtrToPtr,
    Unsize,
    Transmute,
    PtrToInt,
    IntToPtr,
    FnPtr,
    Nop,
    Other(String),
}

#[derive(Clone, Debug)]
pub enum Rv {
    Use(Opnd),
    Repeat(Opnd, u64),
    Ref(Place),
    Cast(CastK, Opnd, TyId, TyId),
    Bin(Bop, Opnd, Opnd, TyId, TyId),
    Not(Opnd, TyId),
    Neg(Opnd, TyId),
    PtrMeta(Opnd),
    Discr(Place),
    Agg(Vec<Opnd>),
    Arr(Vec<Opnd>),
    /// transparent wrapper or union: value of the given operand
    Wrap(Opnd),
    EnumAgg(u32, Vec<Opnd>),
    FatPtr(Opnd, Opnd),
    Unsupported(String),
}

#[derive(Clone, Debug)]
pub enum Stmt {
    Assign(Place, Rv),
    SetDiscr(Place, u32),
    Live(u32),
    Dead(u32),
    Assume(Opnd),
    CopyNonOverlapping(Opnd, Opnd, Opnd, TyId),
}

#[derive(Clone, Debug)]
pub enum Term {
    Goto(Bb),
    Switch(Opnd, TyId, Vec<(u128, Bb)>, Bb),
    Return,
    Unreachable,
    Drop(Place, Option<Callee>, Bb),
    Call { callee: Result<Callee, Opnd>, untuple: bool, args: Vec<Opnd>, dest: Place, target: Option<Bb> },
    Assert { cond: Opnd, expected: bool, kind: String, benign: bool, target: Bb },
    Unsupported(String),
}

#[derive(Clone, Debug)]
pub struct Block {
    pub stmts: Vec<Stmt>,
    pub term: Term,
    pub loc: u32,
    pub cleanup: bool,
}

#[derive(Clone, Debug)]
pub struct Loop {
    pub header: Bb,
    pub blocks: Vec<bool>,
    pub parent: Option<usize>,
    pub history: bool,
}

#[derive(Clone, Debug)]
pub struct Func {
    pub name: String,
    pub krate: String,
    pub file: String,
    pub line: u32,
    pub nargs: usize,
    pub spread: Option<u32>,
    pub locals: Vec<TyId>,
    pub blocks: Vec<Block>,
    pub is_const_body: bool,
    // --- derived ---
    pub rpo: Vec<u32>,
    pub npreds: Vec<u32>,
    pub loops: Vec<Loop>,
    pub loop_of: Vec<Option<usize>>,
    pub doomed: Vec<bool>,
    pub live_in: Vec<Vec<u32>>, // dead locals to kill at block entry
}

#[derive(Clone, Debug)]
pub struct StaticDef {
    pub name: String,
    pub ty: TyId,
    pub init: CVal,
    pub mutable: bool,
}

#[derive(Default)]
pub struct Program {
    pub types: Vec<Ty>,
    pub funcs: Vec<Func>,
    pub statics: Vec<StaticDef>,
    pub callocs: Vec<CVal>,
    pub roots: Vec<(String, FuncId)>,
    pub locs: Vec<(String, u32)>,
    pub must_reach: Vec<(String, String)>,
}

impl Program {
    pub fn ty(&self, t: TyId) -> &Ty {
        &self.types[t as usize]
    }
    /// Resolve transparent wrappers.
    pub fn rty(&self, mut t: TyId) -> TyId {
        loop {
            match &self.types[t as usize] {
                Ty::Transparent(_, k, f) => t = f[*k],
                _ => return t,
            }
        }
    }
    pub fn int_info(&self, t: TyId) -> Option<(u8, bool)> {
        match self.ty(self.rty(t)) {
            Ty::Int { w, signed } => Some((*w, *signed)),
            Ty::Bool => Some((1, false)),
            Ty::Char => Some((32, false)),
            Ty::Float(w) => Some((*w, false)),
            _ => None,
        }
    }
    pub fn is_zst(&self, t: TyId) -> bool {
        match self.ty(self.rty(t)) {
            Ty::Tuple(f) | Ty::Struct(_, f) => f.iter().all(|x| self.is_zst(*x)),
            Ty::Transparent(..) => unreachable!(),
            Ty::Array(e, n) => *n == 0 || self.is_zst(*e),
            Ty::FnDef(_) => true,
            Ty::Union(_, f) => f.iter().all(|x| self.is_zst(*x)),
            Ty::Enum(_, v, _) => v.len() == 1 && v[0].fields.iter().all(|x| self.is_zst(*x)),
            _ => false,
        }
    }
}

/// Compute CFG-derived information.
pub fn finish(f: &mut Func) {
    let n = f.blocks.len();
    let succs: Vec<Vec<u32>> = f.blocks.iter().map(|b| match &b.term {
        Term::Goto(t) => vec![*t],
        Term::Switch(_, _, v, o) => {
            let mut r: Vec<u32> = v.iter().map(|x| x.1).collect();
            r.push(*o);
            r.sort_unstable();
            r.dedup();
            r
        }
        Term::Drop(_, _, t) => vec![*t],
        Term::Call { target, .. } => target.iter().copied().collect(),
        Term::Assert { target, .. } => vec![*target],
        _ => vec![],
    }).collect();
    // postorder
    let mut seen = vec![false; n];
    let mut post = vec![];
    let mut stack: Vec<(u32, usize)> = vec![(0, 0)];
    seen[0] = true;
    while let Some((b, i)) = stack.pop() {
        if i < succs[b as usize].len() {
            stack.push((b, i + 1));
            let s = succs[b as usize][i];
            if !seen[s as usize] {
                seen[s as usize] = true;
                stack.push((s, 0));
            }
        } else {
            post.push(b);
        }
    }
    let order: Vec<u32> = post.iter().rev().copied().collect();
    f.rpo = vec![u32::MAX; n];
    for (i, b) in order.iter().enumerate() {
        f.rpo[*b as usize] = i as u32;
    }
    let mut preds = vec![vec![]; n];
    for &b in &order {
        for &s in &succs[b as usize] {
            preds[s as usize].push(b);
        }
    }
    f.npreds = preds.iter().map(|p| p.len() as u32).collect();
    // dominators
    let mut idom = vec![u32::MAX; n];
    idom[0] = 0;
    let mut changed = true;
    while changed {
        changed = false;
        for &b in order.iter().skip(1) {
            let mut new = u32::MAX;
            for &p in &preds[b as usize] {
                if idom[p as usize] == u32::MAX {
                    continue;
                }
                if new == u32::MAX {
                    new = p;
                } else {
                    let (mut a, mut c) = (p, new);
                    while a != c {
                        while f.rpo[a as usize] > f.rpo[c as usize] {
                            a = idom[a as usize];
                        }
                        while f.rpo[c as usize] > f.rpo[a as usize] {
                            c = idom[c as usize];
                        }
                    }
                    new = a;
                }
            }
            if idom[b as usize] != new {
                idom[b as usize] = new;
                changed = true;
            }
        }
    }
    let dominates = |a: u32, mut b: u32| loop {
        if a == b {
            return true;
        }
        if b == 0 {
            return false;
        }
        b = idom[b as usize];
    };
    // natural loops, merged per header
    let mut headers: Vec<u32> = vec![];
    let mut bodies: Vec<Vec<bool>> = vec![];
    for &h in &order {
        let mut body: Option<Vec<bool>> = None;
        for &p in &preds[h as usize] {
            if f.rpo[p as usize] >= f.rpo[h as usize] && dominates(h, p) {
                let body = body.get_or_insert_with(|| {
                    let mut v = vec![false; n];
                    v[h as usize] = true;
                    v
                });
                let mut st = vec![p];
                while let Some(x) = st.pop() {
                    if !body[x as usize] {
                        body[x as usize] = true;
                        for &q in &preds[x as usize] {
                            st.push(q);
                        }
                    }
                }
            }
        }
        if let Some(b) = body {
            headers.push(h);
            bodies.push(b);
        }
    }
    f.loops = headers.iter().zip(bodies).map(|(h, b)| Loop { header: *h, blocks: b, parent: None, history: false }).collect();
    let sizes: Vec<usize> = f.loops.iter().map(|l| l.blocks.iter().filter(|x| **x).count()).collect();
    for i in 0..f.loops.len() {
        let h = f.loops[i].header as usize;
        let mut best: Option<usize> = None;
        for j in 0..f.loops.len() {
            if i != j && f.loops[j].blocks[h] && best.map_or(true, |b| sizes[j] < sizes[b]) && sizes[j] >= sizes[i] {
                best = Some(j);
            }
        }
        f.loops[i].parent = best;
    }
    f.loop_of = vec![None; n];
    for b in 0..n {
        let mut best: Option<usize> = None;
        for j in 0..f.loops.len() {
            if f.loops[j].blocks[b] && best.map_or(true, |x| sizes[j] < sizes[x]) {
                best = Some(j);
            }
        }
        f.loop_of[b] = best;
    }
    for b in 0..n {
        if let Term::Call { callee: Ok(Callee::Harness(nm, _)), .. } = &f.blocks[b].term {
            if nm == "history" {
                if let Some(l) = f.loop_of[b] {
                    f.loops[l].history = true;
                }
            }
        }
    }
    // doomed blocks: cannot reach return without diverging call
    let mut ok = vec![false; n];
    let mut ch = true;
    for b in 0..n {
        if matches!(f.blocks[b].term, Term::Return | Term::Unreachable | Term::Unsupported(_)) {
            ok[b] = true;
        }
        if let Term::Call { callee: Ok(Callee::Harness(..)), target: None, .. } = &f.blocks[b].term {
            ok[b] = true;
        }
    }
    while ch {
        ch = false;
        for b in 0..n {
            if !ok[b] && succs[b].iter().any(|s| ok[*s as usize]) {
                ok[b] = true;
                ch = true;
            }
        }
    }
    // a block in an endless loop is not doomed, only those leading to a diverging call
    let mut div = vec![false; n];
    for b in 0..n {
        if let Term::Call { target: None, .. } = &f.blocks[b].term {
            div[b] = true;
        }
    }
    let mut reach_div = div.clone();
    let mut ch = true;
    while ch {
        ch = false;
        for b in 0..n {
            if !reach_div[b] && succs[b].iter().any(|s| reach_div[*s as usize]) {
                reach_div[b] = true;
                ch = true;
            }
        }
    }
    f.doomed = (0..n).map(|b| !ok[b] && reach_div[b]).collect();
    // liveness of non-address-taken locals
    let nl = f.locals.len();
    let mut addr = vec![false; nl];
    for b in &f.blocks {
        for s in &b.stmts {
            if let Stmt::Assign(_, Rv::Ref(p)) = s {
                if !p.proj.iter().any(|e| matches!(e, PE::Deref)) {
                    addr[p.local as usize] = true;
                }
            }
        }
        if let Term::Drop(p, ..) = &b.term {
            addr[p.local as usize] = true;
        }
    }
    let mut gen = vec![vec![false; nl]; n];
    let mut kill = vec![vec![false; nl]; n];
    fn use_place(p: &Place, u: &mut dyn FnMut(u32)) {
        u(p.local);
        for e in &p.proj {
            if let PE::Index(l) = e {
                u(*l);
            }
        }
    }
    fn use_op(o: &Opnd, u: &mut dyn FnMut(u32)) {
        match o {
            Opnd::Copy(p) | Opnd::Move(p) => use_place(p, u),
            _ => {}
        }
    }
    fn use_rv(r: &Rv, u: &mut dyn FnMut(u32)) {
        match r {
            Rv::Use(o) | Rv::Repeat(o, _) | Rv::Cast(_, o, _, _) | Rv::Not(o, _) | Rv::Neg(o, _) | Rv::PtrMeta(o) | Rv::Wrap(o) => use_op(o, u),
            Rv::Ref(p) | Rv::Discr(p) => use_place(p, u),
            Rv::Bin(_, a, b, _, _) | Rv::FatPtr(a, b) => {
                use_op(a, u);
                use_op(b, u);
            }
            Rv::Agg(v) | Rv::Arr(v) | Rv::EnumAgg(_, v) => v.iter().for_each(|o| use_op(o, u)),
            Rv::Unsupported(_) => {}
        }
    }
    for b in 0..n {
        let (g, k) = (&mut gen[b], &mut kill[b]);
        let def = |p: &Place, g: &mut Vec<bool>, k: &mut Vec<bool>| {
            if p.proj.is_empty() {
                if !g[p.local as usize] {
                    k[p.local as usize] = true;
                }
            } else {
                // partial write or write through pointer: counts as use
                use_place(p, &mut |l| {
                    if !k[l as usize] {
                        g[l as usize] = true
                    }
                });
            }
        };
        for s in &f.blocks[b].stmts {
            match s {
                Stmt::Assign(p, r) => {
                    use_rv(r, &mut |l| if !k[l as usize] { g[l as usize] = true });
                    def(p, g, k);
                }
                Stmt::SetDiscr(p, _) => use_place(p, &mut |l| if !k[l as usize] { g[l as usize] = true }),
                Stmt::Live(l) | Stmt::Dead(l) => {
                    if !g[*l as usize] {
                        k[*l as usize] = true;
                    }
                }
                Stmt::Assume(o) => use_op(o, &mut |l| if !k[l as usize] { g[l as usize] = true }),
                Stmt::CopyNonOverlapping(a, b2, c, _) => {
                    for o in [a, b2, c] {
                        use_op(o, &mut |l| if !k[l as usize] { g[l as usize] = true });
                    }
                }
            }
        }
        match &f.blocks[b].term {
            Term::Switch(o, ..) | Term::Assert { cond: o, .. } => use_op(o, &mut |l| if !k[l as usize] { g[l as usize] = true }),
            Term::Drop(p, ..) => use_place(p, &mut |l| if !k[l as usize] { g[l as usize] = true }),
            Term::Call { callee, args, dest, .. } => {
                if let Err(o) = callee {
                    use_op(o, &mut |l| if !k[l as usize] { g[l as usize] = true });
                }
                for a in args {
                    use_op(a, &mut |l| if !k[l as usize] { g[l as usize] = true });
                }
                def(dest, g, k);
            }
            Term::Return => {
                if !k[0] {
                    g[0] = true;
                }
            }
            _ => {}
        }
    }
    let mut live = vec![vec![false; nl]; n];
    let mut ch = true;
    while ch {
        ch = false;
        for &b in order.iter().rev() {
            let b = b as usize;
            for l in 0..nl {
                let mut v = gen[b][l];
                if !v && !kill[b][l] {
                    v = succs[b].iter().any(|s| live[*s as usize][l]);
                }
                if v && !live[b][l] {
                    live[b][l] = true;
                    ch = true;
                }
            }
        }
    }
    f.live_in = (0..n).map(|b| (0..nl as u32).filter(|l| !live[b][*l as usize] && !addr[*l as usize] && !(b == 0 && (*l as usize) <= f.nargs && *l > 0 && live[b][*l as usize])).collect()).collect();
}

/// The `reached` marks in the functions reachable from a root.
pub fn marks(p: &Program, root: FuncId) -> Vec<String> {
    let mut seen = vec![false; p.funcs.len()];
    let mut todo = vec![root];
    let mut out = vec![];
    while let Some(f) = todo.pop() {
        if std::mem::replace(&mut seen[f as usize], true) {
            continue;
        }
        for b in &p.funcs[f as usize].blocks {
            match &b.term {
                Term::Call { callee: Ok(Callee::Fn(g)), .. } => todo.push(*g),
                Term::Call { callee: Ok(Callee::Harness(n, _)), args, .. } if n == "reached" => {
                    if let Some(Opnd::Const(CVal::Ptr { alloc, .. })) = args.first() {
                        let mut v = vec![];
                        bytes(&p.callocs[*alloc as usize], &mut v);
                        out.push(String::from_utf8_lossy(&v).into_owned());
                    }
                }
                _ => {}
            }
        }
    }
    out
}
fn bytes(c: &CVal, v: &mut Vec<u8>) {
    match c {
        CVal::Int(_, x) => v.push(*x as u8),
        CVal::Arr(a) | CVal::Agg(a) => a.iter().for_each(|x| bytes(x, v)),
        _ => {}
    }
}
