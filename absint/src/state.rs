//! Abstract memory: values, pointers, frames.

use crate::dom::*;
use crate::ir::*;
use std::rc::Rc;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum PEl {
    F(u32),
    D(u32),
    I(u64),
    S(Int),
    /// element k of a single value seen as an array
    One(u64),
    /// window of an array (start, length)
    W(u64, u64),
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Base {
    Frame(u32, u32),
    Static(u32),
    Const(u32),
    /// slice of unknown length and content
    Slice(u32),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct PtrV {
    pub base: Base,
    pub path: Vec<PEl>,
    pub meta: Option<Int>,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum FnV {
    Fn(FuncId),
    Intrinsic(String, Vec<TyId>),
    Harness(String, Vec<TyId>),
    Bad(String),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Val {
    Int(u8, Int),
    Agg(Rc<Vec<Val>>),
    Arr(Rc<Vec<Val>>),
    Enum(u32, Rc<Vec<Val>>),
    Ptr(Rc<PtrV>),
    Raw(u128),
    Fn(Rc<FnV>),
    Uninit,
}

impl Val {
    pub fn unit() -> Val {
        Val::Agg(Rc::new(vec![]))
    }
    pub fn agg(v: Vec<Val>) -> Val {
        Val::Agg(Rc::new(v))
    }
    pub fn c(w: u8, v: u128) -> Val {
        Val::Int(w, Int::C(v & mask(w)))
    }
    pub fn bool(b: BF) -> Val {
        match b {
            BF::K(v) => Val::Int(1, Int::C(v as u128)),
            b => Val::Int(1, Int::B(Rc::from([b].as_slice()))),
        }
    }
}

#[derive(Clone)]
pub struct Frame {
    pub func: FuncId,
    pub locals: Vec<Val>,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Rc<Frame>>,
    pub statics: Rc<Vec<Val>>,
    pub know: Rc<Know>,
    pub bounded: u32,
}

pub enum Ctl {
    /// case split needed on a predicate
    Split(BF),
    /// case split on a small integer range
    SplitIdx(u8, Int),
    /// unsupported construct / undecidable: fail closed
    Bad(String),
    /// unreachable
    Bottom,
    /// a generic constant has to be evaluated first
    NeedConst(FuncId),
}
pub type R<X> = Result<X, Ctl>;
pub fn bad<X>(s: impl Into<String>) -> R<X> {
    Err(Ctl::Bad(s.into()))
}

impl State {
    pub fn root_ref(&self, b: Base) -> Option<&Val> {
        match b {
            Base::Frame(d, l) => self.frames.get(d as usize).and_then(|f| f.locals.get(l as usize)),
            Base::Static(s) => self.statics.get(s as usize),
            _ => None,
        }
    }
    pub fn root_mut(&mut self, b: Base) -> Option<&mut Val> {
        match b {
            Base::Frame(d, l) => self.frames.get_mut(d as usize).map(|f| &mut Rc::make_mut(f).locals[l as usize]),
            Base::Static(s) => Rc::make_mut(&mut self.statics).get_mut(s as usize),
            _ => None,
        }
    }
    pub fn top(&self) -> &Frame {
        self.frames.last().unwrap()
    }
}

/// Navigate to a sub-value.
pub fn nav(v: &Val, path: &[PEl]) -> R<Val> {
    let mut v = v;
    let mut i = 0;
    while i < path.len() {
        match (&path[i], v) {
            (_, Val::Uninit) => return Ok(Val::Uninit),
            (PEl::F(k), Val::Agg(a)) | (PEl::F(k), Val::Arr(a)) => match a.get(*k as usize) {
                Some(x) => v = x,
                None => return Ok(Val::Uninit),
            },
            (PEl::D(k), Val::Enum(vi, a)) => {
                if vi != k {
                    return Ok(Val::Uninit);
                }
                match path.get(i + 1) {
                    Some(PEl::F(j)) => {
                        match a.get(*j as usize) {
                            Some(x) => v = x,
                            None => return Ok(Val::Uninit),
                        }
                        i += 1;
                    }
                    _ => return bad("downcast without field"),
                }
            }
            (PEl::F(j), Val::Enum(_, a)) => match a.get(*j as usize) {
                Some(x) => v = x,
                None => return Ok(Val::Uninit),
            },
            (PEl::I(k), Val::Arr(a)) => match a.get(*k as usize) {
                Some(x) => v = x,
                None => return Ok(Val::Uninit),
            },
            (PEl::One(0), _) => {}
            (PEl::W(s, n), Val::Arr(a)) => {
                let e = ((*s + *n) as usize).min(a.len());
                let s = (*s as usize).min(e);
                let w = Val::Arr(Rc::new(a[s..e].to_vec()));
                return nav(&w, &path[i + 1..]);
            }
            (PEl::S(x), Val::Arr(_)) => return Err(Ctl::SplitIdx(64, x.clone())),
            (p, _) => return bad(format!("navigation {p:?} into {}", kind(v))),
        }
        i += 1;
    }
    Ok(v.clone())
}

pub fn kind(v: &Val) -> String {
    match v {
        Val::Int(w, _) => format!("int{w}"),
        Val::Agg(a) => format!("aggregate[{}]", a.len()),
        Val::Arr(a) => format!("array[{}]", a.len()),
        Val::Enum(k, _) => format!("enum variant {k}"),
        Val::Ptr(p) => format!("pointer {p:?}"),
        Val::Raw(x) => format!("address {x}"),
        Val::Fn(_) => "function".into(),
        Val::Uninit => "uninitialised".into(),
    }
}

pub fn put(v: &mut Val, path: &[PEl], nv: Val) -> R<()> {
    if path.is_empty() {
        *v = nv;
        return Ok(());
    }
    match &path[0] {
        PEl::F(k) => {
            if let Val::Uninit = v {
                *v = Val::Agg(Rc::new(vec![]));
            }
            match v {
                Val::Agg(a) | Val::Arr(a) | Val::Enum(_, a) => {
                    let a = Rc::make_mut(a);
                    if a.len() <= *k as usize {
                        a.resize(*k as usize + 1, Val::Uninit);
                    }
                    put(&mut a[*k as usize], &path[1..], nv)
                }
                _ => bad(format!("field write into {}", kind(v))),
            }
        }
        PEl::D(k) => {
            match v {
                Val::Enum(x, _) if x == k => {}
                _ => *v = Val::Enum(*k, Rc::new(vec![])),
            }
            put(v, &path[1..], nv)
        }
        PEl::I(k) => {
            if let Val::Uninit = v {
                *v = Val::Arr(Rc::new(vec![]));
            }
            match v {
                Val::Arr(a) => {
                    let a = Rc::make_mut(a);
                    if a.len() <= *k as usize {
                        a.resize(*k as usize + 1, Val::Uninit);
                    }
                    put(&mut a[*k as usize], &path[1..], nv)
                }
                _ => bad(format!("index write into {}", kind(v))),
            }
        }
        PEl::One(0) => put(v, &path[1..], nv),
        PEl::W(s, n) => match (&nv, path.len()) {
            (Val::Arr(x), 1) => {
                let x = x.clone();
                for (i, y) in x.iter().enumerate().take(*n as usize) {
                    put(v, &[PEl::I(s + i as u64)], y.clone())?;
                }
                Ok(())
            }
            _ => bad("window write"),
        },
        PEl::S(x) => Err(Ctl::SplitIdx(64, x.clone())),
        p => bad(format!("write through {p:?}")),
    }
}

/// Visit all integers of a value; the visitor may replace them.
pub fn map_ints(v: &Val, f: &mut dyn FnMut(u8, &Int) -> Option<Int>) -> Option<Val> {
    fn many(a: &Rc<Vec<Val>>, f: &mut dyn FnMut(u8, &Int) -> Option<Int>) -> Option<Rc<Vec<Val>>> {
        let mut out: Option<Vec<Val>> = None;
        for (i, x) in a.iter().enumerate() {
            if let Some(y) = map_ints(x, f) {
                out.get_or_insert_with(|| (**a).clone())[i] = y;
            }
        }
        out.map(Rc::new)
    }
    match v {
        Val::Int(_, Int::C(_)) => None,
        Val::Int(w, i) => f(*w, i).map(|x| Val::Int(*w, x)),
        Val::Agg(a) => many(a, f).map(Val::Agg),
        Val::Arr(a) => many(a, f).map(Val::Arr),
        Val::Enum(k, a) => many(a, f).map(|x| Val::Enum(*k, x)),
        Val::Ptr(p) => {
            let mut q: Option<PtrV> = None;
            for (i, e) in p.path.iter().enumerate() {
                if let PEl::S(x) = e {
                    if let Some(y) = f(64, x) {
                        let e2 = match y.k() {
                            Some(c) => PEl::I(c as u64),
                            None => PEl::S(y),
                        };
                        q.get_or_insert_with(|| (**p).clone()).path[i] = e2;
                    }
                }
            }
            if let Some(m) = &p.meta {
                if m.k().is_none() {
                    if let Some(y) = f(64, m) {
                        q.get_or_insert_with(|| (**p).clone()).meta = Some(y);
                    }
                }
            }
            q.map(|x| Val::Ptr(Rc::new(x)))
        }
        _ => None,
    }
}

impl State {
    pub fn map_all(&mut self, f: &mut dyn FnMut(u8, &Int) -> Option<Int>) {
        for fr in self.frames.iter_mut() {
            let mut ch: Vec<(usize, Val)> = vec![];
            for (i, v) in fr.locals.iter().enumerate() {
                if let Some(x) = map_ints(v, f) {
                    ch.push((i, x));
                }
            }
            if !ch.is_empty() {
                let m = Rc::make_mut(fr);
                for (i, x) in ch {
                    m.locals[i] = x;
                }
            }
        }
        let mut ch: Vec<(usize, Val)> = vec![];
        for (i, v) in self.statics.iter().enumerate() {
            if let Some(x) = map_ints(v, f) {
                ch.push((i, x));
            }
        }
        if !ch.is_empty() {
            let m = Rc::make_mut(&mut self.statics);
            for (i, x) in ch {
                m[i] = x;
            }
        }
    }
}

/// Abstract values of two states are joined only if their shapes agree.
pub fn join_val(d: &mut Dom, j: &mut Joiner, a: &Val, b: &Val) -> Val {
    fn many(d: &mut Dom, j: &mut Joiner, a: &Rc<Vec<Val>>, b: &Rc<Vec<Val>>) -> Rc<Vec<Val>> {
        if Rc::ptr_eq(a, b) {
            return a.clone();
        }
        let n = a.len().max(b.len());
        Rc::new(
            (0..n)
                .map(|i| match (a.get(i), b.get(i)) {
                    (Some(x), Some(y)) => join_val(d, j, x, y),
                    _ => Val::Uninit,
                })
                .collect(),
        )
    }
    match (a, b) {
        (Val::Int(w, x), Val::Int(w2, y)) if w == w2 => Val::Int(*w, j.join(d, *w, x, y)),
        (Val::Agg(x), Val::Agg(y)) => Val::Agg(many(d, j, x, y)),
        (Val::Arr(x), Val::Arr(y)) => Val::Arr(many(d, j, x, y)),
        (Val::Enum(k, x), Val::Enum(l, y)) if k == l => Val::Enum(*k, many(d, j, x, y)),
        (Val::Ptr(p), Val::Ptr(q)) => {
            if p == q {
                return a.clone();
            }
            if p.base != q.base || p.path.len() != q.path.len() || p.meta.is_some() != q.meta.is_some() {
                return Val::Uninit;
            }
            let mut path = vec![];
            for (x, y) in p.path.iter().zip(&q.path) {
                if x == y {
                    path.push(x.clone());
                    continue;
                }
                let ix = |e: &PEl| match e {
                    PEl::I(k) => Some(Int::C(*k as u128)),
                    PEl::S(i) => Some(i.clone()),
                    _ => None,
                };
                match (ix(x), ix(y)) {
                    (Some(x), Some(y)) => match j.join(d, 64, &x, &y) {
                        Int::C(c) => path.push(PEl::I(c as u64)),
                        i => path.push(PEl::S(i)),
                    },
                    _ => return Val::Uninit,
                }
            }
            let meta = match (&p.meta, &q.meta) {
                (Some(x), Some(y)) => Some(j.join(d, 64, x, y)),
                _ => None,
            };
            Val::Ptr(Rc::new(PtrV { base: p.base, path, meta }))
        }
        (x, y) if x == y => x.clone(),
        _ => Val::Uninit,
    }
}
