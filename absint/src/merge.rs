//! Partitioning, joining, inclusion and garbage collection of abstract states.

use crate::dom::*;
use crate::refine::Sub;
use crate::state::*;
use std::collections::{HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::rc::Rc;

pub struct Keyer<'a> {
    pub d: &'a Dom,
    pub gen: &'a HashSet<u64>,
    pub h: Fx,
    /// constants seen per location
    pub seen: Option<&'a mut Vec<(u64, u64, bool)>>,
    /// inside the payload of an enum
    pub inenum: u32,
}

/// Marks a location generalised completely.
pub const FULL: u64 = 0x5bd1_e995_0000_1234;

fn mixh(a: u64, b: u64) -> u64 {
    (a.rotate_left(7) ^ b).wrapping_mul(0x9E37_79B9_7F4A_7C15)
}

impl<'a> Keyer<'a> {
    fn int(&mut self, i: &Int, loc: u64, keyed: bool) {
        if !keyed || self.gen.contains(&(loc ^ FULL)) {
            self.h.write_u8(1);
            return;
        }
        if self.gen.contains(&loc) {
            // generalised: only the parity, where it is known
            let b = match i {
                Int::C(c) => Some(c & 1),
                Int::L(l) => {
                    let mut r = Some(l.c as u128 & 1);
                    for x in l.t.iter().filter(|x| x.1 & 1 != 0) {
                        match &self.d.terms[x.0 as usize].k {
                            TK::Bits(b) => match b[0] {
                                BF::K(y) => r = r.map(|z| z ^ y as u128),
                                _ => r = None,
                            },
                            _ => r = None,
                        }
                    }
                    r
                }
                Int::B(b) => match b[0] {
                    BF::K(x) => Some(x as u128),
                    _ => None,
                },
            };
            self.h.write_u8(b.map_or(3, |x| 4 + x as u8));
            if let Some(s) = self.seen.as_mut() {
                s.push((loc, b.map_or(u64::MAX - 17, |x| x as u64), self.inenum > 0));
            }
            return;
        }
        match i {
            Int::C(c) => {
                self.h.write_u128(*c);
                if let Some(s) = self.seen.as_mut() {
                    s.push((loc, *c as u64 ^ (*c >> 64) as u64, self.inenum > 0));
                }
            }
            _ => {
                self.h.write_u8(2);
                if let Some(s) = self.seen.as_mut() {
                    s.push((loc, u64::MAX - 17, self.inenum > 0));
                }
            }
        }
    }
    fn val(&mut self, v: &Val, loc: u64, arr: bool) {
        match v {
            Val::Int(w, i) => self.int(i, loc, !arr && !(self.d.affine && *w >= 32)),
            Val::Agg(a) => {
                for (i, x) in a.iter().enumerate() {
                    self.val(x, mixh(loc, i as u64 + 1), arr);
                }
            }
            Val::Arr(a) => {
                self.h.write_usize(a.len());
                for (i, x) in a.iter().enumerate() {
                    self.val(x, mixh(loc, i as u64 + 1), true);
                }
            }
            Val::Enum(k, a) => {
                self.h.write_u32(*k + 100);
                self.inenum += 1;
                for (i, x) in a.iter().enumerate() {
                    self.val(x, mixh(loc, (*k as u64 + 1) * 1000 + i as u64), arr);
                }
                self.inenum -= 1;
            }
            Val::Ptr(p) => {
                p.base.hash(&mut self.h);
                for (i, e) in p.path.iter().enumerate() {
                    match e {
                        PEl::I(k) => self.int(&Int::C(*k as u128), mixh(loc, 77 + i as u64), true),
                        PEl::S(x) => self.int(x, mixh(loc, 77 + i as u64), true),
                        e => e.hash(&mut self.h),
                    }
                }
                if let Some(m) = &p.meta {
                    self.int(m, mixh(loc, 76), true);
                }
            }
            Val::Raw(x) => self.h.write_u128(*x),
            Val::Fn(f) => f.hash(&mut self.h),
            Val::Uninit => self.h.write_u8(9),
        }
    }
    pub fn state(&mut self, st: &State) -> u64 {
        for f in &st.frames {
            for (l, v) in f.locals.iter().enumerate() {
                self.val(v, mixh(f.func as u64 + 10, l as u64), false);
            }
        }
        for (s, v) in st.statics.iter().enumerate() {
            self.val(v, mixh(7, s as u64), false);
        }
        self.h.write_u32(st.bounded);
        self.h.finish()
    }
}

pub fn key(d: &Dom, gen: &HashSet<u64>, st: &State) -> u64 {
    Keyer { d, gen, h: Fx::default(), seen: None, inenum: 0 }.state(st)
}

/// Which locations to keep apart for as long as anything else is left (a second
/// attempt after the first one has generalised too much).
#[derive(Default, Clone)]
pub struct Policy {
    pub enums: bool,
    pub avoid: HashSet<u64>,
}

/// Location to generalise: one that is a constant in some states and unknown in
/// others (data); if there is none and `hard`, the one with the most values.
pub fn busiest(d: &Dom, gen: &HashSet<u64>, sts: &[&State], hard: bool, depth: Option<usize>, pol: &Policy) -> Option<(u64, usize, bool)> {
    let mut enums: HashSet<u64> = HashSet::new();
    let mut m: HashMap<u64, HashSet<u64>> = HashMap::new();
    for st in sts {
        let mut v = vec![];
        Keyer { d, gen, h: Fx::default(), seen: Some(&mut v), inenum: 0 }.state(st);
        for (l, c, en) in v {
            m.entry(l).or_default().insert(c);
            if en {
                enums.insert(l);
            }
        }
    }
    let sym = u64::MAX - 17;
    if hard && std::env::var("DBGB").is_ok() {
        let mut v: Vec<_> = m.iter().filter(|x| x.1.len() > 1).map(|(l, s)| (s.len(), *l, s.iter().take(6).cloned().collect::<Vec<_>>())).collect();
        v.sort();
        for x in v { eprintln!("  loc {:x}: {} {:?}", x.1, x.0, x.2); }
    }
    if hard && std::env::var("DBGC").is_ok() {
        for st in sts { for f in &st.frames { for v in &f.locals { let s = format!("{v:?}"); if s.starts_with("Agg([Enum") || s.starts_with("Agg([Int(32") { eprintln!("  P {}", s.chars().take(90).collect::<String>()); } } } }
    }
    let mixed = m.iter().filter(|(_, s)| s.len() > 1 && s.contains(&sym)).map(|(l, s)| (*l, s.len(), enums.contains(l))).max_by_key(|x| (x.1, x.0));
    if mixed.is_some() {
        return mixed;
    }
    if !hard {
        // a counter that walks through a buffer of unknown length
        // (or data: more values than iterations that may have counted)
        let lim = if sts.iter().any(|s| !s.know.lens.is_empty()) { 66 } else { depth.map_or(400, |d| 400.min(6 * d + 4)) };
        return m.into_iter().map(|(l, s)| (l, s.len(), enums.contains(&l))).filter(|x| x.1 > lim).max_by_key(|x| (x.1, x.0));
    }
    if depth.is_none() || sts.iter().any(|s| !s.know.lens.is_empty()) {
        return m.into_iter().map(|(l, s)| (l, s.len(), enums.contains(&l))).filter(|x| x.1 > 1).max_by_key(|x| (x.1, x.0));
    }
    // the one whose generalisation leaves the fewest partitions
    let mut best: Option<(bool, usize, usize, u64, usize)> = None;
    for (l, s) in m.into_iter().filter(|x| x.1.len() > 1) {
        let mut g = gen.clone();
        generalise(&mut g, l, false);
        let left: HashSet<u64> = sts.iter().map(|st| key(d, &g, st)).collect();
        if std::env::var("DBGB").is_ok() {
            eprintln!("  left {l:x}: {} of {}", left.len(), sts.len());
        }
        let c = (pol.avoid.contains(&l) || pol.enums && enums.contains(&l), left.len(), usize::MAX - s.len(), l, s.len());
        if best.map_or(true, |b| c < b) {
            best = Some(c);
        }
    }
    best.map(|b| (b.3, b.4, enums.contains(&b.3)))
}
pub fn generalise(gen: &mut HashSet<u64>, loc: u64, counter: bool) {
    if !gen.insert(loc) || !counter {
        gen.insert(loc ^ FULL);
    }
}

/// Does the condition depend on one of the symbols?
pub fn mentions(d: &mut Dom, b: &BF, syms: &[T]) -> bool {
    let mut memo = std::mem::take(&mut d.leafmemo);
    let r = b.atoms().iter().any(|a| leaves(d, aterm(*a), &mut memo).iter().any(|x| syms.contains(x)));
    d.leafmemo = memo;
    r
}

pub fn join(d: &mut Dom, a: &State, b: &State, widen: u32) -> State {
    let mut j = Joiner::new(d, &a.know, &b.know, widen == 0, widen);
    let statics = if Rc::ptr_eq(&a.statics, &b.statics) {
        a.statics.clone()
    } else {
        Rc::new(a.statics.iter().zip(b.statics.iter()).map(|(x, y)| join_val(d, &mut j, x, y)).collect())
    };
    let mut frames = Vec::with_capacity(a.frames.len());
    for (x, y) in a.frames.iter().zip(&b.frames) {
        if Rc::ptr_eq(x, y) {
            frames.push(x.clone());
            continue;
        }
        let n = x.locals.len();
        let mut locals = Vec::with_capacity(n);
        for i in 0..n {
            locals.push(join_val(d, &mut j, &x.locals[i], &y.locals[i]));
        }
        frames.push(Rc::new(Frame { func: x.func, locals }));
    }
    // length templates
    let ns = std::mem::take(&mut j.newsyms);
    let mut kj = std::mem::take(&mut j.kj);
    for (g, w, x, y) in ns {
        for len in kj.lens.clone() {
            if d.tw(len) != w {
                continue;
            }
            let (zx, zy) = (d.to_z(&a.know, w, &x), d.to_z(&b.know, w, &y));
            let (Some(p), Some(q)) = (Lin::t(len).add_k(&zx, -1), Lin::t(len).add_k(&zy, -1)) else { continue };
            let (pa, pb) = (d.prove(&a.know, &p), d.prove(&b.know, &q));
            if pa && pb {
                let gz = d.to_z(&kj, w, &g);
                if let Some(l) = Lin::t(len).add_k(&gz, -1) {
                    kj.ineq.push(l);
                }
                if let ([(t, c)], true) = (&gz.t[..], d.is_sym(len)) {
                    // the bound as an interval
                    let m = d.iv_t(&kj, len).1 as i128;
                    let i = d.iv_t(&kj, *t);
                    if *c > 0 && m >= gz.c {
                        let hi = ((m - gz.c) / c) as u128;
                        if i.0 <= hi && hi < i.1 {
                            kj.iv.insert(*t, (i.0, hi));
                        }
                    }
                }
            }
        }
    }
    let r = State { frames, statics, know: Rc::new(kj), bounded: a.bounded.max(b.bounded) };
    r
}

fn leaves(d: &Dom, t: T, memo: &mut FxMap<T, Rc<[T]>>) -> Rc<[T]> {
    if let Some(x) = memo.get(&t) {
        return x.clone();
    }
    let mut out: Vec<T> = vec![];
    if d.is_sym(t) {
        out.push(t);
    } else {
        let mut ts: Vec<T> = vec![];
        let mut bf = |b: &BF, ts: &mut Vec<T>| b.atoms().iter().for_each(|a| ts.push(aterm(*a)));
        match &d.terms[t as usize].k {
            TK::Sym(_) => {}
            TK::Bits(b) | TK::EqB(b) => b.iter().for_each(|x| bf(x, &mut ts)),
            TK::Lin(l) | TK::Ge0(l) | TK::Eq0(_, l) => l.t.iter().for_each(|x| ts.push(x.0)),
            TK::Op(_, a) => a.iter().for_each(|(_, i)| match i {
                Int::C(_) => {}
                Int::L(l) => l.t.iter().for_each(|x| ts.push(x.0)),
                Int::B(b) => b.iter().for_each(|x| bf(x, &mut ts)),
            }),
            TK::And(a, b) => {
                bf(a, &mut ts);
                bf(b, &mut ts);
            }
        }
        ts.sort_unstable();
        ts.dedup();
        for x in ts {
            out.extend_from_slice(&leaves(d, x, memo));
        }
        out.sort_unstable();
        out.dedup();
    }
    let r: Rc<[T]> = Rc::from(out);
    memo.insert(t, r.clone());
    r
}

/// Drop knowledge about symbols that no longer occur in memory.
pub fn gc(d: &mut Dom, st: &mut State, keep: &[T]) {
    let mut memo = std::mem::take(&mut d.leafmemo);
    let mut live: HashSet<T> = keep.iter().cloned().collect();
    {
        let mut add = |t: T| {
            for x in leaves(d, t, &mut memo).iter() {
                live.insert(*x);
            }
        };
        let mut seen: HashSet<T> = HashSet::new();
        let mut f = |_w: u8, i: &Int| {
            match i {
                Int::C(_) => {}
                Int::L(l) => l.t.iter().for_each(|x| {
                    if seen.insert(x.0) {
                        add(x.0)
                    }
                }),
                Int::B(b) => b.iter().for_each(|x| {
                    x.atoms().iter().for_each(|a| {
                        if seen.insert(aterm(*a)) {
                            add(aterm(*a))
                        }
                    })
                }),
            }
            None
        };
        let mut s2 = st.clone();
        s2.map_all(&mut f);
    }
    let mut k = (*st.know).clone();
    {
        let mut ok = |t: T| leaves(d, t, &mut memo).iter().all(|x| live.contains(x));
        k.iv.retain(|t, _| ok(*t));
        k.rw.retain(|t, v| {
            ok(*t)
                && match v {
                    Int::C(_) => true,
                    Int::L(l) => l.t.iter().all(|x| ok(x.0)),
                    Int::B(b) => b.iter().all(|x| x.atoms().iter().all(|a| ok(aterm(*a)))),
                }
        });
        k.arw.retain(|a, b| ok(aterm(*a)) && b.atoms().iter().all(|a| ok(aterm(*a))));
        k.ineq.retain(|l| l.t.iter().all(|x| ok(x.0)));
        k.fsys.retain(|f| f.iter().all(|b| b.atoms().iter().all(|a| ok(aterm(*a)))));
        k.lens.retain(|t| ok(*t));
    }
    st.know = Rc::new(k);
    d.leafmemo = memo;
}

fn pairs(a: &Val, b: &Val, out: &mut Vec<(u8, Int, Int)>) -> bool {
    match (a, b) {
        (Val::Int(w, x), Val::Int(w2, y)) => {
            if w != w2 {
                return false;
            }
            if x.k().is_some() && x == y {
                return true;
            }
            out.push((*w, x.clone(), y.clone()));
            true
        }
        (Val::Agg(x), Val::Agg(y)) | (Val::Arr(x), Val::Arr(y)) => x.len() == y.len() && (x.iter().zip(y.iter()).all(|(p, q)| pairs(p, q, out))),
        (Val::Enum(k, x), Val::Enum(l, y)) => k == l && x.len() == y.len() && x.iter().zip(y.iter()).all(|(p, q)| pairs(p, q, out)),
        (Val::Ptr(p), Val::Ptr(q)) => {
            if p.base != q.base || p.path.len() != q.path.len() || p.meta.is_some() != q.meta.is_some() {
                return false;
            }
            let ix = |e: &PEl| match e {
                PEl::I(k) => Some(Int::C(*k as u128)),
                PEl::S(i) => Some(i.clone()),
                _ => None,
            };
            for (x, y) in p.path.iter().zip(&q.path) {
                if x == y && !matches!(x, PEl::S(_)) {
                    continue;
                }
                match (ix(x), ix(y)) {
                    (Some(x), Some(y)) => out.push((64, x, y)),
                    _ => return false,
                }
            }
            if let (Some(x), Some(y)) = (&p.meta, &q.meta) {
                out.push((64, x.clone(), y.clone()));
            }
            true
        }
        (_, Val::Uninit) => true, // old knows nothing
        (x, y) => x == y,
    }
}

/// Is every concretisation of `new` one of `old`?
pub fn included(d: &mut Dom, new: &State, old: &State) -> bool {
    let mut cells: Vec<(u8, Int, Int)> = vec![];
    for (x, y) in new.frames.iter().zip(&old.frames) {
        for (p, q) in x.locals.iter().zip(&y.locals) {
            if !pairs(p, q, &mut cells) {
                return false;
            }
        }
    }
    for (p, q) in new.statics.iter().zip(old.statics.iter()) {
        if !pairs(p, q, &mut cells) {
            return false;
        }
    }
    let nk = &*new.know;
    let mut sig = Sub::default();
    let mut done = vec![false; cells.len()];
    // pass 1: plain symbols
    for (i, (w, n, o)) in cells.iter().enumerate() {
        match o {
            Int::C(_) => {
                if d.eq(nk, *w, n, o) != BF::K(true) {
                    return false;
                }
                done[i] = true;
            }
            Int::L(l) if l.t.len() == 1 && l.t[0].1 == 1 && l.c == 0 && d.is_sym(l.t[0].0) => {
                let t = l.t[0].0;
                let tw = d.tw(t);
                if !sig.t.contains_key(&t) {
                    let v = if tw == *w {
                        n.clone()
                    } else if tw < *w {
                        if d.iv(nk, *w, n).1 > mask(tw) {
                            return false;
                        }
                        d.zext(nk, *w, tw, n)
                    } else {
                        continue;
                    };
                    sig.t.insert(t, v);
                    sig.bloom |= 1u64 << (t % 64);
                    done[i] = true;
                }
            }
            _ => {}
        }
    }
    for (w, n, o) in cells.iter() {
        if let Int::B(b) = o {
            let nb = d.bits(nk, *w, n);
            for (x, y) in b.iter().zip(&nb) {
                if let BF::X(c, a) = x {
                    if a.len() == 1 {
                        let t = aterm(a[0]);
                        if d.tw(t) == 1 && d.is_sym(t) && !sig.t.contains_key(&t) {
                            let v = if *c { y.not() } else { y.clone() };
                            let v = d.from_bits(vec![v]);
                            sig.t.insert(t, v);
                            sig.bloom |= 1u64 << (t % 64);
                        }
                    }
                }
            }
        }
    }
    // pass 2: forms with one unmapped symbol
    let mut exact: Vec<usize> = vec![];
    for _ in 0..3 {
        let mut prog = false;
        for (i, (w, n, o)) in cells.iter().enumerate() {
            if done[i] {
                continue;
            }
            match o {
                Int::L(l) => {
                    let un: Vec<(T, i128)> = l.t.iter().filter(|x| d.is_sym(x.0) && !sig.t.contains_key(&x.0)).cloned().collect();
                    if un.len() == 1 && d.tw(un[0].0) == *w && un[0].1.abs() == 1 {
                        let rest = l.without(un[0].0);
                        let ri = d.mk_lin(rest, *w);
                        let ri = d.sub_int(nk, &mut sig, *w, &ri).unwrap_or(ri);
                        let df = d.add(nk, *w, n, &ri, true);
                        let v = if un[0].1 == 1 { df } else { d.add(nk, *w, &Int::C(0), &df, true) };
                        sig.t.insert(un[0].0, v);
                        sig.bloom |= 1u64 << (un[0].0 % 64);
                        prog = true;
                    } else if un.len() == 1 && l.t.len() == 1 && un[0].1 == 2 && d.tw(un[0].0) == *w - 1 {
                        // c + 2 g
                        let df = d.add(nk, *w, n, &Int::C((l.c as u128) & mask(*w)), true);
                        let half = match &df {
                            // 2 x modulo 2^w is twice x modulo 2^(w-1)
                            Int::L(l) if l.c & 1 == 0 && l.t.iter().all(|x| x.1 & 1 == 0 && d.tw(x.0) < *w) => Some(Lin { c: l.c / 2, t: l.t.iter().map(|x| (x.0, x.1 / 2)).collect() }),
                            _ => None,
                        };
                        let v = match half {
                            Some(l) => {
                                exact.push(i);
                                d.mk_lin(l.modw(*w - 1), *w - 1)
                            }
                            None => {
                                let h = d.shr(nk, *w, &df, 1, false);
                                d.zext(nk, *w, *w - 1, &h)
                            }
                        };
                        sig.t.insert(un[0].0, v);
                        sig.bloom |= 1u64 << (un[0].0 % 64);
                        prog = true;
                    }
                }
                Int::B(b) => {
                    let b = b.clone();
                    let nb = d.bits(nk, *w, n);
                    for (x, y) in b.iter().zip(&nb) {
                        let un: Vec<Atom> = x.atoms().iter().filter(|a| d.is_sym(aterm(**a)) && !sig.t.contains_key(&aterm(**a))).cloned().collect();
                        if un.len() == 1 && d.tw(aterm(un[0])) == 1 {
                            let rest = x.xor(&BF::at(un[0]));
                            let rest = d.sub_bf(nk, &mut sig, &rest).unwrap_or(rest);
                            let v = d.from_bits(vec![y.xor(&rest)]);
                            let t = aterm(un[0]);
                            sig.t.insert(t, v);
                            sig.bloom |= 1u64 << (t % 64);
                            prog = true;
                        }
                    }
                }
                _ => {}
            }
        }
        if !prog {
            break;
        }
    }
    let mut sig2 = Sub::default();
    sig2.t = sig.t;
    sig2.bloom = sig.bloom;
    let mut sig = sig2;
    for (i, (w, n, o)) in cells.iter().enumerate() {
        if exact.contains(&i) {
            continue;
        }
        let s = d.sub_int(nk, &mut sig, *w, o).unwrap_or_else(|| o.clone());
        if s != *n && d.eq(nk, *w, n, &s) != BF::K(true) {
            return false;
        }
    }
    // facts
    let ok = &*old.know;
    for (t, iv) in &ok.iv {
        let w = d.tw(*t);
        let x = match d.sub_t(nk, &mut sig, *t) {
            Some(v) => d.iv(nk, w, &v),
            None => d.iv_t(nk, *t),
        };
        if x.0 < iv.0 || x.1 > iv.1 {
            return false;
        }
    }
    for (t, v) in &ok.rw {
        let w = d.tw(*t);
        let r = match d.sub_t(nk, &mut sig, *t) {
            Some(r) => r,
            None => {
                let b: Vec<BF> = (0..w as u32).map(|j| d.atom_bf(nk, *t, j)).collect();
                d.from_bits(b)
            }
        };
        let v2 = d.sub_int(nk, &mut sig, w, v).unwrap_or_else(|| v.clone());
        if r != v2 && d.eq(nk, w, &r, &v2) != BF::K(true) {
            return false;
        }
    }
    for (a, b) in &ok.arw {
        let x = BF::at(*a);
        let x = match d.sub_bf(nk, &mut sig, &x) {
            Some(x) => x,
            None => d.atom_bf(nk, aterm(*a), abit(*a)),
        };
        let y = d.sub_bf(nk, &mut sig, b).unwrap_or_else(|| b.clone());
        if x != y {
            return false;
        }
    }
    for l in &ok.ineq {
        let z = match d.sub_z(nk, &mut sig, l) {
            None => l.clone(),
            Some(Some(z)) => z,
            Some(None) => return false,
        };
        if !d.prove(nk, &z) {
            return false;
        }
    }
    for f in &ok.fsys {
        let o: Vec<BF> = f.iter().map(|x| d.sub_bf(nk, &mut sig, x).unwrap_or_else(|| x.clone())).collect();
        if d.eqb(nk, o) != BF::K(false) {
            return false;
        }
    }
    true
}
