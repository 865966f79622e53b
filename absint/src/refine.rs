//! Substitution and refinement of abstract states by facts.

use crate::dom::*;
use crate::state::*;
use std::rc::Rc;

#[derive(Default)]
pub struct Sub {
    pub t: FxMap<T, Int>,
    pub bloom: u64,
    memo: FxMap<T, Option<Int>>,
}

impl Dom {
    fn bl_bf(&self, b: &BF) -> u64 {
        b.atoms().iter().fold(0, |x, a| x | self.terms[aterm(*a) as usize].bloom)
    }
    fn bl_lin(&self, l: &Lin) -> u64 {
        l.t.iter().fold(0, |x, (t, _)| x | self.terms[*t as usize].bloom)
    }
    pub fn bl_int(&self, i: &Int) -> u64 {
        match i {
            Int::C(_) => 0,
            Int::L(l) => self.bl_lin(l),
            Int::B(b) => b.iter().fold(0, |x, b| x | self.bl_bf(b)),
        }
    }

    pub fn sub_bf(&mut self, k: &Know, s: &mut Sub, b: &BF) -> Option<BF> {
        if self.bl_bf(b) & s.bloom == 0 {
            return None;
        }
        let mut r = BF::K(b.c());
        let mut ch = false;
        for a in b.atoms() {
            let t = aterm(*a);
            match self.sub_t(k, s, t) {
                Some(v) => {
                    ch = true;
                    let w = self.tw(t);
                    let x = self.bit(k, w, &v, abit(*a));
                    r = r.xor(&x);
                }
                None => r = r.xor(&BF::at(*a)),
            }
        }
        if ch {
            Some(r)
        } else {
            None
        }
    }

    /// substitution in a linear form over Z
    pub fn sub_z(&mut self, k: &Know, s: &mut Sub, l: &Lin) -> Option<Option<Lin>> {
        if self.bl_lin(l) & s.bloom == 0 {
            return None;
        }
        let mut r = Lin::k(l.c);
        let mut ch = false;
        for (t, c) in &l.t {
            let q = match self.sub_t(k, s, *t) {
                Some(v) => {
                    ch = true;
                    let w = self.tw(*t);
                    self.to_z(k, w, &v)
                }
                None => Lin::t(*t),
            };
            match r.add_k(&q, *c) {
                Some(x) => r = x,
                None => return Some(None),
            }
        }
        if ch {
            Some(Some(r))
        } else {
            None
        }
    }

    pub fn sub_int(&mut self, k: &Know, s: &mut Sub, w: u8, i: &Int) -> Option<Int> {
        match i {
            Int::C(_) => None,
            Int::B(b) => {
                let mut out: Option<Vec<BF>> = None;
                for (j, x) in b.iter().enumerate() {
                    if let Some(y) = self.sub_bf(k, s, x) {
                        out.get_or_insert_with(|| b.to_vec())[j] = y;
                    }
                }
                out.map(|o| self.from_bits(o))
            }
            Int::L(l) => {
                if self.bl_lin(l) & s.bloom == 0 {
                    return None;
                }
                let l = l.clone();
                let mut r = Lin::k(l.c);
                let mut ch = false;
                let mut whole: Option<Int> = None;
                for (t, c) in &l.t {
                    let q = match self.sub_t(k, s, *t) {
                        Some(v) => {
                            ch = true;
                            let tw = self.tw(*t);
                            if l.t.len() == 1 && *c == 1 && l.c == 0 {
                                whole = Some(self.zext(k, tw, w, &v));
                                break;
                            }
                            if tw >= w {
                                self.lin(&v, tw)
                            } else {
                                self.to_z(k, tw, &v)
                            }
                        }
                        None => Lin::t(*t),
                    };
                    match r.add_k(&q, *c) {
                        Some(x) => r = x.modw(w),
                        None => {
                            let t = self.fresh(w);
                            return Some(self.mk_lin(Lin::t(t), w));
                        }
                    }
                }
                if !ch {
                    return None;
                }
                if whole.is_some() {
                    return whole;
                }
                Some(self.mk_lin(r, w))
            }
        }
    }

    pub fn sub_t(&mut self, k: &Know, s: &mut Sub, t: T) -> Option<Int> {
        if let Some(v) = s.t.get(&t) {
            return Some(v.clone());
        }
        if self.terms[t as usize].bloom & s.bloom == 0 {
            return None;
        }
        if let Some(m) = s.memo.get(&t) {
            return m.clone();
        }
        let w = self.tw(t);
        let kind = self.terms[t as usize].k.clone();
        let r = match kind {
            TK::Sym(_) => None,
            TK::Bits(b) => self.sub_int(k, s, w, &Int::B(b)),
            TK::Lin(l) => self.sub_int(k, s, w, &Int::L(l)),
            TK::Op(op, a) => {
                let mut out: Option<Vec<(u8, Int)>> = None;
                for (j, (aw, x)) in a.iter().enumerate() {
                    if let Some(y) = self.sub_int(k, s, *aw, x) {
                        out.get_or_insert_with(|| a.to_vec())[j].1 = y;
                    }
                }
                out.map(|o| self.eval_op(k, op, w, o))
            }
            TK::Ge0(l) => match self.sub_z(k, s, &l) {
                None => None,
                Some(None) => {
                    let f = self.fresh(1);
                    Some(self.from_bits(vec![BF::at(atom(f, 0))]))
                }
                Some(Some(z)) => {
                    let b = self.ge0(k, &z);
                    Some(self.from_bits(vec![b]))
                }
            },
            TK::Eq0(ew, l) => match self.sub_int(k, s, ew, &Int::L(l)) {
                None => None,
                Some(i) => {
                    let b = self.eq(k, ew, &i, &Int::C(0));
                    Some(self.from_bits(vec![b]))
                }
            },
            TK::EqB(sys) => {
                let mut ch = false;
                let mut o = vec![];
                for x in sys.iter() {
                    match self.sub_bf(k, s, x) {
                        Some(y) => {
                            ch = true;
                            o.push(y);
                        }
                        None => o.push(x.clone()),
                    }
                }
                if ch {
                    let b = self.eqb(k, o);
                    Some(self.from_bits(vec![b]))
                } else {
                    None
                }
            }
            TK::And(a, b) => {
                let (x, y) = (self.sub_bf(k, s, &a), self.sub_bf(k, s, &b));
                if x.is_none() && y.is_none() {
                    None
                } else {
                    let b = self.and_bf(k, &x.unwrap_or(a), &y.unwrap_or(b));
                    Some(self.from_bits(vec![b]))
                }
            }
        };
        s.memo.insert(t, r.clone());
        r
    }

    pub fn eqb(&mut self, k: &Know, sys: Vec<BF>) -> BF {
        let Some(sys) = Dom::rref(sys) else { return BF::K(false) };
        if sys.is_empty() {
            return BF::K(true);
        }
        if sys.len() == 1 {
            return sys[0].not();
        }
        for f in &k.fsys {
            if f.iter().all(|e| Dom::implied(&sys, e)) {
                return BF::K(false);
            }
        }
        self.pred(k, TK::EqB(Rc::from(sys)))
    }

    pub fn eval_op(&mut self, k: &Know, op: Op, w: u8, a: Vec<(u8, Int)>) -> Int {
        match op {
            Op::Mul => self.mul(k, w, &a[0].1, &a[1].1),
            Op::Div => self.divrem(k, w, &a[0].1, &a[1].1, false, false),
            Op::Rem => self.divrem(k, w, &a[0].1, &a[1].1, true, false),
            Op::SDiv => self.divrem(k, w, &a[0].1, &a[1].1, false, true),
            Op::SRem => self.divrem(k, w, &a[0].1, &a[1].1, true, true),
            Op::And | Op::Or | Op::Xor => self.bitop(k, w, op, &a[0].1, &a[1].1),
            Op::Shl | Op::Shr | Op::Sar => match a[1].1.k() {
                Some(n) if n < w as u128 => match op {
                    Op::Shl => self.shl(k, w, &a[0].1, n as u32),
                    Op::Shr => self.shr(k, w, &a[0].1, n as u32, false),
                    _ => self.shr(k, w, &a[0].1, n as u32, true),
                },
                _ => self.opaque(k, op, w, a),
            },
            Op::SLt => {
                let b = self.slt(k, a[0].0, &a[0].1, &a[1].1);
                self.from_bits(vec![b])
            }
            Op::Min => {
                let b = self.ult(k, w, &a[0].1, &a[1].1);
                match b {
                    BF::K(true) => a[0].1.clone(),
                    BF::K(false) => a[1].1.clone(),
                    _ => self.opaque(k, op, w, a),
                }
            }
            Op::Popcnt | Op::Ctlz | Op::Cttz => {
                if let Some(c) = a[0].1.k() {
                    let aw = a[0].0 as u32;
                    return Int::C(match op {
                        Op::Popcnt => c.count_ones(),
                        Op::Ctlz => c.leading_zeros() - (128 - aw),
                        _ => c.trailing_zeros().min(aw),
                    } as u128);
                }
                self.opaque(k, op, w, a)
            }
            Op::Other(n @ 1..=4) => {
                let (_, b) = self.arith_ovf(k, a[0].0, n < 4, match n { 1 => '+', 2 => '-', _ => '*' }, &a[0].1, &a[1].1);
                self.from_bits(vec![b])
            }
            _ => self.opaque(k, op, w, a),
        }
    }
}

/// A pending fact.
enum Fact {
    B(BF, bool),
    Sub(T, Int),
}

/// Restrict a state to the valuations where the predicate has the given value.
/// Returns false when there are none.
pub fn refine(d: &mut Dom, st: &mut State, b: &BF, v: bool) -> bool {
    let mut q = vec![Fact::B(b.clone(), v)];
    let mut fuel = 400;
    while let Some(f) = q.pop() {
        fuel -= 1;
        if fuel == 0 {
            return true; // facts may be dropped soundly
        }
        match f {
            Fact::B(b, v) => {
                // normalise under current knowledge
                let mut n = BF::K(b.c());
                for a in b.atoms() {
                    let x = d.atom_bf(&st.know, aterm(*a), abit(*a));
                    n = n.xor(&x);
                }
                let b = n;
                match &b {
                    BF::K(c) => {
                        if *c != v {
                            return false;
                        }
                    }
                    BF::X(neg, atoms) if atoms.len() == 1 => {
                        let val = v ^ neg;
                        if !fact_atom(d, st, atoms[0], val, &mut q) {
                            return false;
                        }
                    }
                    BF::X(neg, atoms) => {
                        // pivot: newest symbol, otherwise newest atom
                        let p = atoms.iter().rev().find(|a| d.is_sym(aterm(**a))).or(atoms.last()).unwrap();
                        let rest: Vec<Atom> = atoms.iter().filter(|a| *a != p).cloned().collect();
                        let r = BF::mk(v ^ neg, rest);
                        set_atom(d, st, *p, r, &mut q);
                    }
                }
            }
            Fact::Sub(t, i) => {
                // facts still waiting may mention the symbol that goes away
                if d.is_sym(t) && !st.know.lens.contains(&t) && !q.is_empty() {
                    let k = st.know.clone();
                    let mut s = Sub::default();
                    s.t.insert(t, i.clone());
                    s.bloom = 1u64 << (t % 64);
                    for f in q.iter_mut() {
                        match f {
                            Fact::B(b, _) => {
                                if let Some(n) = d.sub_bf(&k, &mut s, b) {
                                    *b = n;
                                }
                            }
                            Fact::Sub(u, x) => {
                                let w = d.tw(*u);
                                if let Some(n) = d.sub_int(&k, &mut s, w, x) {
                                    *x = n;
                                }
                            }
                        }
                    }
                }
                if !substitute(d, st, t, i, &mut q) {
                    return false;
                }
            }
        }
    }
    true
}

fn set_atom(d: &mut Dom, st: &mut State, a: Atom, r: BF, q: &mut Vec<Fact>) {
    let (t, j) = (aterm(a), abit(a));
    let w = d.tw(t);
    if w == 1 {
        let i = d.from_bits(vec![r]);
        q.push(Fact::Sub(t, i));
    } else if d.is_sym(t) {
        let mut b: Vec<BF> = (0..w as u32).map(|x| d.atom_bf(&st.know, t, x)).collect();
        b[j as usize] = r;
        // remaining bits become independent symbols
        let k = st.know.clone();
        let iv = d.iv_t(&k, t);
        for (x, bf) in b.iter_mut().enumerate() {
            if x as u32 != j && bf.atoms() == [atom(t, x as u32)].as_slice() {
                let g = d.fresh(1);
                *bf = BF::at(atom(g, 0));
            }
        }
        // the replaced bit may mention other bits of t: rewrite those too
        let snapshot = b.clone();
        let rj = &snapshot[j as usize];
        if rj.atoms().iter().any(|y| aterm(*y) == t) {
            let mut n = BF::K(rj.c());
            for y in rj.atoms() {
                if aterm(*y) == t {
                    n = n.xor(&snapshot[abit(*y) as usize]);
                } else {
                    n = n.xor(&BF::at(*y));
                }
            }
            b[j as usize] = n;
        }
        let i = d.from_bits(b.clone());
        if let Int::B(bb) = &i {
            let bi = d.bits_iv(bb);
            if iv.0 > bi.0 || iv.1 < bi.1 {
                let nt = d.mk(TK::Bits(bb.clone()), w);
                Rc::make_mut(&mut st.know).iv.insert(nt, iv);
            }
        }
        q.push(Fact::Sub(t, i));
    } else {
        Rc::make_mut(&mut st.know).arw.insert(a, r);
    }
}

pub fn set_iv(d: &mut Dom, st: &mut State, t: T, lo: i128, hi: i128) -> Option<bool> {
    // returns None if empty, Some(changed)
    let (a, b) = d.iv_t(&st.know, t);
    let l = (lo.max(0) as u128).max(a);
    if hi < 0 {
        return None;
    }
    let h = (hi as u128).min(b);
    if l > h {
        return None;
    }
    if l > a || h < b {
        Rc::make_mut(&mut st.know).iv.insert(t, (l, h));
        Some(true)
    } else {
        Some(false)
    }
}

/// l >= 0 holds: tighten the intervals of its terms.
fn add_ineq(d: &mut Dom, st: &mut State, l: &Lin, q: &mut Vec<Fact>) -> bool {
    for _ in 0..2 {
        let mut any = false;
        for (t, c) in &l.t {
            let rest = l.without(*t);
            let Some((_, hi)) = d.lin_range(&st.know, &rest) else { continue };
            // c*t + rest >= 0, rest <= hi
            let r = if *c > 0 {
                // t >= -hi / c
                let lo = (-hi).div_euclid(*c) + if (-hi).rem_euclid(*c) != 0 { 1 } else { 0 };
                set_iv(d, st, *t, lo, i128::MAX)
            } else {
                // t <= hi / -c
                set_iv(d, st, *t, 0, hi.div_euclid(-*c))
            };
            match r {
                None => return false,
                Some(true) => {
                    any = true;
                    let (a, b) = d.iv_t(&st.know, *t);
                    if a == b && d.is_sym(*t) {
                        q.push(Fact::Sub(*t, Int::C(a)));
                    } else if !down_iv(d, st, *t, q) {
                        return false;
                    }
                }
                _ => {}
            }
        }
        if !any {
            break;
        }
    }
    if l.t.len() > 1 && !st.know.ineq.contains(l) {
        Rc::make_mut(&mut st.know).ineq.push(l.clone());
    }
    true
}

/// Interval of a composite term narrowed: pass on to its single operand.
fn down_iv(d: &mut Dom, st: &mut State, t: T, q: &mut Vec<Fact>) -> bool {
    let (lo, hi) = d.iv_t(&st.know, t);
    let kind = d.terms[t as usize].k.clone();
    match kind {
        TK::Bits(b) => {
            // common high prefix fixes bits; upper bound zeroes high bits
            let x = lo ^ hi;
            let top = 128 - x.leading_zeros();
            for (j, f) in b.iter().enumerate() {
                if j as u32 >= top {
                    if let BF::X(..) = f {
                        q.push(Fact::B(f.clone(), (lo >> j) & 1 == 1));
                    }
                }
            }
            true
        }
        TK::Op(Op::Div, a) => {
            if let Some(c) = a[1].1.k() {
                if c > 0 {
                    if let Int::L(l) = &a[0].1 {
                        if l.t.len() == 1 && l.t[0].1 == 1 && l.c == 0 {
                            let n = set_iv(d, st, l.t[0].0, (lo * c) as i128, (hi.saturating_mul(c).saturating_add(c - 1)).min(i128::MAX as u128) as i128);
                            return n.is_some();
                        }
                    }
                }
            }
            true
        }
        _ => true,
    }
}

fn fact_atom(d: &mut Dom, st: &mut State, a: Atom, v: bool, q: &mut Vec<Fact>) -> bool {
    let t = aterm(a);
    if d.tw(t) > 1 {
        set_atom(d, st, a, BF::K(v), q);
        return true;
    }
    let kind = d.terms[t as usize].k.clone();
    q.insert(0, Fact::Sub(t, Int::C(v as u128)));
    match kind {
        TK::Ge0(l) => {
            let l = if v { (*l).clone() } else { Lin { c: -l.c - 1, t: l.t.iter().map(|(t, c)| (*t, -c)).collect() } };
            if !add_ineq(d, st, &l, q) {
                return false;
            }
            // both directions known: an equality
            if l.t.len() > 1 {
                if let Some(n) = l.scale(-1) {
                    if st.know.ineq.contains(&n) {
                        let k = st.know.clone();
                        if let Some(p) = l.t.iter().rev().find(|(t, c)| c.abs() == 1 && d.is_sym(*t) && !k.lens.contains(t)) {
                            if let Some(r) = l.without(p.0).scale(-p.1) {
                                let i = d.mk_lin(r, d.tw(p.0));
                                q.push(Fact::Sub(p.0, i));
                            }
                        }
                    }
                }
            }
            true
        }
        TK::Eq0(w, l) => {
            let k = st.know.clone();
            let z = match d.lin_range(&k, &l) {
                // no wrap-around: congruent to zero is zero
                Some((lo, hi)) if v && w < 100 && lo > -(1i128 << w) && hi < 1i128 << w => (*l).clone(),
                _ => d.to_z(&k, w, &Int::L(l.clone())),
            };
            if v {
                // z == 0 over Z when the form fits; otherwise congruence
                if let Some(p) = l.t.iter().rev().find(|(t, c)| c.abs() == 1 && d.is_sym(*t) && d.tw(*t) == w && (l.t.len() == 1 || !k.lens.contains(t))) {
                    // t = -rest * c
                    let rest = l.without(p.0);
                    if let Some(r) = rest.scale(-p.1) {
                        let i = d.mk_lin(r, w);
                        let iv = d.iv_t(&k, p.0);
                        let ri = d.iv(&k, w, &i);
                        if iv.1 < ri.0 || ri.1 < iv.0 {
                            return false;
                        }
                        q.push(Fact::Sub(p.0, i));
                        return true;
                    }
                }
                if !(z.t.len() == 1 && z.c == 0 && z.t[0].1 == 1 && matches!(d.terms[z.t[0].0 as usize].k, TK::Lin(_))) {
                    // signed representatives: also try the symmetric form
                    if !add_ineq(d, st, &z, q) {
                        return false;
                    }
                    if let Some(n) = z.scale(-1) {
                        if !add_ineq(d, st, &n, q) {
                            return false;
                        }
                    }
                    // single term: value fixed
                    if z.t.len() == 1 {
                        let (tt, c) = z.t[0];
                        if z.c % c == 0 && d.is_sym(tt) {
                            let val = -z.c / c;
                            if val < 0 || val as u128 > mask(d.tw(tt)) {
                                return false;
                            }
                            q.push(Fact::Sub(tt, Int::C(val as u128)));
                        }
                    }
                }
                true
            } else {
                // disequality: trim interval ends, strengthen inequalities
                for form in [Some(z.clone()), Some((*l).clone())].into_iter().flatten() {
                    if form.t.len() == 1 {
                        let (tt, c) = form.t[0];
                        if c.abs() == 1 {
                            let val = -form.c * c;
                            let (a, b) = d.iv_t(&st.know, tt);
                            if val >= 0 && val as u128 == a && a == b {
                                return false;
                            }
                            if val >= 0 && val as u128 == a {
                                if set_iv(d, st, tt, val + 1, i128::MAX).is_none() {
                                    return false;
                                }
                            } else if val >= 0 && val as u128 == b {
                                if set_iv(d, st, tt, 0, val - 1).is_none() {
                                    return false;
                                }
                            }
                            let (a, b) = d.iv_t(&st.know, tt);
                            if a == b && d.is_sym(tt) {
                                q.push(Fact::Sub(tt, Int::C(a)));
                            }
                        }
                    } else {
                        let k = st.know.clone();
                        if d.prove(&k, &form) {
                            let mut s = form.clone();
                            s.c -= 1;
                            if !add_ineq(d, st, &s, q) {
                                return false;
                            }
                        } else if let Some(n) = form.scale(-1) {
                            if d.prove(&k, &n) {
                                let mut s = n;
                                s.c -= 1;
                                if !add_ineq(d, st, &s, q) {
                                    return false;
                                }
                            }
                        }
                    }
                }
                true
            }
        }
        TK::EqB(sys) => {
            if v {
                for e in sys.iter() {
                    q.push(Fact::B(e.clone(), false));
                }
            } else {
                Rc::make_mut(&mut st.know).fsys.push(sys.clone());
            }
            true
        }
        TK::And(x, y) => {
            if v {
                q.push(Fact::B(x, true));
                q.push(Fact::B(y, true));
            }
            true
        }
        _ => true,
    }
}

/// Replace term t by i everywhere.
fn substitute(d: &mut Dom, st: &mut State, t: T, i: Int, q: &mut Vec<Fact>) -> bool {
    if let Some(r) = st.know.rw.get(&t) {
        if *r == i {
            return true;
        }
        // both forms are equal
        let r = r.clone();
        let k = st.know.clone();
        let w = d.tw(t);
        let e = d.eq(&k, w, &r, &i);
        if e == BF::K(false) {
            return false;
        }
        if e != BF::K(true) {
            q.push(Fact::B(e, true));
        }
        return true;
    }
    if st.know.lens.contains(&t) {
        // a slice length keeps its name: only its range changes
        return match i.k() {
            Some(c) => set_iv(d, st, t, c as i128, c as i128).is_some(),
            None => true,
        };
    }
    // facts about t itself
    let w = d.tw(t);
    let old = st.know.clone();
    let (lo, hi) = d.iv_t(&old, t);
    match i.k() {
        Some(c) => {
            if c < lo || c > hi {
                return false;
            }
        }
        None => {}
    }
    let mut s = Sub::default();
    s.t.insert(t, i.clone());
    s.bloom = 1u64 << (t % 64);
    // bloom of a composite key: any term built on it shares its own bit
    let mut k = Know { lens: vec![], ..Default::default() };
    for (x, iv) in &old.iv {
        match d.sub_t(&old, &mut s, *x) {
            None => {
                k.iv.insert(*x, *iv);
            }
            Some(v) => {
                let xw = d.tw(*x);
                match &v {
                    Int::C(c) => {
                        if *c < iv.0 || *c > iv.1 {
                            return false;
                        }
                    }
                    Int::L(l) => {
                        let nt = if l.t.len() == 1 && l.t[0].1 == 1 && l.c == 0 { l.t[0].0 } else { d.mk(TK::Lin(l.clone()), xw) };
                        let e = k.iv.entry(nt).or_insert(*iv);
                        *e = (e.0.max(iv.0), e.1.min(iv.1));
                        let e = *e;
                        if e.0 > e.1 {
                            return false;
                        }
                        let _ = e;
                    }
                    Int::B(b) => {
                        if xw > 1 {
                            let nt = d.mk(TK::Bits(b.clone()), xw);
                            let e = k.iv.entry(nt).or_insert(*iv);
                            *e = (e.0.max(iv.0), e.1.min(iv.1));
                            if e.0 > e.1 {
                                return false;
                            }
                        }
                    }
                }
            }
        }
    }
    // the interval known for t constrains its replacement
    if let Some(iv) = old.iv.get(&t) {
        let _ = iv;
    } else if (lo, hi) != (0, mask(w)) && i.k().is_none() {
        match &i {
            Int::L(l) => {
                let nt = if l.t.len() == 1 && l.t[0].1 == 1 && l.c == 0 { l.t[0].0 } else { d.mk(TK::Lin(l.clone()), w) };
                let e = k.iv.entry(nt).or_insert((lo, hi));
                *e = (e.0.max(lo), e.1.min(hi));
                if e.0 > e.1 {
                    return false;
                }
            }
            _ => {}
        }
    }
    for (x, v) in &old.rw {
        let nv = d.sub_int(&old, &mut s, d.terms[*x as usize].w, v);
        let v2 = nv.unwrap_or_else(|| v.clone());
        match d.sub_t(&old, &mut s, *x) {
            None => {
                k.rw.insert(*x, v2);
            }
            Some(r) => {
                if let (Some(a), Some(b)) = (r.k(), v2.k()) {
                    if a != b {
                        return false;
                    }
                } else if d.tw(*x) == 1 {
                    if let Some(c) = v2.k() {
                        let bf = d.bit(&old, 1, &r, 0);
                        // keep the fact under its new name
                        if let BF::X(neg, at) = &bf {
                            if at.len() == 1 && d.tw(aterm(at[0])) == 1 && !d.is_sym(aterm(at[0])) {
                                let nt = aterm(at[0]);
                                k.rw.entry(nt).or_insert(Int::C((c == 1) as u128 ^ *neg as u128));
                                let kind = d.terms[nt as usize].k.clone();
                                let val = (c == 1) ^ *neg;
                                // consequences of a simplified predicate
                                match kind {
                                    TK::Eq0(..) | TK::Ge0(..) | TK::EqB(..) | TK::And(..) => q.push(Fact::B(BF::at(atom(nt, 0)), val)),
                                    _ => {}
                                }
                                if matches!(d.terms[nt as usize].k, TK::Eq0(..) | TK::Ge0(..) | TK::EqB(..) | TK::And(..)) {
                                    k.rw.remove(&nt);
                                }
                            } else {
                                q.push(Fact::B(bf.clone(), c == 1));
                            }
                        }
                    }
                }
            }
        }
    }
    for (a, b) in &old.arw {
        if d.terms[aterm(*a) as usize].bloom & s.bloom != 0 && d.sub_t(&old, &mut s, aterm(*a)).is_some() {
            continue;
        }
        let nb = d.sub_bf(&old, &mut s, b).unwrap_or_else(|| b.clone());
        k.arw.insert(*a, nb);
    }
    for l in &old.ineq {
        match d.sub_z(&old, &mut s, l) {
            None => k.ineq.push(l.clone()),
            Some(None) => {}
            Some(Some(z)) => {
                if z.t.is_empty() {
                    if z.c < 0 {
                        return false;
                    }
                } else if z.t.len() > 1 {
                    if !k.ineq.contains(&z) {
                        k.ineq.push(z);
                    }
                } else {
                    let (tt, c) = z.t[0];
                    let cur = d.iv_t(&k, tt);
                    let (nlo, nhi) = if c > 0 {
                        let lo = (-z.c).div_euclid(c) + if (-z.c).rem_euclid(c) != 0 { 1 } else { 0 };
                        (cur.0.max(lo.max(0) as u128), cur.1)
                    } else {
                        let hi = z.c.div_euclid(-c);
                        if hi < 0 {
                            return false;
                        }
                        (cur.0, cur.1.min(hi as u128))
                    };
                    if nlo > nhi {
                        return false;
                    }
                    k.iv.insert(tt, (nlo, nhi));
                }
            }
        }
    }
    for f in &old.fsys {
        let mut ch = false;
        let mut o = vec![];
        for x in f.iter() {
            match d.sub_bf(&old, &mut s, x) {
                Some(y) => {
                    ch = true;
                    o.push(y);
                }
                None => o.push(x.clone()),
            }
        }
        if !ch {
            k.fsys.push(f.clone());
            continue;
        }
        match Dom::rref(o) {
            None => {}
            Some(r) if r.is_empty() => return false,
            Some(r) if r.len() == 1 => q.push(Fact::B(r[0].clone(), true)),
            Some(r) => k.fsys.push(Rc::from(r)),
        }
    }
    for l in &old.lens {
        if d.sub_t(&old, &mut s, *l).is_none() {
            k.lens.push(*l);
        }
    }
    // memory
    let kk = &old;
    st.map_all(&mut |w, x| d.sub_int(kk, &mut s, w, x));
    // derived terms keep the rewriting (not needed for plain symbols, which are gone)
    if !d.is_sym(t) {
        k.rw.insert(t, i);
    }
    st.know = Rc::new(k);
    true
}
