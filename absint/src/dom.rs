//! Numeric abstract domain: affine forms over GF(2) for bits, affine forms over
//! Z / 2^w for words, intervals, linear inequalities and memoised predicates.

use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hash, Hasher};
use std::rc::Rc;

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut x = [0u8; 8];
            x[..c.len()].copy_from_slice(c);
            self.write_u64(u64::from_le_bytes(x));
        }
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517c_c1b7_2722_0a95);
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
    fn write_u128(&mut self, x: u128) {
        self.write_u64(x as u64);
        self.write_u64((x >> 64) as u64);
    }
    fn write_i128(&mut self, x: i128) {
        self.write_u128(x as u128)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

pub fn fxhash<H: Hash>(h: &H) -> u64 {
    let mut f = Fx::default();
    h.hash(&mut f);
    f.finish()
}

pub type T = u32;
pub type Atom = u64;
pub fn atom(t: T, j: u32) -> Atom {
    ((t as u64) << 8) | j as u64
}
pub fn aterm(a: Atom) -> T {
    (a >> 8) as T
}
pub fn abit(a: Atom) -> u32 {
    (a & 0xff) as u32
}
const ONE: Atom = u64::MAX;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum BF {
    K(bool),
    X(bool, Rc<[Atom]>),
}

impl BF {
    pub fn at(a: Atom) -> BF {
        BF::X(false, Rc::from([a].as_slice()))
    }
    pub fn konst(&self) -> Option<bool> {
        match self {
            BF::K(b) => Some(*b),
            _ => None,
        }
    }
    pub fn not(&self) -> BF {
        match self {
            BF::K(b) => BF::K(!b),
            BF::X(c, a) => BF::X(!c, a.clone()),
        }
    }
    pub fn atoms(&self) -> &[Atom] {
        match self {
            BF::K(_) => &[],
            BF::X(_, a) => a,
        }
    }
    pub fn c(&self) -> bool {
        match self {
            BF::K(b) | BF::X(b, _) => *b,
        }
    }
    pub fn mk(c: bool, a: Vec<Atom>) -> BF {
        if a.is_empty() {
            BF::K(c)
        } else {
            BF::X(c, Rc::from(a))
        }
    }
    pub fn xor(&self, o: &BF) -> BF {
        let (a, b) = (self.atoms(), o.atoms());
        if a.is_empty() {
            return if self.c() { o.not() } else { o.clone() };
        }
        if b.is_empty() {
            return if o.c() { self.not() } else { self.clone() };
        }
        let mut r = Vec::with_capacity(a.len() + b.len());
        let (mut i, mut j) = (0, 0);
        while i < a.len() && j < b.len() {
            if a[i] == b[j] {
                i += 1;
                j += 1;
            } else if a[i] < b[j] {
                r.push(a[i]);
                i += 1;
            } else {
                r.push(b[j]);
                j += 1;
            }
        }
        r.extend_from_slice(&a[i..]);
        r.extend_from_slice(&b[j..]);
        BF::mk(self.c() ^ o.c(), r)
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
pub struct Lin {
    pub c: i128,
    pub t: Vec<(T, i128)>,
}

impl Lin {
    pub fn k(c: i128) -> Lin {
        Lin { c, t: vec![] }
    }
    pub fn t(t: T) -> Lin {
        Lin { c: 0, t: vec![(t, 1)] }
    }
    /// self + k * o, over Z (None on overflow of the representation)
    pub fn add_k(&self, o: &Lin, k: i128) -> Option<Lin> {
        let mut r = Vec::with_capacity(self.t.len() + o.t.len());
        let (a, b) = (&self.t, &o.t);
        let (mut i, mut j) = (0, 0);
        while i < a.len() || j < b.len() {
            if j >= b.len() || (i < a.len() && a[i].0 < b[j].0) {
                r.push(a[i]);
                i += 1;
            } else if i >= a.len() || b[j].0 < a[i].0 {
                let v = b[j].1.checked_mul(k)?;
                if v != 0 {
                    r.push((b[j].0, v));
                }
                j += 1;
            } else {
                let v = a[i].1.checked_add(b[j].1.checked_mul(k)?)?;
                if v != 0 {
                    r.push((a[i].0, v));
                }
                i += 1;
                j += 1;
            }
        }
        Some(Lin { c: self.c.checked_add(o.c.checked_mul(k)?)?, t: r })
    }
    pub fn scale(&self, k: i128) -> Option<Lin> {
        Lin::default().add_k(self, k)
    }
    pub fn coef(&self, t: T) -> i128 {
        self.t.iter().find(|x| x.0 == t).map_or(0, |x| x.1)
    }
    pub fn without(&self, t: T) -> Lin {
        Lin { c: self.c, t: self.t.iter().filter(|x| x.0 != t).cloned().collect() }
    }
    /// reduce coefficients modulo 2^w into the signed range
    pub fn modw(mut self, w: u8) -> Lin {
        if w >= 127 {
            return self;
        }
        self.c = smod(self.c, w);
        for x in self.t.iter_mut() {
            x.1 = smod(x.1, w);
        }
        self.t.retain(|x| x.1 != 0);
        self
    }
}

pub fn mask(w: u8) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn smod(v: i128, w: u8) -> i128 {
    if w >= 127 {
        return v;
    }
    let m = (v as u128) & mask(w);
    if w > 0 && (m >> (w - 1)) & 1 == 1 {
        m as i128 - (1i128 << w)
    } else {
        m as i128
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Int {
    C(u128),
    L(Rc<Lin>),
    B(Rc<[BF]>),
}

impl Int {
    pub fn k(&self) -> Option<u128> {
        match self {
            Int::C(c) => Some(*c),
            _ => None,
        }
    }
    pub fn b(v: bool) -> Int {
        Int::C(v as u128)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Mul,
    Div,
    Rem,
    SDiv,
    SRem,
    Shl,
    Shr,
    Sar,
    And,
    Or,
    Xor,
    Popcnt,
    Ctlz,
    Cttz,
    SLt,
    Sext,
    Min,
    Select(u32),
    Other(u32),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum TK {
    Sym(u32),
    Bits(Rc<[BF]>),
    Lin(Rc<Lin>),
    Op(Op, Rc<[(u8, Int)]>),
    Ge0(Rc<Lin>),
    Eq0(u8, Rc<Lin>),
    EqB(Rc<[BF]>),
    And(BF, BF),
}

pub struct TI {
    pub k: TK,
    pub w: u8,
    pub bloom: u64,
}

/// What is known about terms in one abstract state.
#[derive(Clone, Default)]
pub struct Know {
    pub iv: FxMap<T, (u128, u128)>,
    pub rw: FxMap<T, Int>,
    pub arw: FxMap<Atom, BF>,
    pub ineq: Vec<Lin>,
    pub fsys: Vec<Rc<[BF]>>,
    pub lens: Vec<T>,
}

pub struct Dom {
    pub terms: Vec<TI>,
    hc: FxMap<(TK, u8), T>,
    nsym: u32,
    pub proofs: u64,
    pub leafmemo: FxMap<T, Rc<[T]>>,
    /// words are counters: keep affine relations between them, do not partition by them
    pub affine: bool,
    /// do not join within an iteration of a history loop
    pub paths: bool,
}

static OVER: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
/// The time budget has run out: every query answers "don't know" and the analysis unwinds.
pub fn out_of_time() -> bool {
    OVER.load(std::sync::atomic::Ordering::Relaxed)
}
pub fn start_clock(d: std::time::Duration) {
    std::thread::spawn(move || {
        std::thread::sleep(d);
        OVER.store(true, std::sync::atomic::Ordering::Relaxed);
    });
}

impl Dom {
    pub fn new() -> Dom {
        Dom { terms: vec![], hc: Default::default(), nsym: 0, proofs: 0, leafmemo: Default::default(), affine: false, paths: false }
    }

    fn bloom_of(&self, k: &TK, id: T) -> u64 {
        let bt = |t: T| self.terms[t as usize].bloom;
        let bbf = |b: &BF| b.atoms().iter().fold(0, |x, a| x | bt(aterm(*a)));
        let bl = |l: &Lin| l.t.iter().fold(0, |x, (t, _)| x | bt(*t));
        let bi = |i: &Int| match i {
            Int::C(_) => 0,
            Int::L(l) => bl(l),
            Int::B(b) => b.iter().fold(0, |x, b| x | bbf(b)),
        };
        let b = match k {
            TK::Sym(_) => 1u64 << (id % 64),
            TK::Bits(b) | TK::EqB(b) => b.iter().fold(0, |x, b| x | bbf(b)),
            TK::Lin(l) | TK::Ge0(l) | TK::Eq0(_, l) => bl(l),
            TK::Op(_, a) => a.iter().fold(0, |x, (_, i)| x | bi(i)),
            TK::And(a, b) => bbf(a) | bbf(b),
        };
        b | (1u64 << (id % 64))
    }

    pub fn mk(&mut self, k: TK, w: u8) -> T {
        if let Some(t) = self.hc.get(&(k.clone(), w)) {
            return *t;
        }
        let id = self.terms.len() as T;
        let bloom = self.bloom_of(&k, id);
        self.terms.push(TI { k: k.clone(), w, bloom });
        self.hc.insert((k, w), id);
        id
    }
    pub fn find(&self, k: TK, w: u8) -> Option<T> {
        self.hc.get(&(k, w)).copied()
    }
    pub fn fresh(&mut self, w: u8) -> T {
        self.nsym += 1;
        let n = self.nsym;
        self.mk(TK::Sym(n), w)
    }
    pub fn is_sym(&self, t: T) -> bool {
        matches!(self.terms[t as usize].k, TK::Sym(_))
    }
    pub fn tw(&self, t: T) -> u8 {
        self.terms[t as usize].w
    }

    // ------------------------------------------------------------ bits
    pub fn atom_bf(&mut self, k: &Know, t: T, j: u32) -> BF {
        let w = self.tw(t);
        if j >= w as u32 {
            return BF::K(false);
        }
        if let Some(r) = k.rw.get(&t) {
            let r = r.clone();
            return self.bit(k, w, &r, j);
        }
        if let Some(b) = k.arw.get(&atom(t, j)) {
            return b.clone();
        }
        match &self.terms[t as usize].k {
            TK::Bits(b) => return b[j as usize].clone(),
            TK::Lin(l) if j == 0 => {
                let l = l.clone();
                let mut r = BF::K(l.c & 1 != 0);
                for (t, c) in &l.t {
                    if c & 1 != 0 {
                        let x = self.atom_bf(k, *t, 0);
                        r = r.xor(&x);
                    }
                }
                return r;
            }
            TK::Op(Op::Popcnt, a) if j == 0 => {
                let (aw, ai) = a[0].clone();
                let mut r = BF::K(false);
                for b in self.bits(k, aw, &ai) {
                    r = r.xor(&b);
                }
                return r;
            }
            _ => {}
        }
        if w > 1 {
            let (lo, hi) = self.iv_t(k, t);
            if lo == hi {
                return BF::K((lo >> j) & 1 == 1);
            }
            if j < 127 && hi < (1u128 << j) {
                return BF::K(false);
            }
            // common high prefix
            let x = lo ^ hi;
            let top = 128 - x.leading_zeros();
            if j >= top {
                return BF::K((lo >> j) & 1 == 1);
            }
        }
        BF::at(atom(t, j))
    }

    pub fn bit(&mut self, k: &Know, w: u8, i: &Int, j: u32) -> BF {
        match i {
            Int::C(c) => BF::K((c >> j) & 1 == 1),
            Int::B(b) => b[j as usize].clone(),
            Int::L(_) => self.bits(k, w, i)[j as usize].clone(),
        }
    }

    pub fn bits(&mut self, k: &Know, w: u8, i: &Int) -> Vec<BF> {
        match i {
            Int::C(c) => (0..w as u32).map(|j| BF::K((c >> j) & 1 == 1)).collect(),
            Int::B(b) => b.to_vec(),
            Int::L(l) => {
                let l = l.clone();
                if l.t.len() == 1 && l.t[0].1 == 1 && l.c == 0 {
                    let t = l.t[0].0;
                    return (0..w as u32).map(|j| self.atom_bf(k, t, j)).collect();
                }
                // factor out a power of two
                let mut sh = 127;
                for (_, c) in &l.t {
                    sh = sh.min(c.trailing_zeros());
                }
                if sh > 0 && sh < w as u32 && !l.t.is_empty() {
                    let low = (l.c as u128) & mask(sh as u8);
                    let rest = Lin { c: (l.c - low as i128) >> sh, t: l.t.iter().map(|(t, c)| (*t, c >> sh)).collect() };
                    let rw = w - sh as u8;
                    let ri = self.mk_lin(rest.modw(rw), rw);
                    let rb = self.bits(k, rw, &ri);
                    let mut out: Vec<BF> = (0..sh).map(|j| BF::K((low >> j) & 1 == 1)).collect();
                    out.extend(rb);
                    return out;
                }
                let t = self.mk(TK::Lin(l.clone()), w);
                (0..w as u32).map(|j| self.atom_bf(k, t, j)).collect()
            }
        }
    }

    /// Canonical integer from bit forms.
    pub fn from_bits(&mut self, b: Vec<BF>) -> Int {
        let w = b.len();
        if b.iter().all(|x| matches!(x, BF::K(_))) {
            let mut v = 0u128;
            for (j, x) in b.iter().enumerate() {
                if x.c() {
                    v |= 1 << j;
                }
            }
            return Int::C(v);
        }
        if w > 1 {
            if let BF::X(false, a) = &b[0] {
                if a.len() == 1 && abit(a[0]) == 0 {
                    let t = aterm(a[0]);
                    let tw = self.tw(t) as usize;
                    if tw > 1 && tw <= w {
                        let mut ok = true;
                        for (j, x) in b.iter().enumerate() {
                            if j < tw {
                                match x {
                                    BF::X(false, a) if a.len() == 1 && a[0] == atom(t, j as u32) => {}
                                    _ => {
                                        ok = false;
                                        break;
                                    }
                                }
                            } else if x != &BF::K(false) {
                                ok = false;
                                break;
                            }
                        }
                        if ok {
                            return Int::L(Rc::new(Lin::t(t)));
                        }
                    }
                }
            }
        }
        Int::B(Rc::from(b))
    }

    /// like from_bits, but also recognises t whose high bits are known zero
    pub fn from_bits_k(&mut self, k: &Know, b: Vec<BF>) -> Int {
        let w = b.len();
        if w > 1 {
            if let BF::X(false, a) = &b[0] {
                if a.len() == 1 && abit(a[0]) == 0 {
                    let t = aterm(a[0]);
                    if self.tw(t) > 1 {
                        let tw = self.tw(t) as u32;
                        let all: Vec<BF> = (0..(w as u32).max(tw)).map(|j| self.atom_bf(k, t, j)).collect();
                        if all[..w] == b[..] && all[w..].iter().all(|x| x == &BF::K(false)) {
                            return Int::L(Rc::new(Lin::t(t)));
                        }
                    }
                }
            }
        }
        self.from_bits(b)
    }

    pub fn mk_lin(&mut self, l: Lin, w: u8) -> Int {
        let l = l.modw(w);
        if l.t.is_empty() {
            return Int::C((l.c as u128) & mask(w));
        }
        if l.t.len() == 1 && l.t[0].1 == 1 && l.c == 0 {
            let t = l.t[0].0;
            if self.tw(t) == 1 {
                let mut b = vec![BF::at(atom(t, 0))];
                b.resize(w as usize, BF::K(false));
                return self.from_bits(b);
            }
            if let TK::Bits(b) = &self.terms[t as usize].k {
                let mut b = b.to_vec();
                b.resize(w as usize, BF::K(false));
                return self.from_bits(b);
            }
            if let TK::Lin(l2) = &self.terms[t as usize].k {
                if self.tw(t) == w {
                    return Int::L(l2.clone());
                }
            }
        }
        Int::L(Rc::new(l))
    }

    /// Linear form (mod 2^w) of an integer.
    pub fn lin(&mut self, i: &Int, w: u8) -> Lin {
        match i {
            Int::C(c) => Lin::k(smod(*c as i128, w)),
            Int::L(l) => (**l).clone(),
            Int::B(b) => {
                // single low bit
                if b[1..].iter().all(|x| x == &BF::K(false)) {
                    if let BF::X(neg, a) = &b[0] {
                        if a.len() == 1 && self.tw(aterm(a[0])) == 1 {
                            return if *neg { Lin { c: 1, t: vec![(aterm(a[0]), -1)] }.modw(w) } else { Lin::t(aterm(a[0])) };
                        }
                    }
                }
                // few single-atom one-bit terms: proper linear combination
                let nz = b.iter().filter(|x| !matches!(x, BF::K(_))).count();
                if nz <= 3 && b.iter().all(|x| x.atoms().is_empty() || (x.atoms().len() == 1 && self.tw(aterm(x.atoms()[0])) == 1)) {
                    let mut l = Lin::default();
                    for (j, x) in b.iter().enumerate() {
                        let p = 1i128 << j;
                        match x {
                            BF::K(true) => l.c += p,
                            BF::K(false) => {}
                            BF::X(neg, a) => {
                                if *neg {
                                    l.c += p;
                                    l = l.add_k(&Lin::t(aterm(a[0])), -p).unwrap();
                                } else {
                                    l = l.add_k(&Lin::t(aterm(a[0])), p).unwrap();
                                }
                            }
                        }
                    }
                    return l.modw(w);
                }
                let t = self.mk(TK::Bits(b.clone()), w);
                Lin::t(t)
            }
        }
    }

    // ------------------------------------------------------------ intervals
    pub fn bits_iv(&self, b: &[BF]) -> (u128, u128) {
        let (mut lo, mut hi) = (0u128, 0u128);
        for (j, x) in b.iter().enumerate() {
            match x {
                BF::K(true) => {
                    lo |= 1 << j;
                    hi |= 1 << j;
                }
                BF::K(false) => {}
                _ => hi |= 1 << j,
            }
        }
        (lo, hi)
    }

    pub fn iv_t(&self, k: &Know, t: T) -> (u128, u128) {
        self.iv_td(k, t, 6)
    }

    fn iv_td(&self, k: &Know, t: T, d: u32) -> (u128, u128) {
        let ti = &self.terms[t as usize];
        let full = (0, mask(ti.w));
        let stored = k.iv.get(&t).copied().unwrap_or(full);
        if let Some(r) = k.rw.get(&t) {
            let x = self.iv_d(k, ti.w, r, d.saturating_sub(1));
            return inter(stored, x);
        }
        if d == 0 || out_of_time() {
            return stored;
        }
        let derived = match &ti.k {
            TK::Bits(b) => self.bits_iv(b),
            TK::Lin(l) => self.lin_mod_iv(k, l, ti.w, d - 1),
            TK::Op(op, a) => {
                let ivs: Vec<(u128, u128)> = a.iter().map(|(w, i)| self.iv_d(k, *w, i, d - 1)).collect();
                op_iv(*op, ti.w, &ivs, a)
            }
            _ => full,
        };
        inter(stored, derived)
    }

    fn lin_mod_iv(&self, k: &Know, l: &Lin, w: u8, d: u32) -> (u128, u128) {
        match self.lin_range_d(k, l, d) {
            Some((m, mx)) if w < 126 => {
                let p = 1i128 << w;
                if m.div_euclid(p) == mx.div_euclid(p) {
                    (m.rem_euclid(p) as u128, mx.rem_euclid(p) as u128)
                } else {
                    (0, mask(w))
                }
            }
            Some((m, mx)) if m >= 0 => (m as u128, mx as u128),
            _ => (0, mask(w)),
        }
    }

    fn iv_d(&self, k: &Know, w: u8, i: &Int, d: u32) -> (u128, u128) {
        match i {
            Int::C(c) => (*c, *c),
            Int::L(l) => {
                let r = self.lin_mod_iv(k, l, w, d);
                if l.t.len() > 1 || l.c != 0 || l.t[0].1 != 1 {
                    if let Some(t) = self.find(TK::Lin(l.clone()), w) {
                        if let Some(x) = k.iv.get(&t) {
                            return inter(r, *x);
                        }
                    }
                }
                r
            }
            Int::B(b) => {
                let r = self.bits_iv(b);
                if let Some(t) = self.find(TK::Bits(b.clone()), w) {
                    if let Some(x) = k.iv.get(&t) {
                        return inter(r, *x);
                    }
                }
                r
            }
        }
    }

    pub fn iv(&self, k: &Know, w: u8, i: &Int) -> (u128, u128) {
        self.iv_d(k, w, i, 6)
    }

    fn lin_range_d(&self, k: &Know, l: &Lin, d: u32) -> Option<(i128, i128)> {
        let (mut lo, mut hi) = (l.c, l.c);
        // long sums are not looked into deeply
        let d = if l.t.len() > 12 { d.min(1) } else { d };
        for (t, c) in &l.t {
            let (a, b) = self.iv_td(k, *t, d);
            if b > i128::MAX as u128 {
                return None;
            }
            let (x, y) = if *c >= 0 { (a as i128, b as i128) } else { (b as i128, a as i128) };
            lo = lo.checked_add(c.checked_mul(x)?)?;
            hi = hi.checked_add(c.checked_mul(y)?)?;
        }
        Some((lo, hi))
    }
    pub fn lin_range(&self, k: &Know, l: &Lin) -> Option<(i128, i128)> {
        self.lin_range_d(k, l, 6)
    }

    /// Prove l >= 0 over the integers, for every valuation allowed by `k`.
    pub fn prove(&mut self, k: &Know, l: &Lin) -> bool {
        if let Some((lo, _)) = self.lin_range(k, l) {
            if lo >= 0 {
                return true;
            }
        }
        if l.t.is_empty() {
            return false;
        }
        self.proofs += 1;
        // long sums are not worth much effort
        let mut fuel = if l.t.len() > 12 { 8 } else { 150 };
        self.elim(k, l, 1, &mut fuel, u32::MAX)
    }

    fn elim(&self, k: &Know, l: &Lin, s: i128, fuel: &mut u32, below: T) -> bool {
        if let Some((lo, _)) = self.lin_range(k, l) {
            if lo > -s {
                return true;
            }
        }
        if *fuel == 0 || out_of_time() {
            return false;
        }
        *fuel -= 1;
        // a cheap optimistic cut: if even the upper range is hopeless stop
        if let Some((_, hi)) = self.lin_range(k, l) {
            if hi <= -s {
                return false;
            }
        }
        // newest eliminable term
        for (t, c) in l.t.iter().rev() {
            let (t, c) = (*t, *c);
            if t >= below {
                continue;
            }
            let mut cand: Vec<(Lin, i128)> = vec![]; // bound (num, den): t >= num/den (c>0) or t <= num/den (c<0)
            match &self.terms[t as usize].k {
                TK::Op(Op::Div, a) => {
                    if let (Some(d), Some(z)) = (a[1].1.k(), self.z_of(k, a[0].0, &a[0].1)) {
                        if d > 0 {
                            let d = d as i128;
                            if c > 0 {
                                if let Some(z) = z.add_k(&Lin::k(d - 1), -1) {
                                    cand.push((z, d));
                                }
                            } else {
                                cand.push((z, d));
                            }
                        }
                    }
                }
                TK::Op(Op::Shr, a) => {
                    if let (Some(d), Some(z)) = (a[1].1.k(), self.z_of(k, a[0].0, &a[0].1)) {
                        if d < 100 {
                            let d = 1i128 << d;
                            if c > 0 {
                                if let Some(z) = z.add_k(&Lin::k(d - 1), -1) {
                                    cand.push((z, d));
                                }
                            } else {
                                cand.push((z, d));
                            }
                        }
                    }
                }
                TK::Op(Op::Min, a) => {
                    // min(x, y) <= x, <= y
                    if c < 0 {
                        for q in a.iter() {
                            if let Some(z) = self.z_of(k, q.0, &q.1) {
                                cand.push((z, 1));
                            }
                        }
                    }
                }
                TK::Lin(_) => {
                    if let Some(z) = self.z_fit(k, t) {
                        cand.push((z, 1));
                    }
                }
                _ => {}
            }
            for q in &k.ineq {
                // pivot of an inequality is its newest term
                if q.t.last().map(|x| x.0) == Some(t) {
                    let a = q.t.last().unwrap().1;
                    let rest = q.without(t);
                    if a > 0 && c > 0 {
                        // a t + rest >= 0  =>  t >= -rest / a
                        if let Some(n) = rest.scale(-1) {
                            cand.push((n, a));
                        }
                    } else if a < 0 && c < 0 {
                        cand.push((rest, -a));
                    }
                }
            }
            if cand.is_empty() {
                continue;
            }
            let base = l.without(t);
            for (n, d) in cand {
                // d * base + c * n
                let Some(b2) = base.scale(d) else { continue };
                let Some(e) = b2.add_k(&n, c) else { continue };
                let Some(s2) = s.checked_mul(d) else { continue };
                if self.elim(k, &e, s2, fuel, t) {
                    return true;
                }
            }
            // keep the interval of this term and go on with older ones
            let (a, b) = self.iv_t(k, t);
            if b <= i128::MAX as u128 {
                let v = if c > 0 { a as i128 } else { b as i128 };
                if let Some(cv) = c.checked_mul(v) {
                    if let Some(nc) = base.c.checked_add(cv) {
                        let e = Lin { c: nc, t: base.t.clone() };
                        return self.elim(k, &e, s, fuel, t);
                    }
                }
            }
            return false;
        }
        false
    }

    fn z_fit(&self, k: &Know, t: T) -> Option<Lin> {
        let ti = &self.terms[t as usize];
        if let TK::Lin(l) = &ti.k {
            let (lo, hi) = self.lin_range(k, l)?;
            if lo >= 0 && hi as u128 <= mask(ti.w) {
                return Some((**l).clone());
            }
        }
        None
    }

    /// integer-valued linear form without creating terms
    fn z_of(&self, k: &Know, w: u8, i: &Int) -> Option<Lin> {
        match i {
            Int::C(c) => Some(Lin::k(*c as i128)),
            Int::L(l) => {
                let (lo, hi) = self.lin_range(k, l)?;
                if lo >= 0 && (hi as u128) <= mask(w) {
                    Some((**l).clone())
                } else {
                    self.find(TK::Lin(l.clone()), w).map(Lin::t)
                }
            }
            Int::B(b) => self.find(TK::Bits(b.clone()), w).map(Lin::t),
        }
    }

    /// Integer value as linear form over Z.
    pub fn to_z(&mut self, k: &Know, w: u8, i: &Int) -> Lin {
        if let Int::C(c) = i {
            return Lin::k(*c as i128);
        }
        let l = self.lin(i, w);
        if w >= 126 {
            return l;
        }
        let p = 1i128 << w;
        if let Some((lo, hi)) = self.lin_range(k, &l) {
            let q = lo.div_euclid(p);
            if q == hi.div_euclid(p) {
                return Lin { c: l.c - q * p, t: l.t };
            }
            if l.t.len() > 1 {
                // relational attempt
                for q in [0i128, lo.div_euclid(p), hi.div_euclid(p)] {
                    let cand = Lin { c: l.c - q * p, t: l.t.clone() };
                    let Some(up) = Lin::k(p - 1).add_k(&cand, -1) else { continue };
                    if self.prove(k, &cand) && self.prove(k, &up) {
                        return cand;
                    }
                }
            }
        }
        let t = self.mk(TK::Lin(Rc::new(l)), w);
        Lin::t(t)
    }

    // ------------------------------------------------------------ predicates
    pub fn pred(&mut self, k: &Know, tk: TK) -> BF {
        let t = self.mk(tk, 1);
        self.atom_bf(k, t, 0)
    }

    /// l >= 0 over Z
    pub fn ge0(&mut self, k: &Know, l: &Lin) -> BF {
        if l.t.is_empty() {
            return BF::K(l.c >= 0);
        }
        if let Some((lo, hi)) = self.lin_range(k, l) {
            if lo >= 0 {
                return BF::K(true);
            }
            if hi < 0 {
                return BF::K(false);
            }
        }
        // normalise
        let mut g = 0i128;
        for (_, c) in &l.t {
            g = gcd(g, c.abs());
        }
        let mut n = Lin { c: l.c.div_euclid(g), t: l.t.iter().map(|(t, c)| (*t, c / g)).collect() };
        let neg = n.t[0].1 < 0;
        if neg {
            n = Lin { c: -n.c - 1, t: n.t.iter().map(|(t, c)| (*t, -c)).collect() };
        }
        let t = self.mk(TK::Ge0(Rc::new(n.clone())), 1);
        let r = if k.rw.contains_key(&t) {
            self.atom_bf(k, t, 0)
        } else if self.prove(k, &n) {
            BF::K(true)
        } else if self.prove(k, &Lin { c: -n.c - 1, t: n.t.iter().map(|(t, c)| (*t, -c)).collect() }) {
            BF::K(false)
        } else {
            self.atom_bf(k, t, 0)
        };
        if neg {
            r.not()
        } else {
            r
        }
    }

    pub fn ult(&mut self, k: &Know, w: u8, a: &Int, b: &Int) -> BF {
        // a < b  <=>  b - a - 1 >= 0
        let za = self.to_z(k, w, a);
        let zb = self.to_z(k, w, b);
        match zb.add_k(&za, -1) {
            Some(mut d) => {
                d.c -= 1;
                self.ge0(k, &d)
            }
            None => {
                let t = self.fresh(1);
                BF::at(atom(t, 0))
            }
        }
    }

    pub fn slt(&mut self, k: &Know, w: u8, a: &Int, b: &Int) -> BF {
        if let (Some(x), Some(y)) = (a.k(), b.k()) {
            return BF::K(smod(x as i128, w) < smod(y as i128, w));
        }
        let half = 1u128 << (w - 1);
        let (ia, ib) = (self.iv(k, w, a), self.iv(k, w, b));
        let sg = |i: (u128, u128)| if i.1 < half { Some(false) } else if i.0 >= half { Some(true) } else { None };
        match (sg(ia), sg(ib)) {
            (Some(x), Some(y)) if x == y => self.ult(k, w, a, b),
            (Some(x), Some(y)) => BF::K(x && !y),
            _ => self.pred(k, TK::Op(Op::SLt, Rc::from(vec![(w, a.clone()), (w, b.clone())]))),
        }
    }

    pub fn rref(sys: Vec<BF>) -> Option<Vec<BF>> {
        // equations f = 0; returns None when inconsistent
        let mut rows: Vec<(Atom, BF)> = vec![];
        for mut f in sys {
            for (p, r) in &rows {
                if f.atoms().binary_search(p).is_ok() {
                    f = f.xor(r);
                }
            }
            match &f {
                BF::K(false) => continue,
                BF::K(true) => return None,
                BF::X(_, a) => {
                    let p = *a.last().unwrap();
                    for (_, r) in rows.iter_mut() {
                        if r.atoms().binary_search(&p).is_ok() {
                            *r = r.xor(&f);
                        }
                    }
                    rows.push((p, f));
                }
            }
        }
        rows.sort_by(|a, b| a.0.cmp(&b.0));
        Some(rows.into_iter().map(|x| x.1).collect())
    }

    pub fn implied(sys: &[BF], q: &BF) -> bool {
        let mut f = q.clone();
        for r in sys {
            let p = *r.atoms().last().unwrap();
            if f.atoms().binary_search(&p).is_ok() {
                f = f.xor(r);
            }
        }
        f == BF::K(false)
    }

    pub fn eq(&mut self, k: &Know, w: u8, a: &Int, b: &Int) -> BF {
        if a == b {
            return BF::K(true);
        }
        if let (Some(x), Some(y)) = (a.k(), b.k()) {
            return BF::K(x == y);
        }
        let (ia, ib) = (self.iv(k, w, a), self.iv(k, w, b));
        if ia.1 < ib.0 || ib.1 < ia.0 {
            return BF::K(false);
        }
        let la = matches!(a, Int::L(_));
        let lb = matches!(b, Int::L(_));
        let use_lin = (la || lb) && !(matches!(a, Int::B(_)) || matches!(b, Int::B(_)));
        if !use_lin {
            let (x, y) = (self.bits(k, w, a), self.bits(k, w, b));
            let mut sys = vec![];
            for (p, q) in x.iter().zip(&y) {
                let d = p.xor(q);
                match d {
                    BF::K(true) => return BF::K(false),
                    BF::K(false) => {}
                    d => sys.push(d),
                }
            }
            let Some(sys) = Self::rref(sys) else { return BF::K(false) };
            if sys.is_empty() {
                return BF::K(true);
            }
            if sys.len() == 1 {
                return sys[0].not();
            }
            for f in &k.fsys {
                if f.iter().all(|e| Self::implied(&sys, e)) {
                    return BF::K(false);
                }
            }
            return self.pred(k, TK::EqB(Rc::from(sys)));
        }
        let (x, y) = (self.lin(a, w), self.lin(b, w));
        let d = x.add_k(&y, -1).map(|d| d.modw(w));
        let Some(d) = d else {
            let t = self.fresh(1);
            return BF::at(atom(t, 0));
        };
        if d.t.is_empty() {
            return BF::K(d.c == 0);
        }
        // parity argument
        if d.c & 1 != 0 && d.t.iter().all(|(_, c)| c & 1 == 0) {
            return BF::K(false);
        }
        if d.t.len() == 1 && d.t[0].1.abs() == 1 && self.tw(d.t[0].0) == 1 {
            // one-bit term against constant
            let t = d.t[0].0;
            let v = if d.t[0].1 == 1 { -d.c } else { d.c };
            return match (v as u128) & mask(w) {
                0 => self.atom_bf(k, t, 0).not(),
                1 => self.atom_bf(k, t, 0),
                _ => BF::K(false),
            };
        }
        let za = self.to_z(k, w, a);
        let zb = self.to_z(k, w, b);
        if let Some(z) = za.add_k(&zb, -1) {
            let mut p = z.clone();
            p.c -= 1;
            if self.prove(k, &p) {
                return BF::K(false);
            }
            if let Some(mut n) = z.scale(-1) {
                n.c -= 1;
                if self.prove(k, &n) {
                    return BF::K(false);
                }
            }
            if w == 64 && !k.lens.is_empty() && self.prove(k, &z) && z.scale(-1).map_or(false, |n| self.prove(k, &n)) {
                return BF::K(true);
            }
        }
        let d = if d.t[0].1 < 0 { d.scale(-1).unwrap().modw(w) } else { d };
        self.pred(k, TK::Eq0(w, Rc::new(d)))
    }

    pub fn and_bf(&mut self, k: &Know, a: &BF, b: &BF) -> BF {
        match (a, b) {
            (BF::K(false), _) | (_, BF::K(false)) => BF::K(false),
            (BF::K(true), x) | (x, BF::K(true)) => x.clone(),
            _ => {
                if a == b {
                    return a.clone();
                }
                if *a == b.not() {
                    return BF::K(false);
                }
                let (x, y) = if format!("{a:?}") <= format!("{b:?}") { (a, b) } else { (b, a) };
                self.pred(k, TK::And(x.clone(), y.clone()))
            }
        }
    }

    // ------------------------------------------------------------ arithmetic
    pub fn opaque(&mut self, k: &Know, op: Op, w: u8, args: Vec<(u8, Int)>) -> Int {
        let t = self.mk(TK::Op(op, Rc::from(args)), w);
        if let Some(r) = k.rw.get(&t) {
            return r.clone();
        }
        let (lo, hi) = self.iv_t(k, t);
        if lo == hi {
            return Int::C(lo);
        }
        self.mk_lin(Lin::t(t), w)
    }

    pub fn add(&mut self, k: &Know, w: u8, a: &Int, b: &Int, sub: bool) -> Int {
        if let (Some(x), Some(y)) = (a.k(), b.k()) {
            let r = if sub { x.wrapping_sub(y) } else { x.wrapping_add(y) };
            return Int::C(r & mask(w));
        }
        if b.k() == Some(0) {
            return a.clone();
        }
        if !sub && a.k() == Some(0) {
            return b.clone();
        }
        if sub && a == b {
            return Int::C(0);
        }
        // carry free?
        if matches!(a, Int::B(_)) || matches!(b, Int::B(_)) {
            let (x, y) = (self.bits(k, w, a), self.bits(k, w, b));
            if !sub && x.iter().zip(&y).all(|(p, q)| p == &BF::K(false) || q == &BF::K(false)) {
                let r = x.iter().zip(&y).map(|(p, q)| p.xor(q)).collect();
                return self.from_bits_k(k, r);
            }
            if sub && x.iter().zip(&y).all(|(p, q)| q == &BF::K(false) || p == q || p == &BF::K(true)) {
                let r = x.iter().zip(&y).map(|(p, q)| p.xor(q)).collect();
                return self.from_bits_k(k, r);
            }
        }
        let (x, y) = (self.lin(a, w), self.lin(b, w));
        match x.add_k(&y, if sub { -1 } else { 1 }) {
            Some(l) => self.mk_lin(l, w),
            None => {
                let t = self.fresh(w);
                self.mk_lin(Lin::t(t), w)
            }
        }
    }

    pub fn mul(&mut self, k: &Know, w: u8, a: &Int, b: &Int) -> Int {
        if let (Some(x), Some(y)) = (a.k(), b.k()) {
            return Int::C(x.wrapping_mul(y) & mask(w));
        }
        let (c, v) = if let Some(x) = a.k() {
            (x, b)
        } else if let Some(y) = b.k() {
            (y, a)
        } else {
            let args = if fxhash(a) <= fxhash(b) { vec![(w, a.clone()), (w, b.clone())] } else { vec![(w, b.clone()), (w, a.clone())] };
            return self.opaque(k, Op::Mul, w, args);
        };
        if c == 0 {
            return Int::C(0);
        }
        if c == 1 {
            return v.clone();
        }
        if c.is_power_of_two() && matches!(v, Int::B(_)) {
            return self.shl(k, w, v, c.trailing_zeros());
        }
        let narrow = match v {
            Int::B(b) => Some(b.to_vec()),
            Int::L(l) if l.c == 0 && l.t.len() == 1 && l.t[0].1 == 1 && self.iv_t(k, l.t[0].0).1 <= 0xFFFF && c.count_ones() > 1 && !self.affine => Some(self.bits(k, w, v)),
            _ => None,
        };
        if let Some(b) = narrow {
            // copies of a narrow number that do not touch each other
            let m = b.iter().rposition(|x| *x != BF::K(false)).map_or(0, |x| x + 1);
            let sets: Vec<u32> = (0..w as u32).filter(|i| c >> i & 1 == 1).collect();
            if sets.len() <= 4 && sets.windows(2).all(|x| (x[1] - x[0]) as usize >= m) {
                let mut r = vec![BF::K(false); w as usize];
                for s in sets {
                    for (j, x) in b.iter().take(m).enumerate() {
                        if s as usize + j < w as usize {
                            r[s as usize + j] = x.clone();
                        }
                    }
                }
                return self.from_bits_k(k, r);
            }
        }
        let l = self.lin(v, w);
        match l.scale(smod(c as i128, w)) {
            Some(l) => self.mk_lin(l, w),
            None => {
                let t = self.fresh(w);
                self.mk_lin(Lin::t(t), w)
            }
        }
    }

    pub fn shl(&mut self, k: &Know, w: u8, a: &Int, n: u32) -> Int {
        let b = self.bits(k, w, a);
        let mut r = vec![BF::K(false); w as usize];
        for j in n as usize..w as usize {
            r[j] = b[j - n as usize].clone();
        }
        self.from_bits_k(k, r)
    }
    pub fn shr(&mut self, k: &Know, w: u8, a: &Int, n: u32, arith: bool) -> Int {
        if let Int::C(c) = a {
            if arith {
                return Int::C(((smod(*c as i128, w) >> n) as u128) & mask(w));
            }
            return Int::C(c >> n);
        }
        let mut b = self.bits(k, w, a);
        let fill = if arith { b[w as usize - 1].clone() } else { BF::K(false) };
        let mut r: Vec<BF> = b.drain(n as usize..).collect();
        r.resize(w as usize, fill);
        self.from_bits_k(k, r)
    }

    pub fn bitop(&mut self, k: &Know, w: u8, op: Op, a: &Int, b: &Int) -> Int {
        if let (Some(x), Some(y)) = (a.k(), b.k()) {
            return Int::C(match op {
                Op::And => x & y,
                Op::Or => x | y,
                _ => x ^ y,
            });
        }
        match op {
            Op::And if a.k() == Some(mask(w)) => return b.clone(),
            Op::And if b.k() == Some(mask(w)) => return a.clone(),
            Op::Or | Op::Xor if a.k() == Some(0) => return b.clone(),
            Op::Or | Op::Xor if b.k() == Some(0) => return a.clone(),
            _ => {}
        }
        let (x, y) = (self.bits(k, w, a), self.bits(k, w, b));
        let mut r = Vec::with_capacity(w as usize);
        for (p, q) in x.iter().zip(&y) {
            r.push(match op {
                Op::Xor => p.xor(q),
                Op::And => self.and_bf(k, p, q),
                _ => self.and_bf(k, &p.not(), &q.not()).not(),
            });
        }
        self.from_bits_k(k, r)
    }

    pub fn not(&mut self, k: &Know, w: u8, a: &Int) -> Int {
        match a {
            Int::C(c) => Int::C(!c & mask(w)),
            Int::L(l) if w > 1 && !(l.t.len() == 1 && l.c == 0) => {
                // !x = -x - 1
                let l = Lin::k(-1).add_k(l, -1).unwrap();
                self.mk_lin(l, w)
            }
            _ => {
                let b = self.bits(k, w, a).iter().map(|x| x.not()).collect();
                self.from_bits(b)
            }
        }
    }

    pub fn zext(&mut self, k: &Know, from: u8, to: u8, a: &Int) -> Int {
        if from == to {
            return a.clone();
        }
        match a {
            Int::C(c) => Int::C(c & mask(to)),
            Int::B(b) => {
                let mut v = b.to_vec();
                v.resize(to as usize, BF::K(false));
                self.from_bits_k(k, v)
            }
            Int::L(l) => {
                if to < from {
                    return self.mk_lin((**l).clone(), to);
                }
                let z = self.to_z(k, from, a);
                self.mk_lin(z, to)
            }
        }
    }

    pub fn sext(&mut self, k: &Know, from: u8, to: u8, a: &Int) -> Int {
        if to <= from {
            return self.zext(k, from, to, a);
        }
        if let Int::C(c) = a {
            return Int::C((smod(*c as i128, from) as u128) & mask(to));
        }
        let (_, hi) = self.iv(k, from, a);
        if hi < (1u128 << (from - 1)) {
            return self.zext(k, from, to, a);
        }
        let mut b = self.bits(k, from, a);
        let s = b[from as usize - 1].clone();
        b.resize(to as usize, s);
        self.from_bits(b)
    }

    pub fn divrem(&mut self, k: &Know, w: u8, a: &Int, b: &Int, rem: bool, signed: bool) -> Int {
        if let (Some(x), Some(y)) = (a.k(), b.k()) {
            if y == 0 {
                return Int::C(0);
            }
            if signed {
                let (x, y) = (smod(x as i128, w), smod(y as i128, w));
                let r = if rem { x.wrapping_rem(y) } else { x.wrapping_div(y) };
                return Int::C((r as u128) & mask(w));
            }
            return Int::C(if rem { x % y } else { x / y });
        }
        if signed {
            let half = 1u128 << (w - 1);
            if self.iv(k, w, a).1 >= half || self.iv(k, w, b).1 >= half {
                return self.opaque(k, if rem { Op::SRem } else { Op::SDiv }, w, vec![(w, a.clone()), (w, b.clone())]);
            }
        }
        if let Some(d) = b.k() {
            if d == 1 {
                return if rem { Int::C(0) } else { a.clone() };
            }
            if d.is_power_of_two() && (rem || matches!(a, Int::B(_))) {
                let n = d.trailing_zeros();
                return if rem {
                    self.bitop(k, w, Op::And, a, &Int::C(d - 1))
                } else {
                    self.shr(k, w, a, n, false)
                };
            }
            if rem {
                let ia = self.iv(k, w, a);
                if ia.1 < d {
                    return a.clone();
                }
                // a - d * (a / d)
                let q = self.divrem(k, w, a, b, false, false);
                let m = self.mul(k, w, &q, b);
                return self.add(k, w, a, &m, true);
            }
            // exact division of a linear form
            if let Int::L(_) = a {
                let z = self.to_z(k, w, a);
                let d = d as i128;
                if z.t.iter().all(|(_, c)| c % d == 0) && !z.t.is_empty() {
                    let q = Lin { c: z.c.div_euclid(d), t: z.t.iter().map(|(t, c)| (*t, c / d)).collect() };
                    return self.mk_lin(q, w);
                }
                // materialise non fitting forms so that the quotient stays relational
                let zi = self.mk_lin(z, w);
                return self.opaque(k, Op::Div, w, vec![(w, zi), (w, b.clone())]);
            }
        }
        self.opaque(k, if rem { Op::Rem } else { Op::Div }, w, vec![(w, a.clone()), (w, b.clone())])
    }

    /// (wrapped value, overflow flag)
    pub fn arith_ovf(&mut self, k: &Know, w: u8, signed: bool, op: char, a: &Int, b: &Int) -> (Int, BF) {
        let val = match op {
            '+' => self.add(k, w, a, b, false),
            '-' => self.add(k, w, a, b, true),
            _ => self.mul(k, w, a, b),
        };
        if let (Some(x), Some(y)) = (a.k(), b.k()) {
            let o = if signed {
                let (x, y) = (smod(x as i128, w), smod(y as i128, w));
                let r = match op {
                    '+' => x.checked_add(y),
                    '-' => x.checked_sub(y),
                    _ => x.checked_mul(y),
                };
                match r {
                    Some(r) => smod(r, w) != r,
                    None => true,
                }
            } else {
                match op {
                    '+' => x + y > mask(w),
                    '-' => x < y,
                    _ => x.checked_mul(y).map_or(true, |z| z > mask(w)),
                }
            };
            return (val, BF::K(o));
        }
        if signed {
            let half = 1u128 << (w - 1);
            let (ia, ib) = (self.iv(k, w, a), self.iv(k, w, b));
            if ia.1 < half && ib.1 < half {
                let bad = match op {
                    '+' => ia.1 + ib.1 >= half,
                    '-' => false,
                    _ => ia.1.checked_mul(ib.1).map_or(true, |x| x >= half),
                };
                if !bad {
                    return (val, BF::K(false));
                }
            }
            let r = self.pred(k, TK::Op(Op::Other(match op { '+' => 1, '-' => 2, _ => 3 }), Rc::from(vec![(w, a.clone()), (w, b.clone())])));
            return (val, r);
        }
        let (za, zb) = (self.to_z(k, w, a), self.to_z(k, w, b));
        let m = Lin::k(mask(w) as i128);
        let ok = match op {
            '+' => za.add_k(&zb, 1).and_then(|s| m.add_k(&s, -1)).map(|d| self.ge0(k, &d)),
            '-' => za.add_k(&zb, -1).map(|d| self.ge0(k, &d)),
            _ => {
                if let Some(c) = b.k() {
                    za.scale(c as i128).and_then(|s| m.add_k(&s, -1)).map(|d| self.ge0(k, &d))
                } else if let Some(c) = a.k() {
                    zb.scale(c as i128).and_then(|s| m.add_k(&s, -1)).map(|d| self.ge0(k, &d))
                } else {
                    let (ia, ib) = (self.iv(k, w, a), self.iv(k, w, b));
                    match ia.1.checked_mul(ib.1) {
                        Some(x) if x <= mask(w) => Some(BF::K(true)),
                        _ if ia.0.checked_mul(ib.0).map_or(true, |x| x > mask(w)) => Some(BF::K(false)),
                        _ => {
                            let r = self.pred(k, TK::Op(Op::Other(4), Rc::from(vec![(w, a.clone()), (w, b.clone())])));
                            return (val, r);
                        }
                    }
                }
            }
        };
        match ok {
            Some(o) => (val, o.not()),
            None => {
                let t = self.fresh(1);
                (val, BF::at(atom(t, 0)))
            }
        }
    }
}

pub fn inter(a: (u128, u128), b: (u128, u128)) -> (u128, u128) {
    let r = (a.0.max(b.0), a.1.min(b.1));
    if r.0 > r.1 {
        // contradictory information: state is unreachable; stay conservative
        a
    } else {
        r
    }
}
pub fn gcd(mut a: i128, mut b: i128) -> i128 {
    while b != 0 {
        (a, b) = (b, a % b);
    }
    a.max(1)
}

fn op_iv(op: Op, w: u8, iv: &[(u128, u128)], args: &[(u8, Int)]) -> (u128, u128) {
    let full = (0, mask(w));
    match op {
        Op::Mul => match iv[0].1.checked_mul(iv[1].1) {
            Some(h) if h <= mask(w) => (iv[0].0 * iv[1].0, h),
            _ => full,
        },
        Op::Div => {
            let lo = iv[0].0 / iv[1].1.max(1);
            let hi = iv[0].1 / iv[1].0.max(1);
            (lo, hi)
        }
        Op::Rem => (0, iv[0].1.min(iv[1].1.saturating_sub(1))),
        Op::Shr => {
            let lo = if iv[1].1 >= 128 { 0 } else { iv[0].0 >> iv[1].1 };
            let hi = if iv[1].0 >= 128 { 0 } else { iv[0].1 >> iv[1].0 };
            (lo, hi)
        }
        Op::Shl => {
            if iv[1].1 < w as u128 && iv[0].1.leading_zeros() as u128 > iv[1].1 && (iv[0].1 << iv[1].1) <= mask(w) {
                (iv[0].0 << iv[1].0, iv[0].1 << iv[1].1)
            } else {
                full
            }
        }
        Op::Popcnt => (0, args[0].0 as u128),
        Op::Ctlz | Op::Cttz => (0, args[0].0 as u128),
        Op::Min => (iv[0].0.min(iv[1].0), iv[0].1.min(iv[1].1)),
        _ => full,
    }
}

// ---------------------------------------------------------------- joins
/// Affine hull of two states, computed cell by cell (Karr style).
pub struct Joiner<'a> {
    pub ka: &'a Know,
    pub kb: &'a Know,
    /// knowledge of the join
    pub kj: Know,
    pub widen: u32,
    memo: FxMap<(u8, Int, Int), Int>,
    rows: Vec<(BF, Vec<usize>)>,        // reduced difference, combination of basis
    basis: Vec<(BF, BF)>,               // (x, a) of the basis cells
    lrows: FxMap<u8, Vec<(Lin, T, Vec<(usize, i128)>)>>,
    lbasis: Vec<(Lin, Lin)>,            // (x, a)
    pub pred: Option<(T, bool)>,
    pub changed: u32,
    /// inequality templates: new symbols and their (a, b) forms over Z
    pub newsyms: Vec<(Int, u8, Int, Int)>,
}

impl<'a> Joiner<'a> {
    pub fn new(d: &mut Dom, ka: &'a Know, kb: &'a Know, use_preds: bool, widen: u32) -> Joiner<'a> {
        let mut kj = Know::default();
        kj.lens = ka.lens.clone();
        for (t, x) in &ka.iv {
            if let Some(y) = kb.iv.get(t) {
                kj.iv.insert(*t, (x.0.min(y.0), x.1.max(y.1)));
            } else {
                let y = d.iv_t(kb, *t);
                let h = (x.0.min(y.0), x.1.max(y.1));
                if h != (0, mask(d.tw(*t))) {
                    kj.iv.insert(*t, h);
                }
            }
        }
        let mut pred: Option<(T, bool)> = None;
        for (t, x) in &ka.rw {
            if let Some(y) = kb.rw.get(t) {
                if x == y {
                    kj.rw.insert(*t, x.clone());
                } else if use_preds && d.tw(*t) == 1 {
                    if let (Some(p), Some(q)) = (x.k(), y.k()) {
                        if p != q && pred.map_or(true, |(o, _)| o < *t) {
                            pred = Some((*t, p == 1));
                        }
                    }
                }
            }
        }
        for (t, x) in &ka.arw {
            if kb.arw.get(t) == Some(x) {
                kj.arw.insert(*t, x.clone());
            }
        }
        for l in &ka.ineq {
            if kb.ineq.contains(l) || d.prove(kb, l) {
                kj.ineq.push(l.clone());
            }
        }
        for l in &kb.ineq {
            if !kj.ineq.contains(l) && !ka.ineq.contains(l) && d.prove(ka, l) {
                kj.ineq.push(l.clone());
            }
        }
        for f in &ka.fsys {
            if kb.fsys.contains(f) {
                kj.fsys.push(f.clone());
            }
        }
        let mut j = Joiner { ka, kb, kj, widen, memo: Default::default(), rows: vec![], basis: vec![], lrows: Default::default(), lbasis: vec![], pred, changed: 0, newsyms: vec![] };
        if let Some((t, va)) = pred {
            // D = 1, cell value is the predicate itself
            j.rows.push((BF::K(true), vec![0]));
            j.basis.push((BF::at(atom(t, 0)), BF::K(va)));
        }
        j
    }

    fn lead(f: &BF) -> Atom {
        match f {
            BF::K(_) => ONE,
            BF::X(_, a) => *a.last().unwrap(),
        }
    }

    fn join_bit(&mut self, d: &mut Dom, a: &BF, b: &BF) -> BF {
        if a == b {
            return a.clone();
        }
        let mut diff = a.xor(b);
        let mut comb: Vec<usize> = vec![];
        for (r, c) in &self.rows {
            let l = Self::lead(r);
            let has = if l == ONE { diff == BF::K(true) } else { diff.atoms().binary_search(&l).is_ok() };
            if has {
                diff = diff.xor(r);
                for i in c {
                    if let Some(p) = comb.iter().position(|x| x == i) {
                        comb.remove(p);
                    } else {
                        comb.push(*i);
                    }
                }
            }
        }
        if diff == BF::K(true) {
            // constant part: usable row for 1?
            if let Some((_, c)) = self.rows.iter().find(|(r, _)| r == &BF::K(true)) {
                diff = BF::K(false);
                for i in c.clone() {
                    if let Some(p) = comb.iter().position(|x| *x == i) {
                        comb.remove(p);
                    } else {
                        comb.push(i);
                    }
                }
            }
        }
        if diff == BF::K(false) {
            let mut x = a.clone();
            for i in comb {
                let (g, ai) = &self.basis[i];
                x = x.xor(g).xor(ai);
            }
            return x;
        }
        let g = d.fresh(1);
        self.changed += 1;
        let gb = BF::at(atom(g, 0));
        let idx = self.basis.len();
        self.basis.push((gb.clone(), a.clone()));
        comb.push(idx);
        // keep rows reduced: eliminate the new lead from the others
        let l = Self::lead(&diff);
        if l != ONE {
            for (r, c) in self.rows.iter_mut() {
                if r.atoms().binary_search(&l).is_ok() {
                    *r = r.xor(&diff);
                    for i in &comb {
                        if let Some(p) = c.iter().position(|x| x == i) {
                            c.remove(p);
                        } else {
                            c.push(*i);
                        }
                    }
                }
            }
        }
        self.rows.push((diff, comb));
        gb
    }

    /// Are both bounded by one of the slice lengths?
    fn within_len(&self, d: &mut Dom, a: &Int, b: &Int) -> bool {
        for l in self.kj.lens.clone() {
            if d.tw(l) != 64 {
                continue;
            }
            let mut ok = true;
            for (k, x) in [(self.ka, a), (self.kb, b)] {
                if ok && !(d.iv(k, 64, x).1 <= d.iv_t(k, l).0) {
                    let z = d.to_z(k, 64, x);
                    ok = Lin::t(l).add_k(&z, -1).map_or(false, |q| d.prove(k, &q));
                }
            }
            if ok {
                return true;
            }
        }
        false
    }

    pub fn join(&mut self, d: &mut Dom, w: u8, a: &Int, b: &Int) -> Int {
        if a == b {
            return a.clone();
        }
        let key = (w, a.clone(), b.clone());
        if let Some(x) = self.memo.get(&key) {
            return x.clone();
        }
        // one of them is a slice length the other one equals
        for l in self.kj.lens.clone() {
            if d.tw(l) != w {
                continue;
            }
            let len = d.mk_lin(Lin::t(l), w);
            let mut same = |k: &Know, x: &Int| {
                *x == len || {
                    let (p, q) = (d.iv(k, w, x), d.iv(k, w, &len));
                    p.0 == p.1 && p == q || d.eq(k, w, x, &len) == BF::K(true)
                }
            };
            if same(self.ka, a) && same(self.kb, b) {
                self.memo.insert(key, len.clone());
                return len;
            }
        }
        if self.widen > 60 {
            // does not stabilise: give up everything but equality of cells
            let t = d.fresh(w);
            let x = d.mk_lin(Lin::t(t), w);
            self.memo.insert(key, x.clone());
            return x;
        }
        let lin = (d.affine && w >= 32) || matches!(a, Int::L(_)) || matches!(b, Int::L(_)) || (w == 64 && self.within_len(d, a, b));
        let x = if !lin || w == 1 {
            let (ab, bb) = (d.bits(self.ka, w, a), d.bits(self.kb, w, b));
            let mut r = Vec::with_capacity(w as usize);
            for (p, q) in ab.iter().zip(&bb) {
                r.push(self.join_bit(d, p, q));
            }
            let x = d.from_bits(r);
            if w > 1 {
                if let Int::B(bs) = &x {
                    let (ia, ib) = (d.iv(self.ka, w, a), d.iv(self.kb, w, b));
                    let mut h = (ia.0.min(ib.0), ia.1.max(ib.1));
                    if self.widen > 2 {
                        h = widen_iv(ia, h, w);
                    }
                    let bi = d.bits_iv(bs);
                    if h.0 > bi.0 || h.1 < bi.1 {
                        let t = d.mk(TK::Bits(bs.clone()), w);
                        self.kj.iv.insert(t, h);
                    }
                }
            }
            x
        } else {
            self.join_lin(d, w, a, b)
        };
        self.memo.insert(key, x.clone());
        x
    }

    fn join_lin(&mut self, d: &mut Dom, w: u8, a: &Int, b: &Int) -> Int {
        let mut la = d.lin(a, w);
        let mut lb = d.lin(b, w);
        if w == 64 {
            for l in self.kj.lens.clone() {
                if d.tw(l) != w {
                    continue;
                }
                // constants in disguise
                for (k, x) in [(self.ka, &mut la), (self.kb, &mut lb)] {
                    let c = x.coef(l);
                    if c != 0 {
                        for e in k.len_eqs(d, l) {
                            if let Some(y) = e.scale(c).and_then(|e| x.without(l).add_k(&e, 1)).map(|y| y.modw(w)) {
                                if y.t.is_empty() {
                                    *x = y;
                                    break;
                                }
                            }
                        }
                    }
                }
            }
            // write a known slice length the way the other side does
            let mut cand = vec![];
            for l in self.kj.lens.clone() {
                let c = lb.coef(l) - la.coef(l);
                if c == 0 || d.tw(l) != w {
                    continue;
                }
                for e in self.ka.len_eqs(d, l) {
                    if let Some(x) = e.scale(-c).and_then(|e| la.add_k(&e, 1)).and_then(|x| x.add_k(&Lin::t(l), c)) {
                        cand.push((x.modw(w), lb.clone()));
                    }
                }
                for e in self.kb.len_eqs(d, l) {
                    if let Some(x) = e.scale(c).and_then(|e| lb.add_k(&e, 1)).and_then(|x| x.add_k(&Lin::t(l), -c)) {
                        cand.push((la.clone(), x.modw(w)));
                    }
                }
            }
            for (x, y) in &cand {
                let Some(mut dl) = y.add_k(x, -1).map(|x| x.modw(w)) else { continue };
                if dl.c != 0 {
                    dl.t.push((T::MAX, dl.c));
                    dl.c = 0;
                }
                let mut fits = true;
                for (r, p, _) in self.lrows.get(&w).map_or(&[][..], |r| &r[..]) {
                    let k = dl.coef(*p);
                    if k != 0 {
                        match dl.add_k(r, -k) {
                            Some(x) => dl = x.modw(w),
                            None => fits = false,
                        }
                    }
                }
                if fits && dl.t.is_empty() && dl.c == 0 {
                    (la, lb) = (x.clone(), y.clone());
                    break;
                }
            }
        }
        let Some(diff) = lb.add_k(&la, -1).map(|x| x.modw(w)) else {
            let t = d.fresh(w);
            return d.mk_lin(Lin::t(t), w);
        };
        if diff.c == 0 && diff.t.is_empty() {
            return d.mk_lin(la, w);
        }
        if w == 64 && !self.kj.lens.is_empty() {
            // equal to the other one's form although written differently
            let (ia, ib) = (d.mk_lin(la.clone(), w), d.mk_lin(lb.clone(), w));
            if !la.t.is_empty() && d.eq(self.kb, w, &ia, &ib) == BF::K(true) {
                return ia;
            }
            if !lb.t.is_empty() && d.eq(self.ka, w, &ia, &ib) == BF::K(true) {
                return ib;
            }
        }
        const KT: T = u32::MAX; // pseudo term for the constant
        let mut dl = diff.clone();
        let cst = dl.c;
        dl.c = 0;
        if cst != 0 {
            dl.t.push((KT, cst));
        }
        if dl.t.len() == 1 && dl.t[0].0 == KT && (w != 64 || self.kj.lens.is_empty()) {
            if let Some((p, va)) = self.pred {
                // exact selection by the predicate
                let r = if va {
                    // a where p
                    Lin::default().add_k(&lb, 1).and_then(|x| x.add_k(&Lin::t(p), -cst))
                } else {
                    la.add_k(&Lin::t(p), cst)
                };
                if let Some(r) = r {
                    return d.mk_lin(r.modw(w), w);
                }
            }
        }
        let rows = self.lrows.entry(w).or_default();
        let mut comb: Vec<(usize, i128)> = vec![];
        let mut ok = true;
        for (r, p, c) in rows.iter() {
            let k = dl.coef(*p);
            if k != 0 {
                // pivot coefficient is 1
                match dl.add_k(r, -k) {
                    Some(x) => {
                        dl = x.modw(w);
                        for (i, f) in c {
                            match f.checked_mul(k) {
                                Some(v) => {
                                    if let Some(e) = comb.iter_mut().find(|e| e.0 == *i) {
                                        e.1 += v;
                                    } else {
                                        comb.push((*i, v));
                                    }
                                }
                                None => ok = false,
                            }
                        }
                    }
                    None => ok = false,
                }
            }
        }
        if ok && dl.t.is_empty() {
            let mut x = la.clone();
            for (i, f) in comb {
                let (g, ai) = &self.lbasis[i];
                let step = g.add_k(ai, -1).and_then(|s| x.add_k(&s, f));
                match step {
                    Some(s) => x = s.modw(w),
                    None => {
                        let t = d.fresh(w);
                        return d.mk_lin(Lin::t(t), w);
                    }
                }
            }
            let r = d.mk_lin(x.clone(), w);
            // interval of the dependent cell
            if let Int::L(l) = &r {
                let (ia, ib) = (d.iv(self.ka, w, a), d.iv(self.kb, w, b));
                let mut h = (ia.0.min(ib.0), ia.1.max(ib.1));
                if self.widen > 2 {
                    h = widen_iv(ia, h, w);
                }
                if h != (0, mask(w)) {
                    let t = d.mk(TK::Lin(l.clone()), w);
                    self.kj.iv.insert(t, h);
                }
            }
            if w == 64 && !self.kj.lens.is_empty() {
                self.newsyms.push((r.clone(), w, a.clone(), b.clone()));
            }
            return r;
        }
        self.changed += 1;
        // congruence modulo 2
        let (ba, bb) = (d.bit(self.ka, w, a, 0), d.bit(self.kb, w, b, 0));
        let (ia, ib) = (d.iv(self.ka, w, a), d.iv(self.kb, w, b));
        let mut h = (ia.0.min(ib.0), ia.1.max(ib.1));
        if self.widen > 2 {
            h = widen_iv(ia, h, w);
        }
        // both are `p + 2 * half`
        if ok && comb.is_empty() && dl.t.iter().all(|(_, c)| c % 2 == 0) && la.t.iter().all(|(_, c)| c % 2 == 0) {
            let p = la.c.rem_euclid(2) as u128;
            let half = |d: &mut Dom, k: &Know, l: &Lin| -> Option<Lin> {
                let mut x = l.clone();
                x.c = (x.c - p as i128) / 2;
                x.t.iter_mut().for_each(|t| t.1 /= 2);
                // as an integer
                let (mut lo, mut hi) = (x.c, x.c);
                for (t, c) in &x.t {
                    let i = d.iv_t(k, *t);
                    let (p, q) = (c.checked_mul(i128::try_from(i.0).ok()?)?, c.checked_mul(i128::try_from(i.1).ok()?)?);
                    lo = lo.checked_add(p.min(q))?;
                    hi = hi.checked_add(p.max(q))?;
                }
                (lo >= 0 && hi <= mask(w - 1) as i128).then_some(x)
            };
            if let (Some(x), Some(y)) = (half(d, self.ka, &la), half(d, self.kb, &lb)) {
                let (lo, hi) = ((h.0 + 1 - p) / 2, if h.1 >= p { (h.1 - p) / 2 } else { 0 });
                let g = d.fresh(w - 1);
                if (lo, hi) != (0, mask(w - 1)) && lo <= hi {
                    self.kj.iv.insert(g, (lo, hi));
                }
                if let Some(row) = y.add_k(&x, -1) {
                    if let Some((pv, c)) = row.t.iter().cloned().chain((row.c != 0).then_some((KT, row.c))).rev().find(|(_, c)| c.abs() == 1) {
                        let idx = self.lbasis.len();
                        self.lbasis.push((Lin::t(g), x));
                        let mut r = row.clone();
                        r.c = 0;
                        if row.c != 0 {
                            r.t.push((KT, row.c));
                        }
                        self.lrows.get_mut(&w).unwrap().push((r.scale(c).unwrap().modw(w), pv, vec![(idx, c)]));
                    }
                }
                let r = d.mk_lin(Lin { c: p as i128, t: vec![(g, 2)] }, w);
                self.newsyms.push((r.clone(), w, a.clone(), b.clone()));
                return r;
            }
        }
        let xl = match (ba.konst(), bb.konst()) {
            (Some(p), Some(q)) if p == q => {
                let g = d.fresh(w - 1);
                let lo = (h.0 + 1 - p as u128) / 2;
                let hi = if h.1 >= p as u128 { (h.1 - p as u128) / 2 } else { 0 };
                if (lo, hi) != (0, mask(w - 1)) && lo <= hi {
                    self.kj.iv.insert(g, (lo, hi));
                }
                let x = Lin { c: p as i128, t: vec![(g, 2)] };
                self.newsyms.push((Int::L(Rc::new(x.clone())), w, a.clone(), b.clone()));
                x
            }
            _ => {
                let g = d.fresh(w);
                if h != (0, mask(w)) {
                    self.kj.iv.insert(g, h);
                }
                self.newsyms.push((Int::L(Rc::new(Lin::t(g))), w, a.clone(), b.clone()));
                Lin::t(g)
            }
        };
        // add row if it has a unit pivot
        let rows = self.lrows.get_mut(&w).unwrap();
        if ok {
            if let Some((p, c)) = dl.t.iter().rev().find(|(_, c)| c.abs() == 1).cloned() {
                let idx = self.lbasis.len();
                self.lbasis.push((xl.clone(), la.clone()));
                // dl = diff - sum comb  =>  row = c * dl (c = +-1), expressed by c * (idx - comb)
                let row = dl.scale(c).unwrap().modw(w);
                let mut rc: Vec<(usize, i128)> = comb.iter().map(|(i, f)| (*i, -f * c)).collect();
                rc.push((idx, c));
                rows.push((row, p, rc));
            }
        }
        d.mk_lin(xl, w)
    }
}

impl Know {
    /// What a slice length is known to be equal to.
    fn len_eqs(&self, d: &Dom, l: T) -> Vec<Lin> {
        let i = d.iv_t(self, l);
        if i.0 == i.1 {
            return vec![Lin { c: i.0 as i128, t: vec![] }];
        }
        let mut r = vec![];
        for e in &self.ineq {
            let c = e.coef(l);
            if c == 1 {
                if let Some(n) = e.scale(-1) {
                    if self.ineq.contains(&n) {
                        r.extend(e.without(l).scale(-1));
                    }
                }
            }
        }
        r
    }
}

pub fn widen_iv(a: (u128, u128), h: (u128, u128), w: u8) -> (u128, u128) {
    let lo = if h.0 < a.0 { 0 } else { h.0 };
    let hi = if h.1 > a.1 {
        let mut k = 1u32;
        let bl = 128 - h.1.leading_zeros();
        for c in [4u32, 8, 16, 32, 64] {
            if c >= bl {
                k = c;
                break;
            }
        }
        mask(k as u8).min(mask(w)).max(h.1)
    } else {
        h.1
    };
    (lo, hi)
}
