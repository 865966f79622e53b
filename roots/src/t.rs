//! Self-test of the analyser: common `core` APIs a refactored library may use.
//! Every root has to pass.  (Feature c99; not part of any property.)
use crate::vs::*;
use core::ops::{ControlFlow, RangeInclusive};
fn x() -> u32 {
    any()
}
fn y() -> u8 {
    any()
}
pub fn c99_ord() {
    let (a, b) = (x(), x());
    require(a.min(b) <= a && a.max(b) >= b, "minmax");
    require(core::cmp::min(a, b) <= b, "cmp::min");
    require(core::cmp::max(a, 7) >= 7, "cmp::max");
    let c = a.clamp(10, 20);
    require(c >= 10 && c <= 20, "clamp");
    let d = a.abs_diff(b);
    require(if a > b { d == a - b } else { d == b - a }, "abs_diff");
    match a.cmp(&b) {
        core::cmp::Ordering::Less => require(a < b, "lt"),
        core::cmp::Ordering::Equal => require(a == b, "eq"),
        core::cmp::Ordering::Greater => require(a > b, "gt"),
    }
    require(a.cmp(&b).reverse() == b.cmp(&a), "reverse");
    require(a.partial_cmp(&b).is_some(), "partial");
    require((a, b) <= (a, u32::MAX), "tuple");
}
pub fn c99_checked() {
    let (a, b) = (x(), x());
    if let Some(s) = a.checked_add(b) {
        require(s >= a, "add");
    }
    if let Some(s) = a.checked_sub(b) {
        require(a >= b && s == a - b, "sub");
    } else {
        require(a < b, "sub none");
    }
    let _ = a.checked_mul(b);
    require(a.checked_div(0).is_none(), "div");
    require(a.checked_rem(3).is_some(), "rem");
    require(a.checked_shl(32).is_none(), "shl");
    require(a.checked_shr(31).is_some(), "shr");
    require(a.saturating_add(b) >= a, "sat");
    require(a.saturating_sub(b) <= a, "satsub");
    let _ = a.saturating_mul(b);
    require(a.wrapping_add(1).wrapping_sub(1) == a, "wrap");
    let (s, o) = a.overflowing_add(b);
    require(!o == (s >= a), "over");
    let _ = a.overflowing_sub(b);
    let _ = a.overflowing_mul(b);
    let _ = a.wrapping_mul(b);
    let _ = a.wrapping_neg();
    let _ = a.wrapping_shl(b);
    let _ = a.wrapping_shr(b);
    let _ = a.checked_next_multiple_of(8);
    let _ = a.div_ceil(3);
    let _ = (a as u64).pow(2);
    let _ = 3u32.pow(4);
    let _ = a.checked_pow(2);
    require(a.div_euclid(4) == a / 4, "div_euclid");
    require(a.rem_euclid(4) < 4, "rem_euclid");
}
pub fn c99_bits() {
    let a = x();
    let b = a.to_le_bytes();
    require(u32::from_le_bytes(b) == a, "le");
    require(a.to_be_bytes()[0] == b[3], "be");
    require(u32::from_be_bytes(a.to_be_bytes()) == a, "be2");
    require(a.swap_bytes().swap_bytes() == a, "swap");
    require(a.reverse_bits().reverse_bits() == a, "rev");
    require(a.rotate_left(8).rotate_right(8) == a, "rot");
    require(a.leading_zeros() <= 32, "lz");
    require(a.trailing_zeros() <= 32, "tz");
    require(a.is_power_of_two() == (a.count_ones() == 1), "p2");
    require((a & 0xff) as u8 == a as u8, "trunc");
    require(u8::try_from(a & 0xff).is_ok(), "try_from");
    require(u8::try_from(a | 0x100).is_err(), "try_from");
    require(u16::from(y()) < 256, "from");
    let c: u16 = y().into();
    require(c < 256, "into");
    require((y() as i8 as i32) < 128, "signed");
    require(u8::from(a > 3) < 2, "bool");
    require(u32::from(true) == 1, "bool");
    require((a != 0).then(|| 1).is_some() == (a != 0), "then");
    require((a != 0).then_some(1).is_some() == (a != 0), "then_some");
    require(true ^ (a == 0) == (a != 0), "xor");
    let z = !a;
    require(z ^ a == u32::MAX, "not");
    let i = a as i32;
    let _ = i.abs_diff(3);
    let _ = i.wrapping_abs();
    let _ = i.signum();
    let _ = i.checked_abs();
    let _ = i.is_negative();
    let _ = i.unsigned_abs();
    let _ = (i as i64 - 3).rem_euclid(5);
}
pub fn c99_option() {
    let o: Option<u32> = any();
    let p: Option<u32> = any();
    let m = o.map(|v| v & 1);
    require(m.unwrap_or(0) < 2, "map");
    require(o.map_or(0, |v| v & 3) < 4, "map_or");
    require(o.map_or_else(|| 0, |v| v & 3) < 4, "map_or_else");
    require(o.is_some() != o.is_none(), "is");
    require(o.and_then(|v| v.checked_sub(1)).map_or(true, |v| v < u32::MAX), "and_then");
    require(o.or(Some(1)).is_some(), "or");
    require(o.or_else(|| Some(1)).is_some(), "or_else");
    require(o.xor(p).is_some() == (o.is_some() != p.is_some()), "xor");
    require(o.and(p).is_none() || o.is_some(), "and");
    require(o.filter(|v| *v > 4).map_or(true, |v| v > 4), "filter");
    require(o.unwrap_or_default() == o.unwrap_or(0), "default");
    require(o.unwrap_or_else(|| 3) == o.unwrap_or(3), "else");
    require(o.ok_or(1u8).is_ok() == o.is_some(), "ok_or");
    require(o.ok_or_else(|| 1u8).is_err() == o.is_none(), "ok_or_else");
    require(o.zip(p).is_some() == (o.is_some() && p.is_some()), "zip");
    require(o.is_some_and(|v| v > 3) == matches!(o, Some(v) if v > 3), "some_and");
    require(o.is_none_or(|v| v > 3) == !matches!(o, Some(v) if v <= 3), "none_or");
    let mut q = o;
    let t = q.take();
    require(q.is_none() && t == o, "take");
    require(q.get_or_insert(5) == &5, "goi");
    require(q.replace(3) == Some(5), "replace");
    require(*q.insert(9) == 9, "insert");
    require(q.as_ref().map(|v| *v) == Some(9), "as_ref");
    if let Some(v) = q.as_mut() {
        *v = 1;
    }
    require(q == Some(1), "as_mut");
    require(q.iter().count() == 1, "iter");
    for v in q {
        require(v == 1, "into_iter");
    }
    require(Some(o).flatten() == o, "flatten");
    require(o.as_ref().copied() == o, "copied");
    require(o.as_ref().cloned() == o, "cloned");
    let r: Result<Option<u32>, u8> = o.map(Ok).transpose();
    require(r == Ok(o), "transpose");
    require(o.inspect(|_| ()).is_some() == o.is_some(), "inspect");
    fn f(o: Option<u32>) -> Option<u32> {
        Some(o? & 1)
    }
    require(f(o).map_or(true, |v| v < 2), "?");
    if let (Some(a), Some(b)) = (o, p) {
    }
    let Some(_v) = o else { return };
    reached("end");
}
pub fn c99_result() {
    let r: Result<u32, u8> = if any() { Ok(x()) } else { Err(y()) };
    require(r.ok().is_some() == r.is_ok(), "ok");
    require(r.err().is_some() == r.is_err(), "err");
    require(r.map(|v| v & 1).unwrap_or(0) < 2, "map");
    require(r.map_err(|_| ()).is_err() == r.is_err(), "map_err");
    require(r.and_then(|v| if v > 1 { Ok(v) } else { Err(0) }).map_or(true, |v| v > 1), "and_then");
    require(r.or_else(|_| Ok::<u32, ()>(1)).is_ok(), "or_else");
    require(r.unwrap_or_else(|e| e as u32) == r.unwrap_or_else(u32::from), "fn");
    require(r.unwrap_or_default() == r.ok().unwrap_or(0), "d");
    require(r.iter().count() < 2, "iter");
    require(r.is_ok_and(|v| v == 1) == (r == Ok(1)), "is_ok_and");
    fn f(r: Result<u32, u8>) -> Result<u32, u16> {
        let v = r?;
        Ok(v)
    }
    require(f(r).is_ok() == r.is_ok(), "?");
    let t: Option<Result<u32, u8>> = r.map(Some).transpose();
    require(t.is_some(), "t");
}
pub fn c99_iter() {
    let a = [x() & 7, x() & 7, x() & 7, x() & 7];
    require(a.iter().sum::<u32>() <= 28, "sum");
    require(a.iter().copied().max().is_some(), "max");
    require(a.iter().min().is_some(), "min");
    require(a.iter().all(|v| *v < 8), "all");
    require(!a.iter().any(|v| *v > 7), "any");
    require(a.iter().map(|v| v + 1).all(|v| v > 0), "map");
    require(a.iter().rev().zip(a.iter()).count() == 4, "zip");
    require(a.iter().enumerate().all(|(i, v)| i < 4 && *v < 8), "enum");
    require(a.iter().fold(0, |s, v| s + v) == a[0] + a[1] + a[2] + a[3], "fold");
    require(a.iter().skip(1).count() == 3, "skip");
    require(a.iter().take(2).count() == 2, "take");
    require(a.iter().step_by(2).count() == 2, "step");
    require(a.iter().filter(|v| **v > 3).count() <= 4, "filter");
    require(a.iter().position(|v| *v == 9).is_none(), "position");
    require(a.iter().find(|v| **v == 9).is_none(), "find");
    require(a.iter().find_map(|v| v.checked_sub(9)).is_none(), "find_map");
    require(a.iter().filter_map(|v| v.checked_sub(9)).next().is_none(), "filter_map");
    require(a.iter().take_while(|v| **v < 8).count() == 4, "take_while");
    require(a.iter().skip_while(|v| **v < 8).next().is_none(), "skip_while");
    require(a.iter().chain(a.iter()).count() == 8, "chain");
    require(a.iter().last() == Some(&a[3]), "last");
    require(a.iter().nth(2) == Some(&a[2]), "nth");
    require(a.iter().cycle().take(9).count() == 9, "cycle");
    require(a.into_iter().product::<u32>() < 10000, "product");
    require(a.iter().scan(0, |s, v| { *s += v; Some(*s) }).last().is_some(), "scan");
    require(a.iter().try_fold(0u8, |s, v| s.checked_add(*v as u8)).is_some(), "try_fold");
    require(a.iter().flat_map(|v| [*v, 1]).count() == 8, "flat_map");
    require(a.iter().peekable().peek().is_some(), "peek");
    require(a.iter().cloned().eq(a), "eq");
    require(a.windows(2).count() == 3, "windows");
    require(a.chunks(2).count() == 2, "chunks");
    require(a.chunks_exact(2).count() == 2, "chunks_exact");
    require(a.iter().max_by_key(|v| **v).is_some(), "mbk");
    require(a.iter().partition_in() < 5, "none");
    a.iter().for_each(|v| require(*v < 8, "for_each"));
    let mut n = 0;
    for i in (0..4).rev() {
        n += a[i];
    }
    require(n <= 28, "rev range");
    for i in (0..=3).step_by(2) {
        require(a[i] < 8, "step");
    }
    let mut it = a.iter();
    while let Some(v) = it.next() {
        require(*v < 8, "while let");
    }
    require(it.len() == 0 && it.as_slice().is_empty(), "len");
    require((0..10).contains(&3), "range");
    let r: RangeInclusive<u32> = 3..=5;
    require(*r.start() == 3 && r.contains(&5) && !r.is_empty(), "ri");
    require((1..=4u32).sum::<u32>() == 10, "sum");
    require((0..3).map(|i| 1 << i).sum::<u32>() == 7, "map");
    require(core::iter::repeat(3).take(2).sum::<u32>() == 6, "repeat");
    require(core::iter::once(3).chain([4]).sum::<u32>() == 7, "once");
    require(core::iter::successors(Some(1u32), |v| v.checked_mul(16)).count() == 8, "succ");
    let mut k = 0;
    require(core::iter::from_fn(|| { k += 1; if k < 4 { Some(k) } else { None } }).count() == 3, "from_fn");
    require(core::iter::zip([1, 2], [3, 4]).count() == 2, "zip fn");
    let c = a.iter().try_for_each(|v| if *v > 8 { ControlFlow::Break(()) } else { ControlFlow::Continue(()) });
    require(c.is_continue(), "cf");
    require([1, 2].into_iter().map_while(|v| if v < 2 { Some(v) } else { None }).count() == 1, "mw");
    require([1, 2].iter().reduce(|a, _| a) == Some(&1), "reduce");
    require([2, 1].iter().min_by(|a, b| a.cmp(b)) == Some(&1), "min_by");
    require([1, 2].iter().rposition(|v| *v == 1) == Some(0), "rposition");
    require(!(0u32..0).any(|_| true), "empty");
}
trait P {
    fn partition_in(self) -> usize;
}
impl<'a, I: Iterator<Item = &'a u32>> P for I {
    fn partition_in(self) -> usize {
        self.map(|v| (*v > 3) as usize).sum()
    }
}
pub fn c99_slice() {
    let mut a = [1u32, 2, 3, 4, 5];
    let i = x() as usize;
    require(a.get(i).is_some() == (i < 5), "get");
    if let Some(v) = a.get_mut(i) {
        *v = 9;
    }
    let s = &a[..];
    require(s.first().is_some() && s.last().is_some(), "first");
    require(s.len() == 5 && !s.is_empty(), "len");
    let (l, r) = s.split_at(2);
    require(l.len() == 2 && r.len() == 3, "split_at");
    require(s.split_first().map_or(0, |(_, r)| r.len()) == 4, "split_first");
    require(s.split_last().map_or(0, |(_, r)| r.len()) == 4, "split_last");
    require(s.get(1..3).is_some() && s.get(1..8).is_none(), "get range");
    require(s[1..].len() == 4 && s[..=2].len() == 3 && s[1..4].len() == 3, "index range");
    let mut b = [0u32; 5];
    b.copy_from_slice(s);
    require(b == a && &b[..] == s, "copy");
    b[1..3].fill(7);
    require(b[1] == 7 && b[2] == 7, "fill");
    b.swap(0, 4);
    b.reverse();
    require(b.contains(&7), "contains");
    require(b.starts_with(&[]), "starts");
    b.rotate_left(1);
    require([1, 2].map(|v| v + 1) == [2, 3], "map");
    let f: [u32; 3] = core::array::from_fn(|i| i as u32);
    require(f == [0, 1, 2], "from_fn");
    for v in b.iter_mut() {
        *v = 2;
    }
    for v in &mut b {
        *v += 1;
    }
    require(b == [3; 5], "iter_mut");
    let t: [u32; 2] = <[u32; 2]>::try_from(&b[..2]).unwrap();
    require(t == [3, 3], "try_from");
    if let [p, q, ..] = &b[..] {
        require(p == q, "pattern");
    }
    if let [p, rest @ ..] = s {
        require(*p <= 9 && rest.len() == 4, "pattern");
    }
    match b {
        [3, _, m, .., e] => require(m == e, "array pattern"),
        _ => require(false, "pattern"),
    }
    let mut k = 0;
    for c in b.chunks_mut(2) {
        c[0] = k;
        k += 1;
    }
    require(b[4] == 2, "chunks_mut");
    require(b.binary_search(&77).is_err(), "search");
    let (h, t) = b.split_at_mut(3);
    h[0] = t[0];
    b[..2].clone_from_slice(&[4, 4]);
    require(b[1] == 4, "clone_from");
    b.copy_within(0..1, 3);
    require(b[3] == 4, "within");
}
pub fn c99_anyslice() {
    let s: &'static [u32] = any_slice();
    if let Some((f, r)) = s.split_first() {
        require(r.len() < s.len(), "len");
        let _ = f;
    }
    let mut i = 0;
    while let Some(v) = s.get(i) {
        i += 1;
        let _ = v;
    }
    let mut p = 0usize;
    while history() {
        match s.get(p) {
            Some(_) => p += 1,
            None => require(p == s.len(), "at end"),
        }
    }
}
pub fn c99_iterstate() {
    let s: &'static [u32] = any_slice();
    let mut it = s.iter();
    let mut e = s.iter().enumerate();
    let mut r = s.iter().copied();
    let mut done = false;
    while history() {
        let n = it.next();
        require(!done || n.is_none(), "fused");
        done = n.is_none();
        let _ = e.next();
        let _ = r.next();
        require(it.len() <= s.len(), "len");
    }
}
pub fn c99_mem() {
    let mut a = x();
    let b = core::mem::replace(&mut a, 3);
    let c = core::mem::take(&mut a);
    require(c == 3 && a == 0, "take");
    let mut d = b;
    core::mem::swap(&mut a, &mut d);
    require(a == b && d == 0, "swap");
    require(core::mem::size_of::<u32>() == 4, "size");
    let e = core::mem::discriminant(&Some(1)) == core::mem::discriminant(&Some(2));
    require(e, "discr");
    drop(a);
    let w = core::num::Wrapping(x());
    let v = w - core::num::Wrapping(1) + core::num::Wrapping(1);
    require(v.0 == w.0, "wrapping");
    let cell = core::cell::Cell::new(1);
    cell.set(2);
    require(cell.get() == 2, "cell");
    let nz = core::num::NonZeroU32::new(x());
    if let Some(n) = nz {
        require(n.get() > 0, "nz");
    }
    let s = core::num::Saturating(3u8) + core::num::Saturating(255);
    require(s.0 == 255, "saturating");
    let t: (u32, bool) = Default::default();
    require(t == (0, false), "default");
    let z = core::convert::identity(3);
    require(z == 3, "id");
}
pub fn c99_dyn() {
    fn add(v: u32) -> u32 {
        v & 3
    }
    let f: fn(u32) -> u32 = add;
    require(f(x()) < 4, "fn ptr");
    let t: [fn(u32) -> u32; 2] = [add, |v| v & 1];
    for g in t {
        require(g(x()) < 4, "table");
    }
    let k = x();
    let h = |v: u32| v.wrapping_add(k);
    fn imp() -> impl Iterator<Item = u32> {
        (0..3).map(|v| v * 2)
    }
    require(imp().sum::<u32>() == 6, "impl");
    fn rec(n: u32) -> u32 {
        if n == 0 { 0 } else { 1 + rec(n - 1) }
    }
    require(rec(5) == 5, "recursion");
}
pub fn c99_lit() {
    const T: [(u32, &str); 3] = [(1, "a"), (2, "b"), (3, "c")];
    static S: [u8; 3] = [1, 2, 3];
    let k = x();
    let f = T.iter().find(|(v, _)| *v == k).map(|(_, s)| *s);
    require(f.is_none() || k <= 3, "table");
    require("abc".len() == 3 && "a" != "b", "str");
    require(S.iter().map(|v| *v as u32).sum::<u32>() == 6, "static");
    match (k, "x") {
        (0..=9, "x") => require(k < 10, "range pattern"),
        (n @ 10..=99, _) => require(n > 9, "bind"),
        _ => require(k > 99, "rest"),
    }
    let c = 'a';
    require(c.is_ascii_alphabetic(), "char");
    let l = 'o: loop {
        loop {
            break 'o 4;
        }
    };
    require(l == 4, "label");
    let v = { if k > 4 { 1 } else { 2 } };
    require(matches!(v, 1 | 2), "matches");
    debug_assert!(v < 3, "v {}", v);
    assert_eq!(v * 0, 0);
    assert!(v != 0);
}
pub fn c99_generic() {
    #[derive(Clone, Copy, PartialEq, Eq, Debug, Default, PartialOrd, Ord, Hash)]
    enum E {
        #[default]
        A,
        B(u8),
        C { v: u32 },
    }
    let e = if any() { E::B(y()) } else if any() { E::C { v: x() } } else { E::default() };
    let f = e.clone();
    require(e == f, "eq");
    require(e <= f, "ord");
    require(!matches!(e, E::A) || e < E::B(0), "derive ord");
    struct S<const N: usize, T> {
        a: [T; N],
    }
    impl<const N: usize, T: Copy + Into<u32>> S<N, T> {
        const LEN: u32 = N as u32 * 2;
        fn total(&self) -> u32 {
            self.a.iter().map(|v| (*v).into() & 1).sum()
        }
    }
    let s = S::<3, u8> { a: [y(), y(), y()] };
    require(s.total() <= 3 && S::<3, u8>::LEN == 6, "generic");
    let i: isize = -3;
    require(i.rem_euclid(2) == 1, "isize");
    let u = (i as usize).wrapping_add(3);
    require(u == 0, "usize");
}
pub fn c99_s1() {
    let mut a = [1u32, 2, 3, 4, 5];
    let i = x() as usize;
    if let Some(v) = a.get_mut(i) {
        *v = 9;
    }
    reached("x");
}
pub fn c99_s2() {
    let mut a = [1u32, 2, 3, 4, 5];
    let i = x() as usize;
    if i < 5 {
        a[i] = 3;
        let r = &a[i];
        require(*r == 3, "3");
    }
    reached("x");
}
pub fn c99_s4() {
    let s: &'static [u32] = any_slice();
    let mut i = 0;
    while let Some(v) = s.get(i) {
        i += 1;
        let _ = v;
    }
    require(i == s.len(), "len");
}
pub fn c99_s5() {
    let s: &'static [u32] = any_slice();
    if let Some((_, r)) = s.split_first() {
        require(r.len() < s.len(), "len");
    }
}
