//! Vocabulary of the analysis roots. The analyser interprets these functions
//! abstractly; their bodies are never used.

/// Any value of the type.
#[inline(never)]
pub fn any<T>() -> T {
    loop {}
}
/// Any integer in lo..=hi (no value if lo > hi).
#[inline(never)]
pub fn any_in(_lo: u64, _hi: u64) -> u64 {
    loop {}
}
/// A slice of unknown length with unknown elements.
#[inline(never)]
pub fn any_slice<T>() -> &'static [T] {
    loop {}
}
/// Continue only where the condition holds.
#[inline(never)]
pub fn assume(_c: bool) {}
/// Obligation: the condition holds in every state that gets here.
#[inline(never)]
pub fn require(_c: bool, _msg: &'static str) {}
/// Loop condition of a history loop: unknown, analysed by fixpoint iteration.
#[inline(never)]
pub fn history() -> bool {
    true
}
/// Frequency range parameter of this analysis, split adaptively by the analyser.
#[inline(never)]
pub fn frequency(_lo: u32, _hi: u32) -> u32 {
    0
}
/// The same, but not split before that is needed.
#[inline(never)]
pub fn frequency_whole(_lo: u32, _hi: u32) -> u32 {
    0
}
/// Everything between enter and leave has to have a bounded number of steps.
#[inline(never)]
pub fn bounded_enter() {}
#[inline(never)]
pub fn bounded_leave() {}
/// Words of this root are counters: the analyser keeps affine relations between
/// them instead of partitioning by their values.
#[inline(never)]
pub fn affine() {}
/// Paths are joined only at the head of a history loop.
#[inline(never)]
pub fn paths() {}
/// Marks a point that has to be reachable (guards against vacuous proofs).
#[inline(never)]
pub fn reached(_msg: &'static str) {}
#[inline(never)]
pub fn show<T>(_v: &T) {}
/// The two objects are in the same state, private parts included.
#[inline(never)]
pub fn same<T>(_a: &T, _b: &T) -> bool {
    true
}
