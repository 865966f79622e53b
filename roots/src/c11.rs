//! C11: all receiver entry points feed the decoder the same way.
use crate::mock::*;
use crate::vs::*;
use infrared::receiver::time::InfraMonotonic;
use infrared::receiver::{DecoderBuilder, NoPin, ProtocolDecoder, Receiver, State};

/// Time types: any instant and what lies between two of them.
pub trait Clock: InfraMonotonic {
    fn at(n: u64) -> Self::Instant;
    fn span(n: u64) -> Self::Duration;
    const MAX: u64;
    /// A time not before (or else: before) t0, and the ticks in between (zero).
    fn next(t0: Self::Instant, forward: bool) -> (Self::Instant, u64);
}
impl Clock for u32 {
    fn at(n: u64) -> u32 {
        n as u32
    }
    fn span(n: u64) -> u32 {
        n as u32
    }
    const MAX: u64 = u32::MAX as u64;
    fn next(t0: u32, forward: bool) -> (u32, u64) {
        let t: u32 = any();
        if forward {
            assume(t >= t0);
            (t, (t - t0).n())
        } else {
            assume(t < t0);
            (t, 0)
        }
    }
}
impl Clock for u64 {
    fn at(n: u64) -> u64 {
        n
    }
    fn span(n: u64) -> u64 {
        n
    }
    const MAX: u64 = u64::MAX;
    fn next(t0: u64, forward: bool) -> (u64, u64) {
        let t: u64 = any();
        if forward {
            assume(t >= t0);
            (t, (t - t0).n())
        } else {
            assume(t < t0);
            (t, 0)
        }
    }
}
impl<const D: u32> Clock for fugit::Instant<u32, 1, D> {
    fn at(n: u64) -> Self {
        fugit::Instant::<u32, 1, D>::from_ticks(n as u32)
    }
    fn span(n: u64) -> fugit::Duration<u32, 1, D> {
        fugit::Duration::<u32, 1, D>::from_ticks(n as u32)
    }
    // (later than zero: fugit compares modulo the clock's range)
    const MAX: u64 = i32::MAX as u64;
    fn next(t0: Self, forward: bool) -> (Self, u64) {
        let d: u32 = any();
        let t = fugit::Instant::<u32, 1, D>::from_ticks(t0.ticks().wrapping_add(d));
        if forward {
            assume(d <= i32::MAX as u32);
            (t, d as u64)
        } else {
            assume(d > i32::MAX as u32);
            (t, 0)
        }
    }
}
impl<const D: u32> Clock for fugit::Instant<u64, 1, D> {
    fn at(n: u64) -> Self {
        fugit::Instant::<u64, 1, D>::from_ticks(n)
    }
    fn span(n: u64) -> fugit::Duration<u64, 1, D> {
        fugit::Duration::<u64, 1, D>::from_ticks(n)
    }
    const MAX: u64 = i64::MAX as u64;
    fn next(t0: Self, forward: bool) -> (Self, u64) {
        let d: u64 = any();
        let t = fugit::Instant::<u64, 1, D>::from_ticks(t0.ticks().wrapping_add(d));
        if forward {
            assume(d <= i64::MAX as u64);
            (t, d as u64)
        } else {
            assume(d > i64::MAX as u64);
            (t, 0)
        }
    }
}
fn fed<const ID: usize>(edge: bool, dt: u64) {
    let l = log::<ID>();
    require(l.events == 1, "the decoder gets exactly one event");
    require(l.edge == edge, "the decoder gets the edge");
    require(l.dt == dt, "the decoder gets the duration");
}
/// Calls of any entry points, with any answers.
fn history_nopin<M: Clock>(r: &mut Receiver<Mock<0>, NoPin, M, Wrapped>)
where
    M::Duration: Dur,
{
    while history() {
        answers(|a, c| {
            prepare::<0>(a, c);
            if any() {
                let _ = r.event(M::span(any_in(0, M::MAX)), any());
            } else {
                let _ = r.event_instant(M::at(any_in(0, M::MAX)), any());
            }
        });
    }
}
pub fn durations<M: Clock>()
where
    M::Duration: Dur,
{
    let mut r: Receiver<Mock<0>, NoPin, M, Wrapped> = Receiver::new(any());
    history_nopin(&mut r);
    answers(|a, c| {
        prepare::<0>(a, c);
        let (dt, edge) = (any_in(0, M::MAX), any());
        let res = r.event(M::span(dt), edge);
        fed::<0>(edge, dt);
        judge::<0, Wrapped>(a, c, res);
    });
    answers(|a, c| {
        prepare::<0>(a, c);
        let (dt, edge) = (any_in(0, M::MAX), any());
        let res = r.event_edge(M::span(dt), edge);
        fed::<0>(edge, dt);
        judge::<0, Wrapped>(a, c, res);
    });
}
/// Two time stamps, with any number of plain durations in between.
pub fn instants<M: Clock>()
where
    M::Duration: Dur,
{
    let mut r: Receiver<Mock<0>, NoPin, M, Wrapped> = Receiver::new(any());
    // the first time stamp counts from zero
    if any() {
        let (t, edge) = (any_in(0, M::MAX), any());
        let _ = r.event_instant(M::at(t), edge);
        require(log::<0>().dt == t, "the first time stamp counts from zero");
        return;
    }
    history_nopin(&mut r);
    let t0: M::Instant = any();
    answers(|a, c| {
        prepare::<0>(a, c);
        let _ = r.event_instant(t0, any());
    });
    while history() {
        answers(|a, c| {
            prepare::<0>(a, c);
            let _ = r.event(M::span(any_in(0, M::MAX)), any());
        });
    }
    answers(|a, c| {
        prepare::<0>(a, c);
        let edge: bool = any();
        if any() {
            let (t, dt) = M::next(t0, true);
            let res = r.event_instant(t, edge);
            fed::<0>(edge, dt);
            judge::<0, Wrapped>(a, c, res);
        } else {
            let (t, dt) = M::next(t0, false);
            let res = r.event_instant(t, edge);
            fed::<0>(edge, dt);
            judge::<0, Wrapped>(a, c, res);
        }
    });
}
/// Pin receivers: pin low is true.
pub fn pins<M: Clock>()
where
    M::Duration: Dur,
{
    let mut r: Receiver<Mock<0>, MockPin, M, Wrapped> = Receiver::with_pin(any(), MockPin { tag: any() });
    while history() {
        answers(|a, c| {
            prepare::<0>(a, c);
            set_pin(any());
            if any() {
                let _ = r.event(M::span(any_in(0, M::MAX)));
            } else {
                let _ = r.event_instant(M::at(any_in(0, M::MAX)));
            }
        });
    }
    let low: bool = any();
    answers(|a, c| {
        prepare::<0>(a, c);
        set_pin(Ok(low));
        let dt = any_in(0, M::MAX);
        let res = r.event(M::span(dt));
        fed::<0>(low, dt);
        judge_pin::<0, Wrapped>(a, c, res);
    });
    let t0: M::Instant = any();
    answers(|a, c| {
        prepare::<0>(a, c);
        set_pin(Ok(any()));
        let _ = r.event_instant(t0);
    });
    // durations and broken pins do not move the time reference
    while history() {
        answers(|a, c| {
            prepare::<0>(a, c);
            if any() {
                set_pin(any());
                let _ = r.event(M::span(any_in(0, M::MAX)));
            } else {
                set_pin(Err(any()));
                let _ = r.event_instant(M::at(any_in(0, M::MAX)));
            }
        });
    }
    answers(|a, c| {
        prepare::<0>(a, c);
        set_pin(Ok(low));
        if any() {
            let (t, dt) = M::next(t0, true);
            let res = r.event_instant(t);
            fed::<0>(low, dt);
            judge_pin::<0, Wrapped>(a, c, res);
        } else {
            let (t, dt) = M::next(t0, false);
            let res = r.event_instant(t);
            fed::<0>(low, dt);
            judge_pin::<0, Wrapped>(a, c, res);
        }
    });
}
/// The decoder's own one-call interface.
pub fn total() {
    let mut d = <Mock<0> as DecoderBuilder<u32>>::build(any());
    answers(|a, c| {
        prepare::<0>(a, c);
        let (dt, edge): (u32, bool) = (any(), any());
        let res = ProtocolDecoder::<Mock<0>, u32>::event_total(&mut d, edge, dt);
        fed::<0>(edge, dt as u64);
        judge::<0, MockCmd<0>>(a, c, res);
    });
}
pub fn c11_durations_u32() {
    durations::<u32>()
}
pub fn c11_durations_u64() {
    durations::<u64>()
}
pub fn c11_instants_u32() {
    instants::<u32>()
}
pub fn c11_instants_u64() {
    instants::<u64>()
}
pub fn c11_pins_u32() {
    pins::<u32>()
}
pub fn c11_pins_u64() {
    pins::<u64>()
}
pub fn c11_total() {
    total()
}
pub fn c11_instants_fugit32() {
    instants::<fugit::TimerInstantU32<1_000_000>>()
}
pub fn c11_instants_fugit64() {
    instants::<fugit::TimerInstantU64<1_000_000>>()
}
pub fn c11_pins_fugit32() {
    pins::<fugit::TimerInstantU32<40_000>>()
}
