//! Helpers shared by the property roots.
use crate::vs::*;
use infrared::receiver::time::InfraMonotonic;
use infrared::receiver::{DecoderBuilder, DecodingError, NoPin};
use infrared::Receiver;

/// Time types under analysis: a duration of a number of ticks.
pub trait Time: InfraMonotonic {
    fn ticks(n: u64) -> Self::Duration;
}
impl Time for u32 {
    fn ticks(n: u64) -> u32 {
        n as u32
    }
}
impl Time for u64 {
    fn ticks(n: u64) -> u64 {
        n
    }
}
impl<const D: u32> Time for fugit::Instant<u32, 1, D> {
    fn ticks(n: u64) -> fugit::Duration<u32, 1, D> {
        fugit::Duration::<u32, 1, D>::from_ticks(n as u32)
    }
}
impl<const D: u32> Time for fugit::Instant<u64, 1, D> {
    fn ticks(n: u64) -> fugit::Duration<u64, 1, D> {
        fugit::Duration::<u64, 1, D>::from_ticks(n)
    }
}

/// A pulse within `pct` per cent of `us` microseconds at `f` ticks per second,
/// rounded to whole ticks inwards.
pub fn pulse<M: Time>(f: u32, us: u32, pct: u32) -> M::Duration {
    let f = f as u64;
    let lo = (f * (us * (100 - pct)) as u64 + 99_999_999) / 100_000_000;
    let hi = (f * (us * (100 + pct)) as u64) / 100_000_000;
    M::ticks(any_in(lo, hi))
}
/// A duration of at least `us` microseconds.
pub fn at_least<M: Time>(f: u32, us: u32, max: u64) -> M::Duration {
    let lo = (f as u64 * us as u64 + 999_999) / 1_000_000;
    M::ticks(any_in(lo, max))
}

/// The receiver under analysis: any decoder behind the event interface.
pub struct Rx<P: DecoderBuilder<M>, M: InfraMonotonic> {
    r: Receiver<P, NoPin, M>,
}
impl<P: DecoderBuilder<M>, M: Time> Rx<P, M> {
    pub fn new(f: u32) -> Self {
        Rx { r: Receiver::new(f) }
    }
    pub fn edge(&mut self, rising: bool, dt: M::Duration) -> Result<Option<P::Cmd>, DecodingError> {
        self.r.event(dt, rising)
    }
    /// No result may be reported for this edge.
    pub fn quiet(&mut self, rising: bool, dt: M::Duration) {
        match self.r.event(dt, rising) {
            Ok(None) => {}
            Ok(Some(_)) => require(false, "no command before the frame is complete"),
            Err(_) => require(false, "no error within a well-timed frame"),
        }
    }
    /// The edge that ends a pause: it may report that an earlier frame broke off.
    pub fn after_pause(&mut self, dt: M::Duration) {
        if let Ok(Some(_)) = self.r.event(dt, true) {
            require(false, "no command at the start of a frame");
        }
    }
    /// Any edges with any durations.
    pub fn any_history(&mut self) {
        while history() {
            let _ = self.r.event(any(), any());
        }
    }
}

/// Everything that may precede a frame: any history and then a pause of at
/// least 20 ms, or (fresh receiver) just the first edge.
pub fn before<P: DecoderBuilder<M>, M: Time>(f: u32, hist: bool) -> Rx<P, M> {
    let mut r: Rx<P, M> = Rx::new(f);
    if hist {
        r.any_history();
        r.after_pause(at_least::<M>(f, 20_000, u32::MAX as u64));
    } else {
        r.quiet(true, at_least::<M>(f, 20_000, u32::MAX as u64));
    }
    r
}

/// A receiver that has just been made or has just answered with a command or an
/// error, and the first edge of a frame, at any time after that.
pub fn before_at_once<P: DecoderBuilder<M>, M: Time>(f: u32, answered: bool) -> Rx<P, M> {
    let mut r: Rx<P, M> = Rx::new(f);
    if answered {
        r.any_history();
        match r.edge(any(), any()) {
            Ok(None) => assume(false),
            _ => {}
        }
    }
    // the line may still have to go back to its idle level
    if any() {
        r.quiet(false, any());
    }
    r.quiet(true, any());
    r
}

/// Manchester transmitter: joins half bits of equal level to one pulse.
pub struct Manchester<P: DecoderBuilder<M>, M: InfraMonotonic> {
    pub r: Rx<P, M>,
    pub f: u32,
    pub unit: u32,
    pub pct: u32,
    level: bool,
    units: u32,
}
impl<P: DecoderBuilder<M>, M: Time> Manchester<P, M> {
    /// Starts with the rising edge that has just been given to the receiver.
    pub fn new(r: Rx<P, M>, f: u32, unit: u32, pct: u32) -> Self {
        Manchester { r, f, unit, pct, level: true, units: 0 }
    }
    /// Stay at a level for n units; the edge (if there is one) is not answered.
    pub fn stay(&mut self, level: bool, n: u32) {
        if self.level != level {
            let dt = pulse::<M>(self.f, self.unit * self.units, self.pct);
            self.r.quiet(level, dt);
            self.level = level;
            self.units = 0;
        }
        self.units += n;
    }
    /// The edge to the other level, answered by the receiver.
    pub fn last(&mut self) -> Result<Option<P::Cmd>, DecodingError> {
        let dt = pulse::<M>(self.f, self.unit * self.units, self.pct);
        self.level = !self.level;
        self.r.edge(self.level, dt)
    }
}
