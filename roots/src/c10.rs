//! C10: pulse tolerance holds at every sampling frequency.
use crate::h::*;
use crate::monitor::{self, near};
use crate::vs::*;
use fugit::{TimerInstantU32, TimerInstantU64};
use infrared::protocol::nec::*;
use infrared::protocol::*;
use infrared::receiver::{DecoderBuilder, ProtocolDecoder};

fn any_rate() -> u32 {
    frequency(40_000, 100_000_000)
}
macro_rules! roots {
    ($($name:ident)*) => { $(
        pub mod $name {
            use super::*;
            pub fn c10_in_u32() { f::$name::<u32>(any_rate(), 4, false) }
            pub fn c10_in_u64() { f::$name::<u64>(any_rate(), 4, false) }
            pub fn c10_in_f32_40k() { f::$name::<TimerInstantU32<40_000>>(40_000, 4, false) }
            pub fn c10_in_f32_1m() { f::$name::<TimerInstantU32<1_000_000>>(1_000_000, 4, false) }
            pub fn c10_in_f32_100m() { f::$name::<TimerInstantU32<100_000_000>>(100_000_000, 4, false) }
            pub fn c10_in_f64_40k() { f::$name::<TimerInstantU64<40_000>>(40_000, 4, false) }
            pub fn c10_in_f64_1m() { f::$name::<TimerInstantU64<1_000_000>>(1_000_000, 4, false) }
            pub fn c10_in_f64_100m() { f::$name::<TimerInstantU64<100_000_000>>(100_000_000, 4, false) }
            pub fn c10_out_u32() { n::$name::<u32>(any_rate()) }
            pub fn c10_out_u64() { n::$name::<u64>(any_rate()) }
            pub fn c10_out_f32_40k() { n::$name::<TimerInstantU32<40_000>>(40_000) }
            pub fn c10_out_f32_1m() { n::$name::<TimerInstantU32<1_000_000>>(1_000_000) }
            pub fn c10_out_f32_100m() { n::$name::<TimerInstantU32<100_000_000>>(100_000_000) }
            pub fn c10_out_f64_40k() { n::$name::<TimerInstantU64<40_000>>(40_000) }
            pub fn c10_out_f64_1m() { n::$name::<TimerInstantU64<1_000_000>>(1_000_000) }
            pub fn c10_out_f64_100m() { n::$name::<TimerInstantU64<100_000_000>>(100_000_000) }
            pub fn c10_monitor_deep_u64() { m::$name::<u64>(any_rate()) }
            pub fn c10_monitor_deep_f32_40k() { m::$name::<TimerInstantU32<40_000>>(40_000) }
            pub fn c10_monitor_deep_f32_100m() { m::$name::<TimerInstantU32<100_000_000>>(100_000_000) }
            pub fn c10_monitor_deep_f64_40k() { m::$name::<TimerInstantU64<40_000>>(40_000) }
            pub fn c10_monitor_deep_f64_100m() { m::$name::<TimerInstantU64<100_000_000>>(100_000_000) }
        }
    )* };
}
/// Only durations near a nominal length are a pulse of the protocol.
fn only<P: DecoderBuilder<M>, M: Time>(f: u32, nominal: &[u32]) {
    let d = P::build(f);
    // (one interval per gap between the nominal lengths)
    let mut i = 0;
    let mut lo = 0;
    while i <= nominal.len() {
        let hi = if i < nominal.len() { f as u64 * nominal[i] as u64 / 1_000_000 } else { u32::MAX as u64 };
        let dt = any_in(lo, hi);
        match d.spans().get::<usize>(M::ticks(dt)) {
            Some(_) => {
                reached("a pulse");
                let below = i < nominal.len() && near(f, dt, nominal[i]);
                require(below || i > 0 && near(f, dt, nominal[i - 1]), "only pulses within 30% of a nominal length are data");
            }
            None => {}
        }
        lo = hi + 1;
        i += 1;
    }
}
mod n {
    use super::*;
    pub fn nec<M: Time>(f: u32) {
        only::<Nec, M>(f, &[1120, 2250, 11250, 13500])
    }
    pub fn samsung<M: Time>(f: u32) {
        only::<SamsungNec, M>(f, &[1120, 2250, 6750, 9000])
    }
    pub fn rc5<M: Time>(f: u32) {
        only::<Rc5, M>(f, &[889, 1778])
    }
    pub fn rc6<M: Time>(f: u32) {
        only::<Rc6, M>(f, &[444, 888, 1332, 1776, 2220, 2664])
    }
    pub fn sbp<M: Time>(f: u32) {
        only::<Sbp, M>(f, &[1000, 2000, 5000, 9000])
    }
    pub fn denon<M: Time>(f: u32) {
        only::<Denon, M>(f, &[840, 1680, 5000])
    }
}
mod f {
    use super::*;
    pub use crate::{c03::frame as rc5, c04::frame as rc6, c05::frame as sbp, c06::frame as denon};
    pub fn nec<M: Time>(f: u32, pct: u32, h: bool) {
        crate::c02::frame::<NecCommand, M>(f, pct, h)
    }
    pub fn samsung<M: Time>(f: u32, pct: u32, h: bool) {
        crate::c02::frame::<SamsungNecCommand, M>(f, pct, h)
    }
}
mod m {
    use super::*;
    pub use crate::monitor::{rc5, rc6};
    pub fn nec<M: Time>(f: u32) {
        monitor::monitor::<Nec, M>(f, true)
    }
    pub fn samsung<M: Time>(f: u32) {
        monitor::monitor::<SamsungNec, M>(f, true)
    }
    pub fn sbp<M: Time>(f: u32) {
        monitor::monitor::<Sbp, M>(f, false)
    }
    pub fn denon<M: Time>(f: u32) {
        monitor::monitor::<Denon, M>(f, false)
    }
}
roots! { nec samsung rc5 rc6 sbp denon }
macro_rules! monitors {
    ($($name:ident)*) => { $(
        pub mod $name {
            use super::super::*;
            pub fn c10_monitor_u32() { m::$name::<u32>(any_rate()) }
        }
    )* };
}
pub mod all {
    monitors! { nec samsung rc5 sbp denon }
    pub mod rc6 {
        use super::super::*;
        pub fn c10_monitor_deep_u32() { m::rc6::<u32>(any_rate()) }
    }
}
