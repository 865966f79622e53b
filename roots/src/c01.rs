//! C01: receiving never panics.
use crate::vs::*;
use core::convert::Infallible;
use embedded_hal::digital::v2::InputPin;
use infrared::protocol::*;
use infrared::receiver::time::InfraMonotonic;
use infrared::receiver::{BufferInputReceiver, DecoderBuilder, NoPin, PeriodicPoll, ProtocolDecoder};
use infrared::{Protocol, Receiver};

/// A pin with any level at any time.
pub struct Pin;
impl InputPin for Pin {
    type Error = u8;
    fn is_high(&self) -> Result<bool, u8> {
        any()
    }
    fn is_low(&self) -> Result<bool, u8> {
        any()
    }
}
pub struct Never(Infallible);

/// Event receiver without pin: durations and time stamps, any edges.
fn events<P: DecoderBuilder<M>, M: InfraMonotonic>() {
    let mut r: Receiver<P, NoPin, M> = Receiver::new(any());
    while history() {
        let edge: bool = any();
        if any() {
            let _ = r.event(any(), edge);
        } else {
            let _ = r.event_instant(any(), edge);
        }
        reached("event");
    }
}
/// The decoder used directly, in any order of calls.
fn decoder<P: DecoderBuilder<M>, M: InfraMonotonic>() {
    let mut d = P::build(any());
    while history() {
        if any() {
            let _ = d.event(any(), any());
        } else if any() {
            let _ = d.event_total(any(), any());
        } else if any() {
            let _ = d.command();
        } else {
            d.reset();
        }
        reached("decoder call");
    }
}
/// Event receiver with pin.
fn pin<P: DecoderBuilder<M>, M: InfraMonotonic>() {
    let mut r: Receiver<P, Pin, M> = Receiver::with_pin(any(), Pin);
    while history() {
        if any() {
            let _ = r.event(any());
        } else {
            let _ = r.event_instant(any());
        }
        reached("pin event");
    }
}
/// Polled receiver.
fn polled<P: DecoderBuilder<u32>>() {
    let mut r: PeriodicPoll<P> = PeriodicPoll::new(any());
    while history() {
        let _ = r.poll(any());
        reached("poll");
    }
}
/// Buffered receiver.
fn buffered<P: DecoderBuilder<M>, M: InfraMonotonic>()
where
    M::Duration: 'static,
{
    let buf: &'static [M::Duration] = any_slice();
    let mut r: BufferInputReceiver<P, M> = BufferInputReceiver::with_frequenzy(any());
    let mut i = r.iter(buf);
    while history() {
        let _ = i.next();
        reached("iteration");
    }
}

macro_rules! roots {
    ($($name:ident $p:ty;)*) => { $(
        pub mod $name {
            use super::*;
            pub fn c01_events_u32() { events::<$p, u32>() }
            pub fn c01_events_u64() { events::<$p, u64>() }
            pub fn c01_decoder_u32() { decoder::<$p, u32>() }
            pub fn c01_decoder_u64() { decoder::<$p, u64>() }
            pub fn c01_pin_u32() { pin::<$p, u32>() }
            pub fn c01_polled() { polled::<$p>() }
            pub fn c01_buffered() { buffered::<$p, u32>() }
            pub fn c01_fugit_1m() { events::<$p, fugit::TimerInstantU32<1_000_000>>() }
            pub fn c01_fugit_1m_64() { events::<$p, fugit::TimerInstantU64<1_000_000>>() }
            pub fn c01_fugit_40k() { events::<$p, fugit::TimerInstantU32<40_000>>() }
            pub fn c01_fugit_100m() { events::<$p, fugit::TimerInstantU32<100_000_000>>() }
            pub fn c01_fugit_32768_64() { events::<$p, fugit::TimerInstantU64<32_768>>() }
        }
    )* };
}
roots! {
    nec Nec;
    nec16 Nec16;
    samsung SamsungNec;
    apple AppleNec;
    raw NecDebug;
    rc5 Rc5;
    rc6 Rc6;
    sbp Sbp;
    denon Denon;
}
