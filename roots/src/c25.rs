//! C25: handling one event takes bounded work.
use crate::train::*;
use crate::vs::*;
use embedded_hal::digital::v2::InputPin;
use infrared::protocol::nec::NecCommand;
use infrared::protocol::rc5::Rc5Command;
use infrared::protocol::rc6::Rc6Command;
use infrared::protocol::*;
use infrared::receiver::time::InfraMonotonic;
use infrared::receiver::{BufferInputReceiver, DecoderBuilder, MultiReceiver, NoPin, PeriodicPoll, ProtocolDecoder};
use infrared::sender::{PulsedataSender, Sender};
use infrared::Receiver;

pub struct Pin;
impl InputPin for Pin {
    type Error = u8;
    fn is_high(&self) -> Result<bool, u8> {
        any()
    }
    fn is_low(&self) -> Result<bool, u8> {
        any()
    }
}
fn bounded<T>(f: impl FnOnce() -> T) -> T {
    bounded_enter();
    let r = f();
    bounded_leave();
    reached("returned");
    r
}
fn events<P: DecoderBuilder<M>, M: InfraMonotonic>() {
    let mut r: Receiver<P, NoPin, M> = bounded(|| Receiver::new(any()));
    while history() {
        let edge: bool = any();
        if any() {
            let _ = bounded(|| r.event(any(), edge));
        } else {
            let _ = bounded(|| r.event_instant(any(), edge));
        }
    }
}
fn decoder<P: DecoderBuilder<u32>>() {
    let mut d = bounded(|| P::build(any()));
    while history() {
        if any() {
            let _ = bounded(|| d.event_total(any(), any()));
        } else if any() {
            let _ = bounded(|| d.command());
        } else {
            bounded(|| d.reset());
        }
    }
}
fn pin<P: DecoderBuilder<u32>>() {
    let mut r: Receiver<P, Pin, u32> = bounded(|| Receiver::with_pin(any(), Pin));
    while history() {
        if any() {
            let _ = bounded(|| r.event(any()));
        } else {
            let _ = bounded(|| r.event_instant(any()));
        }
    }
}
fn polled<P: DecoderBuilder<u32>>() {
    let mut r: PeriodicPoll<P> = bounded(|| PeriodicPoll::new(any()));
    while history() {
        let _ = bounded(|| r.poll(any()));
    }
}
/// Work per entry: for buffers of constant length the whole iteration is bounded.
fn buffered<P: DecoderBuilder<u32>>() {
    let buf: [u32; 3] = [any(), any(), any()];
    let mut r: BufferInputReceiver<P, u32> = BufferInputReceiver::with_frequenzy(1_000_000);
    let mut i = bounded(|| r.iter(&buf));
    let _ = bounded(|| i.next());
    let _ = bounded(|| i.next());
    let _ = bounded(|| i.next());
    require(bounded(|| i.next()).is_none(), "no more results than entries");
}
macro_rules! roots {
    ($($name:ident $p:ty;)*) => { $(
        pub mod $name {
            use super::*;
            pub fn c25_events_u32() { events::<$p, u32>() }
            pub fn c25_events_u64() { events::<$p, u64>() }
            pub fn c25_events_fugit() { events::<$p, fugit::TimerInstantU32<1_000_000>>() }
            pub fn c25_decoder() { decoder::<$p>() }
            pub fn c25_pin() { pin::<$p>() }
            pub fn c25_polled() { polled::<$p>() }
            pub fn c25_buffered() { buffered::<$p>() }
        }
    )* };
}
roots! {
    nec Nec;
    nec16 Nec16;
    samsung SamsungNec;
    apple AppleNec;
    raw NecDebug;
    rc5 Rc5;
    rc6 Rc6;
    sbp Sbp;
    denon Denon;
}
pub struct Pwm;
impl embedded_hal::PwmPin for Pwm {
    type Duty = u16;
    fn enable(&mut self) {}
    fn disable(&mut self) {}
    fn get_duty(&self) -> u16 {
        0
    }
    fn get_max_duty(&self) -> u16 {
        0
    }
    fn set_duty(&mut self, _: u16) {}
}
pub fn c25_sender() {
    let mut s: PulsedataSender<L> = bounded(|| PulsedataSender::new());
    while history() {
        if any() {
            any_train(|c| bounded(|| s.load_command::<Train, 40_000>(&c)));
        } else {
            let _ = bounded(|| s.tick(any()));
        }
    }
}
pub fn c25_hal_sender() {
    let mut s: Sender<Pwm, 40_000, L> = bounded(|| Sender::new(Pwm));
    while history() {
        if any() {
            any_train(|c| bounded(|| s.load::<Train>(&c)));
        } else {
            bounded(|| s.tick());
        }
    }
}
/// Loading a real command.
pub fn c25_load() {
    let mut s: PulsedataSender<L> = PulsedataSender::new();
    let k: u8 = any();
    match k {
        0 => bounded(|| s.load_command::<Nec, 40_000>(&NecCommand { addr: any(), cmd: any(), repeat: any() })),
        1 => bounded(|| s.load_command::<Rc5, 40_000>(&Rc5Command::new(any::<u8>() & 0x1f, 0x2a, any()))),
        _ => bounded(|| s.load_command::<Rc6, 40_000>(&Rc6Command { addr: 0x5a, cmd: any::<u8>() & 3, toggle: any() })),
    }
}
pub fn c25_multi() {
    let mut r: MultiReceiver<2, (Rc5, Denon), NoPin> = bounded(|| MultiReceiver::new(1_000_000, NoPin));
    // (the decoders are judged above)
    let _ = bounded(|| r.event_generic(any::<u32>(), any()));
    let mut i = bounded(|| r.event_generic_iter(any::<u32>(), any()));
    let _ = bounded(|| i.next());
    let _ = bounded(|| i.next());
    require(bounded(|| i.next()).is_none(), "no more results than protocols");
}
