//! What a user of the crate finds behind each feature.  Every item here only
//! has to type-check.
#![no_std]
#![allow(dead_code)]

use infrared::receiver::{BufferInputReceiver, DecoderBuilder, DecodingError, NoPin};
use infrared::{PeriodicPoll, Protocol, Receiver};

/// Everything that works with any protocol.
fn every<P: DecoderBuilder<u32> + DecoderBuilder<u64>>()
where
    <P as Protocol>::Cmd: 'static,
{
    let mut r: Receiver<P> = Receiver::new(1_000_000);
    let _: Result<Option<P::Cmd>, DecodingError> = r.event(1u32, true);
    let _: Result<Option<P::Cmd>, DecodingError> = r.event_instant(1u32, true);
    let mut r: Receiver<P, NoPin, u64> = infrared::receiver().protocol::<P>().monotonic::<u64>().frequency(1_000_000).build();
    let _: Result<Option<P::Cmd>, DecodingError> = r.event(1u64, true);
    let mut p: PeriodicPoll<P> = PeriodicPoll::new(40_000);
    let _: Result<Option<P::Cmd>, DecodingError> = p.poll(true);
    let mut p: PeriodicPoll<P> = infrared::receiver().protocol::<P>().frequency(40_000).build_polled();
    let _: Result<Option<P::Cmd>, DecodingError> = p.poll(true);
    let mut b: BufferInputReceiver<P> = BufferInputReceiver::with_frequenzy(20_000);
    let buf: &[u32] = &[1, 2];
    let _: Option<P::Cmd> = b.iter(buf).next();
    let _: BufferInputReceiver<P> = BufferInputReceiver::new();
    #[cfg(feature = "hal")]
    hal::every::<P>();
}

#[cfg(feature = "hal")]
mod hal {
    use super::*;
    use embedded_hal::digital::v2::InputPin;
    use infrared::receiver::Error;
    pub struct Pin;
    impl InputPin for Pin {
        type Error = u8;
        fn is_high(&self) -> Result<bool, u8> {
            Ok(true)
        }
        fn is_low(&self) -> Result<bool, u8> {
            Ok(false)
        }
    }
    pub struct Pwm;
    impl embedded_hal::PwmPin for Pwm {
        type Duty = u16;
        fn disable(&mut self) {}
        fn enable(&mut self) {}
        fn get_duty(&self) -> u16 {
            0
        }
        fn get_max_duty(&self) -> u16 {
            0
        }
        fn set_duty(&mut self, _: u16) {}
    }
    pub fn every<P: DecoderBuilder<u32>>() {
        let mut r: Receiver<P, Pin> = Receiver::with_pin(1_000_000, Pin);
        let _: Result<Option<P::Cmd>, Error<u8>> = r.event(1u32);
        let _: Result<Option<P::Cmd>, Error<u8>> = r.event_instant(1u32);
        let _: &Pin = r.pin();
        let _: &mut Pin = r.pin_mut();
        let _: Pin = r.release();
        let mut p: PeriodicPoll<P, Pin> = PeriodicPoll::with_pin(40_000, Pin);
        let _: Result<Option<P::Cmd>, Error<u8>> = p.poll();
        let mut r: Receiver<P, Pin> = infrared::receiver().pin(Pin).protocol::<P>().build();
        let _: Result<Option<P::Cmd>, Error<u8>> = r.event(1u32);
        let mut p: PeriodicPoll<P, Pin> = infrared::receiver().protocol::<P>().pin(Pin).build_polled();
        let _: Result<Option<P::Cmd>, Error<u8>> = p.poll();
    }
    pub fn send<P: infrared::sender::ProtocolEncoder<40_000>>(c: &P::Cmd) {
        let mut s: infrared::sender::Sender<Pwm, 40_000, 96> = infrared::sender::Sender::new(Pwm);
        s.load::<P>(c);
        s.tick();
        let _: &[u32] = s.buffer();
    }
}

/// Protocols over fugit's clocks (the clocks need `fugit`, the pin constructors `embedded`).
#[cfg(feature = "time")]
fn timed<P>()
where
    P: DecoderBuilder<fugit::TimerInstantU32<1_000_000>> + DecoderBuilder<fugit::TimerInstantU64<1_000_000>>,
{
    type M = fugit::TimerInstantU32<1_000_000>;
    type L = fugit::TimerInstantU64<1_000_000>;
    let mut r: Receiver<P, NoPin, M> = Receiver::new(1_000_000);
    let _: Result<Option<P::Cmd>, DecodingError> = r.event(fugit::TimerDurationU32::from_ticks(1), true);
    let mut r: Receiver<P, NoPin, L> = infrared::receiver().protocol::<P>().monotonic::<L>().build();
    let _: Result<Option<P::Cmd>, DecodingError> = r.event_instant(L::from_ticks(1), true);
    #[cfg(feature = "embedded")]
    {
        let mut r: Receiver<P, hal::Pin, M> = Receiver::with_fugit(hal::Pin);
        let _ = r.event_instant(M::from_ticks(1));
        let mut r: Receiver<P, hal::Pin, L> = Receiver::with_fugit64(hal::Pin);
        let _ = r.event_instant(L::from_ticks(1));
    }
}

fn send<P: infrared::sender::ProtocolEncoder<40_000>>(c: &P::Cmd) {
    let mut s = infrared::sender::PulsedataSender::<96>::new();
    s.load_command::<P, 40_000>(c);
    let _: infrared::sender::Status = s.tick(0);
    let _: &[u32] = s.buffer();
    #[cfg(feature = "hal")]
    hal::send::<P>(c);
}

#[cfg(feature = "remotes")]
fn remote<P, R: infrared::remotecontrol::RemoteControlModel<Cmd = P::Cmd>>()
where
    P: DecoderBuilder<u32>,
    P::Cmd: infrared::cmd::AddressCommand,
{
    use infrared::remotecontrol::{Action, Button};
    let mut r: Receiver<P, NoPin, u32, Button<R>> = infrared::receiver().protocol::<P>().remotecontrol(R::default()).build();
    if let Ok(Some(b)) = r.event(1u32, true) {
        let _: Option<Action> = b.action();
    }
    let _: Receiver<P, NoPin, u32, Button<R>> = Receiver::new(1_000_000);
    let _: PeriodicPoll<P, NoPin, Button<R>> = PeriodicPoll::new(40_000);
}

fn address<C: infrared::cmd::AddressCommand>() {}
fn any<C: Into<infrared::cmd::AnyCommand>>() {}

macro_rules! all {
    ($p:ty) => {
        every::<$p>();
        #[cfg(feature = "time")]
        timed::<$p>();
    };
}

#[cfg(feature = "nec")]
fn nec(c: &infrared::protocol::nec::NecCommand, d: &infrared::protocol::nec::Nec16Command, e: &infrared::protocol::nec::SamsungNecCommand) {
    use infrared::protocol::nec::*;
    use infrared::protocol::{AppleNec, Nec, Nec16, NecDebug, SamsungNec};
    all!(Nec);
    all!(Nec16);
    all!(SamsungNec);
    all!(AppleNec);
    all!(NecDebug);
    let _: Receiver<Nec> = infrared::receiver().nec().build();
    let _: Receiver<Nec16> = infrared::receiver().nec16().build();
    let _: Receiver<SamsungNec> = infrared::receiver().nec_samsung().build();
    let _: Receiver<AppleNec> = infrared::receiver().nec_apple().build();
    send::<Nec>(c);
    send::<Nec16>(d);
    send::<SamsungNec>(e);
    address::<NecCommand>();
    address::<SamsungNecCommand>();
    address::<AppleNecCommand>();
    any::<NecCommand>();
    any::<SamsungNecCommand>();
    any::<AppleNecCommand>();
    #[cfg(feature = "remotes")]
    {
        use infrared::remotecontrol::nec::*;
        remote::<SamsungNec, SamsungTv>();
        remote::<Nec, SpecialForMp3>();
        remote::<AppleNec, Apple2009>();
    }
}

#[cfg(feature = "rc5")]
fn rc5(c: &infrared::protocol::rc5::Rc5Command) {
    use infrared::protocol::Rc5;
    all!(Rc5);
    let _: Receiver<Rc5> = infrared::receiver().rc5().build();
    send::<Rc5>(c);
    address::<infrared::protocol::rc5::Rc5Command>();
    any::<infrared::protocol::rc5::Rc5Command>();
    #[cfg(feature = "remotes")]
    remote::<Rc5, infrared::remotecontrol::rc5::CdPlayer>();
}

#[cfg(feature = "rc6")]
fn rc6(c: &infrared::protocol::rc6::Rc6Command) {
    use infrared::protocol::Rc6;
    all!(Rc6);
    let _: Receiver<Rc6> = infrared::receiver().rc6().build();
    send::<Rc6>(c);
    address::<infrared::protocol::rc6::Rc6Command>();
    any::<infrared::protocol::rc6::Rc6Command>();
}

#[cfg(feature = "sbp")]
fn sbp() {
    use infrared::protocol::Sbp;
    all!(Sbp);
    let _: Receiver<Sbp> = infrared::receiver().samsung_bluray().build();
    address::<infrared::protocol::sbp::SbpCommand>();
    #[cfg(feature = "remotes")]
    remote::<Sbp, infrared::remotecontrol::sbp::SamsungBluRayPlayer>();
}

#[cfg(feature = "denon")]
fn denon() {
    use infrared::protocol::Denon;
    all!(Denon);
    let _: Receiver<Denon> = infrared::receiver().denon().build();
    any::<infrared::protocol::denon::DenonCommand>();
}

#[cfg(all(feature = "nec", feature = "rc5"))]
fn multi() {
    use infrared::protocol::{Nec, Rc5};
    use infrared::receiver::MultiReceiver;
    let mut m: MultiReceiver<2, (Nec, Rc5), NoPin> = MultiReceiver::new(40_000, NoPin);
    let _: [Option<infrared::cmd::AnyCommand>; 2] = m.event_generic(1u32, true);
    #[cfg(feature = "hal")]
    {
        let mut m: MultiReceiver<2, (Nec, Rc5), hal::Pin> = MultiReceiver::new(40_000, hal::Pin);
        let _: Result<[Option<infrared::cmd::AnyCommand>; 2], u8> = m.event(1u32);
    }
}
