//! C20: builders and constructors keep what they were given.
use crate::mock::*;
use crate::vs::*;
use infrared::protocol::*;
use infrared::receiver::{BufferInputReceiver, Builder, MultiReceiver, NoPin, PeriodicPoll};
use infrared::remotecontrol::{Action, RemoteControlModel};
use infrared::{ProtocolId, Receiver};

#[derive(Default)]
pub struct Remote;
impl RemoteControlModel for Remote {
    const PROTOCOL: ProtocolId = ProtocolId::Nec;
    const ADDRESS: u32 = 0;
    type Cmd = MockCmd<0>;
}

/// Builder calls: E an earlier frequency, F the frequency, P the protocol, M the
/// clock, I the pin, R a remote control, B another protocol.
macro_rules! calls {
    ($f:ident $t:ident $b:expr;) => { $b };
    ($f:ident $t:ident $b:expr; E $($r:ident)*) => { calls!($f $t $b.frequency(any()); $($r)*) };
    ($f:ident $t:ident $b:expr; F $($r:ident)*) => { calls!($f $t $b.frequency($f); $($r)*) };
    ($f:ident $t:ident $b:expr; P $($r:ident)*) => { calls!($f $t $b.protocol::<Mock<0>>(); $($r)*) };
    ($f:ident $t:ident $b:expr; B $($r:ident)*) => { calls!($f $t $b.protocol::<Mock<1>>(); $($r)*) };
    ($f:ident $t:ident $b:expr; M $($r:ident)*) => { calls!($f $t $b.monotonic::<u64>(); $($r)*) };
    ($f:ident $t:ident $b:expr; I $($r:ident)*) => { calls!($f $t $b.pin(MockPin { tag: $t }); $($r)*) };
    ($f:ident $t:ident $b:expr; J $($r:ident)*) => { calls!($f $t $b.pin(MockPin { tag: any() }); $($r)*) };
    ($f:ident $t:ident $b:expr; R $($r:ident)*) => { calls!($f $t $b.remotecontrol(Remote); $($r)*) };
}
fn start() {
    prepare::<0>(infrared::receiver::State::Idle, false);
    prepare::<1>(infrared::receiver::State::Idle, false);
}
fn built(f: u32) {
    let l = log::<0>();
    require(l.builds == 1, "one decoder of the chosen protocol is built");
    require(l.freq == f, "the frequency reaches the decoder unchanged");
    require(log::<1>().builds == 0, "no other decoder is built");
}
fn read(t: u32) {
    require(unsafe { PIN_READS >= 1 && PIN_TAG == t }, "the given pin is the one that is read");
}
/// With a pin.
macro_rules! pinned {
    ($want:expr; $($c:ident)*) => {{
        let (f, t): (u32, u32) = (any(), any());
        let _ = f;
        let want: Option<u32> = $want;
        let want = want.unwrap_or(f);
        start();
        let mut r = calls!(f t infrared::receiver(); $($c)*).build();
        built(want);
        require(r.pin().tag == t && r.pin_mut().tag == t, "the given pin is the receiver's");
        set_pin(Ok(any()));
        let _ = r.event(any());
        read(t);
        require(r.release().tag == t, "the given pin is released");
        start();
        let mut r = calls!(f t infrared::receiver(); $($c)*).build_polled();
        built(want);
        set_pin(Ok(any()));
        let _ = r.poll();
        read(t);
        reached("built");
    }};
}
/// Without.
macro_rules! plain {
    ($want:expr; $($c:ident)*) => {{
        let (f, t): (u32, u32) = (any(), any());
        let (_, _) = (f, t);
        let want: Option<u32> = $want;
        let want = want.unwrap_or(f);
        start();
        let _r = calls!(f t infrared::receiver(); $($c)*).build();
        built(want);
        start();
        let _r = calls!(f t infrared::receiver(); $($c)*).build_polled();
        built(want);
        reached("built");
    }};
}
pub fn c20_orders() {
    pinned!(None; F P M I);
    pinned!(None; F P I M);
    pinned!(None; F M P I);
    pinned!(None; F M I P);
    pinned!(None; F I P M);
    pinned!(None; F I M P);
    pinned!(None; P F M I);
    pinned!(None; P F I M);
    pinned!(None; P M F I);
    pinned!(None; P M I F);
    pinned!(None; P I F M);
    pinned!(None; P I M F);
    pinned!(None; M F P I);
    pinned!(None; M F I P);
    pinned!(None; M P F I);
    pinned!(None; M P I F);
    pinned!(None; M I F P);
    pinned!(None; M I P F);
    pinned!(None; I F P M);
    pinned!(None; I F M P);
    pinned!(None; I P F M);
    pinned!(None; I P M F);
    pinned!(None; I M F P);
    pinned!(None; I M P F);
}
pub fn c20_orders_default() {
    pinned!(Some(1_000_000); P M I);
    pinned!(Some(1_000_000); P I M);
    pinned!(Some(1_000_000); M P I);
    pinned!(Some(1_000_000); M I P);
    pinned!(Some(1_000_000); I P M);
    pinned!(Some(1_000_000); I M P);
}
pub fn c20_orders_plain() {
    plain!(None; F P M);
    plain!(None; F M P);
    plain!(None; P F M);
    plain!(None; P M F);
    plain!(None; M F P);
    plain!(None; M P F);
}
pub fn c20_orders_plain_default() {
    plain!(Some(1_000_000); P M);
    plain!(Some(1_000_000); M P);
}
pub fn c20_last_frequency() {
    pinned!(None; E F P I);
    pinned!(None; E F I P);
    pinned!(None; E P F I);
    pinned!(None; E P I F);
    pinned!(None; E I F P);
    pinned!(None; E I P F);
    pinned!(None; P E F I);
    pinned!(None; P E I F);
    pinned!(None; P I E F);
    pinned!(None; I E F P);
    pinned!(None; I E P F);
    pinned!(None; I P E F);
}
pub fn c20_last_pin() {
    pinned!(None; J F P I);
    pinned!(None; J F I P);
    pinned!(None; J P F I);
    pinned!(None; J P I F);
    pinned!(None; J I F P);
    pinned!(None; J I P F);
    pinned!(None; F J P I);
    pinned!(None; F J I P);
    pinned!(None; F P J I);
    pinned!(None; P J F I);
    pinned!(None; P J I F);
    pinned!(None; P F J I);
}
pub fn c20_last_protocol() {
    pinned!(None; B F P I);
    pinned!(None; B F I P);
    pinned!(None; B P F I);
    pinned!(None; B P I F);
    pinned!(None; B I F P);
    pinned!(None; B I P F);
    pinned!(None; F B P I);
    pinned!(None; F B I P);
    pinned!(None; F I B P);
    pinned!(None; I B F P);
    pinned!(None; I B P F);
    pinned!(None; I F B P);
}
pub fn c20_remote_a() {
    pinned!(None; F P M I R);
    pinned!(None; F P M R I);
    pinned!(None; F P I M R);
    pinned!(None; F P I R M);
    pinned!(None; F P R M I);
    pinned!(None; F P R I M);
    pinned!(None; F M P I R);
    pinned!(None; F M P R I);
    pinned!(None; F M I P R);
    pinned!(None; F I P M R);
    pinned!(None; F I P R M);
    pinned!(None; F I M P R);
    pinned!(None; P F M I R);
    pinned!(None; P F M R I);
    pinned!(None; P F I M R);
    pinned!(None; P F I R M);
    pinned!(None; P F R M I);
    pinned!(None; P F R I M);
    pinned!(None; P M F I R);
    pinned!(None; P M F R I);
}
pub fn c20_remote_b() {
    pinned!(None; P M I F R);
    pinned!(None; P M I R F);
    pinned!(None; P M R F I);
    pinned!(None; P M R I F);
    pinned!(None; P I F M R);
    pinned!(None; P I F R M);
    pinned!(None; P I M F R);
    pinned!(None; P I M R F);
    pinned!(None; P I R F M);
    pinned!(None; P I R M F);
    pinned!(None; P R F M I);
    pinned!(None; P R F I M);
    pinned!(None; P R M F I);
    pinned!(None; P R M I F);
    pinned!(None; P R I F M);
    pinned!(None; P R I M F);
    pinned!(None; M F P I R);
    pinned!(None; M F P R I);
    pinned!(None; M F I P R);
    pinned!(None; M P F I R);
}
pub fn c20_remote_c() {
    pinned!(None; M P F R I);
    pinned!(None; M P I F R);
    pinned!(None; M P I R F);
    pinned!(None; M P R F I);
    pinned!(None; M P R I F);
    pinned!(None; M I F P R);
    pinned!(None; M I P F R);
    pinned!(None; M I P R F);
    pinned!(None; I F P M R);
    pinned!(None; I F P R M);
    pinned!(None; I F M P R);
    pinned!(None; I P F M R);
    pinned!(None; I P F R M);
    pinned!(None; I P M F R);
    pinned!(None; I P M R F);
    pinned!(None; I P R F M);
    pinned!(None; I P R M F);
    pinned!(None; I M F P R);
    pinned!(None; I M P F R);
    pinned!(None; I M P R F);
}

/// The constructors.
pub fn c20_constructors() {
    let (f, t): (u32, u32) = (any(), any());
    start();
    let _r: Receiver<Mock<0>, NoPin, u32, Wrapped> = Receiver::new(f);
    built(f);
    start();
    let mut r: Receiver<Mock<0>, MockPin, u64, Wrapped> = Receiver::with_pin(f, MockPin { tag: t });
    built(f);
    require(r.pin().tag == t && r.pin_mut().tag == t, "the given pin is the receiver's");
    set_pin(Ok(any()));
    let _ = r.event(any());
    read(t);
    require(r.release().tag == t, "the given pin is released");
    start();
    let r: Receiver<Mock<0>, MockPin, u32, Wrapped> = Receiver::with_input(f, MockPin { tag: t });
    built(f);
    require(r.release().tag == t, "the given input is the receiver's");
    start();
    let _r: PeriodicPoll<Mock<0>, NoPin, Wrapped> = PeriodicPoll::new(f);
    built(f);
    start();
    let mut r: PeriodicPoll<Mock<0>, MockPin, Wrapped> = PeriodicPoll::with_pin(f, MockPin { tag: t });
    built(f);
    set_pin(Ok(any()));
    let _ = r.poll();
    read(t);
    start();
    let mut r: PeriodicPoll<Mock<0>, MockPin, Wrapped> = PeriodicPoll::with_input(f, MockPin { tag: t });
    built(f);
    set_pin(Ok(any()));
    let _ = r.poll();
    read(t);
    reached("constructors");
}
/// Buffers.
pub fn c20_buffers() {
    let f: u32 = any();
    let b: &[u32] = any_slice();
    let mut r: BufferInputReceiver<Mock<0>, u32, Wrapped> = BufferInputReceiver::with_frequenzy(f);
    start();
    let _i = r.iter(b);
    built(f);
    start();
    let _i = r.iter_with::<Mock<0>, u32, Wrapped>(f, b);
    built(f);
    let g: u32 = any();
    start();
    let _i = r.iter_with::<Mock<0>, u64, Wrapped>(g, any_slice());
    built(g);
    start();
    let _i = r.iter(b);
    built(f);
    let mut r: BufferInputReceiver<Mock<0>, u32, Wrapped> = BufferInputReceiver::new();
    start();
    let _i = r.iter(b);
    built(1_000_000);
    let mut r: BufferInputReceiver<Mock<0>, u32, Wrapped> = Default::default();
    start();
    let _i = r.iter(b);
    built(1_000_000);
    reached("buffers");
}
/// Clocks that know their rate.
fn fugit<const HZ: u32>() {
    let t: u32 = any();
    start();
    let r: Receiver<Mock<0>, MockPin, fugit::TimerInstantU32<HZ>, Wrapped> = Receiver::with_fugit(MockPin { tag: t });
    built(HZ);
    require(r.release().tag == t, "the given pin is released");
    start();
    let r: Receiver<Mock<0>, MockPin, fugit::TimerInstantU64<HZ>, Wrapped> = Receiver::with_fugit64(MockPin { tag: t });
    built(HZ);
    require(r.release().tag == t, "the given pin is released");
    reached("fugit");
}
pub fn c20_fugit() {
    fugit::<32_768>();
    fugit::<40_000>();
    fugit::<1_000_000>();
    fugit::<16_000_000>();
    fugit::<100_000_000>();
}
/// The multi-receiver gives every protocol the same frequency.
macro_rules! multi {
    ($n:literal $($id:literal)*) => {{
        let (f, t): (u32, u32) = (any(), any());
        $( prepare::<$id>(infrared::receiver::State::Idle, false); )*
        let mut r: MultiReceiver<$n, ($(Mock<$id>,)*), MockPin> = MultiReceiver::new(f, MockPin { tag: t });
        $(
            require(log::<$id>().builds == 1, "one decoder per protocol is built");
            require(log::<$id>().freq == f, "every protocol gets the frequency");
        )*
        require(r.pin().tag == t, "the given pin is the receiver's");
        set_pin(Ok(any()));
        let _ = r.event(any());
        read(t);
        reached("multi");
    }};
}
pub fn c20_multi() {
    multi!(2 0 1);
    multi!(3 0 1 2);
    multi!(4 0 1 2 3);
    multi!(5 0 1 2 3 4);
    multi!(6 0 1 2 3 4 5);
}
/// The named protocol methods: the built receiver is the direct one.
macro_rules! named {
    ($name:ident $m:ident $p:ty) => {
        pub fn $name() {
            fn at(f: u32) {
                let a: Receiver<$p, NoPin, u32> = infrared::receiver().frequency(f).$m().build();
                let b: Receiver<$p, NoPin, u32> = Receiver::new(f);
                require(same(&a, &b), "the built receiver is the direct one");
                let a: Receiver<$p, NoPin, u32> = infrared::receiver().$m().frequency(f).build();
                require(same(&a, &b), "the built receiver is the direct one");
                let a: PeriodicPoll<$p, NoPin> = infrared::receiver().$m().frequency(f).build_polled();
                let b: PeriodicPoll<$p, NoPin> = PeriodicPoll::new(f);
                require(same(&a, &b), "the built receiver is the direct one");
                reached("named");
            }
            let a: Receiver<$p, NoPin, u32> = infrared::receiver().$m().build();
            let b: Receiver<$p, NoPin, u32> = Receiver::new(1_000_000);
            require(same(&a, &b), "the built receiver is the direct one");
            // (that any frequency gets through the builder is shown above; here: the named methods)
            at(10_000);
            at(20_000);
            at(38_000);
            at(40_000);
            at(44_100);
            at(50_000);
            at(100_000);
            at(999_999);
            at(1_000_000);
            at(16_000_000);
            at(u32::MAX);
        }
    };
}
named!(c20_nec nec Nec);
named!(c20_nec16 nec16 Nec16);
named!(c20_samsung nec_samsung SamsungNec);
named!(c20_apple nec_apple AppleNec);
named!(c20_rc5 rc5 Rc5);
named!(c20_rc6 rc6 Rc6);
named!(c20_sbp samsung_bluray Sbp);
named!(c20_denon denon Denon);
