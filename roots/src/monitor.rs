//! Reference monitors: no command from an incomplete or corrupted frame.
use crate::h::*;
use crate::vs::*;
use infrared::protocol::nec::*;
use infrared::protocol::*;
use infrared::receiver::time::InfraMonotonic;
use infrared::receiver::{DecoderBuilder, ProtocolDecoder, State};

/// Within 30 % of `us` microseconds?
pub fn near(f: u32, ticks: u64, us: u32) -> bool {
    let x = ticks * 100_000_000;
    let n = f as u64 * us as u64;
    n * 70 <= x && x <= n * 130
}

/// Pulse-distance protocols: what they are made of.
pub trait Pd: Protocol {
    const SYNC: u32;
    const ZERO: u32;
    const ONE: u32;
    /// a pause pulse after this number of bits (0: none)
    const PAUSE_AT: u32 = 0;
    const PAUSE: u32 = 0;
    const BITS: u32;
    /// Is the command that of the word (ignored for repeats)?
    fn same(c: &Self::Cmd, word: u64) -> bool;
    fn repeat(_c: &Self::Cmd) -> bool {
        false
    }
}
impl Pd for Denon {
    const SYNC: u32 = 5000;
    const ZERO: u32 = 840;
    const ONE: u32 = 1680;
    const BITS: u32 = 48;
    fn same(c: &DenonCommand, w: u64) -> bool {
        c.bits == w
    }
}
use infrared::protocol::denon::DenonCommand;
use infrared::protocol::sbp::SbpCommand;
impl Pd for Sbp {
    const SYNC: u32 = 9000;
    const ZERO: u32 = 1000;
    const ONE: u32 = 2000;
    const PAUSE_AT: u32 = 16;
    const PAUSE: u32 = 5000;
    const BITS: u32 = 36;
    fn same(c: &SbpCommand, w: u64) -> bool {
        c.address as u64 == w & 0xffff && c.command as u64 == w >> 20 & 0xff && c.valid == ((w >> 20 & 0xff) ^ (w >> 28 & 0xff) == 0xff)
    }
}
impl Pd for Nec<NecCommand> {
    const SYNC: u32 = 13500;
    const ZERO: u32 = 1120;
    const ONE: u32 = 2250;
    const BITS: u32 = 32;
    fn same(c: &NecCommand, w: u64) -> bool {
        c.addr as u64 == w & 0xff && c.cmd as u64 == w >> 16 & 0xff
    }
    fn repeat(c: &NecCommand) -> bool {
        c.repeat
    }
}
impl Pd for Nec<Nec16Command> {
    const SYNC: u32 = 13500;
    const ZERO: u32 = 1120;
    const ONE: u32 = 2250;
    const BITS: u32 = 32;
    fn same(c: &Nec16Command, w: u64) -> bool {
        c.addr as u64 == w & 0xffff && c.cmd as u64 == w >> 16 & 0xff
    }
    fn repeat(c: &Nec16Command) -> bool {
        c.repeat
    }
}
impl Pd for Nec<SamsungNecCommand> {
    const SYNC: u32 = 9000;
    const ZERO: u32 = 1120;
    const ONE: u32 = 2250;
    const BITS: u32 = 32;
    fn same(c: &SamsungNecCommand, w: u64) -> bool {
        c.addr as u64 == w & 0xff && c.cmd as u64 == w >> 16 & 0xff
    }
    fn repeat(c: &SamsungNecCommand) -> bool {
        c.repeat
    }
}
impl Pd for Nec<AppleNecCommand> {
    const SYNC: u32 = 13500;
    const ZERO: u32 = 1120;
    const ONE: u32 = 2250;
    const BITS: u32 = 32;
    fn same(c: &AppleNecCommand, w: u64) -> bool {
        c.command_page as u64 == w & 0x1f && c.command as u64 == w >> 17 & 0x7f && c.device_id as u64 == w >> 24
    }
    fn repeat(c: &AppleNecCommand) -> bool {
        c.repeat
    }
}
impl Pd for Nec<NecDebugCmd> {
    const SYNC: u32 = 13500;
    const ZERO: u32 = 1120;
    const ONE: u32 = 2250;
    const BITS: u32 = 32;
    fn same(c: &NecDebugCmd, w: u64) -> bool {
        c.bits as u64 == w
    }
}

/// The bits received since the last pulse that may have been a header.
struct Track {
    on: bool,
    n: u32,
    // (an array: its content never distinguishes partitions)
    word: [u64; 1],
    paused: bool,
}
#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Zero,
    One,
    Pause,
    Sync,
    Other,
}
impl Track {
    fn pulse<P: Pd>(&mut self, k: Kind) {
        let want_pause = P::PAUSE_AT > 0 && self.n == P::PAUSE_AT && !self.paused;
        match k {
            Kind::Sync => {
                self.on = true;
                self.n = 0;
                self.word = [0];
                self.paused = false;
            }
            Kind::Pause if self.on && want_pause => self.paused = true,
            Kind::Zero if self.on && !want_pause && self.n < P::BITS => self.n += 1,
            Kind::One if self.on && !want_pause && self.n < P::BITS => {
                self.word[0] |= 1 << self.n;
                self.n += 1;
            }
            _ => {
                self.on = false;
                self.n = 0;
                self.word = [0];
                self.paused = false;
            }
        }
    }
}

/// One pulse of a kind: a command only for a complete frame, with its bits.
fn step<P: Pd + DecoderBuilder<M>, M: Time>(r: &mut Rx<P, M>, t: &mut Track, k: Kind, space: u64, repeats: bool) {
    t.pulse::<P>(k);
    if let Ok(Some(c)) = r.edge(true, M::ticks(space)) {
        if !repeats || !P::repeat(&c) {
            reached("command");
            require(t.on && t.n == P::BITS, "a command only after header and all bits of a frame");
            require(P::same(&c, t.word[0]), "a command has the bits of its frame");
        }
    }
}

/// A pulse, sorted by the lengths a frame consists of (30 % off at most).
fn sorted<P: Pd + DecoderBuilder<M>, M: Time>(f: u32, r: &mut Rx<P, M>, t: &mut Track, mark: u64, space: u64, repeats: bool) {
    let lim = |us: u32, pct: u32| f as u64 * (us * pct) as u64;
    let x = (mark + space) * 100_000_000;
    if x < lim(P::ZERO, 70) {
        step(r, t, Kind::Other, space, repeats);
    } else if x <= lim(P::ZERO, 130) {
        step(r, t, Kind::Zero, space, repeats);
    } else if x < lim(P::ONE, 70) {
        step(r, t, Kind::Other, space, repeats);
    } else if x <= lim(P::ONE, 130) {
        step(r, t, Kind::One, space, repeats);
    } else if P::PAUSE > 0 && x < lim(P::PAUSE, 70) {
        step(r, t, Kind::Other, space, repeats);
    } else if P::PAUSE > 0 && x < lim(P::SYNC, 70) {
        step(r, t, Kind::Pause, space, repeats);
    } else if x < lim(P::SYNC, 70) {
        step(r, t, Kind::Other, space, repeats);
    } else if x <= lim(P::SYNC, 130) {
        step(r, t, Kind::Sync, space, repeats);
    } else {
        step(r, t, Kind::Other, space, repeats);
    }
}
/// The longest duration considered.
const LONG: u64 = u32::MAX as u64;
/// Any alternating edges.
pub fn monitor<P: Pd + DecoderBuilder<M>, M: Time>(f: u32, repeats: bool) {
    let mut r: Rx<P, M> = Rx::new(f);
    let mut t = Track { on: false, n: 0, word: [0], paused: false };
    // the first rising edge (its duration may look like a whole pulse)
    sorted(f, &mut r, &mut t, 0, any_in(0, LONG), repeats);
    while history() {
        let mark = any_in(0, LONG);
        match r.edge(false, M::ticks(mark)) {
            Ok(None) => {}
            _ => require(false, "no result before the pulse is complete"),
        }
        sorted(f, &mut r, &mut t, mark, any_in(0, LONG), repeats);
    }
}

/// The command of a decoder that is not done.
pub fn no_command<P: DecoderBuilder<u32>>(f: u32) {
    let mut d = P::build(f);
    require(d.command().is_none(), "a new decoder has no command");
    while history() {
        match d.event(any(), any()) {
            State::Done => reached("done"),
            _ => require(d.command().is_none(), "a decoder that is not done has no command"),
        }
        if any() {
            d.reset();
            require(d.command().is_none(), "a decoder that was reset has no command");
        }
    }
}

/// RC5: the directions of the edges at each half-bit parity since the last
/// pulse that cannot belong to a frame.
struct Edges {
    parity: bool,
    /// as many low bits set as there are edges in `reg`
    cnt: [u16; 2],
    reg: [u16; 2],
}
fn step5<M: Time>(r: &mut Rx<Rc5, M>, t: &mut Edges, units: u32, rising: bool, dt: u64) {
    if units == 0 {
        t.cnt = [0, 0];
        t.reg = [0, 0];
    }
    if units == 1 {
        t.parity = !t.parity;
    }
    let p = t.parity as usize;
    t.reg[p] = t.reg[p] << 1 & 0x3fff | rising as u16;
    t.cnt[p] = t.cnt[p] << 1 & 0x3fff | 1;
    if let Ok(Some(c)) = r.edge(rising, M::ticks(dt)) {
        reached("command");
        require(t.cnt[p] == 0x3fff, "a command only after 14 bits without a foreign pulse");
        let w = t.reg[p];
        require(w >> 13 == 1, "the first bit is a rising start edge");
        require(c.start as u16 == w >> 12, "start bits of the frame");
        require(c.toggle == (w >> 11 & 1 == 1), "toggle bit of the frame");
        require(c.addr as u16 == w >> 6 & 0x1f, "address bits of the frame");
        require(c.cmd as u16 == w & 0x3f, "command bits of the frame");
    }
}
pub fn rc5<M: Time>(f: u32) {
    let mut r: Rx<Rc5, M> = Rx::new(f);
    let mut t = Edges { parity: false, cnt: [0; 2], reg: [0; 2] };
    let lim = |us: u32, pct: u32| f as u64 * (us * pct) as u64;
    while history() {
        let dt = any_in(0, LONG);
        let rising: bool = any();
        let x = dt * 100_000_000;
        if x < lim(889, 70) {
            step5(&mut r, &mut t, 0, rising, dt);
        } else if x <= lim(889, 130) {
            step5(&mut r, &mut t, 1, rising, dt);
        } else if x < lim(1778, 70) {
            step5(&mut r, &mut t, 0, rising, dt);
        } else if x <= lim(1778, 130) {
            step5(&mut r, &mut t, 2, rising, dt);
        } else {
            step5(&mut r, &mut t, 0, rising, dt);
        }
    }
}

/// RC6: leader, pause, four header bits, toggle bit and 16 data bits.
struct Pos {
    // 0: idle, 1: leader, 2: pause, 3..: header bits, 7: toggle, 8..: data bits, 24: complete
    pos: u32,
    odd: bool,
    word: [u16; 1],
    toggle: bool,
}
impl Pos {
    fn pulse(&mut self, n: u32, rising: bool) {
        if n & 1 == 1 {
            self.odd = !self.odd;
        }
        if n == 0 {
            self.pos = 0;
        }
        self.pos = match self.pos {
            0 => {
                self.odd = false;
                self.word = [0];
                rising as u32
            }
            1 => if !rising && n == 6 { 2 } else { 0 },
            2 => if rising && n == 2 { 3 } else { 0 },
            p @ 3..=6 => p + self.odd as u32,
            7 => {
                if !rising && n == 3 {
                    self.toggle = true;
                    8
                } else if rising && n == 2 {
                    self.toggle = false;
                    8
                } else if !rising && n == 1 {
                    7
                } else {
                    0
                }
            }
            p if self.odd => {
                if !rising {
                    self.word[0] |= 1 << (23 - p);
                }
                p + 1
            }
            p => p,
        };
    }
}
type D6<M> = <Rc6 as DecoderBuilder<M>>::Decoder;
fn step6<M: Time>(d: &mut D6<M>, t: &mut Pos, n: u32, rising: bool, dt: u64) {
    t.pulse(n, rising);
    match d.event(rising, M::ticks(dt)) {
        State::Done => {
            reached("command");
            require(t.pos == 24, "a command only after leader, header and 16 bits");
            match d.command() {
                Some(c) => {
                    require(c.addr as u16 == t.word[0] >> 8, "address bits of the frame");
                    require(c.cmd as u16 == t.word[0] & 0xff, "command bits of the frame");
                    require(c.toggle == t.toggle, "toggle bit of the frame");
                }
                None => require(false, "a finished decoder has a command"),
            }
            d.reset();
            t.pos = 0;
        }
        State::Error(_) => {
            d.reset();
            t.pos = 0;
        }
        State::Idle => t.pos = 0,
        State::Receiving => require(t.pos < 24, "a complete frame is reported"),
    }
}
pub fn rc6<M: Time>(f: u32) {
    let mut d: D6<M> = <Rc6 as DecoderBuilder<M>>::build(f);
    let mut t = Pos { pos: 0, odd: false, word: [0], toggle: false };
    while history() {
        let dt = any_in(0, LONG);
        // (distinguished so that the pulses of no nominal length are one interval)
        let x = dt * 1_000_000;
        let u = f as u64 * 444;
        if x < u {
            any6::<M>(&mut d, &mut t, f, dt);
        } else if x < 2 * u {
            any6::<M>(&mut d, &mut t, f, dt);
        } else if x < 3 * u {
            any6::<M>(&mut d, &mut t, f, dt);
        } else if x < 4 * u {
            any6::<M>(&mut d, &mut t, f, dt);
        } else if x < 5 * u {
            any6::<M>(&mut d, &mut t, f, dt);
        } else if x < 6 * u {
            any6::<M>(&mut d, &mut t, f, dt);
        } else {
            any6::<M>(&mut d, &mut t, f, dt);
        }
    }
}
/// Units of 444 us, if it is a pulse of the protocol at all.
fn any6<M: Time>(d: &mut D6<M>, t: &mut Pos, f: u32, dt: u64) {
    let rising: bool = any();
    match d.spans().get::<usize>(M::ticks(dt)) {
        Some(0) => units6::<M>(d, t, f, 1, rising, dt),
        Some(1) => units6::<M>(d, t, f, 2, rising, dt),
        Some(2) => units6::<M>(d, t, f, 3, rising, dt),
        Some(3) => units6::<M>(d, t, f, 4, rising, dt),
        Some(4) => units6::<M>(d, t, f, 5, rising, dt),
        Some(5) => units6::<M>(d, t, f, 6, rising, dt),
        Some(_) => require(false, "no RC6 pulse has more than 6 units"),
        None if rising => step6::<M>(d, t, 0, true, dt),
        None => step6::<M>(d, t, 0, false, dt),
    }
}
fn units6<M: Time>(d: &mut D6<M>, t: &mut Pos, f: u32, n: u32, rising: bool, dt: u64) {
    require(near(f, dt, 444 * n), "only pulses within 30% of a nominal length are data");
    if rising {
        step6::<M>(d, t, n, true, dt);
    } else {
        step6::<M>(d, t, n, false, dt);
    }
}

