"""Planted bugs: id -> edits + demonstration.  Used only by seed.py."""
PRELUDE = r'''#![allow(dead_code, unused_imports)]
use infrared::protocol::*;
use infrared::receiver::*;
use infrared::Receiver;
use infrared::sender::*;
use infrared::cmd::*;

/// (rising, duration) events of a pulse-distance word, LSB first
fn word(v: &mut Vec<(bool, u32)>, bits: u64, n: u32, high: u32, zero: u32, one: u32) {
    for i in 0..n {
        v.push((false, high));
        v.push((true, if bits >> i & 1 == 1 { one } else { zero }));
    }
}
fn header(v: &mut Vec<(bool, u32)>, h: u32, l: u32) {
    v.push((true, 50_000));
    v.push((false, h));
    v.push((true, l));
}
fn nec(bits: u32) -> Vec<(bool, u32)> {
    let mut v = vec![];
    header(&mut v, 9000, 4500);
    word(&mut v, bits as u64, 32, 560, 560, 1690);
    v
}
fn denon(bits: u64) -> Vec<(bool, u32)> {
    let mut v = vec![];
    header(&mut v, 3400, 1600);
    word(&mut v, bits, 48, 480, 360, 1200);
    v
}
fn sbp(addr: u16, cmd: u32) -> Vec<(bool, u32)> {
    let mut v = vec![];
    header(&mut v, 4500, 4500);
    word(&mut v, addr as u64, 16, 500, 500, 1500);
    v.push((false, 500));
    v.push((true, 4500));
    word(&mut v, cmd as u64, 20, 500, 500, 1500);
    v
}
/// events of half bit levels of `unit` length after a long pause
fn halves(levels: &[bool], unit: u32) -> Vec<(bool, u32)> {
    let mut v = vec![];
    let (mut cur, mut n) = (false, 0);
    for &l in levels {
        if l != cur {
            v.push((l, if n == 0 { 50_000 } else { n * unit }));
            n = 0;
            cur = l;
        }
        n += 1;
    }
    if cur {
        v.push((false, n * unit));
    }
    v
}
fn rc5(bits: u16) -> Vec<(bool, u32)> {
    let mut l = vec![];
    for i in (0..14).rev() {
        let b = bits >> i & 1 == 1;
        l.push(!b);
        l.push(b);
    }
    halves(&l, 889)
}
fn rc6(toggle: bool, bits: u16) -> Vec<(bool, u32)> {
    let mut l = vec![true, true, true, true, true, true, false, false, true, false];
    for _ in 0..3 {
        l.extend([false, true]);
    }
    l.extend([toggle, toggle, !toggle, !toggle]);
    for i in (0..16).rev() {
        let b = bits >> i & 1 == 1;
        l.extend([b, !b]);
    }
    halves(&l, 444)
}
macro_rules! feed {
    ($r:expr, $v:expr) => {{
        let mut out = vec![];
        for (e, d) in $v {
            out.push($r.event(d, e));
        }
        out
    }};
}
macro_rules! cmds {
    ($r:expr, $v:expr) => {
        feed!($r, $v).into_iter().filter_map(|x| x.ok().flatten()).collect::<Vec<_>>()
    };
}
'''
SEEDS = {}
def seed(sid, prop, edits, demo, needs, breaks, **k):
    SEEDS[sid] = dict(property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **k)

seed("c01-poll-clock", "C01",
  [("src/receiver/ppoll.rs", "self.clock = self.clock.wrapping_add(1);", "self.clock += 1;")],
  r'''fn main() {
    let mut r = infrared::PeriodicPoll::<Nec>::new(20_000);
    for _ in 0..(1u64 << 32) + 5 {
        let _ = r.poll(false);
    }
}
''', "more than 2^32 polls (2.5 days at 20 kHz)", "the poll counter overflows and panics", opt=1)

seed("c01-scale-if", "C01",
  [("src/protocol/utils.rs", "while len.checked_mul(samplerate).is_none() {", "if len.checked_mul(samplerate).is_none() {")],
  r'''fn main() {
    for f in [1_000_000u32, 400_000_000, 1_000_000_000, u32::MAX] {
        let _ = Receiver::<Nec>::new(f);
    }
}
''', "a clock faster than 318 MHz", "building the receiver overflows and panics")

seed("c02-nec16-addr", "C02",
  [("src/protocol/nec/nec16.rs", "let addr = (bits & 0xFFFF) as u16;", "// Plain 8 bit addresses are sent together with their inverse\n        let addr = if ((bits >> 8) ^ bits) & 0xFF == 0xFF {\n            (bits & 0xFF) as u16\n        } else {\n            (bits & 0xFFFF) as u16\n        };")],
  r'''fn main() {
    let mut r = Receiver::<Nec16>::new(1_000_000);
    for addr in [0x1234u32, 0xff00, 0x5aa5, 0x00ff] {
        let c = cmds!(r, nec(0x55aa_0000 | addr));
        assert_eq!((c.len(), c[0].addr as u32, c[0].cmd), (1, addr, 0xaa));
    }
}
''', "a 16-bit address whose two bytes are inverse to each other", "the high address byte is lost")

seed("c03-rc5-start", "C03",
  [("src/protocol/rc5/mod.rs", "let start = ((bits & START_MASK) >> START_SHIFT) as u8;", "let start = ((bits >> START_SHIFT) | 1) as u8;")],
  r'''fn main() {
    let mut r = Receiver::<Rc5>::new(1_000_000);
    let c = cmds!(r, rc5(0x2000 | 5 << 6 | 0x15));
    assert_eq!((c.len(), c[0].start, c[0].addr, c[0].cmd), (1, 0b10, 5, 0x15));
}
''', "an extended RC5 frame (second start bit 0)", "the second start bit (command bit 6 of extended RC5) is lost")

seed("c04-rc6-sticky-toggle", "C04",
  [("src/protocol/rc6/decoder.rs", "(Trailing,      true,       Some(2))    => { self.toggle = false; Data(15) }", "(Trailing,      true,       Some(2))    => Data(15),")],
  r'''fn main() {
    let mut r = Receiver::<Rc6>::new(1_000_000);
    let c = cmds!(r, rc6(true, 0x1234));
    assert_eq!((c.len(), c[0].toggle, c[0].addr, c[0].cmd), (1, true, 0x12, 0x34));
    let c = cmds!(r, rc6(false, 0x1234));
    assert_eq!((c.len(), c[0].toggle, c[0].addr, c[0].cmd), (1, false, 0x12, 0x34));
}
''', "a frame with the toggle bit set followed by one with it clear", "the toggle bit of the earlier frame sticks")

seed("c05-sbp-reset", "C05",
  [("src/protocol/sbp/mod.rs", """        self.state = SbpState::Init;
        self.address = 0;
        self.command = 0;
        self.since_rising""", """        if let SbpState::Done = self.state {
            self.address = 0;
            self.command = 0;
        }
        self.state = SbpState::Init;
        self.since_rising""")],
  r'''fn main() {
    let mut r = Receiver::<Sbp>::new(1_000_000);
    let mut b = sbp(0xffff, 0xfffff);
    b.truncate(30);
    b.push((true, 9999));
    assert!(cmds!(r, b).is_empty());
    let c = cmds!(r, sbp(0x1234, (0x56 | 0xa9 << 8) << 4));
    assert_eq!((c.len(), c[0].address, c[0].command, c[0].valid), (1, 0x1234, 0x56, true));
}
''', "a frame aborted by an error followed by a good one", "address bits of the aborted frame leak into the next command")

seed("c06-denon-tol", "C06",
  [("src/protocol/denon/mod.rs", "const TOL: [u32; 8] = [8, 10, 10,", "const TOL: [u32; 8] = [8, 10, 3,")],
  r'''fn main() {
    let mut r = Receiver::<Denon>::new(1_000_000);
    let v: Vec<_> = denon(0x1234_5678_9abc).into_iter().map(|(e, d)| (e, d + d * 7 / 200)).collect();
    let c = cmds!(r, v);
    assert_eq!((c.len(), c[0].bits), (1, 0x1234_5678_9abc));
}
''', "a remote whose clock is 3.5% slow", "well-timed frames containing a one are dropped")

seed("c07-nec-repeat-inside", "C07",
  [("src/protocol/nec/decoder.rs", "(Receiving(_),      _)      => Err(DecodingError::Data),", "(Receiving(bit),    Repeat) => Receiving(bit),\n                (Receiving(_),      _)      => Err(DecodingError::Data),")],
  r'''fn main() {
    let mut r = Receiver::<Nec>::new(1_000_000);
    let mut v = nec(0xff00_ff00);
    let tail = v.split_off(13);
    v.extend([(false, 9000), (true, 2250)]);
    v.extend(tail);
    let got = cmds!(r, v);
    assert!(got.is_empty(), "{:?}", got);
}
''', "a repeat code in the middle of a frame", "a corrupted frame is reported as a command")

seed("c07-rc6-leader", "C07",
  [("src/protocol/rc6/decoder.rs", "(LeadingPaus,   true,     Some(2))      => HeaderData(3),", "(LeadingPaus,   true,     Some(2 | 4))  => HeaderData(3),")],
  r'''fn main() {
    let mut r = Receiver::<Rc6>::new(1_000_000);
    let mut v = rc6(false, 0x1234);
    assert_eq!(v[2], (true, 888));
    v[2] = (true, 4 * 444);
    assert!(cmds!(r, v).is_empty());
}
''', "a leader space of twice the length", "a frame with a corrupted leader is reported as a command")

seed("c08-samsung-repeat", "C08",
  [("src/protocol/nec/samsung.rs", "Some(SamsungNecCommand { addr, cmd, repeat })", "Some(SamsungNecCommand {\n            addr,\n            cmd,\n            repeat: repeat && Self::validate(bits),\n        })")],
  r'''fn main() {
    let mut r = Receiver::<SamsungNec>::new(1_000_000);
    let mut v = vec![];
    header(&mut v, 4500, 4500);
    word(&mut v, 0x1122_3344, 32, 560, 560, 1690);
    let c = cmds!(r, v);
    assert_eq!((c.len(), c[0].addr, c[0].cmd, c[0].repeat), (1, 0x44, 0x22, false));
    let mut v = vec![];
    header(&mut v, 4500, 2250);
    let c = cmds!(r, v);
    assert_eq!((c.len(), c[0].addr, c[0].cmd, c[0].repeat), (1, 0x44, 0x22, true));
}
''', "a repeat code after a frame without inverse bytes", "the repetition is reported as a new key press")

seed("c09-rc5-scale", "C09",
  [("src/protocol/rc5/encoder.rs", "    if f > 1000 {\n        f /= 1000;\n        div /= 1000;\n    }", "    if f > 100_000 {\n        f /= 100_000;\n        div /= 100_000;\n    }")],
  r'''fn main() {
    let mut b = [0u32; 128];
    let n = <Rc5 as ProtocolEncoder<180_000>>::encode(&rc5::Rc5Command::new(20, 9, false), &mut b);
    let mut r = BufferInputReceiver::<Rc5>::with_frequenzy(180_000);
    let c: Vec<_> = r.iter(&b[..n]).collect();
    assert_eq!(c.len(), 1);
    assert_eq!((c[0].addr, c[0].cmd), (20, 9));
}
''', "a sender clock above 100 kHz that is no multiple of it", "the sent pulses are too short to be received")

seed("c10-u64-span", "C10",
  [("src/receiver/time/primitives.rs", """impl Span<u64> {
    pub const fn new(base: u32, tol: u32) -> Self {
        let tol = base * tol / 100;""", """impl Span<u64> {
    pub const fn new(base: u32, tol: u32) -> Self {
        let tol = base / 100 * tol;""")],
  r'''fn main() {
    let mut r: Receiver<Nec, NoPin, u64> = Receiver::new(40_000);
    let mut n = 0;
    for (e, d) in nec(0xff00_ff00) {
        let d = ((d as u64) * 104 / 100) * 40 / 1000;
        n += matches!(r.event(d, e), Ok(Some(_))) as u32;
    }
    assert_eq!(n, 1);
}
''', "a 64-bit time base and a slow clock", "the tolerance is rounded to zero and in-tolerance frames are dropped")

seed("c11-instant-back", "C11",
  [("src/receiver.rs", """        t: Mono::Instant,
        edge: bool,
    ) -> Result<Option<Cmd>, DecodingError> {
        let dt = Mono::checked_sub(t, self.prev_instant).unwrap_or(Mono::ZERO_DURATION);
        self.prev_instant = t;""", """        t: Mono::Instant,
        edge: bool,
    ) -> Result<Option<Cmd>, DecodingError> {
        let dt = Mono::checked_sub(t, self.prev_instant).unwrap_or(Mono::ZERO_DURATION);
        if dt > Mono::ZERO_DURATION {
            self.prev_instant = t;
        }""")],
  r'''fn main() {
    let mut r = Receiver::<Nec>::new(1_000_000);
    let mut t = 4_000_000_000u32;
    let _ = r.event_instant(t, false);
    let mut n = 0;
    for (i, (e, d)) in nec(0xff00_ff00).into_iter().enumerate() {
        // the timer restarts before the frame
        t = if i == 0 { 0 } else { t + d };
        n += matches!(r.event_instant(t, e), Ok(Some(_))) as u32;
    }
    assert_eq!(n, 1);
}
''', "a timer that is restarted or wraps around", "after the time has gone backwards all later durations are zero")

seed("c12-poll-wrap", "C12",
  [("src/receiver/ppoll.rs", "self.clock.wrapping_sub(self.last_edge)", "self.clock.saturating_sub(self.last_edge)")],
  r'''fn main() {
    let mut r = infrared::PeriodicPoll::<Nec>::new(1_000_000);
    for _ in 0..(1u64 << 32) - 70_000 {
        let _ = r.poll(false);
    }
    let mut n = 0;
    let mut lvl = false;
    for (e, d) in nec(0xff00_ff00).into_iter() {
        for _ in 1..d {
            n += matches!(r.poll(lvl), Ok(Some(_))) as u32;
        }
        lvl = e;
        n += matches!(r.poll(lvl), Ok(Some(_))) as u32;
    }
    assert_eq!(n, 1);
}
''', "a pulse that spans the wrap-around of the poll counter", "the pulse is measured as zero", opt=1)

seed("c14-five-copy", "C14",
  [("src/receiver/multi.rs", """    fn event(rs: &mut Self::Receivers, dt: Mono::Duration, edge: bool) -> [Option<AnyCommand>; 5] {
        [
            rs.0.event(dt, edge).unwrap_or_default().map(Into::into),
            rs.1.event(dt, edge).unwrap_or_default().map(Into::into),
            rs.2.event(dt, edge).unwrap_or_default().map(Into::into),
            rs.3.event(dt, edge).unwrap_or_default().map(Into::into),
            rs.4.event(dt, edge)""", """    fn event(rs: &mut Self::Receivers, dt: Mono::Duration, edge: bool) -> [Option<AnyCommand>; 5] {
        [
            rs.0.event(dt, edge).unwrap_or_default().map(Into::into),
            rs.1.event(dt, edge).unwrap_or_default().map(Into::into),
            rs.2.event(dt, edge).unwrap_or_default().map(Into::into),
            rs.3.event(dt, edge).unwrap_or_default().map(Into::into),
            rs.3.event(dt, edge)""")],
  r'''fn main() {
    let mut r: MultiReceiver<5, (Nec, Rc5, Rc6, Sbp, Denon), NoPin> = MultiReceiver::new(1_000_000, NoPin);
    let mut n = 0;
    for (e, d) in denon(0x1234_5678_9abc) {
        n += r.event_generic(d, e).into_iter().flatten().count();
    }
    assert_eq!(n, 1);
}
''', "a multi receiver over five protocols", "the fourth decoder sees every edge twice and the fifth none")

seed("c15-tick-wrap", "C15",
  [("src/sender/senders.rs", "ts.wrapping_sub(self.ts_lastedge)", "ts.saturating_sub(self.ts_lastedge)")],
  r'''fn main() {
    let mut s: PulsedataSender<128> = PulsedataSender::new();
    s.load_command::<Nec, 1_000_000>(&nec::NecCommand { addr: 1, cmd: 2, repeat: false });
    let mut ts = u32::MAX - 5000;
    let mut idle = false;
    for _ in 0..200_000 {
        idle = s.tick(ts) == Status::Idle;
        ts = ts.wrapping_add(1);
    }
    assert!(idle);
}
''', "a time stamp counter that wraps around during a transmission", "the transmission hangs with the output on")

seed("c16-load-counter", "C16",
  [("src/sender/hal.rs", """            self.buffer.load_command::<Proto, F>(cmd);
            self.counter = 0;
        }""", """            self.buffer.load_command::<Proto, F>(cmd);
        }
        self.counter = 0;""")],
  r'''struct P(std::rc::Rc<std::cell::Cell<bool>>);
impl embedded_hal::PwmPin for P {
    type Duty = u32;
    fn disable(&mut self) { self.0.set(false) }
    fn enable(&mut self) { self.0.set(true) }
    fn get_duty(&self) -> u32 { 0 }
    fn get_max_duty(&self) -> u32 { 0 }
    fn set_duty(&mut self, _: u32) {}
}
fn play(second: bool) -> Vec<bool> {
    let on = std::rc::Rc::new(std::cell::Cell::new(false));
    let mut s: Sender<P, 40_000, 128> = Sender::new(P(on.clone()));
    let c = nec::NecCommand { addr: 1, cmd: 2, repeat: false };
    s.load::<Nec>(&c);
    (0..5000)
        .map(|i| {
            if second && i == 500 {
                s.load::<Nec>(&c);
            }
            s.tick();
            on.get()
        })
        .collect()
}
fn main() {
    assert!(play(false) == play(true));
}
''', "loading a command while another one is being sent", "the running transmission is disturbed")

seed("c18-nec16-validate", "C18",
  [("src/protocol/nec/nec16.rs", "((bits >> 24) ^ (bits >> 16)) & 0xFF == 0xFF", "((bits >> 24) ^ (bits >> 16)) & 0xFF == 0xFF && ((bits >> 8) ^ bits) & 0xFF != 0xFF")],
  r'''use infrared::protocol::nec::{Nec16Command, NecCommandVariant};
fn main() {
    for addr in 0..=0xffffu16 {
        let c = Nec16Command { addr, cmd: 7, repeat: false };
        assert!(Nec16Command::validate(c.pack()));
    }
}
''', "a 16-bit address whose bytes are inverse to each other", "the packed word is refused by the variant's own validation")

seed("c19-rc6-create", "C19",
  [("src/protocol/rc6/cmd.rs", "Some(Rc6Command::new(addr.try_into().ok()?, cmd.try_into().ok()?))", "let addr: u8 = addr.try_into().ok()?;\n        Some(Rc6Command::new(addr, cmd as u8))")],
  r'''fn main() {
    assert!(rc6::Rc6Command::create(1, 0x134).is_none());
    assert!(rc6::Rc6Command::create(1, 0x34).is_some());
}
''', "a command number above 255", "the number is truncated instead of refused")

seed("c20-monotonic-freq", "C20",
  [("src/receiver/builder.rs", """    pub fn monotonic<NewMono: InfraMonotonic>(self) -> Builder<Proto, Input, NewMono, Cmd> {
        Builder {
            freq: self.freq,""", """    pub fn monotonic<NewMono: InfraMonotonic>(self) -> Builder<Proto, Input, NewMono, Cmd> {
        Builder {
            freq: Builder::default().freq,""")],
  r'''fn main() {
    let mut r = infrared::receiver().nec().frequency(40_000).monotonic::<u64>().build();
    let mut n = 0;
    for (e, d) in nec(0xff00_ff00) {
        n += matches!(r.event(d as u64 * 40 / 1000, e), Ok(Some(_))) as u32;
    }
    assert_eq!(n, 1);
}
''', "setting the frequency before the monotonic", "the frequency is forgotten")

seed("c21-rc6-static", "C21",
  [("src/protocol/rc6/decoder.rs", "(Trailing,      false,      Some(3))    => { self.toggle = true; Data(15) }", "(Trailing,      false,      Some(3))    => { TOGGLE.store(true, Relaxed); Data(15) }"),
   ("src/protocol/rc6/decoder.rs", "(Trailing,      true,       Some(2))    => { self.toggle = false; Data(15) }", "(Trailing,      true,       Some(2))    => { TOGGLE.store(false, Relaxed); Data(15) }"),
   ("src/protocol/rc6/decoder.rs", "        self.state.into()\n\n    }", "        self.toggle = TOGGLE.load(Relaxed);\n        self.state.into()\n\n    }"),
   ("src/protocol/rc6/decoder.rs", "const RC6_TIME_UNIT: u32 = 444;", "use core::sync::atomic::{AtomicBool, Ordering::Relaxed};\n\nstatic TOGGLE: AtomicBool = AtomicBool::new(false);\n\nconst RC6_TIME_UNIT: u32 = 444;")],
  r'''fn main() {
    let mut a = Receiver::<Rc6>::new(1_000_000);
    let mut b = Receiver::<Rc6>::new(1_000_000);
    let (va, vb) = (rc6(true, 0x1234), rc6(false, 0x1234));
    let mut got = vec![];
    for i in 0..va.len().max(vb.len()) {
        if let Some(&(e, d)) = va.get(i) {
            got.extend(a.event(d, e).unwrap().map(|c| (0, c.toggle)));
        }
        if let Some(&(e, d)) = vb.get(i) {
            got.extend(b.event(d, e).unwrap().map(|c| (1, c.toggle)));
        }
    }
    got.sort();
    assert_eq!(got, [(0, true), (1, false)]);
}
''', "two RC6 receivers used at the same time", "the receivers share the toggle bit through a global")

seed("c24-total-reset", "C24",
  [("src/receiver/decoder.rs", """            State::Error(err) => {
                self.reset();
                Err(err)
            }""", """            State::Error(err) => Err(err),""")],
  r'''fn main() {
    let mut r = infrared::PeriodicPoll::<Nec>::new(100_000);
    let mut lvl = false;
    let mut n = 0;
    let mut v = nec(0xff00_ff00);
    v.truncate(21);
    v.extend([(false, 560), (true, 9999), (false, 560)]);
    v.extend(nec(0xff00_ff00));
    for (e, d) in v {
        for _ in 1..d / 10 {
            n += matches!(r.poll(lvl), Ok(Some(_))) as u32;
        }
        lvl = e;
        n += matches!(r.poll(lvl), Ok(Some(_))) as u32;
    }
    assert_eq!(n, 1);
}
''', "a decoding error in a polled receiver", "the decoder stays in its error state forever")

seed("c24-error-name", "C24",
  [("src/receiver/error.rs", "DecodingError::Address => Error::Address,", "DecodingError::Address => Error::Data,")],
  r'''fn main() {
    let e: Error<()> = DecodingError::Address.into();
    assert!(matches!(e, Error::Address));
}
''', "an address error in a pin receiver", "it is reported as a data error")

seed("c09-rc6-byte", "C09",
  [("src/protocol/rc6/encoder.rs", "            (Low(lt), Low(nlt)) => {\n                    prevlev = Low(lt + nlt);", "            (Low(lt), Low(nlt)) => {\n                    // A long space is the end of the leader or of the frame\n                    prevlev = Low(if lt > rc6len { lt } else { lt + nlt });")],
  r'''fn main() {
    for toggle in [false, true] {
        for c in 0..=255u8 {
            for a in [0u8, 0x7f, 0x80, 0xff] {
                let cmd = rc6::Rc6Command { addr: a, cmd: c, toggle };
                let mut b = [0u32; 96];
                let n = <Rc6 as ProtocolEncoder<1_000_000>>::encode(&cmd, &mut b);
                let mut r = BufferInputReceiver::<Rc6>::with_frequenzy(1_000_000);
                let got: Vec<_> = r.iter(&b[..n]).collect();
                assert_eq!(got.len(), 1, "{:?}", cmd);
                assert_eq!((got[0].addr, got[0].cmd, got[0].toggle), (a, c, toggle));
            }
        }
    }
}
''', "the toggle bit set and an address below 128", "the space after the toggle bit is too short, the frame is not received")

seed("c09-samsung-header", "C09",
  [("src/protocol/nec/encoder.rs", "        calc_ticks(Cmd::PULSE_DISTANCE.header_high, F),", "        calc_ticks(2 * Cmd::PULSE_DISTANCE.header_low, F),")],
  r'''fn main() {
    let mut b = [0u32; 96];
    let cmd = nec::SamsungNecCommand { addr: 7, cmd: 2, repeat: false };
    let n = <SamsungNec as ProtocolEncoder<40_000>>::encode(&cmd, &mut b);
    let mut r = BufferInputReceiver::<SamsungNec>::with_frequenzy(40_000);
    let got: Vec<_> = r.iter(&b[..n]).collect();
    assert_eq!(got.len(), 1);
    assert_eq!((got[0].addr, got[0].cmd), (7, 2));
}
''', "sending to a Samsung device", "Samsung frames get the header of standard NEC")

seed("c13-iter-with", "C13",
  [("src/receiver/bufferinput.rs", """        C: From<<P as Protocol>::Cmd>,
    {
        BufferIterator::new(resolution, buf)""", """        C: From<<P as Protocol>::Cmd>,
    {
        BufferIterator::new(self.resolution.max(resolution), buf)""")],
  r'''fn main() {
    let mut r = BufferInputReceiver::<Rc5>::with_frequenzy(1_000_000);
    let b: Vec<u32> = nec(0xff00_ff00).into_iter().map(|(_, d)| d / 25).collect();
    let n = r.iter_with::<Nec, u32, nec::NecCommand>(40_000, &b).count();
    assert_eq!(n, 1);
}
''', "a buffer recorded at a lower resolution than the receiver's own", "the wrong resolution is used")

seed("c13-skip-gap", "C13",
  [("src/receiver/iter.rs", """                State::Error(_) => {
                    self.decoder.reset();""", """                State::Error(_) => {
                    // resynchronise on the next pulse
                    self.pos += self.pos & 1;
                    self.decoder.reset();""")],
  r'''fn main() {
    let mut r = BufferInputReceiver::<Nec>::with_frequenzy(1_000_000);
    // two noise edges, the second of which ends in an error, and then a frame
    let mut b: Vec<u32> = vec![50_000, 9000, 4500, 3000];
    let mut v = nec(0xff00_ff00);
    v[0].1 = 30_000;
    b.extend(v.into_iter().map(|(_, d)| d));
    let want: Vec<_> = {
        let mut q = Receiver::<Nec>::new(1_000_000);
        let mut e = false;
        b.iter().filter_map(|d| { e = !e; q.event(*d, e).ok().flatten() }).map(|c| (c.addr, c.cmd)).collect()
    };
    let mut edges = vec![];
    for cut in 0..b.len() {
        let n = r.iter(&b[cut & !1..]).count();
        edges.push(n);
    }
    let got: Vec<_> = r.iter(&b).map(|c| (c.addr, c.cmd)).collect();
    assert_eq!(got, want);
    // an error on an odd entry
    let b: Vec<u32> = [50_000u32, 9000, 4500, 560, 9999].into_iter().chain(nec(0xff00_ff00).into_iter().map(|(_, d)| d).skip(1)).collect();
    let want = {
        let mut q = Receiver::<Nec>::new(1_000_000);
        let mut e = false;
        b.iter().filter(|d| { e = !e; matches!(q.event(**d, e), Ok(Some(_))) }).count()
    };
    assert_eq!(r.iter(&b).count(), want);
}
''', "a decoding error on a rising edge", "the entry after the error is skipped")

seed("c17-samsung-dup", "C17",
  [("src/remotecontrol/nec/samsungtv.rs", "(75, Tools),", "(71, Tools),")],
  r'''use infrared::remotecontrol::{nec::SamsungTv, Action, RemoteControlModel};
fn main() {
    for (_, a) in SamsungTv::BUTTONS {
        let c = SamsungTv::encode(a).unwrap();
        assert_eq!(SamsungTv::decode(&c), Some(*a));
    }
}
''', "the Tools or the Play key", "two keys share a code; Play is decoded as Tools")

seed("c17-apple-page", "C17",
  [("src/remotecontrol/nec/apple2009.rs", "            .find(|(c, _b)| c == &(cmd.command_page, cmd.command))", "            .find(|(c, _b)| c.1 == cmd.command)")],
  r'''use infrared::remotecontrol::{nec::Apple2009, Action, RemoteControlModel};
fn main() {
    let c = |p, k| nec::AppleNecCommand { command_page: p, command: k, device_id: 1, repeat: false };
    assert_eq!(Apple2009::decode(&c(0x0e, 3)), Some(Action::Right));
    assert_eq!(Apple2009::decode(&c(0x00, 3)), Some(Action::BatteryLow));
    assert_eq!(Apple2009::decode(&c(0x05, 3)), None);
}
''', "a command on another page", "the battery warning is reported as a key")

seed("c22-fugit-gate", "C22",
  [("src/receiver.rs", """#[cfg(feature = "embedded")]
impl<Proto, Pin, const HZ: u32, Cmd> Receiver<Proto, Pin, fugit::TimerInstantU64<HZ>, Cmd>""", """#[cfg(feature = "embedded-hal")]
impl<Proto, Pin, const HZ: u32, Cmd> Receiver<Proto, Pin, fugit::TimerInstantU64<HZ>, Cmd>""")],
  r'''fn main() {
    let _ = infrared::Receiver::<infrared::protocol::Rc5>::new(40_000);
}
''', "embedded-hal selected without fugit", "the library does not compile", noprelude=True, deps=', default-features = false, features = ["rc5", "embedded-hal"]')

seed("c22-utils-gate", "C22",
  [("src/protocol/utils.rs", "pub(crate) const fn scale_with_samplerate", """#[cfg(any(feature = "nec", feature = "rc5", feature = "rc6", feature = "denon"))]
pub(crate) const fn scale_with_samplerate""")],
  None, "Sbp selected alone (or no protocol, with a custom one)", "the library does not compile", sh=r'''#!/bin/bash
r=$PWD
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
unset RUSTFLAGS RUSTC_WRAPPER
mkdir -p "$t/src"
cat > "$t/Cargo.toml" <<X
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
infrared = { path = "$r", default-features = false, features = ["sbp"] }
X
cat > "$t/src/main.rs" <<X
fn main() {
    let _ = infrared::Receiver::<infrared::protocol::Sbp>::new(40_000);
}
X
timeout 200 cargo check -q --offline --target-dir "$t/target" --manifest-path "$t/Cargo.toml"
''')

seed("c23-not-send", "C23",
  [("src/receiver.rs", "    /// Type of the final command output\n    pub(crate) cmd: PhantomData<Cmd>,\n}", "    /// Type of the final command output\n    pub(crate) cmd: PhantomData<*const Cmd>,\n}")],
  r'''fn main() {
    let mut r = Receiver::<Nec>::new(1_000_000);
    let n = std::thread::spawn(move || cmds!(r, nec(0xff00_ff00)).len()).join().unwrap();
    assert_eq!(n, 1);
}
''', "moving a receiver to another thread or interrupt context", "it does not compile any more")

seed("c23-any-remote", "C23",
  [("src/remotecontrol/mapper.rs", """impl<Cmd, Rc> From<Cmd> for Button<Rc, Cmd>
where
    Rc: RemoteControlModel<Cmd = Cmd>,
{
    fn from(cmd: Cmd) -> Self {
        let action = Rc::decode(&cmd);""", """impl<Cmd, Rc> From<Cmd> for Button<Rc, Cmd>
where
    Rc: RemoteControlModel,
    Cmd: AddressCommand,
{
    fn from(cmd: Cmd) -> Self {
        let action = Rc::Cmd::create(cmd.address(), cmd.command())
            .as_ref()
            .and_then(Rc::decode);"""),
   ("src/receiver/builder.rs", "-> Builder<Proto, Input, Mono, Button<Remote>>\n    where\n        Remote: RemoteControlModel,", "-> Builder<Proto, Input, Mono, Button<Remote, Proto::Cmd>>\n    where\n        Remote: RemoteControlModel,\n        Proto: Protocol,")],
  None, "a remote control of another protocol", "the combination compiles", sh=r'''#!/bin/bash
# exit 0: the wrong program is rejected and the right one accepted
d=$(cd "$(dirname "$0")" && pwd); r=$PWD
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
unset RUSTFLAGS RUSTC_WRAPPER
try() {
mkdir -p "$t/src"
cat > "$t/Cargo.toml" <<X
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
infrared = { path = "$r" }
X
cat > "$t/src/main.rs" <<X
use infrared::remotecontrol::{rc5::CdPlayer, nec::SpecialForMp3};
fn main() {
    let _r = infrared::receiver().rc5().remotecontrol($1).build();
}
X
timeout 200 cargo check -q --offline --target-dir "$t/target" --manifest-path "$t/Cargo.toml"
}
try CdPlayer || { echo "error: right program rejected"; exit 1; }
if try SpecialForMp3 2>/dev/null; then echo "error: wrong program accepted"; exit 1; fi
exit 0
''')

seed("c25-rc5-gap", "C25",
  [("src/protocol/rc5/decoder.rs", "        let clock_ticks = self.spans.get::<usize>(delta_t);\n", """        let clock_ticks = self.spans.get::<usize>(delta_t);
        // Let the clock run on through a long pause
        let (unit, max) = (self.spans.spans[0].high, self.spans.spans[1].high);
        let mut gap = max;
        while clock_ticks.is_none() && gap < delta_t {
            gap = Mono::saturating_add(gap, unit);
            self.clock = self.clock.wrapping_add(1);
        }
"""), ("src/receiver/time.rs", "pub struct Span<Dur> {\n    low: Dur,\n    high: Dur,\n}", "pub struct Span<Dur> {\n    low: Dur,\n    pub(crate) high: Dur,\n}")],
  r'''fn main() {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let mut r: Receiver<Rc5, NoPin, u64> = Receiver::new(1_000_000);
        let _ = r.event(u64::MAX / 2, true);
        let _ = tx.send(());
    });
    if rx.recv_timeout(std::time::Duration::from_secs(20)).is_err() {
        panic!("one event takes forever");
    }
}
''', "a very long pause before an edge", "the work of one event grows with the length of the pause")

seed("c25-scale-steps", "C25",
  [("src/protocol/utils.rs", """        div /= 1000;
        samplerate /= 1000;
    }""", """        div -= 1;
        samplerate -= samplerate / (div + 1);
    }""")],
  r'''fn main() {
    for f in [40_000u32, 1_000_000, 2_000_000_000, u32::MAX] {
        let (tx, rx) = std::sync::mpsc::channel();
        std::thread::spawn(move || {
            for _ in 0..100 {
                let _ = Receiver::<Denon>::new(f);
            }
            let _ = tx.send(());
        });
        let t = std::time::Instant::now();
        let ok = rx.recv_timeout(std::time::Duration::from_secs(20)).is_ok();
        if !ok || t.elapsed().as_millis() > 100 {
            panic!("building a receiver takes {:?}", t.elapsed());
        }
    }
}
''', "a sampling frequency above 477 MHz", "building a receiver takes up to a million steps instead of a few")

seed("c12-poll-after-error", "C12",
  [("src/receiver/ppoll.rs", """        self.edge = edge;
        self.last_edge = self.clock;

        self.decoder
            .event_total(edge, ds)
            .map(|cmd| cmd.map(Into::into))""", """        self.edge = edge;

        let cmd = self.decoder.event_total(edge, ds)?;
        self.last_edge = self.clock;

        Ok(cmd.map(Into::into))""")],
  r'''fn main() {
    let mut m = infrared::PeriodicPoll::<Probe>::new(1);
    let mut d = vec![];
    for (i, n) in [3u32, 4, 5, 6, 7, 8].iter().enumerate() {
        for _ in 1..*n {
            assert!(m.poll(i % 2 == 1).map_or(true, |x| x.is_none()));
        }
        let _ = m.poll(i % 2 == 0);
        d.push(SEEN.with(|s| s.get()));
    }
    assert_eq!(d, [3, 4, 5, 6, 7, 8]);
}
thread_local!(static SEEN: std::cell::Cell<u32> = std::cell::Cell::new(0));
struct Probe;
impl infrared::Protocol for Probe {
    type Cmd = ();
}
struct Dec(infrared::receiver::time::PulseSpans<u32>);
impl DecoderBuilder<u32> for Probe {
    type Decoder = Dec;
    fn build(f: u32) -> Dec {
        Dec(infrared::receiver::time::PulseSpans::new(f, &[0; 8], &[0; 8]))
    }
}
impl ProtocolDecoder<Probe, u32> for Dec {
    fn event(&mut self, _: bool, d: u32) -> State {
        SEEN.with(|s| s.set(d));
        if d % 2 == 0 { State::Error(DecodingError::Data) } else { State::Receiving }
    }
    fn command(&self) -> Option<()> { None }
    fn reset(&mut self) {}
    fn spans(&self) -> &infrared::receiver::time::PulseSpans<u32> { &self.0 }
}
''', "a pulse that follows one on which the decoder reported an error", "the pulse is measured from an earlier edge")

seed("c16-load-between", "C16",
  [("src/sender/hal.rs", "if self.buffer.status == Status::Idle {", "if !matches!(self.buffer.status, Status::Transmit(true)) {")],
  r'''struct P(std::rc::Rc<std::cell::Cell<bool>>);
impl embedded_hal::PwmPin for P {
    type Duty = u32;
    fn disable(&mut self) { self.0.set(false) }
    fn enable(&mut self) { self.0.set(true) }
    fn get_duty(&self) -> u32 { 0 }
    fn get_max_duty(&self) -> u32 { 0 }
    fn set_duty(&mut self, _: u32) {}
}
fn play(at: usize) -> Vec<bool> {
    let on = std::rc::Rc::new(std::cell::Cell::new(false));
    let mut s: Sender<P, 40_000, 128> = Sender::new(P(on.clone()));
    let c = nec::NecCommand { addr: 1, cmd: 2, repeat: false };
    s.load::<Nec>(&c);
    (0..5000)
        .map(|i| {
            if i == at {
                s.load::<Nec>(&c);
            }
            s.tick();
            on.get()
        })
        .collect()
}
fn main() {
    let p = play(9999);
    for at in (5..600).step_by(7) {
        assert!(play(at) == p);
    }
}
''', "loading a command while the carrier is off in the middle of a frame", "the running transmission is cut off")

seed("c04-rc6-noise-parity", "C04",
  [("src/protocol/rc6/decoder.rs", "(Idle,          true,     _)            => { self.clock = 0; Leading },", "(Idle,          true,     _)            => Leading,")],
  r'''fn main() {
    let mut r = Receiver::<Rc6>::new(1_000_000);
    for d in [444u32, 888, 1332, 2664, 300, 7000] {
        let _ = r.event(20_000, false);
        let mut f = rc6(false, 0x1234);
        // the level dropped shortly before
        f[0].1 = d;
        let c = cmds!(r, f);
        assert_eq!((c.len(), c[0].addr, c[0].cmd), (1, 0x12, 0x34), "{}", d);
    }
}
''', "a frame that starts less than six half bits after the last edge", "the bit clock starts with the wrong phase and the frame is lost or garbled")

seed("c14-first-wins", "C14",
  [("src/receiver/multi.rs", """    fn event(rs: &mut Self::Receivers, dt: Mono::Duration, edge: bool) -> [Option<AnyCommand>; 3] {
        [
            rs.0.event(dt, edge).unwrap_or_default().map(Into::into),
            rs.1.event(dt, edge).unwrap_or_default().map(Into::into),
            rs.2.event(dt, edge).unwrap_or_default().map(Into::into),
        ]""", """    fn event(rs: &mut Self::Receivers, dt: Mono::Duration, edge: bool) -> [Option<AnyCommand>; 3] {
        let mut out = [None, None, None];
        out[0] = rs.0.event(dt, edge).unwrap_or_default().map(Into::into);
        out[1] = rs.1.event(dt, edge).unwrap_or_default().map(Into::into);
        if out[..2].iter().all(|c| c.is_none()) {
            out[2] = rs.2.event(dt, edge).unwrap_or_default().map(Into::into);
        }
        out""")],
  r'''fn main() {
    let mut r: MultiReceiver<3, (Nec, Nec, Nec), NoPin> = MultiReceiver::new(1_000_000, NoPin);
    for _ in 0..2 {
        let mut last = [None, None, None];
        for (e, d) in nec(0x55aa_ff00) {
            let c = r.event_generic(d, e);
            if c.iter().any(|x| x.is_some()) {
                last = c;
            }
        }
        assert!(last.iter().all(|c| c.is_some()));
    }
}
''', "two protocols of one multi receiver that complete a command with the same edge", "the third receiver misses the edge")

seed("c11-instant-hal", "C11",
  [("src/receiver.rs", """        let edge = self.pin.is_low().map_err(Error::Hal)?;

        let dt = Mono::checked_sub(t, self.prev_instant).unwrap_or(Mono::ZERO_DURATION);
        self.prev_instant = t;
""", """        let dt = Mono::checked_sub(t, self.prev_instant).unwrap_or(Mono::ZERO_DURATION);
        self.prev_instant = t;

        let edge = self.pin.is_low().map_err(Error::Hal)?;
""")],
  r'''struct Pin(std::rc::Rc<std::cell::Cell<Option<bool>>>);
impl embedded_hal::digital::v2::InputPin for Pin {
    type Error = ();
    fn is_high(&self) -> Result<bool, ()> { self.0.get().map(|x| !x).ok_or(()) }
    fn is_low(&self) -> Result<bool, ()> { self.0.get().ok_or(()) }
}
fn main() {
    let p = std::rc::Rc::new(std::cell::Cell::new(Some(false)));
    let mut r: Receiver<Nec, Pin> = Receiver::with_pin(1_000_000, Pin(p.clone()));
    let (mut t, mut n) = (0u32, 0);
    for (i, (e, d)) in nec(0x55aa_ff00).into_iter().enumerate() {
        if i == 20 {
            // the pin cannot be read for a moment in the middle of a pulse
            p.set(None);
            assert!(r.event_instant(t + d / 2).is_err());
        }
        t += d;
        p.set(Some(e));
        n += matches!(r.event_instant(t), Ok(Some(_))) as u32;
    }
    assert_eq!(n, 1);
}
''', "a pin that cannot be read once in the middle of a pulse", "the time up to the failed reading is lost from the pulse")

seed("c07-nec-resync", "C07",
  [("src/protocol/nec/decoder.rs", "(Receiving(_),      _)      => Err(DecodingError::Data),", "(Receiving(bit),    Sync)   => Receiving(bit),\n                (Receiving(_),      _)      => Err(DecodingError::Data),")],
  r'''fn main() {
    let mut r = Receiver::<Nec16>::new(1_000_000);
    let mut a = nec(0xff00_ff00);
    a.truncate(27);
    assert!(cmds!(r, a).is_empty());
    // the next frame comes at once
    let mut f = nec(0x55 << 12 | 0xaa << 4);
    f.remove(0);
    assert!(cmds!(r, f).is_empty());
}
''', "a frame that breaks off, followed by another", "bits of the two frames are put together")

seed("c09-nec-stale", "C09",
  [("src/protocol/nec/encoder.rs", "        b[0] = 0;\n", "")],
  r'''fn main() {
    let c = nec::NecCommand { addr: 1, cmd: 2, repeat: false };
    let (mut a, mut b) = ([0u32; 96], [777u32; 96]);
    let n = <Nec as ProtocolEncoder<40_000>>::encode(&c, &mut a);
    let m = <Nec as ProtocolEncoder<40_000>>::encode(&c, &mut b);
    assert_eq!(a[..n], b[..m]);
}
''', "a buffer that held another train before", "the first entry of the train is left over from the earlier one")
