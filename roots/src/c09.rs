//! C09: what the library sends it receives unchanged.
//!
//! Two halves that meet in the middle.  `send`: for every command, the train
//! in the sender's buffer consists of the pulses its bits ask for, each as long
//! as the same pulse of a fixed sample command.  `hear`: a receiver fed trains
//! of those pulse lengths, for every choice of bits, reports the command.
use crate::h::*;
use crate::vs::*;
use infrared::protocol::nec::*;
use infrared::protocol::rc5::Rc5Command;
use infrared::protocol::rc6::Rc6Command;
use infrared::protocol::*;
use infrared::sender::*;

/// Whatever was sent before.
struct Earlier;
impl Protocol for Earlier {
    type Cmd = ();
}
impl<const F: u32> ProtocolEncoder<F> for Earlier {
    type EncoderData = ();
    const DATA: () = ();
    fn encode(_: &(), buf: &mut [u32]) -> usize {
        let mut i = 0;
        while i < 96 {
            buf[i] = any();
            i += 1;
        }
        96
    }
}

fn load<P: ProtocolEncoder<F>, const F: u32>(c: &P::Cmd) -> PulsedataSender<96> {
    let mut s = PulsedataSender::<96>::new();
    s.load_command::<Earlier, F>(&());
    s.load_command::<P, F>(c);
    s
}

// ------------------------------------------------------------------------ NEC

pub trait Sent: NecCommandVariant {
    fn some() -> Self;
    /// A command whose word has a zero at bit `.0` and a one at bit `.1`.
    fn sample() -> (Self, usize, usize);
    fn is(&self, o: &Self) -> bool;
}
impl Sent for NecCommand {
    fn some() -> Self {
        NecCommand { addr: any(), cmd: any(), repeat: any() }
    }
    fn sample() -> (Self, usize, usize) {
        (NecCommand { addr: 0, cmd: 0, repeat: false }, 0, 8)
    }
    fn is(&self, o: &Self) -> bool {
        self.addr == o.addr && self.cmd == o.cmd && !o.repeat
    }
}
impl Sent for SamsungNecCommand {
    fn some() -> Self {
        SamsungNecCommand { addr: any(), cmd: any(), repeat: any() }
    }
    fn sample() -> (Self, usize, usize) {
        (SamsungNecCommand { addr: 0, cmd: 0, repeat: false }, 0, 24)
    }
    fn is(&self, o: &Self) -> bool {
        self.addr == o.addr && self.cmd == o.cmd && !o.repeat
    }
}
impl Sent for Nec16Command {
    fn some() -> Self {
        Nec16Command { addr: any(), cmd: any(), repeat: any() }
    }
    fn sample() -> (Self, usize, usize) {
        (Nec16Command { addr: 0, cmd: 0, repeat: false }, 0, 24)
    }
    fn is(&self, o: &Self) -> bool {
        self.addr == o.addr && self.cmd == o.cmd && !o.repeat
    }
}
impl Sent for NecDebugCmd {
    fn some() -> Self {
        NecDebugCmd { bits: any() }
    }
    fn sample() -> (Self, usize, usize) {
        (NecDebugCmd { bits: 2 }, 0, 1)
    }
    fn is(&self, o: &Self) -> bool {
        self.bits == o.bits
    }
}

/// Pulse lengths of the sample: header, header pause, mark, zero, one.
struct Lens {
    hh: u32,
    hl: u32,
    mark: u32,
    zero: u32,
    one: u32,
}
fn lens<C: Sent, const F: u32>() -> Lens {
    let (c, z, o) = C::sample();
    let s = load::<Nec<C>, F>(&c);
    let b = s.buffer();
    require(b.len() == 67, "a NEC train has 67 entries");
    Lens { hh: b[1], hl: b[2], mark: b[3], zero: b[4 + 2 * z], one: b[4 + 2 * o] }
}
fn send<C: Sent, const F: u32>() {
    let _ = frequency_whole(20_000, 100_000_000);
    let l = lens::<C, F>();
    let mut i = 0;
    while i < 32 {
        let c = C::some();
        let judge = |want: u32| {
            reached("a bit");
            let s = load::<Nec<C>, F>(&c);
            let b = s.buffer();
            require(b.len() == 67, "a NEC train has 67 entries");
            require(b[0] == 0 && b[1] == l.hh && b[2] == l.hl, "the header is the same for every command");
            require(b[3 + 2 * i] == l.mark, "every bit starts with the same mark");
            require(b[4 + 2 * i] == want, "the pause after the mark says which bit");
        };
        if c.pack() >> i & 1 == 1 {
            judge(l.one)
        } else {
            judge(l.zero)
        }
        i += 1;
    }
}
fn hear<C: Sent, const F: u32>() {
    let f = frequency(20_000, 100_000_000);
    let l = lens::<C, F>();
    let mut r: Rx<Nec<C>, u32> = Rx::new(f);
    r.quiet(true, 0);
    r.quiet(false, l.hh);
    r.quiet(true, l.hl);
    let c = C::some();
    let word = c.pack();
    let mut i = 0;
    while i < 31 {
        r.quiet(false, l.mark);
        if word >> i & 1 == 1 {
            r.quiet(true, l.one);
        } else {
            r.quiet(true, l.zero);
        }
        i += 1;
    }
    r.quiet(false, l.mark);
    let last = if word >> 31 == 1 { r.edge(true, l.one) } else { r.edge(true, l.zero) };
    match last {
        Ok(Some(d)) => {
            reached("command");
            require(c.is(&d), "the command received is the command sent");
        }
        Ok(None) => require(false, "a train that was sent is reported"),
        Err(_) => require(false, "a train that was sent is no error"),
    }
}
pub fn c09_send_nec<const F: u32>() {
    send::<NecCommand, F>()
}
pub fn c09_send_nec16<const F: u32>() {
    send::<Nec16Command, F>()
}
pub fn c09_send_samsung<const F: u32>() {
    send::<SamsungNecCommand, F>()
}
pub fn c09_send_raw<const F: u32>() {
    send::<NecDebugCmd, F>()
}
pub fn c09_hear_nec<const F: u32>() {
    hear::<NecCommand, F>()
}
pub fn c09_hear_nec16<const F: u32>() {
    hear::<Nec16Command, F>()
}
pub fn c09_hear_samsung<const F: u32>() {
    hear::<SamsungNecCommand, F>()
}
pub fn c09_hear_raw<const F: u32>() {
    hear::<NecDebugCmd, F>()
}

// ----------------------------------------------------------------- Manchester

/// Compares a train with runs of half bits.
struct Train<'a> {
    b: &'a [u32],
    at: usize,
    level: bool,
    units: usize,
    len: [u32; 7],
}
impl<'a> Train<'a> {
    /// Behind the first entry, which ends with the first rising edge.
    fn new(b: &'a [u32], len: [u32; 7]) -> Self {
        Train { b, at: 1, level: true, units: 0, len }
    }
    fn stay(&mut self, level: bool, n: usize) {
        if self.level != level {
            self.run();
            self.level = level;
            self.units = 0;
        }
        self.units += n;
    }
    fn run(&mut self) {
        require(self.at < self.b.len(), "the train has an entry for every run of half bits");
        if self.at < self.b.len() {
            require(self.b[self.at] == self.len[self.units], "a run of half bits has the length of that many halves");
        }
        self.at += 1;
    }
}
/// Feeds runs of half bits to a receiver.
struct Ear<P: infrared::receiver::DecoderBuilder<u32>> {
    r: Rx<P, u32>,
    level: bool,
    units: usize,
    len: [u32; 7],
}
impl<P: infrared::receiver::DecoderBuilder<u32>> Ear<P> {
    fn new(f: u32, len: [u32; 7]) -> Self {
        let mut r = Rx::new(f);
        r.quiet(true, 0);
        Ear { r, level: true, units: 0, len }
    }
    fn stay(&mut self, level: bool, n: usize) {
        if self.level != level {
            self.r.quiet(level, self.len[self.units]);
            self.level = level;
            self.units = 0;
        }
        self.units += n;
    }
    fn last(&mut self) -> Result<Option<P::Cmd>, infrared::receiver::DecodingError> {
        self.level = !self.level;
        self.r.edge(self.level, self.len[self.units])
    }
}

// ------------------------------------------------------------------------ RC5

fn rc5_len<const F: u32>() -> [u32; 7] {
    // second start bit like the first: two half bits; unlike: one run of two
    let s = load::<Rc5, F>(&Rc5Command { addr: 0, cmd: 0, start: 3, toggle: true });
    let d = load::<Rc5, F>(&Rc5Command { addr: 0, cmd: 0, start: 2, toggle: true });
    [0, s.buffer()[1], d.buffer()[1], 0, 0, 0, 0]
}
/// All commands with the given upper bits of the address.
fn send_rc5<const F: u32>(part: u8) {
    let _ = frequency_whole(20_000, 100_000_000);
    let len = rc5_len::<F>();
    let mut hi = 0u8;
    while hi < 16 {
        let mut cmd = 0u8;
        while cmd < 64 {
            let addr = part << 2 | hi & 3;
            let (start, toggle) = (2 | hi >> 2 & 1, hi >> 3 == 1);
            let s = load::<Rc5, F>(&Rc5Command { addr, cmd, start, toggle });
            let word = (start as u16) << 12 | (toggle as u16) << 11 | (addr as u16) << 6 | cmd as u16;
            let b = s.buffer();
            require(b[0] == 0, "the train starts at once");
            let mut t = Train::new(b, len);
            t.stay(true, 1);
            let mut i = 13;
            while i > 0 {
                i -= 1;
                let one = word >> i & 1 == 1;
                t.stay(!one, 1);
                t.stay(one, 1);
            }
            require(t.at == b.len(), "the train ends with the last edge of the frame");
            reached("a command");
            cmd += 1;
        }
        hi += 1;
    }
}

fn hear_rc5<const F: u32>() {
    let f = frequency(20_000, 100_000_000);
    let mut t: Ear<Rc5> = Ear::new(f, rc5_len::<F>());
    t.stay(true, 1);
    let word: u16 = any();
    assume(word < 1 << 13);
    let mut i = 12;
    while i > 0 {
        if word >> i & 1 == 1 {
            t.stay(false, 1);
            t.stay(true, 1);
        } else {
            t.stay(true, 1);
            t.stay(false, 1);
        }
        i -= 1;
    }
    t.stay(word & 1 != 1, 1);
    match t.last() {
        Ok(Some(c)) => {
            reached("command");
            require(c.start as u16 == 2 | word >> 12, "start bits as sent");
            require(c.toggle == (word >> 11 & 1 == 1), "toggle bit as sent");
            require(c.addr as u16 == word >> 6 & 0x1f, "address as sent");
            require(c.cmd as u16 == word & 0x3f, "command as sent");
        }
        Ok(None) => require(false, "a train that was sent is reported"),
        Err(_) => require(false, "a train that was sent is no error"),
    }
}
pub fn c09_send_rc5_0<const F: u32>() {
    send_rc5::<F>(0)
}
pub fn c09_send_rc5_1<const F: u32>() {
    send_rc5::<F>(1)
}
pub fn c09_send_rc5_2<const F: u32>() {
    send_rc5::<F>(2)
}
pub fn c09_send_rc5_3<const F: u32>() {
    send_rc5::<F>(3)
}
pub fn c09_send_rc5_4<const F: u32>() {
    send_rc5::<F>(4)
}
pub fn c09_send_rc5_5<const F: u32>() {
    send_rc5::<F>(5)
}
pub fn c09_send_rc5_6<const F: u32>() {
    send_rc5::<F>(6)
}
pub fn c09_send_rc5_7<const F: u32>() {
    send_rc5::<F>(7)
}
pub fn c09_hear_rc5<const F: u32>() {
    hear_rc5::<F>()
}

// ------------------------------------------------------------------------ RC6

fn rc6_len<const F: u32>() -> [u32; 7] {
    // leader 6, pause 2, start 1 .. toggle bit after a zero of the mode: 3
    let s = load::<Rc6, F>(&Rc6Command { addr: 0, cmd: 0, toggle: true });
    let b = s.buffer();
    [0, b[3], b[2], b[9], 0, 0, b[1]]
}
/// All commands with the given upper bits of the address.
fn send_rc6<const F: u32>(part: u8) {
    let _ = frequency_whole(40_000, 9_673_350);
    let len = rc6_len::<F>();
    let mut lo = 0u8;
    while lo < 32 {
        let mut cmd = 0u16;
        while cmd < 256 {
            let addr = part << 4 | lo & 15;
            let toggle = lo >> 4 == 1;
            let s = load::<Rc6, F>(&Rc6Command { addr, cmd: cmd as u8, toggle });
            let word = (addr as u16) << 8 | cmd;
            let b = s.buffer();
            require(b[0] == 0, "the train starts at once");
            let mut t = Train::new(b, len);
            t.stay(true, 6);
            t.stay(false, 2);
            t.stay(true, 1);
            t.stay(false, 1);
            let mut i = 0;
            while i < 3 {
                t.stay(false, 1);
                t.stay(true, 1);
                i += 1;
            }
            t.stay(toggle, 2);
            t.stay(!toggle, 2);
            let mut i = 16;
            while i > 0 {
                i -= 1;
                let one = word >> i & 1 == 1;
                t.stay(one, 1);
                t.stay(!one, 1);
            }
            t.stay(false, 6);
            require(t.at == b.len(), "the train ends with the last falling edge of the frame");
            reached("a command");
            cmd += 1;
        }
        lo += 1;
    }
}
fn hear_rc6<const F: u32>() {
    let f = frequency(40_000, 9_673_350);
    let mut t: Ear<Rc6> = Ear::new(f, rc6_len::<F>());
    t.stay(true, 6);
    t.stay(false, 2);
    t.stay(true, 1);
    t.stay(false, 1);
    let mut i = 0;
    while i < 3 {
        t.stay(false, 1);
        t.stay(true, 1);
        i += 1;
    }
    let toggle: bool = any();
    if toggle {
        t.stay(true, 2);
        t.stay(false, 2);
    } else {
        t.stay(false, 2);
        t.stay(true, 2);
    }
    let word: u16 = any();
    let mut i = 15;
    while i > 0 {
        if word >> i & 1 == 1 {
            t.stay(true, 1);
            t.stay(false, 1);
        } else {
            t.stay(false, 1);
            t.stay(true, 1);
        }
        i -= 1;
    }
    let one = word & 1 == 1;
    t.stay(one, 1);
    match t.last() {
        Ok(Some(c)) => {
            reached("command");
            require(c.toggle == toggle, "toggle bit as sent");
            require(c.addr as u16 == word >> 8, "address as sent");
            require(c.cmd as u16 == word & 0xff, "command as sent");
        }
        Ok(None) => require(false, "a train that was sent is reported"),
        Err(_) => require(false, "a train that was sent is no error"),
    }
    if !one {
        // back to the idle level
        t.r.quiet(false, t.len[1]);
    }
}
pub fn c09_send_rc6_0<const F: u32>() {
    send_rc6::<F>(0)
}
pub fn c09_send_rc6_1<const F: u32>() {
    send_rc6::<F>(1)
}
pub fn c09_send_rc6_2<const F: u32>() {
    send_rc6::<F>(2)
}
pub fn c09_send_rc6_3<const F: u32>() {
    send_rc6::<F>(3)
}
pub fn c09_send_rc6_4<const F: u32>() {
    send_rc6::<F>(4)
}
pub fn c09_send_rc6_5<const F: u32>() {
    send_rc6::<F>(5)
}
pub fn c09_send_rc6_6<const F: u32>() {
    send_rc6::<F>(6)
}
pub fn c09_send_rc6_7<const F: u32>() {
    send_rc6::<F>(7)
}
pub fn c09_send_rc6_8<const F: u32>() {
    send_rc6::<F>(8)
}
pub fn c09_send_rc6_9<const F: u32>() {
    send_rc6::<F>(9)
}
pub fn c09_send_rc6_10<const F: u32>() {
    send_rc6::<F>(10)
}
pub fn c09_send_rc6_11<const F: u32>() {
    send_rc6::<F>(11)
}
pub fn c09_send_rc6_12<const F: u32>() {
    send_rc6::<F>(12)
}
pub fn c09_send_rc6_13<const F: u32>() {
    send_rc6::<F>(13)
}
pub fn c09_send_rc6_14<const F: u32>() {
    send_rc6::<F>(14)
}
pub fn c09_send_rc6_15<const F: u32>() {
    send_rc6::<F>(15)
}
pub fn c09_hear_rc6<const F: u32>() {
    hear_rc6::<F>()
}
