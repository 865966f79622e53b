//! C02: NEC-family frames decode exactly, whatever came before.
use crate::h::*;
use crate::vs::*;
use infrared::protocol::nec::*;
use infrared::protocol::*;

/// What a frame word has to be reported as.
pub trait Spec: NecCommandVariant {
    const MARK: u32;
    fn carries(word: u32) -> bool;
    fn check(&self, word: u32) -> bool;
}
impl Spec for NecCommand {
    const MARK: u32 = 9000;
    fn carries(_: u32) -> bool {
        true
    }
    fn check(&self, w: u32) -> bool {
        self.addr as u32 == w & 0xff && self.cmd as u32 == (w >> 16) & 0xff && !self.repeat
    }
}
impl Spec for SamsungNecCommand {
    const MARK: u32 = 4500;
    fn carries(_: u32) -> bool {
        true
    }
    fn check(&self, w: u32) -> bool {
        self.addr as u32 == w & 0xff && self.cmd as u32 == (w >> 16) & 0xff && !self.repeat
    }
}
impl Spec for Nec16Command {
    const MARK: u32 = 9000;
    fn carries(_: u32) -> bool {
        true
    }
    fn check(&self, w: u32) -> bool {
        self.addr as u32 == w & 0xffff && self.cmd as u32 == (w >> 16) & 0xff && !self.repeat
    }
}
impl Spec for NecDebugCmd {
    const MARK: u32 = 9000;
    fn carries(_: u32) -> bool {
        true
    }
    fn check(&self, w: u32) -> bool {
        self.bits == w
    }
}
impl Spec for AppleNecCommand {
    const MARK: u32 = 9000;
    fn carries(w: u32) -> bool {
        (w >> 5) & 0x7ff == 0x43f && w.count_ones() & 1 == 1
    }
    fn check(&self, w: u32) -> bool {
        self.command_page as u32 == w & 0x1f && self.command as u32 == (w >> 17) & 0x7f && self.device_id as u32 == (w >> 24) & 0xff && !self.repeat
    }
}

pub fn frame<C: Spec, M: Time>(f: u32, pct: u32, hist: bool) {
    let mut r: Rx<Nec<C>, M> = before(f, hist);
    r.quiet(false, pulse::<M>(f, C::MARK, pct));
    r.quiet(true, pulse::<M>(f, 4500, pct));
    let word: u32 = any();
    let mut i = 0;
    while i < 31 {
        r.quiet(false, pulse::<M>(f, 560, pct));
        if word >> i & 1 == 1 {
            r.quiet(true, pulse::<M>(f, 1690, pct));
        } else {
            r.quiet(true, pulse::<M>(f, 560, pct));
        }
        i += 1;
    }
    r.quiet(false, pulse::<M>(f, 560, pct));
    let last = if word >> 31 == 1 { 1690 } else { 560 };
    if C::carries(word) {
        match r.edge(true, pulse::<M>(f, last, pct)) {
            Ok(Some(c)) => {
                reached("command");
                require(c.check(word), "the reported command is the frame's content");
            }
            Ok(None) => require(false, "a complete frame is reported"),
            Err(_) => require(false, "no error for a well-timed frame"),
        }
    } else {
        match r.edge(true, pulse::<M>(f, last, pct)) {
            Ok(Some(_)) => require(false, "no command for a word the variant does not carry"),
            Ok(None) => {}
            Err(_) => require(false, "no error for a well-timed frame"),
        }
    }
}

macro_rules! roots {
    ($($name:ident $c:ty;)*) => { $(
        pub mod $name {
            use super::*;
            pub fn c02_u32() { frame::<$c, u32>(frequency(40_000, 100_000_000), 4, true) }
            pub fn c02_u64() { frame::<$c, u64>(1_000_000, 4, true) }
        }
    )* };
}
roots! {
    nec NecCommand;
    nec16 Nec16Command;
    samsung SamsungNecCommand;
    apple AppleNecCommand;
    raw NecDebugCmd;
}
