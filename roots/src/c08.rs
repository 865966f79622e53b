//! C08: NEC repeat codes repeat the last complete command.
use crate::h::*;
use crate::vs::*;
use infrared::protocol::nec::*;
use infrared::protocol::*;

/// What a command says, besides the repeat marker.
pub trait Says: NecCommandVariant {
    const MARK: u32;
    /// 0: the word is a command
    fn kind(word: u32) -> u8;
    fn says(&self) -> [u8; 3];
    fn repeated(&self) -> bool;
    fn of(w: u32) -> [u8; 3];
}
impl Says for NecCommand {
    const MARK: u32 = 9000;
    fn kind(_: u32) -> u8 {
        0
    }
    fn says(&self) -> [u8; 3] {
        [self.addr, self.cmd, 0]
    }
    fn repeated(&self) -> bool {
        self.repeat
    }
    fn of(w: u32) -> [u8; 3] {
        [w as u8, (w >> 16) as u8, 0]
    }
}
impl Says for SamsungNecCommand {
    const MARK: u32 = 4500;
    fn kind(_: u32) -> u8 {
        0
    }
    fn says(&self) -> [u8; 3] {
        [self.addr, self.cmd, 0]
    }
    fn repeated(&self) -> bool {
        self.repeat
    }
    fn of(w: u32) -> [u8; 3] {
        [w as u8, (w >> 16) as u8, 0]
    }
}
impl Says for Nec16Command {
    const MARK: u32 = 9000;
    fn kind(_: u32) -> u8 {
        0
    }
    fn says(&self) -> [u8; 3] {
        [self.addr as u8, self.cmd, (self.addr >> 8) as u8]
    }
    fn repeated(&self) -> bool {
        self.repeat
    }
    fn of(w: u32) -> [u8; 3] {
        [w as u8, (w >> 16) as u8, (w >> 8) as u8]
    }
}
impl Says for AppleNecCommand {
    const MARK: u32 = 9000;
    fn kind(w: u32) -> u8 {
        if (w >> 5) & 0x7ff != 0x43f {
            1
        } else if w.count_ones() & 1 == 0 {
            2
        } else {
            0
        }
    }
    fn says(&self) -> [u8; 3] {
        [self.command_page, self.command, self.device_id]
    }
    fn repeated(&self) -> bool {
        self.repeat
    }
    fn of(w: u32) -> [u8; 3] {
        [w as u8 & 0x1f, (w >> 17) as u8 & 0x7f, (w >> 24) as u8]
    }
}
fn eq(a: [u8; 3], b: [u8; 3]) -> bool {
    a[0] == b[0] && a[1] == b[1] && a[2] == b[2]
}
const PCT: u32 = 4;

/// The code itself, after the line has been quiet; the last edge is answered.
fn repeat<C: Says, M: Time>(r: &mut Rx<Nec<C>, M>, f: u32) -> Option<C> {
    r.quiet(false, pulse::<M>(f, C::MARK, PCT));
    match r.edge(true, pulse::<M>(f, 2250, PCT)) {
        Ok(x) => x,
        Err(_) => {
            require(false, "a repeat code is no error");
            None
        }
    }
}
/// End of the stop pulse and the pause.
fn pause<C: Says, M: Time>(r: &mut Rx<Nec<C>, M>, f: u32) {
    r.quiet(false, pulse::<M>(f, 560, PCT));
    r.quiet(true, at_least::<M>(f, 20_000, u32::MAX as u64));
}
fn bit<C: Says, M: Time>(r: &mut Rx<Nec<C>, M>, f: u32, b: bool) {
    r.quiet(false, pulse::<M>(f, 560, PCT));
    if b {
        r.quiet(true, pulse::<M>(f, 1690, PCT));
    } else {
        r.quiet(true, pulse::<M>(f, 560, PCT));
    }
}

/// Any history, a frame, and then any number of repeat codes.
pub fn after_frame<C: Says, M: Time>(f: u32) {
    let mut r: Rx<Nec<C>, M> = before(f, true);
    r.quiet(false, pulse::<M>(f, C::MARK, PCT));
    r.quiet(true, pulse::<M>(f, 4500, PCT));
    let word: [u32; 1] = [any()];
    let mut i = 0;
    while i < 31 {
        bit(&mut r, f, word[0] >> i & 1 == 1);
        i += 1;
    }
    r.quiet(false, pulse::<M>(f, 560, PCT));
    let last = if word[0] >> 31 == 1 { 1690 } else { 560 };
    let kind = C::kind(word[0]);
    if kind == 0 {
        match r.edge(true, pulse::<M>(f, last, PCT)) {
            Ok(Some(c)) => require(!c.repeated() && eq(c.says(), C::of(word[0])), "the frame's own report carries no marker"),
            _ => require(false, "a complete frame is reported"),
        }
        while history() {
            pause(&mut r, f);
            match repeat(&mut r, f) {
                Some(c) => {
                    reached("repeat");
                    require(c.repeated(), "a repeat is marked");
                    require(eq(c.says(), C::of(word[0])), "a repeat repeats the last frame");
                }
                None => require(false, "a repeat code is reported"),
            }
        }
    } else if kind == 1 {
        nothing(r, f, last);
    } else {
        nothing(r, f, last);
    }
}
fn nothing<C: Says, M: Time>(mut r: Rx<Nec<C>, M>, f: u32, last: u32) {
    require(matches!(r.edge(true, pulse::<M>(f, last, PCT)), Ok(None)), "no command for a word the variant does not carry");
    while history() {
        pause(&mut r, f);
        require(repeat(&mut r, f).is_none(), "nothing to repeat after a word the variant does not carry");
    }
}
/// A frame that breaks off, any number of repeat codes: nothing.
pub fn after_part<C: Says, M: Time>(f: u32) {
    let mut r: Rx<Nec<C>, M> = before(f, true);
    r.quiet(false, pulse::<M>(f, C::MARK, PCT));
    r.quiet(true, pulse::<M>(f, 4500, PCT));
    let mut i = 0;
    while i < 31 {
        if any() {
            break;
        }
        bit(&mut r, f, any());
        i += 1;
    }
    // (which is an error)
    r.quiet(false, pulse::<M>(f, 560, PCT));
    r.after_pause(at_least::<M>(f, 20_000, u32::MAX as u64));
    while history() {
        reached("repeat");
        require(repeat(&mut r, f).is_none(), "no repeat of an incomplete frame");
        pause(&mut r, f);
    }
}
/// Whatever happens, a repeat says what was reported last.
pub fn last_report<C: Says, M: Time>(f: u32, max: u64) {
    let mut r: Rx<Nec<C>, M> = Rx::new(f);
    let mut have = false;
    let mut last = [0u8; 3];
    while history() {
        match r.edge(any(), M::ticks(any_in(0, max))) {
            Ok(Some(c)) => {
                if c.repeated() {
                    reached("repeat");
                    require(have, "no repeat before the first command");
                    require(eq(c.says(), last), "a repeat repeats the last command");
                } else {
                    have = true;
                    last = c.says();
                }
            }
            _ => {}
        }
    }
}
macro_rules! roots {
    ($($name:ident $c:ty;)*) => { $(
        pub mod $name {
            use super::*;
            pub fn c08_frame_u32() { after_frame::<$c, u32>(frequency(40_000, 100_000_000)) }
            pub fn c08_frame_u64() { after_frame::<$c, u64>(1_000_000) }
            pub fn c08_part_u32() { after_part::<$c, u32>(frequency(40_000, 100_000_000)) }
            pub fn c08_part_u64() { after_part::<$c, u64>(1_000_000) }
        }
    )* };
}
roots! {
    nec NecCommand;
    nec16 Nec16Command;
    samsung SamsungNecCommand;
    apple AppleNecCommand;
}
// (not for Apple's variant, where a frame may be complete without being a command)
macro_rules! last_roots {
    ($($name:ident $c:ty;)*) => { $(
        pub mod $name {
            use super::*;
            pub fn c08_last_u32() { last_report::<$c, u32>(1_000_000, u32::MAX as u64) }
            pub fn c08_last_u64() { last_report::<$c, u64>(1_000_000, u64::MAX) }
        }
    )* };
}
last_roots! {
    nec_any NecCommand;
    nec16_any Nec16Command;
    samsung_any SamsungNecCommand;
}
