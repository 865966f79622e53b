//! C06: Denon frames decode exactly, whatever came before.
use crate::h::*;
use crate::vs::*;
use infrared::protocol::*;

pub fn frame<M: Time>(f: u32, pct: u32, hist: bool) {
    let mut r: Rx<Denon, M> = before(f, hist);
    r.quiet(false, pulse::<M>(f, 3400, pct));
    r.quiet(true, pulse::<M>(f, 1600, pct));
    let word: u64 = any();
    assume(word >> 48 == 0);
    let mut i = 0;
    while i < 47 {
        r.quiet(false, pulse::<M>(f, 480, pct));
        if word >> i & 1 == 1 {
            r.quiet(true, pulse::<M>(f, 1200, pct));
        } else {
            r.quiet(true, pulse::<M>(f, 360, pct));
        }
        i += 1;
    }
    r.quiet(false, pulse::<M>(f, 480, pct));
    let last = if word >> 47 & 1 == 1 { 1200 } else { 360 };
    match r.edge(true, pulse::<M>(f, last, pct)) {
        Ok(Some(c)) => {
            reached("command");
            require(c.bits == word, "the 48 bits as sent");
        }
        Ok(None) => require(false, "a complete frame is reported"),
        Err(_) => require(false, "no error for a well-timed frame"),
    }
}
pub fn c06_u32() {
    frame::<u32>(frequency(40_000, 100_000_000), 4, true)
}
pub fn c06_u64() {
    frame::<u64>(1_000_000, 4, true)
}
