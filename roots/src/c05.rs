//! C05: Samsung Blu-ray frames decode exactly, whatever came before.
use crate::h::*;
use crate::vs::*;
use infrared::protocol::*;

pub fn frame<M: Time>(f: u32, pct: u32, hist: bool) {
    let mut r: Rx<Sbp, M> = before(f, hist);
    r.quiet(false, pulse::<M>(f, 4500, pct));
    r.quiet(true, pulse::<M>(f, 4500, pct));
    let addr: u16 = any();
    let mut i = 0;
    while i < 16 {
        r.quiet(false, pulse::<M>(f, 500, pct));
        if addr >> i & 1 == 1 {
            r.quiet(true, pulse::<M>(f, 1500, pct));
        } else {
            r.quiet(true, pulse::<M>(f, 500, pct));
        }
        i += 1;
    }
    // divider
    r.quiet(false, pulse::<M>(f, 500, pct));
    r.quiet(true, pulse::<M>(f, 4500, pct));
    // four unused bits, command, check byte
    let word: u32 = any();
    let mut i = 0;
    while i < 19 {
        r.quiet(false, pulse::<M>(f, 500, pct));
        if word >> i & 1 == 1 {
            r.quiet(true, pulse::<M>(f, 1500, pct));
        } else {
            r.quiet(true, pulse::<M>(f, 500, pct));
        }
        i += 1;
    }
    r.quiet(false, pulse::<M>(f, 500, pct));
    let last = if word >> 19 & 1 == 1 { 1500 } else { 500 };
    match r.edge(true, pulse::<M>(f, last, pct)) {
        Ok(Some(c)) => {
            reached("command");
            require(c.address == addr, "address as sent");
            require(c.command as u32 == word >> 4 & 0xff, "command as sent");
            let good = (word >> 4 & 0xff) ^ (word >> 12 & 0xff) == 0xff;
            require(c.valid == good, "valid exactly when the check byte is the inverted command");
        }
        Ok(None) => require(false, "a complete frame is reported"),
        Err(_) => require(false, "no error for a well-timed frame"),
    }
}
pub fn c05_u32() {
    frame::<u32>(frequency(40_000, 100_000_000), 4, true)
}
pub fn c05_u64() {
    frame::<u64>(1_000_000, 4, true)
}
