//! C03: RC5 frames decode exactly, whatever came before.
use crate::h::*;
use crate::vs::*;
use infrared::protocol::*;

pub fn frame<M: Time>(f: u32, pct: u32, hist: bool) {
    let r: Rx<Rc5, M> = before(f, hist);
    after_first_edge(r, f, pct)
}
fn after_first_edge<M: Time>(r: Rx<Rc5, M>, f: u32, pct: u32) {
    // the pause ends with the mid-bit edge of the first start bit
    let mut t = Manchester::new(r, f, 889, pct);
    t.stay(true, 1);
    // 13 bits: second start bit, toggle, address, command
    let word: u16 = any();
    assume(word < 1 << 13);
    let mut i = 12;
    while i > 0 {
        if word >> i & 1 == 1 {
            t.stay(false, 1);
            t.stay(true, 1);
        } else {
            t.stay(true, 1);
            t.stay(false, 1);
        }
        i -= 1;
    }
    let rising = word & 1 == 1;
    t.stay(!rising, 1);
    match t.last() {
        Ok(Some(c)) => {
            reached("command");
            require(c.start as u16 == 2 | word >> 12, "start bits as sent");
            require(c.toggle == (word >> 11 & 1 == 1), "toggle bit as sent");
            require(c.addr as u16 == word >> 6 & 0x1f, "address as sent");
            require(c.cmd as u16 == word & 0x3f, "command as sent");
        }
        Ok(None) => require(false, "a complete frame is reported"),
        Err(_) => require(false, "no error for a well-timed frame"),
    }
    if rising {
        // back to the idle level
        t.r.quiet(false, any());
    }
}
pub fn c03_u32() {
    frame::<u32>(frequency(40_000, 100_000_000), 4, true)
}
pub fn c03_u64() {
    frame::<u64>(1_000_000, 4, true)
}
pub fn c03_fresh() {
    let f = frequency(40_000, 100_000_000);
    after_first_edge::<u32>(before_at_once(f, false), f, 4)
}
pub fn c03_answered() {
    let f = frequency(40_000, 100_000_000);
    after_first_edge::<u32>(before_at_once(f, true), f, 4)
}
