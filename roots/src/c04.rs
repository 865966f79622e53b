//! C04: RC6 frames decode exactly, whatever came before.
use crate::h::*;
use crate::vs::*;
use infrared::protocol::*;

pub fn frame<M: Time>(f: u32, pct: u32, hist: bool) {
    let r: Rx<Rc6, M> = before(f, hist);
    after_first_edge(r, f, pct)
}
fn after_first_edge<M: Time>(r: Rx<Rc6, M>, f: u32, pct: u32) {
    let mut t = Manchester::new(r, f, 444, pct);
    // leader, pause
    t.stay(true, 6);
    t.stay(false, 2);
    // start bit 1, mode 000: a one is mark-space, a zero space-mark
    t.stay(true, 1);
    t.stay(false, 1);
    let mut i = 0;
    while i < 3 {
        t.stay(false, 1);
        t.stay(true, 1);
        i += 1;
    }
    let toggle: bool = any();
    if toggle {
        t.stay(true, 2);
        t.stay(false, 2);
    } else {
        t.stay(false, 2);
        t.stay(true, 2);
    }
    let word: u16 = any();
    let mut i = 15;
    while i > 0 {
        if word >> i & 1 == 1 {
            t.stay(true, 1);
            t.stay(false, 1);
        } else {
            t.stay(false, 1);
            t.stay(true, 1);
        }
        i -= 1;
    }
    let one = word & 1 == 1;
    t.stay(one, 1);
    match t.last() {
        Ok(Some(c)) => {
            reached("command");
            require(c.toggle == toggle, "toggle bit as sent");
            require(c.addr as u16 == word >> 8, "address as sent");
            require(c.cmd as u16 == word & 0xff, "command as sent");
        }
        Ok(None) => require(false, "a complete frame is reported"),
        Err(_) => require(false, "no error for a well-timed frame"),
    }
    if !one {
        // back to the idle level
        t.r.quiet(false, any());
    }
}
pub fn c04_u32() {
    frame::<u32>(frequency(40_000, 100_000_000), 4, true)
}
pub fn c04_u64() {
    frame::<u64>(1_000_000, 4, true)
}
pub fn c04_fresh() {
    let f = frequency(40_000, 100_000_000);
    after_first_edge::<u32>(before_at_once(f, false), f, 4)
}
pub fn c04_answered() {
    let f = frequency(40_000, 100_000_000);
    after_first_edge::<u32>(before_at_once(f, true), f, 4)
}
