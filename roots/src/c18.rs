//! C18: packed command words.
use crate::vs::*;
use infrared::protocol::nec::{AppleNecCommand, Nec16Command, NecCommand, NecCommandVariant, NecDebugCmd, SamsungNecCommand};
use infrared::protocol::rc5::Rc5Command;

/// The redundancy of a word in the first transmitted bit = bit 0 order.
fn cmd_ok(w: u32) -> bool {
    (w >> 16) as u8 == !((w >> 24) as u8)
}
/// An obligation on a whole byte pattern, judged separately where the
/// specification says yes and where it says no.
fn agrees(spec: bool, accepts: impl Fn() -> bool, msg: &'static str) {
    if spec {
        require(accepts(), msg);
    } else {
        require(!accepts(), msg);
    }
}
pub fn c18_nec() {
    let c = NecCommand { addr: any(), cmd: any(), repeat: any() };
    let w = c.pack();
    reached("packed");
    require(NecCommand::validate(w), "a packed word is valid");
    require(w as u8 == c.addr && (w >> 8) as u8 == !c.addr && (w >> 16) as u8 == c.cmd && (w >> 24) as u8 == !c.cmd, "layout of the packed word");
    match NecCommand::unpack(w, c.repeat) {
        Some(d) => require(d.addr == c.addr && d.cmd == c.cmd && d.repeat == c.repeat, "unpacking gives the command back"),
        None => require(false, "a packed word unpacks"),
    }
    let w: u32 = any();
    agrees(cmd_ok(w) && w as u8 == !((w >> 8) as u8), || NecCommand::validate(w), "a word is valid exactly when its redundancy is right");
    let r: bool = any();
    match NecCommand::unpack(w, r) {
        Some(d) => require(d.addr == w as u8 && d.cmd == (w >> 16) as u8 && d.repeat == r, "fields of the unpacked word"),
        None => {}
    }
}
pub fn c18_samsung() {
    let c = SamsungNecCommand { addr: any(), cmd: any(), repeat: any() };
    let w = c.pack();
    reached("packed");
    require(SamsungNecCommand::validate(w), "a packed word is valid");
    require(w as u8 == c.addr && (w >> 8) as u8 == c.addr && (w >> 16) as u8 == c.cmd && (w >> 24) as u8 == !c.cmd, "layout of the packed word");
    match SamsungNecCommand::unpack(w, c.repeat) {
        Some(d) => require(d.addr == c.addr && d.cmd == c.cmd && d.repeat == c.repeat, "unpacking gives the command back"),
        None => require(false, "a packed word unpacks"),
    }
    let w: u32 = any();
    agrees(cmd_ok(w) && w as u8 == (w >> 8) as u8, || SamsungNecCommand::validate(w), "a word is valid exactly when its redundancy is right");
    let r: bool = any();
    match SamsungNecCommand::unpack(w, r) {
        Some(d) => require(d.addr == w as u8 && d.cmd == (w >> 16) as u8 && d.repeat == r, "fields of the unpacked word"),
        None => {}
    }
}
pub fn c18_nec16() {
    let c = Nec16Command { addr: any(), cmd: any(), repeat: any() };
    let w = c.pack();
    reached("packed");
    require(Nec16Command::validate(w), "a packed word is valid");
    require(w as u16 == c.addr && (w >> 16) as u8 == c.cmd && (w >> 24) as u8 == !c.cmd, "layout of the packed word");
    match Nec16Command::unpack(w, c.repeat) {
        Some(d) => require(d.addr == c.addr && d.cmd == c.cmd && d.repeat == c.repeat, "unpacking gives the command back"),
        None => require(false, "a packed word unpacks"),
    }
    let w: u32 = any();
    agrees(cmd_ok(w), || Nec16Command::validate(w), "a word is valid exactly when its redundancy is right");
    let r: bool = any();
    match Nec16Command::unpack(w, r) {
        Some(d) => require(d.addr == w as u16 && d.cmd == (w >> 16) as u8 && d.repeat == r, "fields of the unpacked word"),
        None => {}
    }
}
pub fn c18_raw() {
    let c = NecDebugCmd { bits: any() };
    let w = c.pack();
    reached("packed");
    require(w == c.bits, "the packed word is the raw word");
    require(NecDebugCmd::validate(w), "a packed word is valid");
    match NecDebugCmd::unpack(w, any()) {
        Some(d) => require(d.bits == c.bits, "unpacking gives the word back"),
        None => require(false, "a packed word unpacks"),
    }
    require(NecDebugCmd::validate(any()), "every raw word is valid");
}
pub fn c18_apple() {
    let w: u32 = any();
    let r: bool = any();
    // (each way of not being an Apple word is judged on its own)
    let other = || {
        reached("other word");
        require(!AppleNecCommand::validate(w), "a word that is not Apple's is not valid");
        require(AppleNecCommand::unpack(w, r).is_none(), "a word that is not Apple's never unpacks");
    };
    if (w >> 5) & 0x7ff == 0x43f {
        if w.count_ones() & 1 == 1 {
            reached("apple word");
            require(AppleNecCommand::validate(w), "an Apple word is valid");
            match AppleNecCommand::unpack(w, r) {
                Some(c) => require(
                    c.command_page as u32 == w & 0x1f && c.command as u32 == (w >> 17) & 0x7f && c.device_id == (w >> 24) as u8 && c.repeat == r,
                    "fields of the unpacked word",
                ),
                None => require(false, "an Apple word unpacks"),
            }
        } else {
            other()
        }
    } else {
        other()
    }
}
pub fn c18_rc5() {
    let c = Rc5Command { addr: any::<u8>() & 0x1f, cmd: any::<u8>() & 0x3f, start: any::<u8>() & 3, toggle: any() };
    let w = c.pack();
    reached("packed");
    require(w >> 14 == 0, "an RC5 word has 14 bits");
    let d = Rc5Command::unpack(w);
    require(d.addr == c.addr && d.cmd == c.cmd && d.start == c.start && d.toggle == c.toggle, "unpacking gives the command back");
    let w: u16 = any();
    let d = Rc5Command::unpack(w);
    require(
        d.addr as u16 == (w >> 6) & 0x1f && d.cmd as u16 == w & 0x3f && d.start as u16 == (w >> 12) & 3 && d.toggle == ((w >> 11) & 1 == 1),
        "fields of the unpacked word",
    );
    require(d.pack() == w & 0x3fff, "packing an unpacked word gives its 14 bits");
}
