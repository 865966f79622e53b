//! C19: the generic command view.
use crate::vs::*;
use infrared::cmd::{AddressCommand, AnyCommand, Command};
use infrared::protocol::denon::DenonCommand;
use infrared::protocol::nec::{AppleNecCommand, NecCommand, SamsungNecCommand};
use infrared::protocol::rc5::Rc5Command;
use infrared::protocol::rc6::Rc6Command;
use infrared::protocol::sbp::SbpCommand;
use infrared::protocol::{Nec, Rc5, Rc6, SamsungNec};
use infrared::sender::ProtocolEncoder;
use infrared::ProtocolId;

/// The numbers a protocol can carry are created unchanged, others are refused.
fn create<C: AddressCommand>(max_addr: u32, max_cmd: u32, send: impl Fn(&C)) {
    let (a, c): (u32, u32) = (any(), any());
    if a > max_addr {
        reached("address out of range");
        require(C::create(a, c).is_none(), "an address the protocol cannot carry is refused");
    } else if c > max_cmd {
        reached("command out of range");
        require(C::create(a, c).is_none(), "a command number the protocol cannot carry is refused");
    } else {
        match C::create(a, c) {
            Some(x) => {
                reached("created");
                require(x.address() == a, "the address is the given one");
                require(x.command() == c, "the command number is the given one");
                require(!x.is_repeat(), "a new command is not a repeat");
                send(&x);
            }
            None => require(false, "numbers the protocol can carry are accepted"),
        }
    }
}
fn any_of<C: AddressCommand>(id: ProtocolId, cmd: C, addr: u32, num: u32, repeat: bool) {
    require(cmd.address() == addr && cmd.command() == num, "the command's own numbers");
    require(cmd.is_repeat() == repeat, "the command's repeat mark");
    require(C::ID == id, "the protocol's id");
    let g: AnyCommand = cmd.into();
    require(g.protocol == id, "the generic form keeps the protocol id");
    require(g.address == addr, "the generic form keeps the address");
    require(g.command == num, "the generic form keeps the command number");
    require(g.repeat == repeat, "the generic form keeps the repeat mark");
}
pub fn c19_nec() {
    create::<NecCommand>(0xff, 0xff, |c| {
        let mut b = [0; 96];
        require(<Nec as ProtocolEncoder<40_000>>::encode(c, &mut b) <= 96, "a created command can be sent");
    });
    let (addr, cmd, repeat): (u8, u8, bool) = (any(), any(), any());
    any_of(ProtocolId::Nec, NecCommand { addr, cmd, repeat }, addr as u32, cmd as u32, repeat);
}
pub fn c19_samsung() {
    create::<SamsungNecCommand>(0xff, 0xff, |c| {
        let mut b = [0; 96];
        require(<SamsungNec as ProtocolEncoder<40_000>>::encode(c, &mut b) <= 96, "a created command can be sent");
    });
    let (addr, cmd, repeat): (u8, u8, bool) = (any(), any(), any());
    any_of(ProtocolId::NecSamsung, SamsungNecCommand { addr, cmd, repeat }, addr as u32, cmd as u32, repeat);
}
pub fn c19_rc5() {
    create::<Rc5Command>(0x1f, 0x3f, |c| {
        require(c.start & 2 == 2, "a created command has its first start bit");
        require(c.start == 3, "a created command has both start bits");
        require(!c.toggle, "a created command is not toggled");
    });
    let (addr, cmd, start, toggle): (u8, u8, u8, bool) = (any(), any(), any(), any());
    any_of(ProtocolId::Rc5, Rc5Command { addr, cmd, start, toggle }, addr as u32, cmd as u32, toggle);
    let n = Rc5Command::new(addr, cmd, toggle);
    require(n.addr == addr && n.cmd == cmd && n.toggle == toggle && n.start == 3, "a new command has the given fields");
}
pub fn c19_rc6() {
    create::<Rc6Command>(0xff, 0xff, |c| {
        require(!c.toggle, "a created command is not toggled");
    });
    let (addr, cmd, toggle): (u8, u8, bool) = (any(), any(), any());
    any_of(ProtocolId::Rc6, Rc6Command { addr, cmd, toggle }, addr as u32, cmd as u32, toggle);
    let n = Rc6Command::new(addr, cmd);
    require(n.addr == addr && n.cmd == cmd && !n.toggle, "a new command has the given fields");
    let w: u16 = any();
    let n = Rc6Command::from_bits(w, toggle);
    require(n.addr as u16 == w >> 8 && n.cmd as u16 == w & 0xff && n.toggle == toggle, "fields of a command made from bits");
}
pub fn c19_sbp() {
    create::<SbpCommand>(0xffff, 0xff, |c| {
        require(c.valid, "a created command is valid");
    });
    let (address, command, valid): (u16, u8, bool) = (any(), any(), any());
    any_of(ProtocolId::Sbp, SbpCommand { address, command, valid }, address as u32, command as u32, false);
}
pub fn c19_apple() {
    let x = AppleNecCommand { command_page: any::<u8>() & 0x1f, command: any::<u8>() & 0x7f, device_id: any(), repeat: any() };
    let y = AppleNecCommand { command_page: any::<u8>() & 0x1f, command: any::<u8>() & 0x7f, device_id: any(), repeat: any() };
    let num = x.command();
    if x.command_page != y.command_page {
        reached("other page");
        require(num != y.command(), "the number tells command pages apart");
    } else if x.command != y.command {
        reached("other command");
        require(num != y.command(), "the number tells commands apart");
    } else {
        require(num == y.command(), "the number depends on page and command only");
    }
    let addr = x.address();
    let repeat = x.repeat;
    any_of(ProtocolId::NecApple, x, addr, num, repeat);
    if let Some(c) = AppleNecCommand::create(any(), any()) {
        require(false, "the Apple protocol cannot be created from two numbers");
        let _ = c;
    }
}
pub fn c19_denon() {
    let bits: u64 = any();
    let g: AnyCommand = DenonCommand { bits }.into();
    reached("denon");
    require(g.protocol == ProtocolId::Denon, "the generic form keeps the protocol id");
    require(g.raw == bits, "the generic form keeps the raw bits");
    require(!g.repeat, "the protocol has no repeats");
}
fn id(p: ProtocolId, others: &[ProtocolId]) {
    let n = p as u8;
    require(ProtocolId::from(n) == p, "a protocol id survives its number");
    for o in others {
        require(*o as u8 != n, "protocol ids have distinct numbers");
    }
}
pub fn c19_ids() {
    use ProtocolId::*;
    id(Nec, &[Nec16, NecSamsung, NecApple, Rc5, Rc6, Sbp, Denon, Unknown]);
    id(Nec16, &[NecSamsung, NecApple, Rc5, Rc6, Sbp, Denon, Unknown]);
    id(NecSamsung, &[NecApple, Rc5, Rc6, Sbp, Denon, Unknown]);
    id(NecApple, &[Rc5, Rc6, Sbp, Denon, Unknown]);
    id(Rc5, &[Rc6, Sbp, Denon, Unknown]);
    id(Rc6, &[Sbp, Denon, Unknown]);
    id(Sbp, &[Denon, Unknown]);
    id(Denon, &[Unknown]);
    id(Unknown, &[]);
    reached("ids");
    // any other number
    let k: u8 = any();
    let known = |p: ProtocolId| p as u8 == k;
    let p = ProtocolId::from(k);
    if known(Nec) {
        require(p == Nec, "number of Nec");
    } else if known(Nec16) {
        require(p == Nec16, "number of Nec16");
    } else if known(NecSamsung) {
        require(p == NecSamsung, "number of NecSamsung");
    } else if known(NecApple) {
        require(p == NecApple, "number of NecApple");
    } else if known(Rc5) {
        require(p == Rc5, "number of Rc5");
    } else if known(Rc6) {
        require(p == Rc6, "number of Rc6");
    } else if known(Sbp) {
        require(p == Sbp, "number of Sbp");
    } else if known(Denon) {
        require(p == Denon, "number of Denon");
    } else {
        reached("unknown number");
        require(ProtocolId::from(k) == Unknown, "an unknown number is the unknown id");
    }
}
