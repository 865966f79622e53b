//! C14: multi-protocol receivers are independent.
use crate::mock::*;
use crate::vs::*;
use infrared::cmd::AnyCommand;
use infrared::receiver::{DecodingError, MultiReceiver, NoPin, State};
use infrared::ProtocolId;

/// Prepare decoder ID with any answer.
fn set<const ID: usize>() {
    let l = log::<ID>();
    l.events = 0;
    l.resets = 0;
    l.cmd = any();
    l.edge = false;
    l.dt = 0;
    let k: u8 = any();
    match k {
        0 => {
            l.answer = State::Receiving;
            l.has_cmd = any();
        }
        1 => {
            l.answer = State::Done;
            l.has_cmd = true;
        }
        2 => {
            l.answer = State::Done;
            l.has_cmd = false;
        }
        3 => {
            l.answer = State::Error(DecodingError::Data);
            l.has_cmd = any();
        }
        _ => {
            l.answer = State::Idle;
            l.has_cmd = any();
        }
    }
}
/// Decoder ID was fed once and its slot holds its command.
fn slot<const ID: usize>(dt: u32, edge: bool, s: &Option<AnyCommand>) {
    let l = log::<ID>();
    require(l.events == 1, "every decoder is fed once");
    require(l.dt == dt as u64, "every decoder gets the duration");
    require(l.edge == edge, "every decoder gets the edge");
    match l.answer {
        State::Done => {
            reached("done");
            require(l.resets >= 1, "a finished decoder is reset");
            match s {
                Some(c) => {
                    require(l.has_cmd, "no command is made up");
                    require(c.protocol == ProtocolId::Nec && c.address == ID as u32 && c.command == l.cmd && !c.repeat, "the slot holds this protocol's command");
                }
                None => require(!l.has_cmd, "a command is not dropped"),
            }
        }
        State::Error(_) => {
            reached("error");
            require(s.is_none(), "an error fills no slot");
            require(l.resets >= 1, "a failed decoder is reset");
        }
        _ => {
            require(s.is_none(), "a decoder that is not done fills no slot");
            require(l.resets == 0, "a decoder that is not done is not reset");
        }
    }
}
/// All decoders but one are put into fixed states: errors on one side, commands
/// on the other, so that any influence on their neighbours shows.
fn fix<const ID: usize>(s: State) {
    let l = log::<ID>();
    l.events = 0;
    l.resets = 0;
    l.cmd = any();
    l.edge = false;
    l.dt = 0;
    l.answer = s;
    l.has_cmd = true;
}
fn quiet<const ID: usize>() {
    let l = log::<ID>();
    require(l.events == 0 && l.resets == 0, "a pin error feeds no decoder");
}
/// Yielded commands are those of the filled slots in order: position ID.
fn next<const ID: usize>(it: &mut impl Iterator<Item = AnyCommand>) {
    let l = log::<ID>();
    if l.answer == State::Done && l.has_cmd {
        match it.next() {
            Some(c) => require(c.protocol == ProtocolId::Nec && c.address == ID as u32 && c.command == l.cmd, "the iterator yields the filled slots in order"),
            None => require(false, "the iterator yields every filled slot"),
        }
    }
}

macro_rules! slots {
    ($out:ident $dt:ident $edge:ident $i:expr; $id:literal $($rest:literal)*) => {
        slot::<$id>($dt, $edge, &$out[$i]);
        slots!($out $dt $edge $i + 1; $($rest)*);
    };
    ($out:ident $dt:ident $edge:ident $i:expr; ) => {};
}
/// Decoder `one` gives any answer while the others are done, fail or idle.
macro_rules! multi {
    ($name:ident, $one:literal, $n:literal, ($($id:literal)*)) => {
        pub fn $name() {
            let mut r: MultiReceiver<$n, ($(Mock<$id>,)*), NoPin> = MultiReceiver::new(any(), NoPin);
            while history() {
                let k: u8 = any();
                let s = match k {
                    0 => State::Done,
                    1 => State::Error(DecodingError::Data),
                    _ => State::Receiving,
                };
                $( fix::<$id>(s); )*
                set::<$one>();
                let (dt, edge): (u32, bool) = (any(), any());
                if any() {
                    let out = r.event_generic(dt, edge);
                    slots!(out dt edge 0; $($id)*);
                } else {
                    let mut it = r.event_generic_iter(dt, edge);
                    $( next::<$id>(&mut it); )*
                    require(it.next().is_none(), "the iterator yields nothing else");
                }
            }
        }
    };
}
/// The same with a pin.
macro_rules! pins {
    ($name:ident, $one:literal, $n:literal, ($($id:literal)*)) => {
        pub fn $name() {
            let mut r: MultiReceiver<$n, ($(Mock<$id>,)*), MockPin> = MultiReceiver::new(any(), MockPin { tag: 7 });
            require(r.pin().tag == 7, "the pin is the one that was given");
            while history() {
                let s = if any() { State::Done } else { State::Receiving };
                $( fix::<$id>(s); )*
                set::<$one>();
                let (dt, low): (u32, bool) = (any(), any());
                let which: bool = any();
                if any() {
                    set_pin(Ok(low));
                    if which {
                        match r.event(dt) {
                            Ok(out) => {
                                reached("pin event");
                                slots!(out dt low 0; $($id)*);
                            }
                            Err(_) => require(false, "a working pin is no error"),
                        }
                    } else {
                        match r.event_iter(dt) {
                            Ok(mut it) => {
                                $( next::<$id>(&mut it); )*
                                require(it.next().is_none(), "the iterator yields nothing else");
                            }
                            Err(_) => require(false, "a working pin is no error"),
                        }
                    }
                } else {
                    let e: u8 = any();
                    set_pin(Err(e));
                    if which {
                        match r.event(dt) {
                            Err(x) => require(x == e, "the pin's own error is returned"),
                            _ => require(false, "a pin error is returned"),
                        }
                    } else {
                        match r.event_iter(dt) {
                            Err(x) => require(x == e, "the pin's own error is returned"),
                            _ => require(false, "a pin error is returned"),
                        }
                    }
                    $( quiet::<$id>(); )*
                }
            }
        }
    };
}
multi!(c14_two_0, 0, 2, (0 1));
multi!(c14_two_1, 1, 2, (0 1));
pins!(c14_two_pin, 1, 2, (0 1));
multi!(c14_three_0, 0, 3, (0 1 2));
multi!(c14_three_1, 1, 3, (0 1 2));
multi!(c14_three_2, 2, 3, (0 1 2));
pins!(c14_three_pin, 2, 3, (0 1 2));
multi!(c14_four_0, 0, 4, (0 1 2 3));
multi!(c14_four_1, 1, 4, (0 1 2 3));
multi!(c14_four_2, 2, 4, (0 1 2 3));
multi!(c14_four_3, 3, 4, (0 1 2 3));
pins!(c14_four_pin, 3, 4, (0 1 2 3));
multi!(c14_five_0, 0, 5, (0 1 2 3 4));
multi!(c14_five_1, 1, 5, (0 1 2 3 4));
multi!(c14_five_2, 2, 5, (0 1 2 3 4));
multi!(c14_five_3, 3, 5, (0 1 2 3 4));
multi!(c14_five_4, 4, 5, (0 1 2 3 4));
pins!(c14_five_pin, 4, 5, (0 1 2 3 4));
multi!(c14_six_0, 0, 6, (0 1 2 3 4 5));
multi!(c14_six_1, 1, 6, (0 1 2 3 4 5));
multi!(c14_six_2, 2, 6, (0 1 2 3 4 5));
multi!(c14_six_3, 3, 6, (0 1 2 3 4 5));
multi!(c14_six_4, 4, 6, (0 1 2 3 4 5));
multi!(c14_six_5, 5, 6, (0 1 2 3 4 5));
pins!(c14_six_pin, 5, 6, (0 1 2 3 4 5));
