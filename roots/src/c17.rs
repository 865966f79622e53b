//! C17: remote control maps.
use crate::vs::*;
use infrared::cmd::{AddressCommand, Command};
use infrared::protocol::nec::{AppleNecCommand, NecCommand, SamsungNecCommand};
use infrared::protocol::rc5::Rc5Command;
use infrared::protocol::sbp::SbpCommand;
use infrared::remotecontrol::nec::{Apple2009, SamsungTv, SpecialForMp3};
use infrared::remotecontrol::rc5::CdPlayer;
use infrared::remotecontrol::sbp::SamsungBluRayPlayer;
use infrared::remotecontrol::{Action, Button, RemoteControlModel};

/// Every action: encoding and decoding agree.
fn actions<R: RemoteControlModel>() {
    let a: Action = any();
    match R::encode(&a) {
        Some(c) => {
            reached("an action that can be sent");
            require(c.address() == R::ADDRESS, "an encoded action has the remote's address");
            require(!c.is_repeat(), "an encoded action is not a repeat");
            require(R::decode(&c) == Some(a), "an encoded action decodes to itself");
        }
        None => {}
    }
}
/// Every entry of the button list.
fn buttons<R: RemoteControlModel>() {
    require(R::PROTOCOL == R::Cmd::ID, "the remote's protocol is its command's");
    for (code, action) in R::BUTTONS {
        reached("a button");
        match R::encode(action) {
            Some(c) => {
                require(R::decode(&c) == Some(*action), "an action of the button list decodes to itself");
            }
            None => require(false, "every action of the button list can be encoded"),
        }
        match R::Cmd::create(R::ADDRESS, *code) {
            Some(c) => require(R::decode(&c) == Some(*action), "every code maps to one action"),
            None => require(false, "every code of the button list can be sent"),
        }
    }
}
/// Any command: from elsewhere it is not mapped.
fn foreign<R: RemoteControlModel>(c: R::Cmd) {
    if c.address() != R::ADDRESS {
        reached("another address");
        require(R::decode(&c).is_none(), "a command from another address is never mapped");
    }
}
/// Commands that are not copied elsewhere by the library.
pub trait Fields {
    fn like(&self, o: &Self) -> bool;
    fn twin(&self) -> Self;
}
/// Wrapping in a button.
fn wrapped<R: RemoteControlModel>(c: R::Cmd)
where
    R::Cmd: Fields,
{
    // (separately for commands of this remote and of others)
    if c.address() == R::ADDRESS {
        wrap::<R>(c)
    } else {
        wrap::<R>(c)
    }
}
fn wrap<R: RemoteControlModel>(c: R::Cmd)
where
    R::Cmd: Fields,
{
    let t = c.twin();
    let u = c.twin();
    let a = R::decode(&t);
    let b: Button<R> = c.into();
    reached("wrapped");
    require(b.command().like(&u), "a button keeps the command");
    require(b.is_repeat() == u.is_repeat(), "a button keeps the repeat mark");
    match a {
        Some(a) => require(b.action() == Some(a), "a button is mapped as the remote does"),
        None => require(b.action().is_none(), "a button is mapped as the remote does"),
    }
}
macro_rules! fields {
    ($t:ident $($f:ident)*) => {
        impl Fields for $t {
            fn like(&self, o: &Self) -> bool {
                true $( && self.$f == o.$f )*
            }
            fn twin(&self) -> Self {
                $t { $( $f: self.$f ),* }
            }
        }
    };
}
fields!(NecCommand addr cmd repeat);
fields!(SamsungNecCommand addr cmd repeat);
fields!(AppleNecCommand command_page command device_id repeat);
fields!(Rc5Command addr cmd start toggle);
fields!(SbpCommand address command valid);

macro_rules! remote {
    ($m:ident $r:ident $c:expr) => {
        pub mod $m {
            use super::*;
            pub fn c17_actions() {
                actions::<$r>()
            }
            pub fn c17_buttons() {
                buttons::<$r>()
            }
            pub fn c17_foreign() {
                foreign::<$r>($c)
            }
            pub fn c17_wrapped() {
                wrapped::<$r>($c)
            }
        }
    };
}
remote!(samsungtv SamsungTv SamsungNecCommand { addr: any(), cmd: any(), repeat: any() });
remote!(mp3 SpecialForMp3 NecCommand { addr: any(), cmd: any(), repeat: any() });
remote!(cd CdPlayer Rc5Command { addr: any(), cmd: any(), start: any(), toggle: any() });
remote!(bluray SamsungBluRayPlayer SbpCommand { address: any(), command: any(), valid: any() });
pub mod apple {
    use super::*;
    pub fn c17_wrapped() {
        wrapped::<Apple2009>(AppleNecCommand { command_page: any(), command: any(), device_id: any(), repeat: any() })
    }
    pub fn c17_actions() {
        let a: Action = any();
        if let Some(c) = Apple2009::encode(&a) {
            require(Apple2009::decode(&c) == Some(a), "an encoded action decodes to itself");
        }
        require(Apple2009::PROTOCOL == AppleNecCommand::ID, "the remote's protocol is its command's");
        for (_, action) in Apple2009::BUTTONS {
            require(Apple2009::encode(action).is_some(), "every action of the button list can be encoded");
        }
        reached("actions");
    }
    /// The same command number on different pages is a different command.
    pub fn c17_pages() {
        let (device_id, repeat) = (any(), any());
        let (command_page, command): (u8, u8) = (any(), any());
        let c = AppleNecCommand { command_page, command, device_id, repeat };
        if command_page == 0x0e {
            if let Some(Action::BatteryLow) = Apple2009::decode(&c) {
                require(false, "the battery warning is on page 0");
            }
        } else if command_page == 0 {
            match Apple2009::decode(&c) {
                None | Some(Action::BatteryLow) => {}
                _ => require(false, "keys are on page 0x0e"),
            }
        } else {
            reached("another page");
            require(Apple2009::decode(&c).is_none(), "a command of another page is never mapped");
        }
    }
}
/// Names of actions.
pub fn c17_names() {
    let (a, b): (Action, Action) = (any(), any());
    if a != b {
        reached("two actions");
        require(a.to_str() != b.to_str(), "distinct actions have distinct names");
    }
}
