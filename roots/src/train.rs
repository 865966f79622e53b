//! A protocol whose encoder writes an arbitrary pulse train.
use crate::vs::*;
use infrared::sender::ProtocolEncoder;
use infrared::Protocol;

/// Largest train.
pub const N: usize = 6;
/// A realistic train.
pub const L: usize = 96;
pub struct Train;
/// The length of the train; its entries are unconstrained.
pub struct TrainCmd(pub usize);
/// What the encoder wrote last, and how often it was asked.
pub static mut WROTE: [u32; L] = [0; L];
pub static mut ASKED: u32 = 0;

impl Protocol for Train {
    type Cmd = TrainCmd;
}
impl<const F: u32> ProtocolEncoder<F> for Train {
    type EncoderData = ();
    const DATA: () = ();
    fn encode(cmd: &TrainCmd, buf: &mut [u32]) -> usize {
        require(buf.len() >= cmd.0, "the encoder gets the whole buffer");
        unsafe {
            ASKED = 1;
            let mut i = 0;
            while i < cmd.0 {
                let d: u32 = any();
                WROTE[i] = d;
                buf[i] = d;
                i += 1;
            }
        }
        cmd.0
    }
}
pub fn wrote(i: usize) -> u32 {
    unsafe { WROTE[i] }
}
/// A long train: the body is analysed for each length separately.
pub fn long_train(mut f: impl FnMut(TrainCmd)) {
    if any() {
        f(TrainCmd(67))
    } else {
        f(TrainCmd(L))
    }
}
/// A train of any length: the body is analysed for each length separately.
pub fn any_train(mut f: impl FnMut(TrainCmd)) {
    let k: u8 = any();
    match k {
        0 => f(TrainCmd(0)),
        1 => f(TrainCmd(1)),
        2 => f(TrainCmd(2)),
        3 => f(TrainCmd(3)),
        4 => f(TrainCmd(4)),
        5 => f(TrainCmd(5)),
        _ => f(TrainCmd(6)),
    }
}
/// Short or long trains.
pub fn train<const LONG: bool>(f: impl FnMut(TrainCmd)) {
    if LONG {
        long_train(f)
    } else {
        any_train(f)
    }
}
