//! C13: buffered decoding yields every command in the buffer.
use crate::vs::*;
use infrared::receiver::time::{InfraMonotonic, PulseSpans};
use infrared::receiver::{BufferInputReceiver, DecoderBuilder, DecodingError, ProtocolDecoder, State};
use infrared::Protocol;

/// A decoder that checks what it is fed with.
pub struct Strict;
pub struct StrictDec;
pub struct StrictCmd(u32);
pub struct Wrap(u32);
impl From<StrictCmd> for Wrap {
    fn from(c: StrictCmd) -> Wrap {
        Wrap(c.0)
    }
}

static mut BUF: &[u32] = &[];
static mut N: usize = 0;
static mut DONE: bool = false;
static mut RESET: bool = false;
static mut PENDING: bool = false;
static mut HAS: bool = false;
static mut CMD: u32 = 0;
static mut FREQ: u32 = 0;

impl Protocol for Strict {
    type Cmd = StrictCmd;
}
impl DecoderBuilder<u32> for Strict {
    type Decoder = StrictDec;
    fn build(freq: u32) -> StrictDec {
        unsafe {
            require(FREQ == freq, "the decoder gets the frequency of the receiver");
            N = 0;
            DONE = false;
            RESET = false;
            PENDING = false;
        }
        StrictDec
    }
}
impl ProtocolDecoder<Strict, u32> for StrictDec {
    fn event(&mut self, edge: bool, dt: u32) -> State {
        unsafe {
            require(N < BUF.len(), "no event beyond the end of the buffer");
            if N >= BUF.len() {
                return State::Idle;
            }
            require(dt == BUF[N], "the entries are fed in order, each once");
            require(edge == (N & 1 == 0), "the edges alternate, starting with a rising one");
            require(!RESET, "a decoder that is done or has failed is reset");
            require(!PENDING, "no command is skipped");
            N += 1;
            DONE = false;
            HAS = false;
            let k: u8 = any();
            match k {
                0 => State::Idle,
                1 => State::Receiving,
                2 => {
                    DONE = true;
                    HAS = true;
                    PENDING = true;
                    RESET = true;
                    CMD = any();
                    State::Done
                }
                3 => {
                    DONE = true;
                    RESET = true;
                    State::Done
                }
                4 => {
                    RESET = true;
                    State::Error(DecodingError::Data)
                }
                5 => {
                    RESET = true;
                    State::Error(DecodingError::Address)
                }
                _ => {
                    RESET = true;
                    State::Error(DecodingError::Validation)
                }
            }
        }
    }
    fn command(&self) -> Option<StrictCmd> {
        unsafe {
            if DONE && HAS {
                Some(StrictCmd(CMD))
            } else {
                None
            }
        }
    }
    fn reset(&mut self) {
        unsafe {
            require(RESET || N == 0, "a decoder that is receiving is not reset");
            RESET = false;
            DONE = false;
        }
    }
    fn spans(&self) -> &PulseSpans<u32> {
        loop {}
    }
}
fn drain(mut it: impl Iterator<Item = Wrap>) {
    unsafe {
        while history() {
            match it.next() {
                Some(c) => {
                    reached("a command");
                    require(PENDING, "a command is yielded once and not made up");
                    require(c.0 == CMD, "the command is the decoder's");
                    PENDING = false;
                }
                None => {
                    reached("the end");
                    require(N == BUF.len(), "the iteration ends with the buffer");
                    require(!PENDING, "no command is lost at the end");
                }
            }
        }
    }
}
pub fn c13_iter() {
    affine();
    unsafe {
        BUF = any_slice();
        FREQ = any();
        let mut r: BufferInputReceiver<Strict, u32, Wrap> = BufferInputReceiver::with_frequenzy(FREQ);
        drain(r.iter(BUF));
    }
}
pub fn c13_iter_with() {
    affine();
    unsafe {
        BUF = any_slice();
        FREQ = any();
        let mut r: BufferInputReceiver<Strict, u32, Wrap> = BufferInputReceiver::new();
        drain(r.iter_with::<Strict, u32, Wrap>(FREQ, BUF));
    }
}
/// The same receiver can be used again: every iteration starts afresh.
pub fn c13_again() {
    affine();
    unsafe {
        BUF = any_slice();
        FREQ = 1_000_000;
        let mut r: BufferInputReceiver<Strict, u32, Wrap> = BufferInputReceiver::new();
        drain(r.iter(BUF));
        drain(r.iter(BUF));
    }
}
