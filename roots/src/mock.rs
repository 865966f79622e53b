//! A decoder, a pin and an encoder that record how they are used.
use crate::vs::*;
use embedded_hal::digital::v2::InputPin;
use infrared::cmd::{AddressCommand, Command};
use infrared::receiver::time::{InfraMonotonic, PulseSpans};
use infrared::receiver::{DecoderBuilder, DecodingError, ProtocolDecoder, State};
use infrared::{Protocol, ProtocolId};

/// Protocol number ID.
pub struct Mock<const ID: usize>;
pub struct MockCmd<const ID: usize>(pub u32);
pub struct MockDec<const ID: usize>;

/// What the decoder is going to answer, and what has been done with it.
#[derive(Clone, Copy)]
pub struct Log {
    pub answer: State,
    pub has_cmd: bool,
    pub cmd: u32,
    pub events: u32,
    pub resets: u32,
    pub builds: u32,
    pub freq: u32,
    pub edge: bool,
    pub dt: u64,
}
const NEW: Log = Log { answer: State::Idle, has_cmd: false, cmd: 0, events: 0, resets: 0, builds: 0, freq: 0, edge: false, dt: 0 };
static mut LOG0: Log = NEW;
static mut LOG1: Log = NEW;
static mut LOG2: Log = NEW;
static mut LOG3: Log = NEW;
static mut LOG4: Log = NEW;
static mut LOG5: Log = NEW;

pub fn log<const ID: usize>() -> &'static mut Log {
    unsafe {
        match ID {
            0 => &mut LOG0,
            1 => &mut LOG1,
            2 => &mut LOG2,
            3 => &mut LOG3,
            4 => &mut LOG4,
            _ => &mut LOG5,
        }
    }
}
/// Prepare the answer to the next event and forget the past.
pub fn prepare<const ID: usize>(answer: State, has_cmd: bool) {
    let l = log::<ID>();
    l.answer = answer;
    l.has_cmd = has_cmd;
    l.cmd = any();
    l.events = 0;
    l.resets = 0;
    l.builds = 0;
    l.edge = false;
    l.dt = 0;
}

/// The ticks of a duration.
pub trait Dur {
    fn n(self) -> u64;
}
impl Dur for u32 {
    fn n(self) -> u64 {
        self as u64
    }
}
impl Dur for u64 {
    fn n(self) -> u64 {
        self
    }
}
impl<const D: u32> Dur for fugit::Duration<u32, 1, D> {
    fn n(self) -> u64 {
        self.ticks() as u64
    }
}
impl<const D: u32> Dur for fugit::Duration<u64, 1, D> {
    fn n(self) -> u64 {
        self.ticks()
    }
}

impl<const ID: usize> Protocol for Mock<ID> {
    type Cmd = MockCmd<ID>;
}
impl<const ID: usize, M: InfraMonotonic> DecoderBuilder<M> for Mock<ID>
where
    M::Duration: Dur,
{
    type Decoder = MockDec<ID>;
    fn build(freq: u32) -> MockDec<ID> {
        let l = log::<ID>();
        l.builds += 1;
        l.freq = freq;
        MockDec
    }
}
impl<const ID: usize, M: InfraMonotonic> ProtocolDecoder<Mock<ID>, M> for MockDec<ID>
where
    M::Duration: Dur,
{
    fn event(&mut self, edge: bool, dt: M::Duration) -> State {
        let l = log::<ID>();
        l.events += 1;
        l.edge = edge;
        l.dt = dt.n();
        l.answer
    }
    fn command(&self) -> Option<MockCmd<ID>> {
        let l = log::<ID>();
        require(l.resets == 0, "the command is asked for before the reset");
        if l.has_cmd {
            Some(MockCmd(l.cmd))
        } else {
            None
        }
    }
    fn reset(&mut self) {
        log::<ID>().resets += 1;
    }
    fn spans(&self) -> &PulseSpans<M> {
        loop {}
    }
}
impl<const ID: usize> Command for MockCmd<ID> {
    fn is_repeat(&self) -> bool {
        false
    }
}
impl<const ID: usize> AddressCommand for MockCmd<ID> {
    const ID: ProtocolId = ProtocolId::Nec;
    fn address(&self) -> u32 {
        ID as u32
    }
    fn command(&self) -> u32 {
        self.0
    }
    fn create(_: u32, _: u32) -> Option<Self> {
        None
    }
}

/// A user's own command type.
pub struct Wrapped(pub u32);
impl<const ID: usize> From<MockCmd<ID>> for Wrapped {
    fn from(c: MockCmd<ID>) -> Wrapped {
        Wrapped(c.0)
    }
}
pub trait Num {
    fn num(&self) -> u32;
}
impl<const ID: usize> Num for MockCmd<ID> {
    fn num(&self) -> u32 {
        self.0
    }
}
impl Num for Wrapped {
    fn num(&self) -> u32 {
        self.0
    }
}

/// A pin that is low, high or broken.
pub struct MockPin {
    pub tag: u32,
}
pub static mut PIN: Result<bool, u8> = Ok(false);
pub static mut PIN_READS: u32 = 0;
pub static mut PIN_TAG: u32 = 0;
impl InputPin for MockPin {
    type Error = u8;
    fn is_high(&self) -> Result<bool, u8> {
        unsafe {
            PIN_READS += 1;
            PIN_TAG = self.tag;
            match PIN {
                Ok(low) => Ok(!low),
                Err(e) => Err(e),
            }
        }
    }
    fn is_low(&self) -> Result<bool, u8> {
        unsafe {
            PIN_READS += 1;
            PIN_TAG = self.tag;
            PIN
        }
    }
}
pub fn set_pin(p: Result<bool, u8>) {
    unsafe {
        PIN = p;
        PIN_READS = 0;
    }
}

/// Every kind of answer: the body is analysed for each separately.
pub fn answers(mut f: impl FnMut(State, bool)) {
    let k: u8 = any();
    match k {
        0 => f(State::Idle, false),
        1 => f(State::Receiving, false),
        2 => f(State::Done, true),
        3 => f(State::Done, false),
        4 => f(State::Error(DecodingError::Address), false),
        5 => f(State::Error(DecodingError::Data), false),
        6 => f(State::Error(DecodingError::Validation), false),
        // (a command is there, but nobody may ask for it)
        7 => f(State::Receiving, true),
        8 => f(State::Idle, true),
        9 => f(State::Error(DecodingError::Data), true),
        _ => f(State::Error(DecodingError::RemoteControlError), false),
    }
}
/// The result is what the decoder answered, and it was reset accordingly.
pub fn judge<const ID: usize, C: Num>(answer: State, has_cmd: bool, res: Result<Option<C>, DecodingError>) {
    let l = log::<ID>();
    match answer {
        State::Idle | State::Receiving => {
            reached("nothing");
            require(matches!(res, Ok(None)), "nothing is reported while the decoder is not done");
            require(l.resets == 0, "a decoder that is not done is not reset");
        }
        State::Done => {
            reached("done");
            match res {
                Ok(Some(c)) => {
                    require(has_cmd, "no command is made up");
                    require(c.num() == l.cmd, "the command is the decoder's");
                }
                Ok(None) => require(!has_cmd, "a finished decoder's command is reported"),
                Err(_) => require(false, "a finished decoder is no error"),
            }
            require(l.resets >= 1, "a finished decoder is reset");
        }
        State::Error(e) => {
            reached("error");
            match res {
                Err(x) => require(x == e, "the error is the decoder's"),
                _ => require(false, "the decoder's error is reported"),
            }
            require(l.resets >= 1, "a failed decoder is reset");
        }
    }
}
/// Errors of pin receivers.
pub fn judge_pin<const ID: usize, C: Num>(answer: State, has_cmd: bool, res: Result<Option<C>, infrared::receiver::Error<u8>>) {
    use infrared::receiver::Error;
    let r = match res {
        Ok(x) => Ok(x),
        Err(Error::Address) => Err(DecodingError::Address),
        Err(Error::Data) => Err(DecodingError::Data),
        Err(Error::Validation) => Err(DecodingError::Validation),
        Err(Error::RemoteControlError) => Err(DecodingError::RemoteControlError),
        Err(Error::Hal(_)) => {
            require(false, "a working pin is no hardware error");
            return;
        }
    };
    judge::<ID, C>(answer, has_cmd, r);
}
