//! C16: the embedded sender drives the pin as the train says.
use crate::train::*;
use crate::vs::*;
use infrared::sender::Sender;

pub struct Pwm;
static mut TOUCHED: u32 = 0;
static mut ON: bool = false;
impl embedded_hal::PwmPin for Pwm {
    type Duty = u16;
    fn enable(&mut self) {
        unsafe {
            TOUCHED += 1;
            ON = true;
        }
    }
    fn disable(&mut self) {
        unsafe {
            TOUCHED += 1;
            ON = false;
        }
    }
    fn get_duty(&self) -> u16 {
        0
    }
    fn get_max_duty(&self) -> u16 {
        0
    }
    fn set_duty(&mut self, _: u16) {
        require(false, "the duty cycle is the user's");
    }
}
/// What has been sent: ticks since the last switch.
struct Air {
    len: u8,
    pos: u8,
    ticks: u32,
    on: bool,
    /// a switch has been made and the end has not been announced yet
    busy: bool,
}
fn tick<const S: usize>(s: &mut Sender<Pwm, 40_000, S>, a: &mut Air) {
    unsafe { TOUCHED = 0 };
    if a.pos < a.len {
        if a.ticks >= wrote(a.pos as usize) {
            reached("switch");
            s.tick();
            a.on = a.pos % 2 == 0;
            a.busy = true;
            a.pos += 1;
            a.ticks = 1;
        } else {
            reached("wait");
            s.tick();
            a.ticks += 1;
        }
    } else {
        reached("idle");
        s.tick();
        a.on = false;
        a.busy = false;
    }
    require(unsafe { TOUCHED == 1 }, "the pin is touched once");
    require(unsafe { ON } == a.on, "the pin is on exactly while the train says so");
}
fn send<const S: usize, const LONG: bool>() {
    affine();
    let mut s: Sender<Pwm, 40_000, S> = Sender::new(Pwm);
    let mut a = Air { len: 0, pos: 0, ticks: 0, on: false, busy: false };
    while history() {
        if any() {
            unsafe { TOUCHED = 0 };
            if a.busy {
                reached("load while busy");
                unsafe { ASKED = 0 };
                s.load::<Train>(&TrainCmd(any_in(0, N as u64) as usize));
                require(unsafe { ASKED == 0 }, "loading while a transmission is in progress changes nothing");
                let b = s.buffer();
                require(b.len() == a.len as usize, "loading while a transmission is in progress changes nothing");
            } else if a.len == a.pos {
                train::<LONG>(|c| {
                    reached("load while idle");
                    s.load::<Train>(&c);
                    a = Air { len: c.0 as u8, pos: 0, ticks: 0, on: false, busy: false };
                });
            }
            require(unsafe { TOUCHED == 0 }, "loading does not touch the pin");
        } else {
            tick(&mut s, &mut a);
        }
    }
}
pub fn c16_roomy() {
    send::<10, false>()
}
pub fn c16_full() {
    send::<N, false>()
}
/// A train as long as real ones.
pub fn c16_long() {
    send::<L, true>()
}
