//! C15: the sender plays exactly the loaded pulse train.
use crate::train::*;
use crate::vs::*;
use infrared::sender::{PulsedataSender, Status};

/// What has been played.
struct Player {
    len: u8,
    pos: u8,
    last: u32,
    now: Status,
}
fn tick<const S: usize>(s: &mut PulsedataSender<S>, p: &mut Player) {
    let ts: u32 = any();
    if p.pos < p.len {
        if ts.wrapping_sub(p.last) >= wrote(p.pos as usize) {
            reached("switch");
            let on = p.pos % 2 == 0;
            let r = s.tick(ts);
            require(r == Status::Transmit(on), "the output switches when the entry has passed");
            p.now = r;
            p.pos += 1;
            p.last = ts;
        } else {
            reached("wait");
            require(s.tick(ts) == p.now, "the output stays until the entry has passed");
        }
    } else {
        reached("idle");
        require(s.tick(ts) == Status::Idle, "after the last entry the sender is idle");
        p.now = Status::Idle;
    }
}
fn play<const S: usize, const LONG: bool>() {
    affine();
    let mut s: PulsedataSender<S> = PulsedataSender::new();
    let mut p = Player { len: 0, pos: 0, last: 0, now: Status::Idle };
    while history() {
        let k: u8 = any();
        match k {
            0 => train::<LONG>(|c| {
                p = Player { len: c.0 as u8, pos: 0, last: 0, now: Status::Idle };
                s.load_command::<Train, 40_000>(&c);
                let b = s.buffer();
                require(b.len() == c.0, "the buffer holds exactly the train");
                let mut i = 0;
                while i < c.0 {
                    require(b[i] == wrote(i), "the buffer holds the encoder's entries");
                    i += 1;
                }
            }),
            1 => {
                p = Player { len: 0, pos: 0, last: 0, now: Status::Idle };
                s.reset();
                require(s.buffer().is_empty(), "a reset sender has nothing to play");
            }
            _ => tick(&mut s, &mut p),
        }
    }
}
/// Buffer larger than the train.
pub fn c15_roomy() {
    play::<10, false>()
}
/// Buffer the size of the train.
pub fn c15_full() {
    play::<N, false>()
}
/// A train as long as real ones.
pub fn c15_long() {
    play::<L, true>()
}
