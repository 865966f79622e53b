//! C12: polled receivers measure every pulse exactly.
use crate::mock::*;
use crate::vs::*;
use infrared::receiver::{DecodingError, Error, NoPin, PeriodicPoll, State};

pub fn c12_polled() {
    affine();
    let mut r: PeriodicPoll<Mock<0>, NoPin, Wrapped> = PeriodicPoll::new(any());
    let mut level = false;
    let mut since: u32 = 0;
    while history() {
        let edge: bool = any();
        since = since.wrapping_add(1);
        answers(|a, c| {
            prepare::<0>(a, c);
            let res = r.poll(edge);
            let l = log::<0>();
            if edge == level {
                require(l.events == 0, "no event without a level change");
                require(matches!(res, Ok(None)) && l.resets == 0, "no result without a level change");
            } else {
                require(l.events == 1, "one event for a level change");
                require(l.edge == edge, "the edge is the new level");
                require(l.dt == since as u64, "the duration is the number of polls since the last change");
                judge::<0, Wrapped>(a, c, res);
            }
        });
        if edge != level {
            level = edge;
            since = 0;
        }
    }
}
pub fn c12_pin() {
    affine();
    let mut r: PeriodicPoll<Mock<0>, MockPin, Wrapped> = PeriodicPoll::with_pin(any(), MockPin { tag: 0 });
    let mut level = false;
    let mut since: u32 = 0;
    while history() {
        let low: bool = any();
        if any() {
            since = since.wrapping_add(1);
            answers(|a, c| {
                prepare::<0>(a, c);
                set_pin(Ok(low));
                let res = r.poll();
                let l = log::<0>();
                if low == level {
                    require(l.events == 0, "no event without a level change");
                    require(matches!(res, Ok(None)) && l.resets == 0, "no result without a level change");
                } else {
                    require(l.events == 1, "one event for a level change");
                    require(l.edge == low, "pin low is true");
                    require(l.dt == since as u64, "the duration is the number of polls since the last change");
                    judge_pin::<0, Wrapped>(a, c, res);
                }
            });
            if low != level {
                level = low;
                since = 0;
            }
        } else {
            let e: u8 = any();
            prepare::<0>(State::Done, true);
            set_pin(Err(e));
            match r.poll() {
                Err(Error::Hal(x)) => require(x == e, "the pin's own error is returned"),
                _ => require(false, "a pin error is returned"),
            }
            let l = log::<0>();
            require(l.events == 0 && l.resets == 0, "a pin error does not reach the decoder");
        }
    }
}
