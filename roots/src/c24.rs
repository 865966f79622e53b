//! C24: errors are reported as what they are and do no damage.
use crate::h::*;
use crate::mock::*;
use crate::vs::*;
use infrared::protocol::*;
use infrared::receiver::{DecoderBuilder, DecodingError, Error, NoPin, PeriodicPoll, ProtocolDecoder, Receiver, State};

fn errors(mut f: impl FnMut(DecodingError)) {
    let k: u8 = any();
    match k {
        0 => f(DecodingError::Address),
        1 => f(DecodingError::Data),
        2 => f(DecodingError::Validation),
        _ => f(DecodingError::RemoteControlError),
    }
}
fn same_name<E>(d: DecodingError, e: &Error<E>) -> bool {
    match (d, e) {
        (DecodingError::Address, Error::Address) => true,
        (DecodingError::Data, Error::Data) => true,
        (DecodingError::Validation, Error::Validation) => true,
        (DecodingError::RemoteControlError, Error::RemoteControlError) => true,
        _ => false,
    }
}
pub fn c24_from() {
    errors(|d| {
        let e: Error<u8> = d.into();
        reached("converted");
        require(same_name(d, &e), "an error keeps its name");
    });
}
fn failed() {
    require(log::<0>().resets >= 1, "a failed decoder is reset");
}
pub fn c24_total() {
    let mut d = <Mock<0> as DecoderBuilder<u32>>::build(any());
    errors(|e| {
        prepare::<0>(State::Error(e), any());
        let res = ProtocolDecoder::<Mock<0>, u32>::event_total(&mut d, any(), any());
        reached("total");
        require(matches!(res, Err(x) if x == e), "the error is the decoder's");
        failed();
    });
}
pub fn c24_receiver() {
    let mut r: Receiver<Mock<0>, NoPin, u32, Wrapped> = Receiver::new(any());
    while history() {
        errors(|e| {
            prepare::<0>(State::Error(e), any());
            let res = r.event(any(), any());
            require(matches!(res, Err(x) if x == e), "the error is the decoder's");
            failed();
            prepare::<0>(State::Error(e), any());
            let res = r.event_edge(any(), any());
            require(matches!(res, Err(x) if x == e), "the error is the decoder's");
            failed();
            prepare::<0>(State::Error(e), any());
            let res = r.event_instant(any(), any());
            reached("receiver");
            require(matches!(res, Err(x) if x == e), "the error is the decoder's");
            failed();
        });
    }
}
fn hal<C>(res: Result<Option<C>, Error<u8>>, e: u8) {
    match res {
        Err(Error::Hal(x)) => require(x == e, "a pin error carries the pin's own error"),
        _ => require(false, "a pin error is a hardware error"),
    }
    let l = log::<0>();
    require(l.events == 0 && l.resets == 0, "a pin error does not reach the decoder");
}
pub fn c24_pin() {
    let mut r: Receiver<Mock<0>, MockPin, u32, Wrapped> = Receiver::with_pin(any(), MockPin { tag: any() });
    while history() {
        errors(|e| {
            prepare::<0>(State::Error(e), any());
            set_pin(Ok(any()));
            match r.event(any()) {
                Err(x) => require(same_name(e, &x), "an error keeps its name"),
                _ => require(false, "the decoder's error is reported"),
            }
            failed();
            let t0: u32 = any();
            prepare::<0>(State::Error(e), any());
            set_pin(Ok(any()));
            match r.event_instant(t0) {
                Err(x) => require(same_name(e, &x), "an error keeps its name"),
                _ => require(false, "the decoder's error is reported"),
            }
            failed();
            let n: u8 = any();
            prepare::<0>(State::Done, true);
            set_pin(Err(n));
            hal(r.event(any()), n);
            prepare::<0>(State::Done, true);
            set_pin(Err(n));
            hal(r.event_instant(any()), n);
            // the time reference has not moved
            let t: u32 = any();
            assume(t >= t0);
            prepare::<0>(State::Idle, false);
            set_pin(Ok(any()));
            let _ = r.event_instant(t);
            reached("pin");
            require(log::<0>().dt == (t - t0) as u64, "a pin error does not move the time reference");
        });
    }
}
pub fn c24_poll() {
    affine();
    let mut r: PeriodicPoll<Mock<0>, NoPin, Wrapped> = PeriodicPoll::new(any());
    let mut edge = false;
    while history() {
        errors(|e| {
            edge = !edge;
            prepare::<0>(State::Error(e), any());
            let res = r.poll(edge);
            reached("poll");
            require(matches!(res, Err(x) if x == e), "the error is the decoder's");
            failed();
        });
    }
}
pub fn c24_poll_pin() {
    affine();
    let mut r: PeriodicPoll<Mock<0>, MockPin, Wrapped> = PeriodicPoll::with_pin(any(), MockPin { tag: any() });
    let mut edge = false;
    while history() {
        errors(|e| {
            edge = !edge;
            prepare::<0>(State::Error(e), any());
            set_pin(Ok(edge));
            match r.poll() {
                Err(x) => require(same_name(e, &x), "an error keeps its name"),
                _ => require(false, "the decoder's error is reported"),
            }
            failed();
            let n: u8 = any();
            prepare::<0>(State::Done, true);
            set_pin(Err(n));
            hal(r.poll(), n);
            reached("poll");
        });
    }
}

/// Until the first error, and then side by side with a new receiver.
trait Twin: DecoderBuilder<u32> {
    /// The result of the receiver that has seen an error fits the new one's.
    fn fits(a: &Result<Option<Self::Cmd>, DecodingError>, b: &Result<Option<Self::Cmd>, DecodingError>) -> bool;
}
fn kinds<C>(a: &Result<Option<C>, DecodingError>, b: &Result<Option<C>, DecodingError>, cmd: impl Fn(&C, &C) -> bool, only: impl Fn(&C) -> bool) -> bool {
    match (a, b) {
        (Ok(None), Ok(None)) => true,
        (Err(x), Err(y)) => *x == *y,
        (Ok(Some(x)), Ok(Some(y))) => cmd(x, y),
        (Ok(Some(x)), Ok(None)) => only(x),
        _ => false,
    }
}
macro_rules! twin {
    ($p:ty, $a:ident, $b:ident, $cmd:expr, $only:expr) => {
        impl Twin for $p {
            fn fits(a: &Result<Option<Self::Cmd>, DecodingError>, b: &Result<Option<Self::Cmd>, DecodingError>) -> bool {
                kinds(a, b, |$a, $b| $cmd, |$a| $only)
            }
        }
    };
}
twin!(Nec, a, b, a.addr == b.addr && a.cmd == b.cmd && a.repeat == b.repeat, a.repeat);
twin!(Nec16, a, b, a.addr == b.addr && a.cmd == b.cmd && a.repeat == b.repeat, a.repeat);
twin!(SamsungNec, a, b, a.addr == b.addr && a.cmd == b.cmd && a.repeat == b.repeat, a.repeat);
twin!(AppleNec, a, b, a.command_page == b.command_page && a.device_id == b.device_id && a.command == b.command && a.repeat == b.repeat, a.repeat);
twin!(Rc5, a, b, a.addr == b.addr && a.cmd == b.cmd && a.start == b.start && a.toggle == b.toggle, {
    let _ = a;
    false
});
twin!(Rc6, a, b, a.addr == b.addr && a.cmd == b.cmd && a.toggle == b.toggle, {
    let _ = a;
    false
});
twin!(Sbp, a, b, a.address == b.address && a.command == b.command, {
    let _ = a;
    false
});
fn side_by_side<P: Twin>(f: u32, mark: impl Fn()) {
    paths();
    let mut a: Rx<P, u32> = Rx::new(f);
    let mut failed = false;
    while !failed && history() {
        if let Err(_) = a.edge(any(), any()) {
            failed = true;
        }
    }
    if failed {
        let mut b: Rx<P, u32> = Rx::new(f);
        mark();
        if !same(&a, &b) {
            while history() {
                let (edge, dt): (bool, u32) = (any(), any());
                
                let x = a.edge(edge, dt);
                let y = b.edge(edge, dt);
                
                require(P::fits(&x, &y), "after an error the receiver answers like a new one");
            }
        }
    }
}
pub fn c24_new_nec() {
    side_by_side::<Nec>(1_000_000, || reached("an error"))
}
pub fn c24_new_nec16() {
    side_by_side::<Nec16>(1_000_000, || reached("an error"))
}
pub fn c24_new_samsung() {
    side_by_side::<SamsungNec>(1_000_000, || reached("an error"))
}
pub fn c24_new_apple() {
    side_by_side::<AppleNec>(1_000_000, || reached("an error"))
}
pub fn c24_new_rc5() {
    // (no marker: the decoder need not have errors)
    side_by_side::<Rc5>(1_000_000, || ())
}
pub fn c24_new_rc6() {
    // (no marker: the decoder need not have errors)
    side_by_side::<Rc6>(1_000_000, || ())
}
pub fn c24_new_sbp() {
    side_by_side::<Sbp>(1_000_000, || reached("an error"))
}
