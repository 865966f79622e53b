//! C07: no command from an incomplete or corrupted frame.
use crate::monitor::*;
use infrared::protocol::*;

macro_rules! pd {
    ($($name:ident $p:ty, $rep:expr;)*) => { $(
        pub mod $name {
            use super::*;
            pub fn c07_frames() { monitor::<$p, u32>(1_000_000, $rep) }
            pub fn c07_none() { no_command::<$p>(1_000_000) }
        }
    )* };
}
pd! {
    nec Nec, true;
    nec16 Nec16, true;
    samsung SamsungNec, true;
    apple AppleNec, true;
    sbp Sbp, false;
    denon Denon, false;
}
pub mod raw {
    use super::*;
    pub fn c07_none() {
        no_command::<NecDebug>(1_000_000)
    }
}
pub mod rc5 {
    use super::*;
    pub fn c07_frames() {
        crate::monitor::rc5::<u32>(1_000_000)
    }
    pub fn c07_none() {
        no_command::<Rc5>(1_000_000)
    }
}
pub mod rc6 {
    use super::*;
    pub fn c07_frames() {
        crate::monitor::rc6::<u32>(1_000_000)
    }
    pub fn c07_none() {
        no_command::<Rc6>(1_000_000)
    }
}
