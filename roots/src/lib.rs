#![no_std]
#![allow(dead_code, static_mut_refs, unused_imports)]
pub mod h;
#[cfg(any(feature = "c11", feature = "c12", feature = "c13", feature = "c14", feature = "c20", feature = "c24"))]
pub mod mock;
#[cfg(any(feature = "c15", feature = "c16", feature = "c25"))]
pub mod train;
#[cfg(any(feature = "c07", feature = "c10"))]
pub mod monitor;
pub mod vs;
#[cfg(feature = "c01")]
pub mod c01;
#[cfg(any(feature = "c02", feature = "c09", feature = "c10"))]
pub mod c02;
#[cfg(any(feature = "c03", feature = "c09", feature = "c10"))]
pub mod c03;
#[cfg(any(feature = "c04", feature = "c09", feature = "c10"))]
pub mod c04;
#[cfg(any(feature = "c05", feature = "c09", feature = "c10"))]
pub mod c05;
#[cfg(any(feature = "c06", feature = "c09", feature = "c10"))]
pub mod c06;
#[cfg(feature = "c07")]
pub mod c07;
#[cfg(feature = "c08")]
pub mod c08;
#[cfg(feature = "c09")]
pub mod c09;
#[cfg(feature = "c10")]
pub mod c10;
#[cfg(feature = "c11")]
pub mod c11;
#[cfg(feature = "c12")]
pub mod c12;
#[cfg(feature = "c13")]
pub mod c13;
#[cfg(feature = "c14")]
pub mod c14;
#[cfg(feature = "c15")]
pub mod c15;
#[cfg(feature = "c16")]
pub mod c16;
#[cfg(feature = "c17")]
pub mod c17;
#[cfg(feature = "c18")]
pub mod c18;
#[cfg(feature = "c19")]
pub mod c19;
#[cfg(feature = "c20")]
pub mod c20;
#[cfg(feature = "c23")]
pub mod c23;
#[cfg(feature = "c24")]
pub mod c24;
#[cfg(feature = "c25")]
pub mod c25;
#[cfg(feature = "c99")]
pub mod t;
