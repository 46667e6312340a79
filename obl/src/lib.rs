#![allow(clippy::all)]
pub mod nd;
#[macro_use]
pub mod macros;
pub mod obl;
pub mod spec;

// modules the included source files refer to
#[cfg(feature = "pv")]
#[path = "/repo/src/color.rs"]
pub mod color;
