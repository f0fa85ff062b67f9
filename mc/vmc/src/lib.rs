//! The standard library as the checked crates see it: everything is the real one except what other threads or the
//! operating system can observe, which goes through the controlled execution in `rt`.
#![allow(clippy::all)]

pub use std::*;

pub mod collections;
pub mod env;
pub mod fs;
pub mod net;
pub mod os;
pub mod process;
pub mod rt;
pub mod sync;
pub mod thread;
pub mod time;
pub mod world;
pub mod explore;
