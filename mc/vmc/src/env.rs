//! The command line is the world's, if it has one.
pub use std::env::*;

use crate::rt;
use std::ffi::OsString;

pub fn args_os() -> std::vec::IntoIter<OsString> {
    match rt::try_world().and_then(|w| w.args.clone()) {
        Some(v) => v,
        None => std::env::args_os().collect(),
    }
    .into_iter()
}

pub fn args() -> std::vec::IntoIter<String> {
    args_os().map(|a| a.into_string().expect("the command line is not text")).collect::<Vec<String>>().into_iter()
}
