pub use std::process::*;

pub fn exit(code: i32) -> ! {
    if crate::rt::rt().is_some() { crate::rt::exit(code) } else { std::process::exit(code) }
}
pub fn abort() -> ! {
    if crate::rt::rt().is_some() { crate::rt::exit(134) } else { std::process::abort() }
}
