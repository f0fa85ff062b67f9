pub use std::os::*;

pub mod unix {
    pub use std::os::unix::*;

    pub mod net {
        pub use crate::net::unix::*;
    }
}
pub mod fd {
    pub use std::os::fd::*;
}
