//! Three hundred operations under one handshake key, on two ends in lockstep. The nonce of a handshake state is a
//! type-level number, so the sequence is written out by macros rather than looped over.
use crate::spy::Spy;
use vru_noise::{MacMismatch, SymmetricState};

macro_rules! say {
    ($a:ident, $b:ident) => {
        let mut v = b"some data".to_vec();
        let ($a, tag) = $a.encrypt(&mut v);
        let $b = $b.decrypt(&mut v, tag)?;
    };
}
macro_rules! ten {
    ($a:ident, $b:ident, $c:ident, $d:ident) => {
        say!($a, $b);
        say!($c, $d);
        say!($a, $b);
        say!($c, $d);
        say!($a, $b);
        say!($c, $d);
        say!($a, $b);
        say!($c, $d);
        say!($a, $b);
        say!($c, $d);
    };
}
macro_rules! hundred {
    ($a:ident, $b:ident, $c:ident, $d:ident) => {
        ten!($a, $b, $c, $d);
        ten!($a, $b, $c, $d);
        ten!($a, $b, $c, $d);
        ten!($a, $b, $c, $d);
        ten!($a, $b, $c, $d);
        ten!($a, $b, $c, $d);
        ten!($a, $b, $c, $d);
        ten!($a, $b, $c, $d);
        ten!($a, $b, $c, $d);
        ten!($a, $b, $c, $d);
    };
}
macro_rules! chains {
    ($name:ident, $order:ty) => {
        /// Calls alternate between the writer and the reader of each message.
        pub fn $name(turns: bool) -> Result<(), MacMismatch> {
            type C = (sha2::Sha256, $order, Spy);
            let a = SymmetricState::<C, _>::new("chain").mix_shared_secret(&[7; 32]);
            let b = SymmetricState::<C, _>::new("chain").mix_shared_secret(&[7; 32]);
            if turns {
                hundred!(a, b, b, a);
                hundred!(a, b, b, a);
                hundred!(a, b, b, a);
            } else {
                hundred!(a, b, a, b);
                hundred!(a, b, a, b);
                hundred!(a, b, a, b);
            }
            Ok(())
        }
    };
}
chains!(little, byteorder::LittleEndian);
chains!(big, byteorder::BigEndian);
