//! The real symmetric state behind a dynamically typed interface (its nonce is a type parameter).
use crate::model::{Suite, A, H, O};
use crate::spy::Spy;
use generic_array::GenericArray;
use std::cell::RefCell;
use vru_noise::typenum::*;
use vru_noise::{Aead, ChainingKey, Cipher, Config, Key, Rotor, SymmetricState, Tag};

/// A rotor with a recorded history: the key after the r-th rotation is a fixed function of everything before.
#[derive(Clone, Debug)]
pub struct Rec<const I: u64> {
    ck: Vec<u8>,
    key: Vec<u8>,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Born {
    pub ck: Vec<u8>,
    pub key: Vec<u8>,
}
thread_local! {
    pub static BORN: RefCell<Vec<Born>> = const { RefCell::new(vec![]) };
    pub static ROTATIONS: RefCell<u64> = const { RefCell::new(0) };
}
pub fn rotated(ck: &[u8], key: &[u8]) -> Vec<u8> {
    H::Sha256.hash(&[b"rotate", ck, key])[..key.len()].to_vec()
}
impl<C: Config, const I: u64> Rotor<C> for Rec<I> {
    const INTERVAL: u64 = I;
    fn new(chaining_key: ChainingKey<C>, key: Aead<C>) -> Self {
        BORN.with(|b| b.borrow_mut().push(Born { ck: chaining_key.to_vec(), key: key.to_vec() }));
        Rec { ck: chaining_key.to_vec(), key: key.to_vec() }
    }
    fn rotate(&mut self, key: &mut C::Aead) {
        ROTATIONS.with(|r| *r.borrow_mut() += 1);
        self.key = rotated(&self.ck, &self.key);
        *key = <C::Aead as aead::NewAead>::new(GenericArray::from_slice(&self.key));
    }
}

macro_rules! states {
    ($(($v:ident, $n:ty, $next:ident)),*) => {
        pub enum St<C: Config> {
            S(SymmetricState<C, ChainingKey<C>>),
            $($v(SymmetricState<C, Key<C, $n>>),)*
            End(SymmetricState<C, Key<C, U12>>),
        }
        impl<C: Config> St<C> {
            pub fn new(name: &str) -> Self {
                St::S(SymmetricState::new(name))
            }
            pub fn hash(&self) -> Vec<u8> {
                match self { St::S(s) => s.hash().to_vec(), $(St::$v(s) => s.hash().to_vec(),)* St::End(s) => s.hash().to_vec() }
            }
            pub fn mix_hash(self, d: &[u8]) -> Self {
                match self { St::S(s) => St::S(s.mix_hash(d)), $(St::$v(s) => St::$v(s.mix_hash(d)),)* St::End(s) => St::End(s.mix_hash(d)) }
            }
            pub fn mix_ss(self, d: &[u8]) -> Self {
                match self { St::S(s) => St::N0(s.mix_shared_secret(d)), $(St::$v(s) => St::N0(s.mix_shared_secret(d)),)* St::End(s) => St::N0(s.mix_shared_secret(d)) }
            }
            pub fn mix_psk(self, d: &[u8]) -> Self {
                match self { St::S(s) => St::N0(s.mix_psk(d)), $(St::$v(s) => St::N0(s.mix_psk(d)),)* St::End(s) => St::N0(s.mix_psk(d)) }
            }
            /// Returns ciphertext followed by tag. `ext` selects the growing-buffer variant.
            pub fn encrypt(self, pt: &[u8], ext: bool) -> (Self, Vec<u8>) {
                let mut v = pt.to_vec();
                match self {
                    $(St::$v(s) => {
                        if ext {
                            let s = s.encrypt_ext(&mut v);
                            (St::$next(s), v)
                        } else {
                            let (s, t) = s.encrypt(&mut v);
                            v.extend_from_slice(&t);
                            (St::$next(s), v)
                        }
                    })*
                    _ => panic!("no key or too deep"),
                }
            }
            pub fn decrypt(self, ct: &[u8], tag: &[u8]) -> Result<(Self, Vec<u8>), ()> {
                let mut v = ct.to_vec();
                match self {
                    $(St::$v(s) => s.decrypt(&mut v, Tag::<C>::clone_from_slice(tag)).map(|s| (St::$next(s), v)).map_err(|_| ()),)*
                    _ => panic!("no key or too deep"),
                }
            }
            pub fn finish<R: Rotor<C>>(self) -> (Cipher<C, R>, Vec<u8>) {
                match self {
                    St::S(s) => { let (c, h) = s.finish(); (c, h.to_vec()) }
                    $(St::$v(s) => { let (c, h) = s.finish(); (c, h.to_vec()) })*
                    St::End(s) => { let (c, h) = s.finish(); (c, h.to_vec()) }
                }
            }
        }
    };
}
states!((N0, U0, N1), (N1, U1, N2), (N2, U2, N3), (N3, U3, N4), (N4, U4, N5), (N5, U5, N6), (N6, U6, N7), (N7, U7, N8), (N8, U8, N9), (N9, U9, N10), (N10, U10, N11), (N11, U11, End));

/// Calls `$f::<C>(suite, args)` for the configuration of each suite.
#[macro_export]
macro_rules! with_suite {
    ($suite:expr, $f:ident ( $($a:expr),* )) => {{
        use $crate::model::{A, H, O};
        use byteorder::{BigEndian as B, LittleEndian as L};
        use aes_gcm::{Aes256Gcm as X, Aes128Gcm as Y};
        use chacha20poly1305::ChaCha20Poly1305 as Z;
        match ($suite.0, $suite.1, $suite.2) {
            (H::Sha512, O::Be, A::Aes256) => $f::<(sha2::Sha512, B, X)>($($a),*),
            (H::Sha256, O::Be, A::Aes256) => $f::<(sha2::Sha256, B, X)>($($a),*),
            (H::Sha256, O::Le, A::ChaCha) => $f::<(sha2::Sha256, L, Z)>($($a),*),
            (H::Sha512, O::Le, A::ChaCha) => $f::<(sha2::Sha512, L, Z)>($($a),*),
            (H::Sha3_256, O::Le, A::ChaCha) => $f::<(sha3::Sha3_256, L, Z)>($($a),*),
            (H::Sha3_512, O::Be, A::Aes128) => $f::<(sha3::Sha3_512, B, Y)>($($a),*),
            (H::Sha384, O::Le, A::Aes256) => $f::<(sha2::Sha384, L, X)>($($a),*),
            (H::Sha256, O::Be, A::ChaCha) => $f::<(sha2::Sha256, B, Z)>($($a),*),
            (H::Sha3_256, O::Be, A::Aes256) => $f::<(sha3::Sha3_256, B, X)>($($a),*),
            (H::Sha256, O::Le, A::Aes128) => $f::<(sha2::Sha256, L, Y)>($($a),*),
            (H::Sha256, O::Le, A::Spy) => $f::<(sha2::Sha256, L, $crate::spy::Spy)>($($a),*),
            (H::Sha256, O::Be, A::Spy) => $f::<(sha2::Sha256, B, $crate::spy::Spy)>($($a),*),
            other => panic!("suite {:?}", other),
        }
    }};
}

pub const SUITES: [Suite; 10] = [
    Suite(H::Sha3_256, O::Le, A::ChaCha),
    Suite(H::Sha512, O::Be, A::Aes256),
    Suite(H::Sha256, O::Be, A::Aes256),
    Suite(H::Sha256, O::Le, A::ChaCha),
    Suite(H::Sha512, O::Le, A::ChaCha),
    Suite(H::Sha3_512, O::Be, A::Aes128),
    Suite(H::Sha384, O::Le, A::Aes256),
    Suite(H::Sha256, O::Be, A::ChaCha),
    Suite(H::Sha3_256, O::Be, A::Aes256),
    Suite(H::Sha256, O::Le, A::Aes128),
];
#[allow(dead_code)]
type Unused = Spy;
