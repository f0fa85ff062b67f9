//! AEADs whose calls are observable.
use aead::{AeadCore, AeadInPlace, Error, NewAead};
use generic_array::typenum::{U0, U12, U16, U32};
use generic_array::GenericArray;
use std::cell::{Cell, RefCell};

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Call {
    pub enc: bool,
    pub ok: bool,
    pub key: Vec<u8>,
    pub nonce: Vec<u8>,
    pub ad: Vec<u8>,
    pub data: Vec<u8>,
}
thread_local! {
    pub static LOG: RefCell<Vec<Call>> = const { RefCell::new(vec![]) };
}
pub fn take_log() -> Vec<Call> {
    LOG.with(|l| std::mem::take(&mut *l.borrow_mut()))
}

fn tag(key: &[u8], nonce: &[u8], ad: &[u8], ct: &[u8]) -> [u8; 16] {
    let mut t = [0xcbf29ce484222325u64, 0x84222325cbf29ce4];
    for (i, p) in [key, nonce, ad, ct].iter().enumerate() {
        for v in &mut t {
            *v = (*v ^ (p.len() as u64 + 977 * i as u64)).wrapping_mul(0x100000001b3);
        }
        for b in p.iter() {
            t[0] = (t[0] ^ *b as u64).wrapping_mul(0x100000001b3);
            t[1] = (t[1].rotate_left(7) ^ *b as u64).wrapping_mul(0x9E3779B97F4A7C15);
        }
    }
    let mut o = [0; 16];
    o[..8].copy_from_slice(&t[0].to_le_bytes());
    o[8..].copy_from_slice(&t[1].to_le_bytes());
    o
}
fn pad(key: &[u8], nonce: &[u8], i: usize) -> u8 {
    key[i % key.len()].wrapping_add(nonce[i % nonce.len()]).wrapping_add(i as u8) ^ 0x5a
}
pub fn seal(key: &[u8], nonce: &[u8], ad: &[u8], pt: &[u8]) -> Vec<u8> {
    let mut v: Vec<u8> = pt.iter().enumerate().map(|(i, b)| b ^ pad(key, nonce, i)).collect();
    let t = tag(key, nonce, ad, &v);
    v.extend(t);
    v
}

#[derive(Clone, Debug)]
pub struct Spy {
    key: Vec<u8>,
}
impl AeadCore for Spy {
    type NonceSize = U12;
    type TagSize = U16;
    type CiphertextOverhead = U0;
}
impl NewAead for Spy {
    type KeySize = U32;
    fn new(key: &GenericArray<u8, U32>) -> Self {
        Spy { key: key.to_vec() }
    }
}
impl AeadInPlace for Spy {
    fn encrypt_in_place_detached(&self, nonce: &GenericArray<u8, U12>, ad: &[u8], buffer: &mut [u8]) -> Result<GenericArray<u8, U16>, Error> {
        LOG.with(|l| l.borrow_mut().push(Call { enc: true, ok: true, key: self.key.clone(), nonce: nonce.to_vec(), ad: ad.to_vec(), data: buffer.to_vec() }));
        let c = seal(&self.key, nonce, ad, buffer);
        let n = buffer.len();
        buffer.copy_from_slice(&c[..n]);
        Ok(*GenericArray::from_slice(&c[n..]))
    }
    fn decrypt_in_place_detached(&self, nonce: &GenericArray<u8, U12>, ad: &[u8], buffer: &mut [u8], t: &GenericArray<u8, U16>) -> Result<(), Error> {
        let ok = tag(&self.key, nonce, ad, buffer)[..] == t[..];
        LOG.with(|l| l.borrow_mut().push(Call { enc: false, ok, key: self.key.clone(), nonce: nonce.to_vec(), ad: ad.to_vec(), data: buffer.to_vec() }));
        if !ok {
            return Err(Error);
        }
        for (i, b) in buffer.iter_mut().enumerate() {
            *b ^= pad(&self.key, nonce, i);
        }
        Ok(())
    }
}

/// Checks in a few cycles that calls see nonces 0, 1, 2, ... in the given byte order.
#[derive(Clone, Debug)]
pub struct Counter<const BE: bool> {
    expect: Cell<u64>,
    accept: Cell<bool>,
}
thread_local! {
    /// (call index, nonce seen) of the first wrong nonce
    pub static WRONG: Cell<Option<(u64, u64)>> = const { Cell::new(None) };
}
impl<const BE: bool> Counter<BE> {
    #[inline]
    fn see(&self, nonce: &[u8]) {
        let b: [u8; 8] = nonce[4..12].try_into().unwrap();
        let v = if BE { u64::from_be_bytes(b) } else { u64::from_le_bytes(b) };
        let e = self.expect.get();
        if v != e || nonce[..4] != [0; 4] {
            WRONG.with(|w| {
                if w.get().is_none() {
                    w.set(Some((e, v)))
                }
            });
        }
    }
}
impl<const BE: bool> AeadCore for Counter<BE> {
    type NonceSize = U12;
    type TagSize = U16;
    type CiphertextOverhead = U0;
}
impl<const BE: bool> NewAead for Counter<BE> {
    type KeySize = U32;
    fn new(_: &GenericArray<u8, U32>) -> Self {
        Counter { expect: Cell::new(0), accept: Cell::new(true) }
    }
}
impl<const BE: bool> AeadInPlace for Counter<BE> {
    #[inline]
    fn encrypt_in_place_detached(&self, nonce: &GenericArray<u8, U12>, _: &[u8], _: &mut [u8]) -> Result<GenericArray<u8, U16>, Error> {
        self.see(nonce);
        self.expect.set(self.expect.get() + 1);
        Ok(GenericArray::default())
    }
    #[inline]
    fn decrypt_in_place_detached(&self, nonce: &GenericArray<u8, U12>, _: &[u8], _: &mut [u8], t: &GenericArray<u8, U16>) -> Result<(), Error> {
        self.see(nonce);
        if t[0] != 0 || !self.accept.get() {
            return Err(Error);
        }
        self.expect.set(self.expect.get() + 1);
        Ok(())
    }
}
