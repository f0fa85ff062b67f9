//! Independent model of the Noise symmetric and cipher states (Noise rev 34, sections 4 and 5).
use aead::{AeadInPlace, NewAead};
use digest::Digest;
use generic_array::GenericArray;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum H {
    Sha256,
    Sha384,
    Sha512,
    Sha3_256,
    Sha3_512,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum A {
    Aes256,
    Aes128,
    ChaCha,
    Spy,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum O {
    Le,
    Be,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub struct Suite(pub H, pub O, pub A);

impl H {
    pub fn len(self) -> usize {
        match self {
            H::Sha256 | H::Sha3_256 => 32,
            H::Sha384 => 48,
            H::Sha512 | H::Sha3_512 => 64,
        }
    }
    pub fn block(self) -> usize {
        match self {
            H::Sha256 => 64,
            H::Sha384 | H::Sha512 => 128,
            H::Sha3_256 => 136,
            H::Sha3_512 => 72,
        }
    }
    pub fn hash(self, parts: &[&[u8]]) -> Vec<u8> {
        fn go<D: Digest>(parts: &[&[u8]]) -> Vec<u8> {
            let mut d = D::new();
            for p in parts {
                d.update(p);
            }
            d.finalize().to_vec()
        }
        match self {
            H::Sha256 => go::<sha2::Sha256>(parts),
            H::Sha384 => go::<sha2::Sha384>(parts),
            H::Sha512 => go::<sha2::Sha512>(parts),
            H::Sha3_256 => go::<sha3::Sha3_256>(parts),
            H::Sha3_512 => go::<sha3::Sha3_512>(parts),
        }
    }
    pub fn hmac(self, key: &[u8], parts: &[&[u8]]) -> Vec<u8> {
        let b = self.block();
        let mut k = if key.len() > b { self.hash(&[key]) } else { key.to_vec() };
        k.resize(b, 0);
        let ipad: Vec<u8> = k.iter().map(|x| x ^ 0x36).collect();
        let opad: Vec<u8> = k.iter().map(|x| x ^ 0x5c).collect();
        let mut inner = vec![&ipad[..]];
        inner.extend(parts);
        let i = self.hash(&inner);
        self.hash(&[&opad, &i])
    }
    pub fn hkdf(self, ck: &[u8], ikm: &[u8], n: usize) -> Vec<Vec<u8>> {
        let t = self.hmac(ck, &[ikm]);
        let mut out: Vec<Vec<u8>> = vec![];
        for i in 1..=n as u8 {
            let prev = out.last().cloned().unwrap_or_default();
            out.push(self.hmac(&t, &[&prev, &[i]]));
        }
        out
    }
}

impl A {
    pub fn key_len(self) -> usize {
        if self == A::Aes128 { 16 } else { 32 }
    }
}

impl Suite {
    pub fn nonce(self, n: u64) -> [u8; 12] {
        let mut b = [0u8; 12];
        b[4..].copy_from_slice(&match self.1 {
            O::Le => n.to_le_bytes(),
            O::Be => n.to_be_bytes(),
        });
        b
    }
    pub fn seal(self, key: &[u8], n: u64, ad: &[u8], pt: &[u8]) -> Vec<u8> {
        fn go<T: NewAead + AeadInPlace>(key: &[u8], nonce: &[u8], ad: &[u8], pt: &[u8]) -> Vec<u8> {
            let mut v = pt.to_vec();
            let t = T::new(GenericArray::from_slice(key)).encrypt_in_place_detached(GenericArray::from_slice(nonce), ad, &mut v).unwrap();
            v.extend_from_slice(&t);
            v
        }
        let nonce = self.nonce(n);
        match self.2 {
            A::Aes256 => go::<aes_gcm::Aes256Gcm>(key, &nonce, ad, pt),
            A::Aes128 => go::<aes_gcm::Aes128Gcm>(key, &nonce, ad, pt),
            A::ChaCha => go::<chacha20poly1305::ChaCha20Poly1305>(key, &nonce, ad, pt),
            A::Spy => crate::spy::seal(key, &nonce, ad, pt),
        }
    }
}

#[derive(Clone)]
pub struct State {
    pub suite: Suite,
    pub ck: Vec<u8>,
    pub h: Vec<u8>,
    pub k: Option<Vec<u8>>,
    pub n: u64,
}

impl State {
    pub fn new(suite: Suite, name: &[u8]) -> State {
        let l = suite.0.len();
        let h = if name.len() <= l {
            let mut v = name.to_vec();
            v.resize(l, 0);
            v
        } else {
            suite.0.hash(&[name])
        };
        State { suite, ck: h.clone(), h, k: None, n: 0 }
    }
    pub fn mix_hash(&mut self, d: &[u8]) {
        self.h = self.suite.0.hash(&[&self.h, d]);
    }
    fn key(&mut self, k: &[u8]) {
        self.k = Some(k[..self.suite.2.key_len()].to_vec());
        self.n = 0;
    }
    pub fn mix_key(&mut self, ikm: &[u8]) {
        let o = self.suite.0.hkdf(&self.ck, ikm, 2);
        self.ck = o[0].clone();
        self.key(&o[1]);
    }
    pub fn mix_key_and_hash(&mut self, ikm: &[u8]) {
        let o = self.suite.0.hkdf(&self.ck, ikm, 3);
        self.ck = o[0].clone();
        self.mix_hash(&o[1]);
        self.key(&o[2]);
    }
    /// What EncryptAndHash would send; the state advances.
    pub fn seal(&mut self, pt: &[u8]) -> Vec<u8> {
        let c = match &self.k {
            Some(k) => {
                let c = self.suite.seal(k, self.n, &self.h, pt);
                self.n += 1;
                c
            }
            None => pt.to_vec(),
        };
        self.mix_hash(&c);
        c
    }
    pub fn split(&self) -> (Vec<u8>, Vec<u8>) {
        let o = self.suite.0.hkdf(&self.ck, &[], 2);
        let l = self.suite.2.key_len();
        (o[0][..l].to_vec(), o[1][..l].to_vec())
    }
}
