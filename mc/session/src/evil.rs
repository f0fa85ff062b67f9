//! Parties that do not follow the handshake, built on the public interface of vru-noise: they know the
//! protocol, may leave out or replace any secret they cannot compute, and never check a tag.

use crate::world::*;
use vru_noise::{ChainingKey, SymmetricState};

pub type Noise = (sha3::Sha3_256, byteorder::LittleEndian, chacha20poly1305::ChaCha20Poly1305);
pub const NAME: &str = "Noise_XX_25519+Kyber_ChaChaPoly_SHA256";

/// What is mixed in place of a secret.
#[derive(Clone, Debug)]
pub enum Secret {
    /// the true value
    True,
    Zero,
    Skip,
    /// some other value
    Wrong(Vec<u8>),
}

macro_rules! mix {
    ($st:expr, $how:expr, $true:expr) => {{
        let v: Vec<u8> = match $how {
            Secret::True => $true,
            Secret::Wrong(w) => w.clone(),
            Secret::Zero | Secret::Skip => vec![0; 32],
        };
        $st.mix_shared_secret(&v)
    }};
}

fn encrypt_len(n: usize, b: u8) -> Vec<u8> {
    (0..n).map(|i| b ^ i as u8).collect()
}

/// Message 1 with arbitrary bytes as static key and ephemeral key.
pub struct Evil1 {
    pub claim: Identity,
    pub e: Holder,
    /// bytes sent as ephemeral key (normally those of `e`)
    pub e_bytes: Vec<u8>,
    /// bytes sent as static key
    pub s_bytes: Vec<u8>,
    pub pq_seed: Vec<u8>,
}

/// The state of an evil responder after message 1: hash and chaining key live inside `SymmetricState`.
pub struct Evil1State {
    st: SymmetricState<Noise, vru_noise::Key<Noise, typenum::U1>>,
}

impl Evil1 {
    pub fn out1(&self, m0: &Pkc) -> (Evil1State, xx::Message1<B16>) {
        let peer = PublicKey::decompress(recode(m0));
        let pq = peer.encapsulate(Array::from_slice(&self.pq_seed));
        let mut p = encrypt_len(16, PAYLOADS[0]);
        let (st, tag_p) = SymmetricState::<Noise, _>::new(NAME)
            .mix_hash(self.claim.as_ref())
            .mix_hash(&m0.clone_line())
            .mix_shared_secret(&pq.ss)
            .encrypt(&mut p);
        let mut s = self.s_bytes.clone();
        let (st, tag_s) = st.mix_hash(&self.e_bytes).mix_shared_secret(&peer.dh(&self.e.sk)).encrypt(&mut s);
        let m1 = m1_join(&[
            pq.ct.clone_line().to_vec(),
            p,
            tag_p.to_vec(),
            self.e_bytes[..32].to_vec(),
            self.e_bytes[32..].to_vec(),
            s,
            tag_s.to_vec(),
        ]);
        (Evil1State { st }, m1)
    }
    /// Answers message 2 with `es`, `sc` replaced; `sk` is what the responder has as static secret.
    #[allow(clippy::too_many_arguments)]
    pub fn out3(&self, st: Evil1State, m0: &Pkc, m2: &M2, sk: &Holder, es: &Secret, sc: &Secret, ipk: &PublicKey, seed: &[u8]) -> M3 {
        let peer_e = PublicKey::decompress(recode(m0));
        let parts = m2_parts(m2);
        let ec = self.e.pk.decapsulate(&self.e.sk, &Line::clone_array(Array::from_slice(&parts[0])));
        let sc_true = || sk.pk.decapsulate(&sk.sk, &Line::clone_array(Array::from_slice(&parts[3]))).to_vec();
        let rest = Rest { parts: &parts, e: &self.e, ipk, seed };
        match es {
            Secret::Skip => rest.after_es(st.st, &ec, sc, sc_true),
            how => rest.after_es(mix!(st.st, how, peer_e.dh(&sk.sk).to_vec()), &ec, sc, sc_true),
        }
    }
}

struct Rest<'a> {
    parts: &'a [Vec<u8>],
    e: &'a Holder,
    ipk: &'a PublicKey,
    seed: &'a [u8],
}

impl Rest<'_> {
    fn after_es<K: Into<ChainingKey<Noise>>>(&self, st: SymmetricState<Noise, K>, ec: &[u8], sc: &Secret, sc_true: impl Fn() -> Vec<u8>) -> M3 {
        let st = st.mix_shared_secret(ec).mix_hash(&[&self.parts[1][..], &self.parts[2][..]].concat());
        match sc {
            Secret::Skip => self.after_sc(st),
            how => self.after_sc(mix!(st, how, sc_true())),
        }
    }
    fn after_sc<K: Into<ChainingKey<Noise>>>(&self, st: SymmetricState<Noise, K>) -> M3 {
        let parts = self.parts;
        let st = st.mix_hash(&[&parts[4][..], &parts[5][..]].concat());
        let st = st.mix_shared_secret(&self.ipk.dh(&self.e.sk)).mix_hash(&[&parts[6][..], &parts[7][..]].concat());
        let pq = self.ipk.encapsulate(Array::from_slice(self.seed));
        let mut s = encrypt_len(16, PAYLOADS[3]);
        let (_, tag) = st.mix_shared_secret(&pq.ss).encrypt(&mut s);
        m3_join(&[pq.ct.clone_line().to_vec(), s, tag.to_vec()])
    }
}

/// An initiator that presents `s_bytes` as its static key without necessarily having its secret.
pub struct Evil2 {
    pub dial: Identity,
    pub e: Holder,
    pub s_bytes: Vec<u8>,
    pub seeds: [Vec<u8>; 2],
}

impl Evil2 {
    pub fn out0(&self) -> Pkc {
        self.e.pk.compress()
    }
    /// Message 2, with the initiator's `se` secret replaced; and a function of message 3 giving its cipher.
    pub fn out2(&self, m1: &xx::Message1<B16>, rpk: &PublicKey, own: Option<&Holder>, se: &Secret) -> M2 {
        let parts = m1_parts(m1);
        let ec = self.e.pk.decapsulate(&self.e.sk, &Line::clone_array(Array::from_slice(&parts[0])));
        let pe = PublicKey::decompress(Concat(arr(&parts[3]), arr(&parts[4])));
        let st = SymmetricState::<Noise, _>::new(NAME)
            .mix_hash(self.dial.as_ref())
            .mix_hash(&self.e.pk.compress().clone_line())
            .mix_shared_secret(&ec)
            .mix_hash(&[&parts[1][..], &parts[2][..]].concat())
            .mix_hash(&[&parts[3][..], &parts[4][..]].concat())
            .mix_shared_secret(&pe.dh(&self.e.sk))
            .mix_hash(&[&parts[5][..], &parts[6][..]].concat())
            .mix_shared_secret(&rpk.dh(&self.e.sk));
        let pq1 = pe.encapsulate(Array::from_slice(&self.seeds[0]));
        let mut q = encrypt_len(16, PAYLOADS[1]);
        let (st, tq) = st.mix_shared_secret(&pq1.ss).encrypt(&mut q);
        let pq2 = rpk.encapsulate(Array::from_slice(&self.seeds[1]));
        let mut s = self.s_bytes.clone();
        let (st, ts) = st.mix_shared_secret(&pq2.ss).encrypt(&mut s);
        let mut r = encrypt_len(16, PAYLOADS[2]);
        let tr = match se {
            Secret::Skip => st.encrypt(&mut r).1,
            how => mix!(st, how, pe.dh(&own.expect("own key").sk).to_vec()).encrypt(&mut r).1,
        };
        m2_join(&[
            pq1.ct.clone_line().to_vec(), q, tq.to_vec(), pq2.ct.clone_line().to_vec(), s, ts.to_vec(), r, tr.to_vec(),
        ])
    }
}
