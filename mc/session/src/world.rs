//! Parties and messages, built only from the public interface of vru-session.

pub use rac::{generic_array::typenum, Array, Concat, Line, LineValid};
pub use vru_session::handshake::{xx, Identity, PublicKey, SecretKey, TrivialCipher, TrivialRotor};

pub type B16 = Array<typenum::U16>;
pub type Pkc = xx::Message0;

pub fn arr<N: rac::generic_array::ArrayLength<u8>>(b: &[u8]) -> Array<N> {
    Array::clone_from_slice(b)
}

#[derive(Clone)]
pub struct Seeds {
    /// static keys: initiator, responder
    pub s: [Vec<u8>; 2],
    /// ephemeral keys: initiator, responder
    pub e: [Vec<u8>; 2],
    /// encapsulations: initiator's two, responder's two
    pub pq: [Vec<u8>; 4],
}

impl Seeds {
    pub fn of(f: &mut dyn FnMut(usize) -> Vec<u8>) -> Self {
        Seeds { s: [f(96), f(96)], e: [f(96), f(96)], pq: [f(32), f(32), f(32), f(32)] }
    }
    pub fn derived(seed: u64, label: &str) -> Self {
        let mut b = mcx::Bytes::new(seed, label);
        Seeds::of(&mut |n| b.vec(n))
    }
}

pub struct Holder {
    pub pk: PublicKey,
    pub sk: SecretKey,
}

impl Holder {
    pub fn new(seed: &[u8]) -> Self {
        let (pk, sk) = PublicKey::gen(Array::from_slice(seed));
        Holder { pk, sk }
    }
}

pub fn bytes_of(pk: &PublicKey) -> Vec<u8> {
    pk.compress().clone_line().to_vec()
}

pub fn recode<T: Line>(t: &T) -> T {
    T::clone_array(&t.clone_line())
}

pub fn m1_parts(m: &xx::Message1<B16>) -> Vec<Vec<u8>> {
    let Concat(ct, p) = &m.0;
    vec![
        ct.clone_line().to_vec(), p.0.to_vec(), p.1.to_vec(), m.1 .0.to_vec(), m.1 .1.to_vec(), m.2 .0.to_vec(), m.2 .1.to_vec(),
    ]
}
pub fn m1_join(p: &[Vec<u8>]) -> xx::Message1<B16> {
    (
        Concat(Line::clone_array(Array::from_slice(&p[0])), Concat(arr(&p[1]), arr(&p[2]))),
        Concat(arr(&p[3]), arr(&p[4])),
        Concat(arr(&p[5]), arr(&p[6])),
    )
}
pub type M2 = xx::Message2<B16, B16>;
pub fn m2_parts(m: &M2) -> Vec<Vec<u8>> {
    let Concat(ct, q) = &m.0;
    let Concat(spk, r) = &m.2;
    vec![
        ct.clone_line().to_vec(), q.0.to_vec(), q.1.to_vec(), m.1.clone_line().to_vec(), spk.0.to_vec(), spk.1.to_vec(), r.0.to_vec(), r.1.to_vec(),
    ]
}
pub fn m2_join(p: &[Vec<u8>]) -> M2 {
    (
        Concat(Line::clone_array(Array::from_slice(&p[0])), Concat(arr(&p[1]), arr(&p[2]))),
        Line::clone_array(Array::from_slice(&p[3])),
        Concat(Concat(arr(&p[4]), arr(&p[5])), Concat(arr(&p[6]), arr(&p[7]))),
    )
}
pub type M3 = xx::Message3<B16>;
pub fn m3_parts(m: &M3) -> Vec<Vec<u8>> {
    let Concat(ct, s) = m;
    vec![ct.clone_line().to_vec(), s.0.to_vec(), s.1.to_vec()]
}
pub fn m3_join(p: &[Vec<u8>]) -> M3 {
    Concat(Line::clone_array(Array::from_slice(&p[0])), Concat(arr(&p[1]), arr(&p[2])))
}
pub fn m0_parts(m: &Pkc) -> Vec<Vec<u8>> {
    vec![m.0.to_vec(), m.1.to_vec()]
}
pub fn m0_join(p: &[Vec<u8>]) -> Pkc {
    Concat(arr(&p[0]), arr(&p[1]))
}

pub const PAYLOADS: [u8; 4] = [0x03, 0x13, 0x23, 0x33];
pub fn payload(i: usize) -> B16 {
    let mut a = B16::default();
    for (j, x) in a.iter_mut().enumerate() {
        *x = PAYLOADS[i] ^ j as u8;
    }
    a
}

/// One session with 16-byte payloads, run step by step; every step may be given a foreign message.
pub struct Session {
    pub seeds: Seeds,
    pub i: Holder,
    pub r: Holder,
    /// identity the initiator dials
    pub dial: Identity,
    /// identity the responder claims
    pub claim: Identity,
}

pub struct Done {
    pub cipher: TrivialCipher,
    pub hash: Vec<u8>,
    pub peer: Vec<u8>,
    pub payloads: Vec<Vec<u8>>,
}

impl Session {
    pub fn honest(seeds: Seeds) -> Self {
        let i = Holder::new(&seeds.s[0]);
        let r = Holder::new(&seeds.s[1]);
        let id = r.pk.identity();
        Session { i, r, dial: id.clone(), claim: id, seeds }
    }
    pub fn out0(&self) -> (xx::InitiatorsEphemeral, Pkc) {
        xx::out0(Array::from_slice(&self.seeds.e[0]), &self.dial)
    }
    pub fn out1(&self, m0: Pkc) -> (xx::RespondersEphemeral, xx::Message1<B16>) {
        let seed = Concat(arr(&self.seeds.e[1]), arr(&self.seeds.pq[2]));
        xx::take0_out1(&seed, &self.claim, &self.r.pk, &self.r.sk, m0, payload(0))
    }
    #[allow(clippy::type_complexity)]
    pub fn out2(&self, st: xx::InitiatorsEphemeral, m1: xx::Message1<B16>) -> Result<(xx::InitiatorsFinal, PublicKey, B16, M2), String> {
        let seed = Concat(arr(&self.seeds.pq[0]), arr(&self.seeds.pq[1]));
        xx::take1_out2(&seed, st, &self.i.pk, &self.i.sk, m1, payload(1), payload(2)).map_err(|e| e.to_string())
    }
    pub fn out3(&self, st: xx::RespondersEphemeral, m2: M2) -> Result<(Done, M3), String> {
        let (cipher, hash, pk, q, r, m3) =
            xx::take2_out3::<B16, B16, B16, TrivialRotor>(Array::from_slice(&self.seeds.pq[3]), st, &self.r.pk, &self.r.sk, m2, payload(3))
                .map_err(|e| e.to_string())?;
        Ok((Done { cipher, hash: hash.to_vec(), peer: bytes_of(&pk), payloads: vec![q.to_vec(), r.to_vec()] }, m3))
    }
    pub fn end(&self, st: xx::InitiatorsFinal, m3: M3) -> Result<Done, String> {
        let (cipher, hash, s) = xx::take_3::<B16, TrivialRotor>(st, &self.i.pk, &self.i.sk, m3).map_err(|e| e.to_string())?;
        Ok(Done { cipher, hash: hash.to_vec(), peer: vec![], payloads: vec![s.to_vec()] })
    }
    /// the whole honest exchange; the initiator's and the responder's view
    pub fn run(&self) -> Result<(Done, Done, [Vec<Vec<u8>>; 4]), String> {
        let (si, m0) = self.out0();
        let w0 = m0_parts(&m0);
        let (sr, m1) = self.out1(m0);
        let w1 = m1_parts(&m1);
        let (si, pk, p, m2) = self.out2(si, m1).map_err(|e| format!("initiator refused message 1: {}", e))?;
        let w2 = m2_parts(&m2);
        let (dr, m3) = self.out3(sr, m2).map_err(|e| format!("responder refused message 2: {}", e))?;
        let w3 = m3_parts(&m3);
        let mut di = self.end(si, m3).map_err(|e| format!("initiator refused message 3: {}", e))?;
        di.peer = bytes_of(&pk);
        di.payloads.insert(0, p.to_vec());
        Ok((di, dr, [w0, w1, w2, w3]))
    }
}

/// both directions, both parties
pub fn talk(a: &mut TrivialCipher, b: &mut TrivialCipher) -> Result<(), String> {
    for n in 0..3u8 {
        for (x, y, d) in [(0, 1, "initiator to responder"), (1, 0, "responder to initiator")] {
            let _ = (x, y);
            let text = vec![n, d.len() as u8, 7, 7];
            let mut m = text.clone();
            let (s, r) = if x == 0 { (&mut *a, &mut *b) } else { (&mut *b, &mut *a) };
            s.encrypt_ext(b"vru", &mut m);
            if m.len() != 20 || m[..4] == text[..] {
                return Err(format!("{}: message not encrypted", d));
            }
            r.decrypt_ext(b"vru", &mut m).map_err(|_| format!("{}: message {} refused", d, n))?;
            if m != text {
                return Err(format!("{}: message {} changed", d, n));
            }
        }
    }
    Ok(())
}

pub fn agree(s: &Session, i: &mut Done, r: &mut Done) -> Result<(), String> {
    if i.hash != r.hash {
        return Err("session hashes differ".into());
    }
    if i.peer != bytes_of(&s.r.pk) {
        return Err("initiator reports a key the responder does not have".into());
    }
    if r.peer != bytes_of(&s.i.pk) {
        return Err("responder reports a key the initiator does not have".into());
    }
    if i.payloads != [payload(0).to_vec(), payload(3).to_vec()] {
        return Err("initiator got wrong payloads".into());
    }
    if r.payloads != [payload(1).to_vec(), payload(2).to_vec()] {
        return Err("responder got wrong payloads".into());
    }
    talk(&mut i.cipher, &mut r.cipher)
}
