//! Interpreter of Noise handshake patterns, run on the model and on the real state with the published vectors.
use crate::model::{State, Suite, A, H, O};
use crate::real::St;
use curve25519_dalek::montgomery::MontgomeryPoint;
use curve25519_dalek::scalar::Scalar;
use mcx::serde_json::{self, json, Value};
use mcx::Ctx;
use std::marker::PhantomData;
use vru_noise::Config;

const PATTERNS: &[(&str, &str, &[&str])] = &[
    ("N", "<s", &["e es"]),
    ("K", ">s <s", &["e es ss"]),
    ("X", "<s", &["e es s ss"]),
    ("NN", "", &["e", "e ee"]),
    ("NK", "<s", &["e es", "e ee"]),
    ("NX", "", &["e", "e ee s es"]),
    ("XN", "", &["e", "e ee", "s se"]),
    ("XK", "<s", &["e es", "e ee", "s se"]),
    ("XX", "", &["e", "e ee s es", "s se"]),
    ("KN", ">s", &["e", "e ee se"]),
    ("KK", ">s <s", &["e es ss", "e ee se"]),
    ("KX", ">s", &["e", "e ee se s es"]),
    ("IN", "", &["e s", "e ee se"]),
    ("IK", "<s", &["e es s ss", "e ee se"]),
    ("IX", "", &["e s", "e ee se s es"]),
];

trait Sym: Sized {
    fn mix_hash(self, d: &[u8]) -> Self;
    fn mix_key(self, d: &[u8]) -> Self;
    fn mix_psk(self, d: &[u8]) -> Self;
    fn seal(self, d: &[u8], keyed: bool) -> (Self, Vec<u8>);
    /// hash, then transport messages in the order initiator, responder, ...
    fn end(self, payloads: &[Vec<u8>], first_is_initiator: bool, one_way: bool) -> (Vec<u8>, Vec<Vec<u8>>);
}

impl Sym for State {
    fn mix_hash(mut self, d: &[u8]) -> Self {
        State::mix_hash(&mut self, d);
        self
    }
    fn mix_key(mut self, d: &[u8]) -> Self {
        State::mix_key(&mut self, d);
        self
    }
    fn mix_psk(mut self, d: &[u8]) -> Self {
        self.mix_key_and_hash(d);
        self
    }
    fn seal(mut self, d: &[u8], _keyed: bool) -> (Self, Vec<u8>) {
        let c = State::seal(&mut self, d);
        (self, c)
    }
    fn end(self, payloads: &[Vec<u8>], first: bool, one_way: bool) -> (Vec<u8>, Vec<Vec<u8>>) {
        let (k1, k2) = self.split();
        let mut n = [0u64; 2];
        let mut out = vec![];
        for (i, p) in payloads.iter().enumerate() {
            let init = one_way || (i % 2 == 0) == first;
            let d = if init { 0 } else { 1 };
            out.push(self.suite.seal(if init { &k1 } else { &k2 }, n[d], b"", p));
            n[d] += 1;
        }
        (self.h, out)
    }
}

impl<C: Config> Sym for St<C> {
    fn mix_hash(self, d: &[u8]) -> Self {
        St::mix_hash(self, d)
    }
    fn mix_key(self, d: &[u8]) -> Self {
        self.mix_ss(d)
    }
    fn mix_psk(self, d: &[u8]) -> Self {
        St::mix_psk(self, d)
    }
    fn seal(self, d: &[u8], keyed: bool) -> (Self, Vec<u8>) {
        if keyed {
            self.encrypt(d, true)
        } else {
            (St::mix_hash(self, d), d.to_vec())
        }
    }
    fn end(self, payloads: &[Vec<u8>], first: bool, one_way: bool) -> (Vec<u8>, Vec<Vec<u8>>) {
        let (mut c, h) = self.finish::<PhantomData<C>>();
        let mut out = vec![];
        for (i, p) in payloads.iter().enumerate() {
            let init = one_way || (i % 2 == 0) == first;
            let mut b = p.clone();
            if !init {
                c = c.swap();
            }
            c.encrypt_ext(b"", &mut b);
            if !init {
                c = c.swap();
            }
            out.push(b);
        }
        (h, out)
    }
}

fn x25519(secret: &[u8], public: &[u8]) -> Vec<u8> {
    let mut s: [u8; 32] = secret.try_into().unwrap();
    s[0] &= 248;
    s[31] &= 127;
    s[31] |= 64;
    (MontgomeryPoint(public.try_into().unwrap()) * Scalar::from_bits(s)).to_bytes().to_vec()
}
fn base(secret: &[u8]) -> Vec<u8> {
    let mut b = [0u8; 32];
    b[0] = 9;
    x25519(secret, &b)
}

fn drive<S: Sym>(v: &Value, s: S) -> Result<usize, String> {
    let g = |k: &str| v[k].as_str().map(mcx::unhex);
    let name = v["protocol_name"].as_str().unwrap();
    let pat = name.split('_').nth(1).unwrap();
    let (pb, psk) = match pat.find("psk") {
        Some(i) => (&pat[..i], Some(pat[i + 3..].parse::<usize>().unwrap())),
        None => (pat, None),
    };
    let (_, pre, msgs) = PATTERNS.iter().find(|p| p.0 == pb).unwrap();
    let psks: Vec<Vec<u8>> = v["init_psks"].as_array().map(|a| a.iter().map(|x| mcx::unhex(x.as_str().unwrap())).collect()).unwrap_or_default();
    // secrets: [initiator, responder]
    let e = [g("init_ephemeral"), g("resp_ephemeral")];
    let st = [g("init_static"), g("resp_static")];
    let rs = [g("resp_remote_static"), g("init_remote_static")]; // public keys known in advance of [initiator, responder]
    let pub_s = |i: usize| -> Vec<u8> { st[i].as_ref().map(|k| base(k)).or_else(|| rs[i].clone()).unwrap() };
    let mut s = s.mix_hash(&g("init_prologue").unwrap());
    for p in pre.split_whitespace() {
        s = s.mix_hash(&pub_s(if &p[..1] == ">" { 0 } else { 1 }));
    }
    let mut keyed = false;
    let list = v["messages"].as_array().unwrap();
    for (i, m) in msgs.iter().enumerate() {
        let who = i % 2;
        let mut out = vec![];
        let mut toks: Vec<&str> = m.split(' ').collect();
        if psk == Some(0) && i == 0 {
            toks.insert(0, "psk");
        } else if psk == Some(i + 1) {
            toks.push("psk");
        }
        for t in toks {
            match t {
                "e" => {
                    let p = base(e[who].as_ref().unwrap());
                    s = s.mix_hash(&p);
                    if psk.is_some() {
                        s = s.mix_key(&p);
                        keyed = true;
                    }
                    out.extend(p);
                }
                "s" => {
                    let (n, c) = s.seal(&pub_s(who), keyed);
                    s = n;
                    out.extend(c);
                }
                "psk" => {
                    s = s.mix_psk(&psks[0]);
                    keyed = true;
                }
                dh => {
                    // first letter: initiator's key, second: responder's
                    let key = |c: u8, i: usize| if c == b'e' { e[i].clone() } else { st[i].clone() };
                    let (a, b) = (dh.as_bytes()[0], dh.as_bytes()[1]);
                    let public = |c: u8, i: usize| if c == b'e' { base(e[i].as_ref().unwrap()) } else { pub_s(i) };
                    let z = match key(a, 0) {
                        Some(k) => x25519(&k, &public(b, 1)),
                        None => x25519(&key(b, 1).unwrap(), &public(a, 0)),
                    };
                    s = s.mix_key(&z);
                    keyed = true;
                }
            }
        }
        let (n, c) = s.seal(&mcx::unhex(list[i]["payload"].as_str().unwrap()), keyed);
        s = n;
        out.extend(c);
        if mcx::hex(&out) != list[i]["ciphertext"].as_str().unwrap() {
            return Err(format!("{}: handshake message {} differs", name, i));
        }
    }
    let rest: Vec<Vec<u8>> = list[msgs.len()..].iter().map(|m| mcx::unhex(m["payload"].as_str().unwrap())).collect();
    let (h, cts) = s.end(&rest, msgs.len() % 2 == 0, msgs.len() == 1);
    if mcx::hex(&h) != v["handshake_hash"].as_str().unwrap() {
        return Err(format!("{}: handshake hash differs", name));
    }
    for (i, c) in cts.iter().enumerate() {
        if mcx::hex(c) != list[msgs.len() + i]["ciphertext"].as_str().unwrap() {
            return Err(format!("{}: transport message {} differs", name, i));
        }
    }
    Ok(list.len())
}

fn suite_of(name: &str) -> Suite {
    let h = if name.ends_with("SHA512") { H::Sha512 } else { H::Sha256 };
    if name.contains("AESGCM") {
        Suite(h, O::Be, A::Aes256)
    } else {
        Suite(h, O::Le, A::ChaCha)
    }
}

fn all() -> Vec<Value> {
    serde_json::from_str(include_str!("../vectors.json")).unwrap()
}

/// The model must reproduce every published vector, otherwise nothing it says counts.
pub fn bind_model(ctx: &Ctx) {
    let mut n = 0;
    for v in all() {
        let name = v["protocol_name"].as_str().unwrap();
        let r = drive(&v, State::new(suite_of(name), name.as_bytes()));
        assert!(r.is_ok(), "the model does not reproduce a published vector: {:?}", r);
        n += 1;
    }
    ctx.note("published_vectors_replayed_on_model", json!(n));
}

pub fn replay(ctx: &Ctx) {
    let mut n = 0;
    for v in all() {
        let name = v["protocol_name"].as_str().unwrap().to_string();
        let suite = suite_of(&name);
        ctx.case(&format!("vector {}", name), || {
            fn go<C: Config>(v: &Value, name: &str) -> Result<usize, String> {
                drive(v, St::<C>::new(name))
            }
            let m = with_suite!(suite, go(&v, &name))?;
            ctx.steps(m as u64);
            ctx.trace();
            Ok(())
        });
        n += 1;
    }
    ctx.note("published_vectors_replayed_on_code", json!(n));
}
