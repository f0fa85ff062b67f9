//! C01-C04: the KEM against an independent schoolbook model.
mod reference;
use mcx::{short_hex, Ctx};
use mcx::serde_json::json;
use rac::generic_array::{typenum, GenericArray};
use rac::{Concat, Line, LineValid};
use reference as m;
use std::collections::{BTreeSet, HashSet};
use vru_kyber::{Kem, Kyber};

/// The real code behind byte-level functions, one implementation per width.
trait Real: Sync + Send + 'static {
    const W: usize;
    type Pk: Clone + Send + Sync;
    type Sk: Send + Sync;
    type Ct: Send + Sync;
    fn generate(seed: &[u8]) -> (Self::Pk, Self::Sk);
    fn encapsulate(seed: &[u8], pk: &Self::Pk, h: &[u8]) -> (Self::Ct, Vec<u8>);
    fn decapsulate(sk: &Self::Sk, pk: &Self::Pk, h: &[u8], ct: &Self::Ct) -> Vec<u8>;
    fn pk_out(k: &Self::Pk) -> Vec<u8>;
    fn sk_out(k: &Self::Sk) -> Vec<u8>;
    fn ct_out(k: &Self::Ct) -> Vec<u8>;
    /// `how` 0: try_clone_array, 1: clone_array, 2: as the second half of a Concat
    fn pk_in(b: &[u8], how: u8) -> Result<Self::Pk, ()>;
    fn sk_in(b: &[u8], how: u8) -> Result<Self::Sk, ()>;
    fn ct_in(b: &[u8], how: u8) -> Result<Self::Ct, ()>;
}

fn read<T: Line>(b: &[u8], how: u8) -> Result<T, ()>
where
    T::Length: std::ops::Add<typenum::U0>,
    <T::Length as std::ops::Add<typenum::U0>>::Output: rac::generic_array::ArrayLength<u8>,
{
    match how {
        0 => T::try_clone_array(GenericArray::from_slice(b)),
        1 => Ok(T::clone_array(GenericArray::from_slice(b))),
        _ => Concat::<T, [u8; 0]>::try_clone_array(GenericArray::from_slice(b)).map(|Concat(a, _)| a),
    }
}

macro_rules! width {
    ($name:ident, $u:ty, $n:expr) => {
        struct $name;
        impl Real for $name {
            const W: usize = $n;
            type Pk = <Kyber<$u> as Kem>::PublicKey;
            type Sk = <Kyber<$u> as Kem>::SecretKey;
            type Ct = <Kyber<$u> as Kem>::CipherText;
            fn generate(seed: &[u8]) -> (Self::Pk, Self::Sk) {
                Kyber::<$u>::generate_pair(GenericArray::from_slice(seed))
            }
            fn encapsulate(seed: &[u8], pk: &Self::Pk, h: &[u8]) -> (Self::Ct, Vec<u8>) {
                let (c, s) = Kyber::<$u>::encapsulate(GenericArray::from_slice(seed), pk, GenericArray::from_slice(h));
                (c, s.to_vec())
            }
            fn decapsulate(sk: &Self::Sk, pk: &Self::Pk, h: &[u8], ct: &Self::Ct) -> Vec<u8> {
                Kyber::<$u>::decapsulate(sk, pk, GenericArray::from_slice(h), ct).to_vec()
            }
            fn pk_out(k: &Self::Pk) -> Vec<u8> {
                k.clone_line().to_vec()
            }
            fn sk_out(k: &Self::Sk) -> Vec<u8> {
                k.clone_line().to_vec()
            }
            fn ct_out(k: &Self::Ct) -> Vec<u8> {
                k.clone_line().to_vec()
            }
            fn pk_in(b: &[u8], how: u8) -> Result<Self::Pk, ()> {
                read::<Self::Pk>(b, how)
            }
            fn sk_in(b: &[u8], how: u8) -> Result<Self::Sk, ()> {
                read::<Self::Sk>(b, how)
            }
            fn ct_in(b: &[u8], how: u8) -> Result<Self::Ct, ()> {
                read::<Self::Ct>(b, how)
            }
        }
    };
}
width!(K2, typenum::U2, 2);
width!(K3, typenum::U3, 3);
width!(K4, typenum::U4, 4);

fn eq(what: &str, got: &[u8], want: &[u8]) -> Result<(), String> {
    if got == want {
        Ok(())
    } else {
        let i = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
        Err(format!("{}: got {} expected {}, first difference at byte {}", what, short_hex(got), short_hex(want), i))
    }
}

/// Seeds: boundary patterns first, then key material.
fn seeds(ctx: &Ctx, label: &str, len: usize, n: usize) -> Vec<Vec<u8>> {
    let mut v = vec![vec![0; len], vec![0xff; len]];
    v.push((0..len).map(|i| i as u8).collect());
    let mut b = ctx.bytes(label);
    while v.len() < n {
        v.push(b.vec(len));
    }
    v.truncate(n);
    v
}

fn main() {
    let ctx = Ctx::from_args();
    ctx.assume("SHA3 and SHAKE of the sha3 crate are trusted (shared by model and code)");
    bind_reference(&ctx);
    std::process::exit(ctx.decide(|| {
        match ctx.id.as_str() {
            "C01" => (c01::<K2>(&ctx), c01::<K3>(&ctx), c01::<K4>(&ctx)),
            "C02" => (c02::<K2>(&ctx), c02::<K3>(&ctx), c02::<K4>(&ctx)),
            "C03" => (c03::<K2>(&ctx), c03::<K3>(&ctx), c03::<K4>(&ctx)),
            "C04" => (c04::<K2>(&ctx), c04::<K3>(&ctx), c04::<K4>(&ctx)),
            x => panic!("unknown property {}", x),
        };
    }));
}

/// The published vectors must be instances of the model (otherwise the model is wrong: an error, not a verdict).
fn bind_reference(ctx: &Ctx) {
    let text = include_str!("../vectors.json");
    let v: mcx::serde_json::Value = mcx::serde_json::from_str(text).unwrap();
    let mut n = 0;
    for t in v.as_array().unwrap() {
        let g = |k: &str| mcx::unhex(t[k].as_str().unwrap());
        let w = t["width"].as_u64().unwrap() as usize;
        let mut seed = g("pair_seed");
        seed.extend(g("reject_secret"));
        let (sk, pk) = m::generate(w, &seed);
        let pkb = m::pk_bytes(&pk);
        let mut full = m::sk_bytes(&sk);
        full.extend(&pkb);
        assert_eq!(full, g("secret_key"), "model does not reproduce the published secret key");
        assert_eq!(pkb, g("public_key"), "model does not reproduce the published public key");
        let h = m::sha3_256(&[&pkb]);
        let p = m::prepare(w, &pk);
        let (ct, ss) = m::encapsulate(&p, &g("encapsulation_seed"), &h);
        assert_eq!(m::ct_bytes(&ct), g("cipher_text"));
        assert_eq!(ss, g("shared_secret"));
        let d = m::decapsulate(&sk, &p, &h, &ct);
        assert_eq!(d, (ss, true));
        n += 1;
    }
    // the evaluation used by the model is a ring homomorphism to the schoolbook product
    let mut b = mcx::Bytes::new(7, "ring");
    let a: Vec<u32> = (0..256).map(|_| (b.next() % 7681) as u32).collect();
    let c: Vec<u32> = (0..256).map(|_| (b.next() % 7681) as u32).collect();
    let e: Vec<u32> = m::eval(&a).iter().zip(m::eval(&c)).map(|(x, y)| x * y % m::Q).collect();
    assert_eq!(m::interpolate(&e), m::mul(&a, &c));
    ctx.note("published_vectors_replayed_on_model", json!(n));
}

// ---------------------------------------------------------------------------------------------- C01

fn c01<R: Real>(ctx: &Ctx) {
    let ks = seeds(ctx, "c01 pair", 64, ctx.tier(120, 2000));
    let es = seeds(ctx, "c01 enc", 32, ctx.tier(5, 12));
    let items: Vec<(usize, usize)> = (0..ks.len()).flat_map(|i| (0..es.len()).map(move |j| (i, j))).collect();
    ctx.par(&items, |&(i, j)| {
        let base = format!("w={} pair={} enc={}", R::W, i, j);
        let (pk, sk) = match mcx::guard(|| R::generate(&ks[i])) {
            Ok(x) => x,
            Err(e) => {
                ctx.case(&base, || Err(e));
                return;
            }
        };
        let h = m::sha3_256(&[&R::pk_out(&pk)]);
        // pk of the encapsulator, pk of the decapsulator, sk, ct: as computed / re-read once / twice / cloned
        for form in 0..3 * 3 * 2 * 2 {
            let (pe, pd, s, c) = (form % 3, form / 3 % 3, form / 9 % 2, form / 18);
            let key = format!("{} pk_enc={} pk_dec={} sk={} ct={}", base, pe, pd, s, c);
            ctx.case(&key, || {
                let pkf = |f| -> Result<R::Pk, String> {
                    Ok(match f {
                        0 => pk.clone(),
                        1 => R::pk_in(&R::pk_out(&pk), 0).map_err(|_| "pk rejected")?,
                        _ => R::pk_in(&R::pk_out(&R::pk_in(&R::pk_out(&pk), 1).map_err(|_| "pk rejected")?), 2).map_err(|_| "pk rejected")?,
                    })
                };
                let (pe, pd) = (pkf(pe)?, pkf(pd)?);
                let (ct, ss0) = R::encapsulate(&es[j], &pe, &h);
                let ct = if c == 1 { R::ct_in(&R::ct_out(&ct), 0).map_err(|_| "ct rejected")? } else { ct };
                let ss1 = if s == 1 {
                    let sk = R::sk_in(&R::sk_out(&sk), 0).map_err(|_| "sk rejected")?;
                    R::decapsulate(&sk, &pd, &h, &ct)
                } else {
                    R::decapsulate(&sk, &pd, &h, &ct)
                };
                ctx.steps(2);
                ctx.state(&(R::W, i, j, form));
                ctx.trace();
                if j == 0 && i == 3 {
                    ctx.sample(json!({"case": key, "encapsulator": mcx::hex(&ss0), "decapsulator": mcx::hex(&ss1)}));
                }
                eq("decapsulated secret", &ss1, &ss0)
            });
        }
        ctx.outcome(&format!("width {}: agreement", R::W));
    });
    ctx.note("bound", json!("per width: pair seeds x encapsulation seeds x 36 combinations of fresh/re-read objects"));
}

// ---------------------------------------------------------------------------------------------- C02

fn c02<R: Real>(ctx: &Ctx) {
    let w = R::W;
    let n_keys = ctx.tier(2, 3);
    for k in 0..n_keys {
        let mut b = ctx.bytes(&format!("c02 {} {}", w, k));
        let seed = b.vec(64);
        let (rsk, rpk) = m::generate(w, &seed);
        let pkb = m::pk_bytes(&rpk);
        let h = m::sha3_256(&[&pkb]);
        let prep = m::prepare(w, &rpk);
        let pk = R::pk_in(&pkb, 0).unwrap();
        let honest: Vec<(Vec<u8>, Vec<u8>)> = (0..3)
            .map(|_| {
                let (c, s) = m::encapsulate(&prep, &b.vec(32), &h);
                (m::ct_bytes(&c), s)
            })
            .collect();
        let len = honest[0].0.len();
        let rejects: Vec<Vec<u8>> = vec![seed[32..].to_vec(), vec![0; 32], vec![0xff; 32], {
            let mut r = seed[32..].to_vec();
            r[31] ^= 0x80;
            r
        }];
        let sks: Vec<R::Sk> = rejects
            .iter()
            .map(|r| {
                let mut s = rsk.clone();
                s.reject = r.clone();
                R::sk_in(&m::sk_bytes(&s), 0).unwrap()
            })
            .collect();
        // every honest ciphertext is accepted under every rejection secret
        for (i, (c, s)) in honest.iter().enumerate() {
            for (j, sk) in sks.iter().enumerate() {
                ctx.case(&format!("w={} key={} honest={} reject={}", w, k, i, j), || {
                    let ss = R::decapsulate(sk, &pk, &h, &R::ct_in(c, 0).map_err(|_| "ct rejected")?);
                    ctx.steps(1);
                    ctx.trace();
                    ctx.state(&(w, k, c, j));
                    eq("secret of an honest ciphertext", &ss, s)
                });
            }
        }
        // modified ciphertexts
        let mut mods: Vec<(String, Vec<u8>)> = vec![];
        let c0 = &honest[0].0;
        for bit in 0..len * 8 {
            let mut c = c0.clone();
            c[bit / 8] ^= 1 << (bit % 8);
            mods.push((format!("flip bit {}", bit), c));
        }
        // two bytes changed alike: differences that cancel in any folding of the comparison
        let dist = ctx.tier(vec![1usize, 2, 3, 4, 8, 11, 16, 32, 64, 352, len - 1], (1..len).collect());
        for d in dist {
            let stride = if ctx.thorough { (d % 7) + 1 } else { 1 };
            for i in (0..len.saturating_sub(d)).step_by(if d < 4 { 1 } else { 5 * stride }) {
                let mut c = c0.clone();
                c[i] ^= 0x55;
                c[i + d] ^= 0x55;
                mods.push((format!("xor 55 at {} and {}", i, i + d), c));
                if d < 4 {
                    let mut c = c0.clone();
                    c.swap(i, i + d);
                    mods.push((format!("swap bytes {} {}", i, i + d), c));
                }
            }
        }
        for i in 0..len {
            for (n, f) in [("zero", 0u8), ("ff", 0xff)] {
                let mut c = c0.clone();
                c[i] = f;
                mods.push((format!("byte {} {}", i, n), c));
            }
        }
        // splices of components of two honest ciphertexts, exchange and duplication of components
        for mask in 1..(1usize << (w + 1)) - 1 {
            let mut c = c0.clone();
            for p in 0..=w {
                if mask >> p & 1 == 1 {
                    let r = if p < w { p * 352..(p + 1) * 352 } else { w * 352..len };
                    c[r.clone()].copy_from_slice(&honest[1].0[r]);
                }
            }
            mods.push((format!("splice mask {}", mask), c));
        }
        for a in 0..w {
            for bb in 0..w {
                if a != bb {
                    let mut c = c0.clone();
                    c.copy_within(a * 352..(a + 1) * 352, bb * 352);
                    mods.push((format!("copy component {} to {}", a, bb), c));
                }
            }
        }
        for at in (0..len).step_by(17) {
            let mut c = c0.clone();
            c[at..].copy_from_slice(&honest[1].0[at..]);
            mods.push((format!("splice tail at {}", at), c));
            let mut c = c0.clone();
            c[at..].fill(0);
            mods.push((format!("zero tail at {}", at), c));
        }
        mods.push(("all zero".into(), vec![0; len]));
        mods.push(("all ff".into(), vec![0xff; len]));
        // an honest ciphertext for another recipient
        let (_, opk) = m::generate(w, &b.vec(64));
        let oprep = m::prepare(w, &opk);
        mods.push(("other recipient".into(), m::ct_bytes(&m::encapsulate(&oprep, &[5; 32], &h).0)));
        let all_honest: HashSet<Vec<u8>> = honest.iter().map(|x| x.0.clone()).collect();
        let seen = std::sync::Mutex::new(HashSet::new());
        ctx.par(&mods, |(name, c)| {
            if all_honest.contains(c) {
                return;
            }
            for j in 0..if name.starts_with("flip") { 2 } else { 1 } {
                ctx.case(&format!("w={} key={} {} reject={}", w, k, name, j), || {
                    let ct = R::ct_in(c, 0).map_err(|_| "ct rejected")?;
                    let ss = R::decapsulate(&sks[j], &pk, &h, &ct);
                    ctx.steps(1);
                    ctx.trace();
                    ctx.state(&(w, k, c, j));
                    let want = m::sha3_256(&[&rejects[j], &m::sha3_256(&[c])]);
                    if honest.iter().any(|x| x.1 == ss) {
                        return Err("a modified ciphertext gave an honest secret".into());
                    }
                    eq("implicit rejection secret", &ss, &want)?;
                    seen.lock().unwrap().insert(ss);
                    Ok(())
                });
            }
        });
        ctx.outcomes_n(&format!("width {} distinct rejection secrets", w), seen.lock().unwrap().len() as u64);
        ctx.sample(json!({"width": w, "ciphertext": short_hex(c0), "modifications": mods.len(), "example": mods[1234].0}));
        // a wrong recipient-key hash or a foreign public key is a rejection as well
        for (n, hh, p) in [("wrong hash", m::sha3_256(&[b"x"]), R::pk_in(&pkb, 0).unwrap()), ("foreign public key", h.clone(), R::pk_in(&m::pk_bytes(&opk), 0).unwrap())] {
            ctx.case(&format!("w={} key={} {}", w, k, n), || {
                let ss = R::decapsulate(&sks[0], &p, &hh, &R::ct_in(c0, 0).map_err(|_| "ct rejected")?);
                ctx.steps(1);
                ctx.trace();
                eq("implicit rejection secret", &ss, &m::sha3_256(&[&rejects[0], &m::sha3_256(&[c0])]))
            });
        }
    }
    ctx.note("bound", json!("every single-bit change, every byte zeroed and set, equal changes of two bytes at listed distances, component splices, for every width"));
}

// ---------------------------------------------------------------------------------------------- C03

fn c03<R: Real>(ctx: &Ctx) {
    let w = R::W;
    let n = 256 * w;
    // value of coefficient i in string k: all 2^bits values pass through every position
    let fill = |bits: u32, stride: usize, k: usize, n: usize| -> Vec<u32> { (0..n).map(|i| ((i * stride + k) & ((1 << bits) - 1)) as u32).collect() };
    let mut items: Vec<(u8, usize, usize)> = vec![];
    for k in 0..2048 {
        items.push((0, 733, k));
        items.push((1, 1301, k));
    }
    for k in 0..8192 {
        items.push((2, 2741, k));
    }
    if ctx.thorough {
        for s in [1usize, 911, 1024, 2047] {
            for k in 0..2048 {
                items.push((0, s, k));
                items.push((1, s, k));
            }
        }
        for s in [1usize, 4096, 8191] {
            for k in 0..8192 {
                items.push((2, s, k));
            }
        }
    }
    // walking value: one position differs from a constant background
    for pos in 0..8 {
        for bg in [0usize, 1] {
            for kind in 0..4u8 {
                items.push((10 + kind, pos, bg));
            }
        }
    }
    let mut b = ctx.bytes("c03");
    let tail = b.vec(32);
    let pair = b.vec(64);
    let (sk0, pk0) = m::generate(w, &pair);
    let pk0b = m::pk_bytes(&pk0);
    let sk0b = m::sk_bytes(&sk0);
    let ct0b = m::ct_bytes(&m::encapsulate(&m::prepare(w, &pk0), &[3; 32], &m::sha3_256(&[&pk0b])).0);
    let counts = std::sync::Mutex::new(BTreeSet::new());
    let one = |kind: u8, bytes: Vec<u8>, key: String, behave: bool| {
        ctx.case(&key, || {
            ctx.steps(2);
            ctx.trace();
            ctx.state(&(w, kind, &bytes));
            let how = (bytes[0] % 3) as u8;
            match kind {
                0 => {
                    let o = R::pk_in(&bytes, how).map_err(|_| "public key rejected")?;
                    let out = R::pk_out(&o);
                    eq("re-encoded public key", &out, &bytes)?;
                    eq("re-encoded clone", &R::pk_out(&o.clone()), &bytes)?;
                    if behave {
                        let o2 = R::pk_in(&out, 0).map_err(|_| "rejected")?;
                        let h = m::sha3_256(&[&out]);
                        let (c1, s1) = R::encapsulate(&[9; 32], &o, &h);
                        let (c2, s2) = R::encapsulate(&[9; 32], &o2, &h);
                        ctx.steps(2);
                        eq("ciphertext from re-read key", &R::ct_out(&c2), &R::ct_out(&c1))?;
                        eq("secret from re-read key", &s2, &s1)?;
                    }
                }
                1 => {
                    let o = R::ct_in(&bytes, how).map_err(|_| "ciphertext rejected")?;
                    let out = R::ct_out(&o);
                    eq("re-encoded ciphertext", &out, &bytes)?;
                    if behave {
                        let o2 = R::ct_in(&out, 0).map_err(|_| "rejected")?;
                        let (sk, pk) = (R::sk_in(&sk0b, 0).map_err(|_| "rejected")?, R::pk_in(&pk0b, 0).map_err(|_| "rejected")?);
                        let h = m::sha3_256(&[&pk0b]);
                        ctx.steps(2);
                        eq("secret from re-read ciphertext", &R::decapsulate(&sk, &pk, &h, &o2), &R::decapsulate(&sk, &pk, &h, &o))?;
                    }
                }
                _ => {
                    let o = R::sk_in(&bytes, how).map_err(|_| "secret key rejected")?;
                    let out = R::sk_out(&o);
                    let want = m::sk_bytes(&m::sk_parse(w, &bytes));
                    eq("re-encoded secret key", &out, &want)?;
                    if behave {
                        let o2 = R::sk_in(&out, 0).map_err(|_| "rejected")?;
                        let pk = R::pk_in(&pk0b, 0).map_err(|_| "rejected")?;
                        let h = m::sha3_256(&[&pk0b]);
                        let ct = R::ct_in(&ct0b, 0).map_err(|_| "rejected")?;
                        ctx.steps(2);
                        eq("secret from re-read secret key", &R::decapsulate(&o2, &pk, &h, &ct), &R::decapsulate(&o, &pk, &h, &ct))?;
                    }
                }
            }
            Ok(())
        });
        counts.lock().unwrap().insert(kind);
    };
    ctx.par(&items, |&(kind, a, k)| match kind {
        0 => {
            let mut s = m::pack(11, &fill(11, a, k, n));
            s.extend(&tail);
            one(0, s, format!("w={} pk stride={} k={}", w, a, k), k % 64 == 0);
        }
        1 => {
            let mut s = m::pack(11, &fill(11, a, k, n));
            s.extend(m::pack(3, &(0..256).map(|i| ((i * 5 + k + (i / 8) * (k / 8)) & 7) as u32).collect::<Vec<_>>()));
            one(1, s, format!("w={} ct stride={} k={}", w, a, k), k % 64 == 0);
        }
        2 => {
            let mut s = m::pack(13, &fill(13, a, k, n));
            s.extend(&tail);
            one(2, s, format!("w={} sk stride={} k={}", w, a, k), k % 64 == 0);
        }
        10 | 11 => {
            for v in 0..2048u32 {
                let mut c = vec![if k == 0 { 0 } else { 2047 }; n];
                for blk in 0..n / 8 {
                    c[blk * 8 + a] = v;
                }
                let mut s = m::pack(11, &c);
                s.extend(if kind == 10 { tail.clone() } else { vec![0xa5; 96] });
                one(kind - 10, s, format!("w={} {} lane={} bg={} value={}", w, if kind == 10 { "pk" } else { "ct" }, a, k, v), false);
            }
        }
        12 => {
            for v in 0..8192u32 {
                let mut c = vec![if k == 0 { 0 } else { 7680 }; n];
                for blk in 0..n / 8 {
                    c[blk * 8 + a] = v;
                }
                let mut s = m::pack(13, &c);
                s.extend(&tail);
                one(2, s, format!("w={} sk lane={} bg={} value={}", w, a, k, v), false);
            }
        }
        _ => {
            for v in 0..8u32 {
                for bg2 in 0..8u32 {
                    let mut c = vec![bg2; 256];
                    for blk in 0..32 {
                        c[blk * 8 + a] = v;
                    }
                    let mut s = m::pack(11, &fill(11, 17, k, n));
                    s.extend(m::pack(3, &c));
                    one(1, s, format!("w={} ct3 lane={} bg={} value={} other={}", w, a, k, v, bg2), true);
                }
            }
        }
    });
    // the tail bytes are carried verbatim
    for i in 0..32 {
        for bit in 0..8 {
            let mut t = tail.clone();
            t[i] ^= 1 << bit;
            let mut s = vec![0; 416 * w];
            s.extend(&t);
            one(2, s, format!("w={} sk tail bit {}", w, 8 * i + bit), false);
            let mut s = vec![0; 352 * w];
            s.extend(&t);
            one(0, s, format!("w={} pk tail bit {}", w, 8 * i + bit), false);
        }
    }
    // what generate/encapsulate computed and its re-read copy behave alike
    let ks = seeds(ctx, "c03 pair", 64, ctx.tier(12, 200));
    ctx.par(&(0..ks.len()).collect::<Vec<_>>(), |&i| {
        ctx.case(&format!("w={} computed pair={}", w, i), || {
            let (pk, sk) = R::generate(&ks[i]);
            let (pkb, skb) = (R::pk_out(&pk), R::sk_out(&sk));
            let pk1 = R::pk_in(&pkb, 1).map_err(|_| "pk rejected")?;
            let sk1 = R::sk_in(&skb, 1).map_err(|_| "sk rejected")?;
            eq("pk", &R::pk_out(&pk1), &pkb)?;
            eq("sk", &R::sk_out(&sk1), &skb)?;
            let h = m::sha3_256(&[&pkb]);
            let (c, s) = R::encapsulate(&[1; 32], &pk, &h);
            let (c1, s1) = R::encapsulate(&[1; 32], &pk1, &h);
            let cb = R::ct_out(&c);
            eq("ciphertext under the re-read public key", &R::ct_out(&c1), &cb)?;
            eq("secret under the re-read public key", &s1, &s)?;
            let c2 = R::ct_in(&cb, 1).map_err(|_| "ct rejected")?;
            eq("ct", &R::ct_out(&c2), &cb)?;
            let want = R::decapsulate(&sk, &pk, &h, &c);
            for (n, g) in [("sk", R::decapsulate(&sk1, &pk, &h, &c)), ("pk", R::decapsulate(&sk, &pk1, &h, &c)), ("ct", R::decapsulate(&sk, &pk, &h, &c2))] {
                eq(&format!("decapsulation with re-read {}", n), &g, &want)?;
            }
            // also for a ciphertext that is rejected
            let mut bad = cb.clone();
            bad[i % 7] ^= 1;
            let bad = R::ct_in(&bad, 0).map_err(|_| "ct rejected")?;
            eq("rejection with re-read sk", &R::decapsulate(&sk1, &pk1, &h, &bad), &R::decapsulate(&sk, &pk, &h, &bad))?;
            ctx.steps(12);
            ctx.trace();
            ctx.state(&(w, "pair", i));
            Ok(())
        });
    });
    ctx.outcome(&format!("width {}: {} kinds of object", w, counts.lock().unwrap().len()));
    ctx.sample(json!({"width": w, "public key string": "coefficient i = (733*i + 1000) mod 2048, packed in 11 bits", "re-encoded": "identical"}));
    ctx.note("bound", json!("all 2^11 values at every coefficient position of public keys and ciphertexts, all 2^13 of secret keys, all 2^3 of the message part; lane x value against all-low and all-high backgrounds"));
}

// ---------------------------------------------------------------------------------------------- C04

fn c04<R: Real>(ctx: &Ctx) {
    let w = R::W;
    let ks = seeds(ctx, "c04 pair", 64, ctx.tier(200, 3000));
    let cover: std::sync::Mutex<BTreeSet<u32>> = Default::default();
    ctx.par(&(0..ks.len()).collect::<Vec<_>>(), |&i| {
        ctx.case(&format!("w={} honest pair={}", w, i), || {
            let (pk, sk) = R::generate(&ks[i]);
            let (rsk, rpk) = m::generate(w, &ks[i]);
            let pkb = m::pk_bytes(&rpk);
            eq("public key", &R::pk_out(&pk), &pkb)?;
            eq("secret key", &R::sk_out(&sk), &m::sk_bytes(&rsk))?;
            let prep = m::prepare(w, &rpk);
            let h = m::sha3_256(&[&pkb]);
            let pk = R::pk_in(&pkb, 0).map_err(|_| "pk rejected")?;
            let mut b = ctx.bytes(&format!("c04 enc {}", i));
            for j in 0..4u8 {
                let (es, hh) = match j {
                    0 => (b.vec(32), h.clone()),
                    1 => (b.vec(32), b.vec(32)),
                    2 => (vec![0; 32], vec![0xff; 32]),
                    _ => (vec![0xff; 32], vec![0; 32]),
                };
                let (ct, ss) = R::encapsulate(&es, &pk, &hh);
                let (rct, rss) = m::encapsulate(&prep, &es, &hh);
                eq("ciphertext", &R::ct_out(&ct), &m::ct_bytes(&rct))?;
                eq("encapsulated secret", &ss, &rss)?;
                let (want, _) = m::decapsulate(&rsk, &prep, &hh, &rct);
                eq("decapsulated secret", &R::decapsulate(&sk, &pk, &hh, &ct), &want)?;
                ctx.steps(2);
                ctx.state(&(w, i, j));
                let c = m::sha3_512(&[&m::sha3_256(&[&es]), &hh]);
                let (_, v, _) = m::encrypt_full(&prep, &c[32..], &m::sha3_256(&[&es]));
                let mut cov = cover.lock().unwrap();
                cov.extend(v);
            }
            ctx.steps(1);
            ctx.trace();
            Ok(())
        });
    });
    ctx.note(&format!("width_{}_distinct_values_of_v_rounded_to_3_bits", w), json!(cover.lock().unwrap().len()));

    // arbitrary keys and ciphertexts
    let n = 256 * w;
    let patt = |bits: u32, p: usize| -> Vec<u32> {
        let max = (1u32 << bits) - 1;
        let mut b = ctx.bytes(&format!("c04 patt {} {}", bits, p));
        (0..n)
            .map(|i| match p {
                0 => 0,
                1 => max,
                2 => if i % 2 == 0 { 0 } else { max },
                3 => (i as u32 * 37) & max,
                4 => if i % 256 == 0 { 1 } else { 0 },
                5 => if i % 256 == 255 { max } else { 0 },
                6 => (max + 1) / 2,
                7 => if bits == 13 { 7680 } else { max - 1 },
                8 => if bits == 13 { 7681 } else { 1 },
                9 => if i % 3 == 0 { max } else { (i as u32) & max },
                _ => (b.next() as u32) & max,
            })
            .collect()
    };
    let np = ctx.tier(12, 30);
    let mut b = ctx.bytes("c04 tails");
    let tails: Vec<Vec<u8>> = vec![vec![0; 32], b.vec(32), vec![0xff; 32]];
    let items: Vec<(usize, usize, usize)> = (0..np).flat_map(|a| (0..np).flat_map(move |b| (0..3usize).map(move |c| (a, b, c)))).collect();
    ctx.par(&items, |&(a, p, t)| {
        // encapsulation to an arbitrary public key; message bits all shapes
        ctx.case(&format!("w={} crafted a={} b={} t={}", w, a, p, t), || {
            let mut pkb = m::pack(11, &patt(11, p));
            pkb.extend(&tails[t]);
            let pk = R::pk_in(&pkb, 0).map_err(|_| "pk rejected")?;
            let prep = m::prepare(w, &m::pk_parse(w, &pkb));
            let hh = m::sha3_256(&[&[a as u8]]);
            let es = [a as u8; 32];
            let (ct, ss) = R::encapsulate(&es, &pk, &hh);
            let (rct, rss) = m::encapsulate(&prep, &es, &hh);
            eq("ciphertext", &R::ct_out(&ct), &m::ct_bytes(&rct))?;
            eq("encapsulated secret", &ss, &rss)?;
            // decapsulation of an arbitrary ciphertext under an arbitrary secret key
            let mut skb = m::pack(13, &patt(13, a));
            skb.extend(&tails[(t + 1) % 3]);
            let sk = R::sk_in(&skb, 0).map_err(|_| "sk rejected")?;
            let rsk = m::sk_parse(w, &skb);
            let mut ctb = m::pack(11, &patt(11, p));
            ctb.extend(m::pack(3, &patt(3, (a + t) % np)[..256]));
            let ct2 = R::ct_in(&ctb, 0).map_err(|_| "ct rejected")?;
            eq("decapsulated secret", &R::decapsulate(&sk, &pk, &hh, &ct2), &m::decapsulate(&rsk, &prep, &hh, &m::ct_parse(w, &ctb)).0)?;
            eq("decapsulated secret", &R::decapsulate(&sk, &pk, &hh, &ct), &m::decapsulate(&rsk, &prep, &hh, &rct).0)?;
            ctx.steps(3);
            ctx.trace();
            ctx.state(&(w, "crafted", a, p, t));
            Ok(())
        });
    });

    // wide-noise keys: the decoded residues pass over the decoding thresholds
    let n_seeds = ctx.tier(24, 200);
    let hits: std::sync::Mutex<BTreeSet<u32>> = Default::default();
    let accepted = std::sync::atomic::AtomicU64::new(0);
    let rejected = std::sync::atomic::AtomicU64::new(0);
    let items: Vec<(usize, usize)> = (0..n_seeds).flat_map(|s| (0..40usize).map(move |d| (s, d))).collect();
    ctx.par(&items, |&(s, d)| {
        ctx.case(&format!("w={} wide seed={} d={}", w, s, d), || {
            let mut b = ctx.bytes(&format!("c04 wide {}", s));
            let seed = b.vec(64);
            let (rsk, mut rpk) = m::generate(w, &seed);
            // add d0 * x^pos to the public polynomial: decoding noise grows by d0 * (small noise)
            let d0 = (1920 * 2048 / 7681 / (7 - w as u32)) + 2 * d as u32 - 44;
            let d0 = if s % 2 == 0 { d0 } else { 2048 - d0 };
            rpk.b[s % w][(s * 37) % 256] = (rpk.b[s % w][(s * 37) % 256] + d0) % 2048;
            let pkb = m::pk_bytes(&rpk);
            let prep = m::prepare(w, &rpk);
            let h = m::sha3_256(&[&pkb]);
            let (ct, ss) = m::encapsulate(&prep, &b.vec(32), &h);
            let r = m::residues(&rsk, &ct);
            let (want, acc) = m::decapsulate(&rsk, &prep, &h, &ct);
            let pk = R::pk_in(&pkb, 0).map_err(|_| "pk rejected")?;
            let sk = R::sk_in(&m::sk_bytes(&rsk), 0).map_err(|_| "sk rejected")?;
            let got = R::decapsulate(&sk, &pk, &h, &R::ct_in(&m::ct_bytes(&ct), 0).map_err(|_| "ct rejected")?);
            eq(if acc { "accepted secret near the threshold" } else { "rejected secret near the threshold" }, &got, &want)?;
            let c2 = R::encapsulate(&[s as u8; 32], &pk, &h);
            eq("ciphertext to a wide-noise key", &R::ct_out(&c2.0), &m::ct_bytes(&m::encapsulate(&prep, &[s as u8; 32], &h).0))?;
            if acc {
                assert_eq!(want, ss);
                accepted.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                hits.lock().unwrap().extend(r.iter().filter(|x| [1920u32, 1921, 5760, 5761].iter().any(|t| x.abs_diff(*t) < 40)));
            } else {
                rejected.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            }
            ctx.steps(2);
            ctx.trace();
            ctx.state(&(w, "wide", s, d));
            Ok(())
        });
    });
    // chosen residues: solve for the secret key that makes the decoder see any wanted residue at any position
    let step = ctx.tier(8usize, 1);
    let ks: Vec<usize> = (0..7681).step_by(step).collect();
    let seen: std::sync::Mutex<BTreeSet<u32>> = Default::default();
    let mut b = ctx.bytes(&format!("c04 chosen {}", w));
    let (_, rpk) = m::generate(w, &b.vec(64));
    let pkb = m::pk_bytes(&rpk);
    let prep = m::prepare(w, &rpk);
    let inv: Vec<u64> = (0..m::Q as u64).map(|x| { let (mut r, mut bb, mut e) = (1u64, x, m::Q as u64 - 2); while e > 0 { if e & 1 == 1 { r = r * bb % 7681 } bb = bb * bb % 7681; e >>= 1; } r }).collect();
    ctx.par(&ks, |&k| {
        ctx.case(&format!("w={} chosen residues k={}", w, k), || {
            let r: Vec<u32> = (0..256).map(|i| ((i * 1237 + k) % 7681) as u32).collect();
            let msg = m::decode(&r);
            let slot = k / step % w;
            for t in 0..64u8 {
                let h = m::sha3_256(&[&[t]]);
                let (ct, ss) = m::encapsulate_message(&prep, &msg, &h);
                let u = m::eval(&ct.u[slot].iter().map(|x| m::decompress(11, *x)).collect::<Vec<_>>());
                if u.iter().any(|x| *x == 0) {
                    continue;
                }
                let v: Vec<u32> = ct.v.iter().map(|x| m::decompress(3, *x)).collect();
                let want = m::eval(&m::add(&r, &v));
                let mut sk = m::Sk { s: vec![vec![0; 256]; w], reject: vec![7; 32] };
                for i in 0..256 {
                    sk.s[slot][i] = (want[i] as u64 * inv[u[i] as usize] % 7681) as u32;
                }
                assert_eq!(m::residues(&sk, &ct), r);
                let got = R::decapsulate(&R::sk_in(&m::sk_bytes(&sk), 0).map_err(|_| "sk rejected")?, &R::pk_in(&pkb, 0).map_err(|_| "pk rejected")?, &h, &R::ct_in(&m::ct_bytes(&ct), 0).map_err(|_| "ct rejected")?);
                ctx.steps(1);
                ctx.trace();
                ctx.state(&(w, "chosen", k));
                seen.lock().unwrap().extend(&r);
                return eq("secret of a ciphertext decoded from chosen residues", &got, &ss);
            }
            panic!("no invertible ciphertext");
        });
    });
    ctx.note(&format!("width_{}_distinct_residues_decoded", w), json!(seen.lock().unwrap().len()));
    ctx.outcomes_n(&format!("width {} near-threshold accepted", w), accepted.into_inner());
    ctx.outcomes_n(&format!("width {} near-threshold rejected", w), rejected.into_inner());
    ctx.note(&format!("width_{}_decoded_residues_within_40_of_threshold", w), json!(hits.lock().unwrap().iter().collect::<Vec<_>>()));
    ctx.sample(json!({"width": w, "case": "pair seed 0x00.. x 4 encapsulations compared byte for byte with the schoolbook model"}));
    ctx.note("bound", json!("pair seeds x 4 encapsulations; decoder driven through all 7681 residues by solved secret keys; pattern grid of arbitrary keys and ciphertexts; wide-noise keys around the decoding threshold; all widths"));
}
