#![allow(deprecated)]
mod num;

use curve25519_dalek::{edwards::EdwardsPoint, montgomery::MontgomeryPoint, scalar::Scalar as S25};
use mcx::Ctx;
use num::*;
use rac::generic_array::GenericArray;
use rac::{Array, Curve, LineValid, Scalar, Schnorr, Signature};
use secp256k1::{PublicKey as Psec, SecretKey as Ssec, Signature as SigSec};

fn main() {
    let ctx = Ctx::from_args();
    std::process::exit(ctx.decide(|| {
        match ctx.id.as_str() {
            "C16" => c16(&ctx),
            "C17" => c17(&ctx),
            x => panic!("unknown property {}", x),
        }
    }));
}

fn a<N: rac::generic_array::ArrayLength<u8>>(b: &[u8]) -> Array<N> {
    GenericArray::clone_from_slice(b)
}

// ---------------------------------------------------------------- C16

type Sig = Schnorr<EdwardsPoint, sha3::Sha3_256>;
type Sig2 = Schnorr<EdwardsPoint, sha2::Sha256>;

fn c16(ctx: &Ctx) {
    ctx.assume("SHA3, SHA2 and curve25519-dalek are trusted; secp256k1 has no signature here because its scalars offer no subtraction");
    let mut b = ctx.bytes("c16");
    let mut scalars: Vec<(String, S25)> = vec![];
    let n = ctx.tier(10, 24);
    for k in 0..n {
        scalars.push((format!("clamped {}", k), S25::try_clone_array(&a(&b.vec(32))).unwrap()));
    }
    for (name, v) in [("zeros", [0u8; 32]), ("ones", [0xff; 32]), ("5a", [0x5a; 32])] {
        scalars.push((format!("clamped {}", name), S25::try_clone_array(&a(&v)).unwrap()));
    }
    for k in [1u64, 2, 3, 8, 255, 256] {
        scalars.push((format!("{}", k), S25::from(k)));
        scalars.push((format!("-{}", k), -S25::from(k)));
    }
    for bit in [64, 128, 200, 251] {
        let mut x = [0; 32];
        x[bit / 8] = 1 << (bit % 8);
        scalars.push((format!("2^{}", bit), S25::from_canonical_bytes(x).unwrap()));
    }
    let msgs: Vec<Vec<u8>> = (0..=ctx.tier(130, 300)).map(|n| ctx.bytes(&format!("c16/m{}", n)).vec(n)).collect();

    fn encode_decode<D>(s: &Schnorr<EdwardsPoint, D>) -> Result<Schnorr<EdwardsPoint, D>, String>
    where
        D: Default + sha3::digest::Update + sha3::digest::FixedOutput<OutputSize = rac::generic_array::typenum::U32>,
    {
        Schnorr::try_clone_array(&s.clone_line()).map_err(|_| "an encoded signature cannot be read back".to_string())
    }
    // every key with every nonce, direct and encoded, under the right key and every other key
    let mut jobs = vec![];
    for d in 0..scalars.len() {
        for k in 0..scalars.len() {
            jobs.push((d, k));
        }
    }
    ctx.par(&jobs, |&(d, k)| {
        ctx.case(&format!("key {} nonce {}", scalars[d].0, scalars[k].0), || {
            let sk = &scalars[d].1;
            let pk = EdwardsPoint::base().exp_ec(sk);
            let m = &msgs[(d * 7 + k) % msgs.len()];
            let s = Sig::sign(sk, m, &scalars[k].1).map_err(|_| "signing failed")?;
            s.verify(&pk, m).map_err(|_| "fresh signature refused")?;
            let t = encode_decode(&s)?;
            if t.clone_line() != s.clone_line() {
                return Err("encoding changed by reading it back".into());
            }
            t.verify(&pk, m).map_err(|_| "signature refused after it was encoded and decoded")?;
            let s2 = Sig2::sign(sk, m, &scalars[k].1).map_err(|_| "signing failed")?;
            encode_decode(&s2)?.verify(&pk, m).map_err(|_| "SHA-256 signature refused after it was encoded and decoded")?;
            for (o, x) in scalars.iter().enumerate() {
                // the same key modulo the group order is the same key
                let opk = EdwardsPoint::base().exp_ec(&x.1);
                if o == d || opk == pk {
                    continue;
                }
                if t.verify(&opk, m).is_ok() {
                    return Err(format!("verifies under the key {}", x.0));
                }
            }
            ctx.state(&(d, k));
            ctx.steps(6 + scalars.len() as u64);
            ctx.trace();
            Ok(())
        });
    });
    ctx.outcomes_n("verifies for its key only", jobs.len() as u64);
    // message lengths and every bit of the message
    ctx.par(&msgs, |m| {
        for d in [0usize, 1, 3] {
            ctx.case(&format!("message of {} bytes, key {}", m.len(), scalars[d].0), || {
                let sk = &scalars[d].1;
                let pk = EdwardsPoint::base().exp_ec(sk);
                let s = encode_decode(&Sig::sign(sk, m, &scalars[d + 1].1).map_err(|_| "signing failed")?)?;
                s.verify(&pk, m).map_err(|_| "refused")?;
                for bit in 0..m.len() * 8 {
                    let mut x = m.clone();
                    x[bit / 8] ^= 1 << (bit % 8);
                    if s.verify(&pk, &x).is_ok() {
                        return Err(format!("verifies for the message with bit {} changed", bit));
                    }
                }
                for (what, x) in [
                    ("one byte more", [&m[..], &[0]].concat()),
                    ("one byte before", [&[0], &m[..]].concat()),
                    ("last byte removed", m[..m.len().saturating_sub(1)].to_vec()),
                    ("first byte removed", m.get(1..).unwrap_or(&[]).to_vec()),
                    ("doubled", [&m[..], &m[..]].concat()),
                ] {
                    if x != *m && s.verify(&pk, &x).is_ok() {
                        return Err(format!("verifies for the message with {}", what));
                    }
                }
                ctx.steps(7 + m.len() as u64 * 8);
                ctx.trace();
                ctx.state(&("len", m.len(), d));
                Ok(())
            });
        }
    });
    ctx.outcomes_n("changed message refused", msgs.len() as u64);
    // messages far longer than a block of the hash, changed at either end and around powers of two
    let longs = ctx.tier(&[1000usize, 4097, 65537, (1 << 20) + 5][..], &[1000, 4097, 65537, (1 << 20) + 5, (1 << 24) + 5][..]);
    ctx.par(longs, |&n| {
        ctx.case(&format!("long message of {} bytes", n), || {
            let (sk, k) = (&scalars[2].1, &scalars[5].1);
            let pk = EdwardsPoint::base().exp_ec(sk);
            let mut m: Vec<u8> = (0..n).map(|i| (i * 7 + i / 251) as u8).collect();
            let s = encode_decode(&Sig::sign(sk, &m, k).map_err(|_| "signing failed")?)?;
            s.verify(&pk, &m).map_err(|_| "refused")?;
            let mut places = vec![0, 1, n / 2, n - 2, n - 1];
            for b in 6..25 {
                places.extend([(1usize << b) - 1, 1 << b]);
            }
            for p in places.into_iter().filter(|p| *p < n) {
                m[p] ^= 1;
                if s.verify(&pk, &m).is_ok() {
                    return Err(format!("verifies for the message with byte {} changed", p));
                }
                m[p] ^= 1;
                ctx.steps(1);
            }
            if s.verify(&pk, &m[..n - 1].to_vec()).is_ok() || s.verify(&pk, &[&m[..], &[0]].concat()).is_ok() {
                return Err("verifies for the message with a byte less or more".into());
            }
            ctx.trace();
            ctx.state(&("long", n));
            Ok(())
        });
    });
    ctx.outcomes_n("changed long message refused", longs.len() as u64);
    // every bit of the encoded signature, its halves, and other representatives of the same scalar
    let mut jobs = vec![];
    for d in 0..ctx.tier(8, scalars.len()) {
        for k in 0..ctx.tier(5, 10) {
            jobs.push((d, (d + k + 1) % scalars.len()));
        }
    }
    ctx.par(&jobs, |&(d, k)| {
        ctx.case(&format!("changed encodings, key {} nonce {}", scalars[d].0, scalars[k].0), || {
            let sk = &scalars[d].1;
            let pk = EdwardsPoint::base().exp_ec(sk);
            let m = &msgs[13];
            let s = Sig::sign(sk, m, &scalars[k].1).map_err(|_| "signing failed")?;
            let raw = s.clone_line();
            let try_raw = |x: &[u8], what: String| -> Result<(), String> {
                ctx.steps(1);
                if x[..] == raw[..] {
                    return Ok(());
                }
                match Sig::try_clone_array(&a(x)) {
                    Ok(t) if t.verify(&pk, m).is_ok() => Err(format!("a signature with {} verifies", what)),
                    _ => Ok(()),
                }
            };
            for bit in 0..512 {
                let mut x = raw.to_vec();
                x[bit / 8] ^= 1 << (bit % 8);
                try_raw(&x, format!("bit {} changed", bit))?;
            }
            let l = l25519();
            let sn = N::le(&raw[32..]);
            let mut y = sn;
            for n in 1..=8 {
                let (v, over) = y.adc(l.0);
                if over {
                    break;
                }
                y = v;
                try_raw(&[&raw[..32], &y.to_le()[..]].concat(), format!("its scalar increased by {} times the group order", n))?;
            }
            // what the decoder for secret keys would make of the scalar
            let mut c = raw.to_vec();
            c[32] &= 248;
            c[63] = c[63] & 127 | 64;
            try_raw(&c, "a clamped scalar".into())?;
            try_raw(&[&raw[32..], &raw[..32]].concat(), "halves exchanged".into())?;
            try_raw(&[&raw[..32], &l.neg(l.reduce(sn)).to_le()[..]].concat(), "the scalar negated".into())?;
            try_raw(&[&raw[..32], &[0; 32][..]].concat(), "a zero scalar".into())?;
            try_raw(&[0; 64], "all zeros".into())?;
            try_raw(&[0xff; 64], "all ones".into())?;
            ctx.trace();
            ctx.state(&("enc", d, k));
            Ok(())
        });
    });
    ctx.outcomes_n("changed signature refused", jobs.len() as u64);
    // A pair made by the key's own holder that satisfies the verification equation except in one bit of the commitment:
    // the scalar fits the changed commitment, so only comparing all of it tells the difference.
    ctx.par(&jobs, |&(d, k)| {
        ctx.case(&format!("near misses, key {} nonce {}", scalars[d].0, scalars[k].0), || {
            let sk = &scalars[d].1;
            let pk = EdwardsPoint::base().exp_ec(sk);
            let m = &msgs[21];
            let r = EdwardsPoint::base().exp_ec(&scalars[k].1).x_coordinate();
            let make = |r: &[u8]| -> Result<bool, String> {
                use sha3::Digest;
                let h: Array<rac::generic_array::typenum::U32> = a(&sha3::Sha3_256::default().chain(r).chain(m).finalize());
                let h = S25::try_clone_array(&h).map_err(|_| "hash is no scalar")?;
                let s = scalars[k].1.reduce() - sk.reduce() * h.reduce();
                match Sig::try_clone_array(&a(&[r, &s.to_bytes()[..]].concat())) {
                    Ok(t) => Ok(t.verify(&pk, m).is_ok()),
                    Err(()) => Ok(false),
                }
            };
            ctx.outcome(if make(&r)? { "pair satisfying the equation accepted" } else { "pair satisfying the equation refused" });
            for bit in 0..256 {
                let mut x = r.to_vec();
                x[bit / 8] ^= 1 << (bit % 8);
                if make(&x)? {
                    return Err(format!("a pair that misses the equation in bit {} of the commitment verifies", bit));
                }
            }
            ctx.steps(257);
            ctx.trace();
            ctx.state(&("near", d, k));
            Ok(())
        });
    });
    ctx.note("bound", mcx::serde_json::json!({"keys": scalars.len(), "nonces": scalars.len(), "message lengths": msgs.len(), "signatures with every bit changed": jobs.len()}));
    ctx.sample(mcx::serde_json::json!({"case": "key -3 nonce clamped 2, encoded and decoded, each of 512 bits changed", "observed": "verify"}));
}

// ---------------------------------------------------------------- C17

fn c17(ctx: &Ctx) {
    ctx.assume("inverse of scalars, subtraction of secp256k1 scalars and addition of Curve25519 points are declared unimplemented and not checked; the neutral element has no secp256k1 encoding");
    c17_scalars25(ctx);
    c17_edwards(ctx);
    c17_montgomery(ctx);
    c17_secp(ctx);
    ctx.note("bound", mcx::serde_json::json!("all ordered pairs of the scalar sets, all triples of a smaller set, all single-bit changes of encodings, boundary values of every encoding"));
    ctx.sample(mcx::serde_json::json!({"case": "Edwards (L-1)B + 2B", "oracle": "affine curve arithmetic on 256-bit integers"}));
}

fn set25(ctx: &Ctx) -> Vec<(String, N)> {
    let l = l25519();
    let mut v = vec![];
    for k in 0..10u64 {
        v.push((format!("{}", k), N::small(k)));
        v.push((format!("L-{}", k + 1), l.0.sub(N::small(k + 1))));
    }
    for bit in [31, 32, 63, 64, 127, 128, 200, 250, 251] {
        let mut x = [0u64; 4];
        x[bit / 64] = 1 << (bit % 64);
        v.push((format!("2^{}", bit), N(x)));
        v.push((format!("2^{}-1", bit), N(x).sub(ONE)));
    }
    let mut b = ctx.bytes("c17/s25");
    for k in 0..ctx.tier(8, 24) {
        let mut x = b.vec(32);
        x[31] &= 0x0f;
        v.push((format!("derived {}", k), l.reduce(N::le(&x))));
    }
    v
}
fn s25(n: N) -> S25 {
    S25::from_canonical_bytes(n.to_le()).expect("canonical")
}

fn c17_scalars25(ctx: &Ctx) {
    let l = l25519();
    let set = set25(ctx);
    let mut jobs = vec![];
    for x in 0..set.len() {
        for y in 0..set.len() {
            jobs.push((x, y));
        }
    }
    ctx.par(&jobs, |&(x, y)| {
        ctx.case(&format!("25519 scalars {} and {}", set[x].0, set[y].0), || {
            let (m, n) = (set[x].1, set[y].1);
            let (p, q) = (s25(m), s25(n));
            for (what, got, want) in [
                ("sum", p.add_ff(&q), l.add(m, n)),
                ("difference", p.sub_ff(&q), l.sub(m, n)),
                ("product", p.mul_ff(&q), l.mul(m, n)),
            ] {
                let got = got.map_err(|_| format!("{} failed", what))?.clone_line();
                if got[..] != want.to_le()[..] {
                    return Err(format!("{} is {} instead of {}", what, mcx::hex(&got), mcx::hex(&want.to_le())));
                }
            }
            // the same with secret keys, which are not reduced
            let mut raw = m.to_le();
            raw[9] ^= 0x55;
            raw[31] |= 0x80;
            let c = S25::try_clone_array(&a(&raw)).map_err(|_| "secret key refused")?;
            let mut want = raw;
            want[0] &= 248;
            want[31] = want[31] & 127 | 64;
            if c.clone_line()[..] != want[..] {
                return Err("a secret key is not the clamped string".into());
            }
            if S25::try_clone_array(&c.clone_line()).map(|z| z.clone_line()) != Ok(c.clone_line()) {
                return Err("clamping twice differs".into());
            }
            let cm = l.reduce(N::le(&want));
            if c.mul_ff(&q).map_err(|_| "product failed")?.clone_line()[..] != l.mul(cm, n).to_le()[..]
                || c.add_ff(&q).map_err(|_| "sum failed")?.clone_line()[..] != l.add(cm, n).to_le()[..]
                || q.sub_ff(&c).map_err(|_| "difference failed")?.clone_line()[..] != l.sub(n, cm).to_le()[..]
            {
                return Err("arithmetic with a secret key is wrong".into());
            }
            ctx.state(&(x, y));
            ctx.steps(8);
            ctx.trace();
            Ok(())
        });
    });
    ctx.outcomes_n("25519 scalar pair", jobs.len() as u64);
    // scalars as they appear in encoded signatures: canonical ones are read exactly
    let mut raws: Vec<N> = set.iter().map(|x| x.1).collect();
    for k in 0..20 {
        raws.push(l.0.adc(N::small(k)).0);
        raws.push(l.add(l.0.sub(N::small(k + 1)), ZERO));
    }
    for bit in 0..256 {
        let mut x = [0u64; 4];
        x[bit / 64] = 1 << (bit % 64);
        raws.push(N(x));
        raws.push(l.0.adc(N(x)).0);
    }
    raws.push(N([u64::MAX; 4]));
    for r in &raws {
        ctx.case(&format!("25519 scalar encoding {}", mcx::hex(&r.to_le())), || {
            ctx.steps(1);
            let raw = [EdwardsPoint::base().clone_line().to_vec(), r.to_le().to_vec()].concat();
            match (Sig::try_clone_array(&a(&raw)), r.lt(&l.0)) {
                (Ok(s), true) if s.clone_line()[..] == raw[..] => Ok(()),
                (_, false) => Ok(()),
                (Ok(_), true) => Err("read as another scalar".into()),
                (Err(_), true) => Err("a canonical scalar was refused".into()),
            }
        });
    }
    ctx.outcomes_n("25519 scalar encoding", raws.len() as u64);
}

fn c17_edwards(ctx: &Ctx) {
    let l = l25519();
    let set = set25(ctx);
    let d = ed_d();
    type E = EdwardsPoint;
    // multiples of the base point against integer arithmetic
    let some: Vec<&(String, N)> = set.iter().filter(|x| x.1 .0[1] == 0 || x.0.starts_with("derived")).take(ctx.tier(22, 60)).collect();
    ctx.case("Edwards base point", || {
        if E::base().clone_line()[..] != ed_pack(ed_base())[..] {
            return Err("wrong base point".into());
        }
        Ok(())
    });
    ctx.par(&some, |(name, n)| {
        ctx.case(&format!("Edwards {} B by integer arithmetic", name), || {
            let mut r = (ZERO, ONE);
            for i in (0..256).rev() {
                if r != (ZERO, ONE) {
                    r = ed_add(d, r, r);
                }
                if n.bit(i) {
                    r = ed_add(d, r, ed_base());
                }
            }
            ctx.steps(1);
            ctx.trace();
            if E::base().exp_ec(&s25(*n)).clone_line()[..] != ed_pack(r)[..] {
                return Err("wrong multiple".into());
            }
            Ok(())
        });
    });
    let mut jobs = vec![];
    for x in 0..set.len() {
        for y in 0..set.len() {
            jobs.push((x, y));
        }
    }
    ctx.par(&jobs, |&(x, y)| {
        ctx.case(&format!("Edwards multiples {} and {}", set[x].0, set[y].0), || {
            let (p, q) = (E::base().exp_ec(&s25(set[x].1)), E::base().exp_ec(&s25(set[y].1)));
            let sum = E::base().exp_ec(&s25(l.add(set[x].1, set[y].1)));
            if p.mul_ec(&q) != sum || q.mul_ec(&p) != sum {
                return Err("multiples do not add".into());
            }
            let prod = E::base().exp_ec(&s25(l.mul(set[x].1, set[y].1)));
            if p.exp_ec(&s25(set[y].1)) != prod || q.exp_ec(&s25(set[x].1)) != prod {
                return Err("multiples do not compose, Diffie-Hellman does not commute".into());
            }
            for z in [&p, &sum, &prod] {
                let c = Curve::compress(z);
                if c != z.clone_line() || <E as Curve>::decompress(&c) != Ok(*z) || E::try_clone_array(&c) != Ok(*z) {
                    return Err("encoding does not read back".into());
                }
            }
            if (p == q) != (p.clone_line() == q.clone_line()) {
                return Err("encoding does not identify the point".into());
            }
            let sameup = p == q || p.mul_ec(&q) == E::base().exp_ec(&S25::zero());
            if (p.x_coordinate() == q.x_coordinate()) != sameup {
                return Err("the coordinate does not identify the point up to sign".into());
            }
            ctx.state(&("ed", x, y));
            ctx.steps(10);
            ctx.trace();
            Ok(())
        });
    });
    ctx.outcomes_n("Edwards pair", jobs.len() as u64);
    let few: Vec<E> = set.iter().step_by(4).map(|x| E::base().exp_ec(&s25(x.1))).collect();
    let idx: Vec<usize> = (0..few.len()).collect();
    ctx.par(&idx, |&i| {
        ctx.case(&format!("Edwards associativity {}", i), || {
            for b in &few {
                for c in &few {
                    if few[i].mul_ec(b).mul_ec(c) != few[i].mul_ec(&b.mul_ec(c)) {
                        return Err("addition is not associative".into());
                    }
                    ctx.steps(4);
                }
            }
            Ok(())
        });
    });
    // decoding
    let mut raws: Vec<[u8; 32]> = vec![];
    for (_, n) in set.iter().step_by(ctx.tier(7, 2)) {
        let c: [u8; 32] = E::base().exp_ec(&s25(*n)).clone_line().into();
        raws.push(c);
        for bit in 0..256 {
            let mut c = c;
            c[bit / 8] ^= 1 << (bit % 8);
            raws.push(c);
        }
    }
    for y in 0..ctx.tier(64u64, 1024) {
        raws.push(N::small(y).to_le());
        raws.push(p25519().0.sub(N::small(y + 1)).to_le());
    }
    ctx.par(&raws, |r| {
        ctx.case(&format!("Edwards encoding {}", mcx::hex(r)), || {
            let mut y = *r;
            y[31] &= 127;
            let y = N::le(&y);
            let canonical = y.lt(&p25519().0) && y != ONE && y != p25519().0.sub(ONE);
            let valid = ed_valid_y(p25519().reduce(y));
            ctx.steps(2);
            ctx.trace();
            let (x, z) = (E::try_clone_array(&a(r)), <E as Curve>::decompress(&a(r)));
            if x != z {
                return Err("the two decoders disagree".into());
            }
            match (x, valid) {
                (Ok(_), false) => Err("a string that is no point was accepted".into()),
                (Err(_), true) if canonical => Err("a point was refused".into()),
                (Ok(p), true) if canonical && (p.clone_line()[..] != r[..] || Curve::compress(&p)[..] != r[..]) => Err("decoded to another point".into()),
                _ => Ok(()),
            }
        });
    });
    ctx.outcomes_n("Edwards encoding", raws.len() as u64);
    // the coordinate tells apart any two points whose encodings differ in one bit of the coordinate, and only those
    ctx.par(&some, |(name, n)| {
        ctx.case(&format!("Edwards coordinates beside {} B", name), || {
            let p = E::base().exp_ec(&s25(*n));
            let c: [u8; 32] = p.clone_line().into();
            for bit in 0..256 {
                let mut c = c;
                c[bit / 8] ^= 1 << (bit % 8);
                let Ok(q) = E::try_clone_array(&a(&c)) else { continue };
                ctx.steps(1);
                // the neighbour of a small coordinate may be the same one written above the prime
                let same = p25519().reduce(coordinate(&c)) == p25519().reduce(coordinate(&p.clone_line().into()));
                if (p.x_coordinate() == q.x_coordinate()) != same {
                    return Err(format!("the coordinates of two points that differ in bit {} of the encoding are {}", bit, if same { "different" } else { "the same" }));
                }
            }
            ctx.trace();
            Ok(())
        });
    });
    ctx.outcomes_n("Edwards coordinate beside", some.len() as u64);
}

fn coordinate(c: &[u8; 32]) -> N {
    let mut y = *c;
    y[31] &= 127;
    N::le(&y)
}

fn c17_montgomery(ctx: &Ctx) {
    type M = MontgomeryPoint;
    let x25519 = |k: &str, u: &str| -> Result<String, String> {
        let k = S25::try_clone_array(&a(&mcx::unhex(k))).map_err(|_| "scalar refused")?;
        let u = M::try_clone_array(&a(&mcx::unhex(u))).map_err(|_| "point refused")?;
        Ok(mcx::hex(&u.exp_ec(&k).clone_line()))
    };
    for (n, (k, u, w)) in [
        ("a546e36bf0527c9d3b16154b82465edd62144c0ac1fc5a18506a2244ba449ac4", "e6db6867583030db3594c1a424b15f7c726624ec26b3353b10a903a6d0ab1c4c", "c3da55379de9c6908e94ea4df28d084f32eccf03491c71f754b4075577a28552"),
        ("4b66e9d4d1b4673c5ad22691957d6af5c11b6421e0ea01d42ca4169e7918ba0d", "e5210f12786811d3f4b7959d0538ae2c31dbe7106fc03c3efc4cd549c715a493", "95cbde9476e8907d7aade45cb4b873f88b595a68799fa152e6f8f7647aac7957"),
    ]
    .iter()
    .enumerate()
    {
        ctx.case(&format!("X25519 vector {}", n), || {
            ctx.steps(1);
            ctx.trace();
            let g = x25519(k, u)?;
            if g != *w { Err(format!("{} instead of {}", g, w)) } else { Ok(()) }
        });
    }
    ctx.case("X25519 iterated", || {
        let mut k = N::small(9).to_le();
        let mut u = k;
        for n in 1..=1000 {
            let s = S25::try_clone_array(&a(&k)).map_err(|_| "scalar refused")?;
            let r = M::try_clone_array(&a(&u)).map_err(|_| "point refused")?.exp_ec(&s).clone_line();
            u = k;
            k.copy_from_slice(&r);
            ctx.steps(1);
            let want = match n {
                1 => "422c8e7a6227d7bca1350b3e2bb7279f7897b87bb6854b783c60e80311ae3079",
                1000 => "684cf59ba83309552800ef566f2f4d3c1c3887c49360e3875f2eb94d99532c51",
                _ => continue,
            };
            if mcx::hex(&k) != want {
                return Err(format!("wrong after {} iterations", n));
            }
        }
        Ok(())
    });
    let mut b = ctx.bytes("c17/mont");
    let mut ks: Vec<Vec<u8>> = (0..ctx.tier(20, 80)).map(|_| b.vec(32)).collect();
    ks.extend([vec![0; 32], vec![0xff; 32], N::small(1).to_le().to_vec(), N::small(8).to_le().to_vec()]);
    ctx.case("Curve25519 base point", || {
        if M::base().clone_line()[..] != N::small(9).to_le()[..] { Err("not 9".into()) } else { Ok(()) }
    });
    let idx: Vec<usize> = (0..ks.len()).collect();
    ctx.par(&idx, |&i| {
        ctx.case(&format!("X25519 agreement {}", i), || {
            let s = S25::try_clone_array(&a(&ks[i])).map_err(|_| "scalar refused")?;
            let p = M::base().exp_ec(&s);
            if p != EdwardsPoint::base().exp_ec(&s).to_montgomery() {
                return Err("differs from the Edwards form".into());
            }
            let c = Curve::compress(&p);
            if c != p.clone_line() || <M as Curve>::decompress(&c) != Ok(p) || M::try_clone_array(&c) != Ok(p) {
                return Err("encoding does not read back".into());
            }
            for k in &ks {
                let t = S25::try_clone_array(&a(k)).map_err(|_| "scalar refused")?;
                if M::base().exp_ec(&t).exp_ec(&s) != p.exp_ec(&t) {
                    return Err("Diffie-Hellman does not commute".into());
                }
                ctx.steps(3);
                ctx.trace();
            }
            ctx.state(&("mont", i));
            Ok(())
        });
    });
    ctx.outcomes_n("Curve25519 agreement", (ks.len() * ks.len()) as u64);
    // any 32 bytes are a u coordinate and read back as they are
    for bit in 0..256 {
        ctx.case(&format!("u coordinate 2^{}", bit), || {
            let mut x = [0u8; 32];
            x[bit / 8] = 1 << (bit % 8);
            let p = M::try_clone_array(&a(&x)).map_err(|_| "refused")?;
            if p.clone_line()[..] != x[..] { Err("changed".into()) } else { Ok(()) }
        });
        ctx.steps(1);
    }
}

fn c17_secp(ctx: &Ctx) {
    let f = nsecp();
    let mut set: Vec<(String, N)> = vec![];
    for k in 1..10u64 {
        set.push((format!("{}", k), N::small(k)));
        set.push((format!("n-{}", k), f.0.sub(N::small(k))));
    }
    for bit in [63, 64, 127, 128, 200, 255] {
        let mut x = [0u64; 4];
        x[bit / 64] = 1 << (bit % 64);
        set.push((format!("2^{}", bit), N(x)));
        set.push((format!("2^{}-1", bit), N(x).sub(ONE)));
    }
    let mut b = ctx.bytes("c17/secp");
    for k in 0..ctx.tier(8, 24) {
        set.push((format!("derived {}", k), f.reduce(N::le(&b.vec(32)))));
    }
    let sc = |n: N| -> Result<Ssec, String> { Ssec::try_clone_array(&a(&n.to_be())).map_err(|_| "a scalar was refused".to_string()) };
    // scalar encodings
    let mut raws: Vec<N> = vec![ZERO, N([u64::MAX; 4])];
    for k in 0..20 {
        raws.push(f.0.adc(N::small(k)).0);
        raws.push(f.0.sub(N::small(k + 1)));
    }
    for bit in 0..256 {
        let mut x = [0u64; 4];
        x[bit / 64] = 1 << (bit % 64);
        raws.push(N(x));
    }
    raws.extend(set.iter().map(|x| x.1));
    for r in &raws {
        ctx.case(&format!("secp256k1 scalar encoding {}", mcx::hex(&r.to_be())), || {
            ctx.steps(1);
            let ok = *r != ZERO && r.lt(&f.0);
            for d in [Ssec::try_clone_array(&a(&r.to_be()))] {
                match (d, ok) {
                    (Ok(s), true) if s.clone_line()[..] == r.to_be()[..] => {}
                    (Err(_), false) => {}
                    (Ok(_), true) => return Err("decoded to another scalar".into()),
                    (Ok(_), false) => return Err("an invalid scalar was accepted".into()),
                    (Err(_), true) => return Err("a valid scalar was refused".into()),
                }
            }
            Ok(())
        });
    }
    ctx.outcomes_n("secp256k1 scalar encoding", raws.len() as u64);
    let mut jobs = vec![];
    for x in 0..set.len() {
        for y in 0..set.len() {
            jobs.push((x, y));
        }
    }
    let base = || <Psec as Curve>::base();
    ctx.par(&jobs, |&(x, y)| {
        ctx.case(&format!("secp256k1 {} and {}", set[x].0, set[y].0), || {
            let (m, n) = (set[x].1, set[y].1);
            let (s, t) = (sc(m)?, sc(n)?);
            let (sum, prod) = (f.add(m, n), f.mul(m, n));
            match s.add_ff(&t) {
                Ok(z) if Ssec::try_clone_array(&z.clone_line()).is_err() => return Err("the sum is a scalar whose encoding is refused".into()),
                Ok(z) if z.clone_line()[..] == sum.to_be()[..] => {}
                Err(_) if sum == ZERO => {}
                Ok(_) => return Err("wrong sum of scalars".into()),
                Err(_) => return Err("sum of scalars refused".into()),
            }
            if s.mul_ff(&t).map_err(|_| "product failed")?.clone_line()[..] != prod.to_be()[..] {
                return Err("wrong product of scalars".into());
            }
            let (p, q) = (base().exp_ec(&s), base().exp_ec(&t));
            if p.exp_ec(&t) != base().exp_ec(&sc(prod)?) || q.exp_ec(&s) != p.exp_ec(&t) {
                return Err("multiples do not compose, Diffie-Hellman does not commute".into());
            }
            if sum != ZERO {
                let w = base().exp_ec(&sc(sum)?);
                if p.mul_ec(&q) != w || q.mul_ec(&p) != w {
                    return Err("multiples do not add".into());
                }
            }
            let line = p.clone_line();
            let c = Curve::compress(&p);
            if Psec::try_clone_array(&line) != Ok(p) || <Psec as Curve>::decompress(&c) != Ok(p) {
                return Err("encoding does not read back".into());
            }
            if p.x_coordinate()[..] != line[..32] || c[1..] != line[..32] || c[0] != 2 + (line[63] & 1) {
                return Err("coordinate or compressed form is wrong".into());
            }
            ctx.state(&("secp", x, y));
            ctx.steps(14);
            ctx.trace();
            Ok(())
        });
    });
    ctx.outcomes_n("secp256k1 pair", jobs.len() as u64);
    ctx.case("secp256k1 base point", || {
        let b = se_base();
        if base().clone_line()[..] != [b.0.to_be(), b.1.to_be()].concat()[..] { Err("wrong base point".into()) } else { Ok(()) }
    });
    let some: Vec<&(String, N)> = set.iter().filter(|x| x.1 .0[1] == 0 || x.0.starts_with("derived")).take(ctx.tier(18, 60)).collect();
    ctx.par(&some, |(name, n)| {
        ctx.case(&format!("secp256k1 {} G by integer arithmetic", name), || {
            let mut r = None;
            for i in (0..256).rev() {
                r = se_add(r, r);
                if n.bit(i) {
                    r = se_add(r, Some(se_base()));
                }
            }
            let w = r.ok_or("neutral element")?;
            ctx.steps(1);
            ctx.trace();
            if base().exp_ec(&sc(*n)?).clone_line()[..] != [w.0.to_be(), w.1.to_be()].concat()[..] {
                return Err("wrong multiple".into());
            }
            Ok(())
        });
    });
    let few: Vec<Psec> = set.iter().step_by(5).filter_map(|x| sc(x.1).ok().map(|s| base().exp_ec(&s))).collect();
    for i in 0..few.len() {
        ctx.case(&format!("secp256k1 associativity {}", i), || {
            for b in &few {
                for c in &few {
                    // skip sums that pass through the neutral element
                    let neg = |p: &Psec, q: &Psec| p.x_coordinate() == q.x_coordinate() && p != q;
                    if neg(&few[i], b) || neg(b, c) {
                        continue;
                    }
                    let (l, r) = (few[i].mul_ec(b), b.mul_ec(c));
                    if neg(&l, c) || neg(&few[i], &r) {
                        continue;
                    }
                    if l.mul_ec(c) != few[i].mul_ec(&r) {
                        return Err("addition is not associative".into());
                    }
                    ctx.steps(4);
                }
            }
            Ok(())
        });
    }
    // point encodings
    let mut packed: Vec<Vec<u8>> = vec![];
    let mut plain: Vec<Vec<u8>> = vec![];
    for (_, n) in set.iter().step_by(ctx.tier(9, 3)) {
        let Ok(s) = sc(*n) else { continue };
        let p = base().exp_ec(&s);
        let (c, l) = (Curve::compress(&p).to_vec(), p.clone_line().to_vec());
        for bit in 0..c.len() * 8 {
            let mut c = c.clone();
            c[bit / 8] ^= 1 << (bit % 8);
            packed.push(c);
        }
        for bit in 0..l.len() * 8 {
            let mut l = l.clone();
            l[bit / 8] ^= 1 << (bit % 8);
            plain.push(l);
        }
        // the negated point, and the halves exchanged
        plain.push([&l[..32], &psecp().neg(N::be(&l[32..])).to_be()[..]].concat());
        plain.push([&l[32..], &l[..32]].concat());
        packed.push(c);
        plain.push(l);
    }
    for x in 0..ctx.tier(48u64, 512) {
        for tag in [0u8, 1, 2, 3, 4, 6, 7] {
            packed.push([&[tag], &N::small(x).to_be()[..]].concat());
            packed.push([&[tag], &psecp().0.sub(N::small(20)).adc(N::small(x)).0.to_be()[..]].concat());
        }
    }
    ctx.par(&packed, |c| {
        ctx.case(&format!("secp256k1 compressed {}", mcx::hex(c)), || {
            let x = N::be(&c[1..]);
            let ok = (c[0] == 2 || c[0] == 3) && x.lt(&psecp().0) && se_valid_x(x);
            ctx.steps(1);
            ctx.trace();
            match (<Psec as Curve>::decompress(&a(c)), ok) {
                (Ok(p), true) if Curve::compress(&p)[..] == c[..] => Ok(()),
                (Err(_), false) => Ok(()),
                (Ok(_), true) => Err("decoded to another point".into()),
                (Ok(_), false) => Err("a string that is no point was accepted".into()),
                (Err(_), true) => Err("a point was refused".into()),
            }
        });
    });
    ctx.par(&plain, |l| {
        ctx.case(&format!("secp256k1 point {}", mcx::hex(l)), || {
            let (x, y) = (N::be(&l[..32]), N::be(&l[32..]));
            let ok = x.lt(&psecp().0) && y.lt(&psecp().0) && se_on_curve(x, y);
            ctx.steps(1);
            ctx.trace();
            match (Psec::try_clone_array(&a(l)), ok) {
                (Ok(p), true) if p.clone_line()[..] == l[..] => Ok(()),
                (Err(_), false) => Ok(()),
                (Ok(_), true) => Err("decoded to another point".into()),
                (Ok(_), false) => Err("a string that is no point was accepted".into()),
                (Err(_), true) => Err("a point was refused".into()),
            }
        });
    });
    ctx.outcomes_n("secp256k1 point encoding", (packed.len() + plain.len()) as u64);
    // signatures of the secp256k1 crate
    for r in &raws {
        for s in [ONE, f.0.sub(ONE), f.0, ZERO] {
            ctx.case(&format!("secp256k1 signature {} {}", mcx::hex(&r.to_be()), mcx::hex(&s.to_be())), || {
                let raw = [r.to_be(), s.to_be()].concat();
                ctx.steps(1);
                match (SigSec::try_clone_array(&a(&raw)), r.lt(&f.0) && s.lt(&f.0)) {
                    (Ok(x), true) if x.clone_line()[..] == raw[..] => Ok(()),
                    (Err(_), false) => Ok(()),
                    (Ok(_), true) => Err("decoded to another signature".into()),
                    (Ok(_), false) => Err("an out-of-range signature was accepted".into()),
                    (Err(_), true) => Err("a signature was refused".into()),
                }
            });
        }
    }
    ctx.outcomes_n("secp256k1 signature encoding", raws.len() as u64 * 4);
}
