//! Independent model of the scheme: schoolbook evaluation of polynomials, bit-stream packing.
use sha3::digest::{ExtendableOutput, FixedOutput, Update, XofReader};
use sha3::{Sha3_256, Sha3_512, Shake128, Shake256};
use std::sync::OnceLock;

pub const Q: u32 = 7681;
pub const N: usize = 256;
pub type P = Vec<u32>; // 256 canonical residues

struct Tables {
    fwd: Vec<u16>, // fwd[i*N+k] = root_i^k
    inv: Vec<u16>, // inv[k*N+i] = N^-1 root_i^-k
}

fn pw(mut b: u32, mut e: u32) -> u32 {
    let mut r = 1;
    while e > 0 {
        if e & 1 == 1 {
            r = r * b % Q;
        }
        b = b * b % Q;
        e >>= 1;
    }
    r
}

pub const PSI: u32 = 62;

fn tables() -> &'static Tables {
    static T: OnceLock<Tables> = OnceLock::new();
    T.get_or_init(|| {
        let mut fwd = vec![0; N * N];
        let mut inv = vec![0; N * N];
        let n_inv = pw(N as u32, Q - 2);
        for i in 0..N {
            let e = 2 * (i as u8).reverse_bits() as u32 + 1;
            let root = pw(PSI, e);
            let root_inv = pw(root, Q - 2);
            for k in 0..N {
                fwd[i * N + k] = pw(root, k as u32) as u16;
                inv[k * N + i] = (pw(root_inv, k as u32) * n_inv % Q) as u16;
            }
        }
        Tables { fwd, inv }
    })
}

fn apply(m: &[u16], p: &[u32]) -> P {
    (0..N).map(|i| (m[i * N..(i + 1) * N].iter().zip(p).map(|(a, b)| *a as u64 * *b as u64).sum::<u64>() % Q as u64) as u32).collect()
}
/// Values at the odd powers of psi, in bit-reversed order.
pub fn eval(p: &[u32]) -> P {
    apply(&tables().fwd, p)
}
pub fn interpolate(p: &[u32]) -> P {
    apply(&tables().inv, p)
}
/// Negacyclic schoolbook product.
pub fn mul(a: &[u32], b: &[u32]) -> P {
    let mut r = vec![0i64; N];
    for i in 0..N {
        for j in 0..N {
            let t = a[i] as i64 * b[j] as i64;
            if i + j < N {
                r[i + j] += t
            } else {
                r[i + j - N] -= t
            }
        }
    }
    r.into_iter().map(|x| x.rem_euclid(Q as i64) as u32).collect()
}
fn dot(a: &[P], b: &[P]) -> P {
    (0..N).map(|k| (a.iter().zip(b).map(|(x, y)| x[k] as u64 * y[k] as u64).sum::<u64>() % Q as u64) as u32).collect()
}
pub fn add(a: &[u32], b: &[u32]) -> P {
    a.iter().zip(b).map(|(x, y)| (x + y) % Q).collect()
}
pub fn sub(a: &[u32], b: &[u32]) -> P {
    a.iter().zip(b).map(|(x, y)| (x + Q - y) % Q).collect()
}

pub fn pack(bits: usize, v: &[u32]) -> Vec<u8> {
    let mut out = vec![0u8; v.len() * bits / 8];
    for (i, x) in v.iter().enumerate() {
        for b in 0..bits {
            if x >> b & 1 == 1 {
                let p = i * bits + b;
                out[p / 8] |= 1 << (p % 8);
            }
        }
    }
    out
}
pub fn unpack(bits: usize, d: &[u8]) -> Vec<u32> {
    (0..d.len() * 8 / bits)
        .map(|i| (0..bits).map(|b| ((d[(i * bits + b) / 8] >> ((i * bits + b) % 8)) as u32 & 1) << b).sum())
        .collect()
}
/// round(x * 2^bits / Q) mod 2^bits, halves up
pub fn compress(bits: u32, x: u32) -> u32 {
    (((x << bits) + Q / 2) / Q) & ((1 << bits) - 1)
}
/// round(x * Q / 2^bits), halves up
pub fn decompress(bits: u32, x: u32) -> u32 {
    (x * Q + (1 << (bits - 1))) >> bits
}

pub fn sha3_256(parts: &[&[u8]]) -> Vec<u8> {
    let mut h = Sha3_256::default();
    for p in parts {
        h.update(p);
    }
    h.finalize_fixed().to_vec()
}
pub fn sha3_512(parts: &[&[u8]]) -> Vec<u8> {
    let mut h = Sha3_512::default();
    for p in parts {
        h.update(p);
    }
    h.finalize_fixed().to_vec()
}

fn uniform(seed: &[u8], x: u8, y: u8) -> P {
    let mut xof = Shake128::default().chain(seed).chain([x, y]).finalize_xof();
    let mut out = vec![];
    while out.len() < N {
        let mut b = [0u8; 2];
        xof.read(&mut b);
        let v = u16::from_le_bytes(b) as u32 & 0x1fff;
        if v < Q {
            out.push(v);
        }
    }
    out
}
/// `matrix(seed)[i][j]`, in the evaluation domain.
pub fn matrix(w: usize, seed: &[u8]) -> Vec<Vec<P>> {
    (0..w).map(|i| (0..w).map(|j| uniform(seed, j as u8, i as u8)).collect()).collect()
}
fn eta(w: usize) -> usize {
    7 - w
}
/// Centred binomial noise.
pub fn noise(w: usize, seed: &[u8], nonce: u8) -> P {
    let e = eta(w);
    let mut buf = vec![0u8; N * 2 * e / 8];
    Shake256::default().chain(seed).chain([nonce]).finalize_xof().read(&mut buf);
    let bit = |i: usize| (buf[i / 8] >> (i % 8) & 1) as u32;
    (0..N)
        .map(|i| {
            let a: u32 = (0..e).map(|k| bit(2 * e * i + k)).sum();
            let b: u32 = (0..e).map(|k| bit(2 * e * i + e + k)).sum();
            (a + Q - b) % Q
        })
        .collect()
}

/// The secret part: vector in the evaluation domain, rejection secret.
#[derive(Clone)]
pub struct Sk {
    pub s: Vec<P>,
    pub reject: Vec<u8>,
}
#[derive(Clone)]
pub struct Pk {
    pub b: Vec<Vec<u32>>, // 11-bit compressed
    pub seed: Vec<u8>,
}
#[derive(Clone)]
pub struct Ct {
    pub u: Vec<Vec<u32>>, // 11-bit
    pub v: Vec<u32>,      // 3-bit
}

pub fn generate(w: usize, seed: &[u8]) -> (Sk, Pk) {
    let c = sha3_512(&[&seed[..32]]);
    let (ps, ns) = c.split_at(32);
    let a = matrix(w, ps);
    let s: Vec<P> = (0..w).map(|i| eval(&noise(w, ns, i as u8))).collect();
    let b = (0..w)
        .map(|i| add(&interpolate(&dot(&a[i], &s)), &noise(w, ns, (i + w) as u8)).iter().map(|x| compress(11, *x)).collect())
        .collect();
    (Sk { s, reject: seed[32..64].to_vec() }, Pk { b, seed: ps.to_vec() })
}

/// Prepared public key, so that many encapsulations are cheap.
pub struct Prepared {
    w: usize,
    a: Vec<Vec<P>>,
    b: Vec<P>,
}
pub fn prepare(w: usize, pk: &Pk) -> Prepared {
    Prepared {
        w,
        a: matrix(w, &pk.seed),
        b: pk.b.iter().map(|p| eval(&p.iter().map(|x| decompress(11, *x)).collect::<Vec<_>>())).collect(),
    }
}
/// Uncompressed ciphertext (u, v) and its compressed form.
pub fn encrypt_full(k: &Prepared, ns: &[u8], m: &[u8]) -> (Vec<P>, P, Ct) {
    let w = k.w;
    let r: Vec<P> = (0..w).map(|i| eval(&noise(w, ns, i as u8))).collect();
    let u: Vec<P> = (0..w)
        .map(|i| {
            let col: Vec<P> = (0..w).map(|j| k.a[j][i].clone()).collect();
            add(&interpolate(&dot(&col, &r)), &noise(w, ns, (i + w) as u8))
        })
        .collect();
    let mut v = add(&interpolate(&dot(&k.b, &r)), &noise(w, ns, 2 * w as u8));
    for i in 0..N {
        if m[i / 8] >> (i % 8) & 1 == 1 {
            v[i] = (v[i] + (Q + 1) / 2) % Q;
        }
    }
    let ct = Ct {
        u: u.iter().map(|p| p.iter().map(|x| compress(11, *x)).collect()).collect(),
        v: v.iter().map(|x| compress(3, *x)).collect(),
    };
    (u, v, ct)
}
/// The residues `s.u - v` from which the message bits are read.
pub fn residues(sk: &Sk, ct: &Ct) -> P {
    let u: Vec<P> = ct.u.iter().map(|p| eval(&p.iter().map(|x| decompress(11, *x)).collect::<Vec<_>>())).collect();
    let v: P = ct.v.iter().map(|x| decompress(3, *x)).collect();
    sub(&interpolate(&dot(&sk.s, &u)), &v)
}
pub fn decode(r: &[u32]) -> Vec<u8> {
    let bits: Vec<u32> = r.iter().map(|x| ((2 * x + Q / 2) / Q) & 1).collect();
    pack(1, &bits)
}

pub fn encapsulate(k: &Prepared, seed: &[u8], hash: &[u8]) -> (Ct, Vec<u8>) {
    let m = sha3_256(&[seed]);
    encapsulate_message(k, &m, hash)
}
pub fn encapsulate_message(k: &Prepared, m: &[u8], hash: &[u8]) -> (Ct, Vec<u8>) {
    let c = sha3_512(&[m, hash]);
    let (r, ns) = c.split_at(32);
    let ct = encrypt_full(k, ns, m).2;
    let ss = sha3_256(&[r, &sha3_256(&[&ct_bytes(&ct)])]);
    (ct, ss)
}
/// The secret and whether the ciphertext was accepted.
pub fn decapsulate(sk: &Sk, k: &Prepared, hash: &[u8], ct: &Ct) -> (Vec<u8>, bool) {
    let m = decode(&residues(sk, ct));
    let c = sha3_512(&[&m, hash]);
    let (r, ns) = c.split_at(32);
    let again = ct_bytes(&encrypt_full(k, ns, &m).2);
    let mine = ct_bytes(ct);
    if again == mine {
        (sha3_256(&[r, &sha3_256(&[&mine])]), true)
    } else {
        (sha3_256(&[&sk.reject, &sha3_256(&[&mine])]), false)
    }
}

pub fn sk_bytes(sk: &Sk) -> Vec<u8> {
    let mut o: Vec<u8> = sk.s.iter().flat_map(|p| pack(13, p)).collect();
    o.extend(&sk.reject);
    o
}
pub fn pk_bytes(pk: &Pk) -> Vec<u8> {
    let mut o: Vec<u8> = pk.b.iter().flat_map(|p| pack(11, p)).collect();
    o.extend(&pk.seed);
    o
}
pub fn ct_bytes(ct: &Ct) -> Vec<u8> {
    let mut o: Vec<u8> = ct.u.iter().flat_map(|p| pack(11, p)).collect();
    o.extend(pack(3, &ct.v));
    o
}
pub fn sk_parse(w: usize, b: &[u8]) -> Sk {
    Sk { s: (0..w).map(|i| unpack(13, &b[i * 416..(i + 1) * 416]).iter().map(|x| x % Q).collect()).collect(), reject: b[w * 416..].to_vec() }
}
pub fn pk_parse(w: usize, b: &[u8]) -> Pk {
    Pk { b: (0..w).map(|i| unpack(11, &b[i * 352..(i + 1) * 352])).collect(), seed: b[w * 352..].to_vec() }
}
pub fn ct_parse(w: usize, b: &[u8]) -> Ct {
    Ct { u: (0..w).map(|i| unpack(11, &b[i * 352..(i + 1) * 352])).collect(), v: unpack(3, &b[w * 352..]) }
}
