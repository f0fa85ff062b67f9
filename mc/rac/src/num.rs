//! Plain 256-bit modular arithmetic, written for clarity: the oracle for both curves.

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub struct N(pub [u64; 4]); // little endian limbs; derived order is replaced by `lt`

pub const ZERO: N = N([0; 4]);
pub const ONE: N = N([1, 0, 0, 0]);

impl N {
    pub fn small(v: u64) -> N {
        N([v, 0, 0, 0])
    }
    pub fn le(b: &[u8]) -> N {
        let mut l = [0u64; 4];
        for (i, x) in b.iter().enumerate() {
            l[i / 8] |= (*x as u64) << (8 * (i % 8));
        }
        N(l)
    }
    pub fn be(b: &[u8]) -> N {
        let mut v = b.to_vec();
        v.reverse();
        N::le(&v)
    }
    pub fn to_le(self) -> [u8; 32] {
        let mut b = [0; 32];
        for i in 0..32 {
            b[i] = (self.0[i / 8] >> (8 * (i % 8))) as u8;
        }
        b
    }
    pub fn to_be(self) -> [u8; 32] {
        let mut b = self.to_le();
        b.reverse();
        b
    }
    pub fn lt(&self, o: &N) -> bool {
        self.0.iter().rev().cmp(o.0.iter().rev()) == std::cmp::Ordering::Less
    }
    pub fn bit(&self, i: usize) -> bool {
        self.0[i / 64] >> (i % 64) & 1 != 0
    }
    /// sum and carry
    pub fn adc(self, o: N) -> (N, bool) {
        let mut c = 0u128;
        let mut r = [0; 4];
        for i in 0..4 {
            let t = self.0[i] as u128 + o.0[i] as u128 + c;
            r[i] = t as u64;
            c = t >> 64;
        }
        (N(r), c != 0)
    }
    pub fn sub(self, o: N) -> N {
        let mut r = [0; 4];
        let mut b = 0i128;
        for i in 0..4 {
            let t = self.0[i] as i128 - o.0[i] as i128 + b;
            r[i] = t as u64;
            b = t >> 64;
        }
        N(r)
    }
}

/// arithmetic modulo `m` (m > 2^252)
#[derive(Clone, Copy)]
pub struct Field(pub N);

impl Field {
    pub fn reduce(&self, mut a: N) -> N {
        while !a.lt(&self.0) {
            a = a.sub(self.0);
        }
        a
    }
    pub fn add(&self, a: N, b: N) -> N {
        let (s, c) = a.adc(b);
        if c || !s.lt(&self.0) { s.sub(self.0) } else { s }
    }
    pub fn neg(&self, a: N) -> N {
        if a == ZERO { a } else { self.0.sub(a) }
    }
    pub fn sub(&self, a: N, b: N) -> N {
        self.add(a, self.neg(b))
    }
    pub fn mul(&self, a: N, b: N) -> N {
        let mut r = ZERO;
        for i in (0..256).rev() {
            r = self.add(r, r);
            if b.bit(i) {
                r = self.add(r, a);
            }
        }
        r
    }
    pub fn pow(&self, a: N, e: N) -> N {
        let mut r = ONE;
        for i in (0..256).rev() {
            r = self.mul(r, r);
            if e.bit(i) {
                r = self.mul(r, a);
            }
        }
        r
    }
    pub fn inv(&self, a: N) -> N {
        self.pow(a, self.0.sub(N::small(2)))
    }
    pub fn is_square(&self, a: N) -> bool {
        let e = {
            let mut l = self.0.sub(ONE).0;
            for i in 0..4 {
                l[i] = l[i] >> 1 | if i < 3 { l[i + 1] << 63 } else { 0 };
            }
            N(l)
        };
        a == ZERO || self.pow(a, e) == ONE
    }
}

pub fn p25519() -> Field {
    Field(N([0xffff_ffff_ffff_ffed, u64::MAX, u64::MAX, 0x7fff_ffff_ffff_ffff]))
}
/// order of the prime-order subgroup of curve25519
pub fn l25519() -> Field {
    Field(N([0x5812_631a_5cf5_d3ed, 0x14de_f9de_a2f7_9cd6, 0, 0x1000_0000_0000_0000]))
}
pub fn psecp() -> Field {
    Field(N([0xffff_fffe_ffff_fc2f, u64::MAX, u64::MAX, u64::MAX]))
}
pub fn nsecp() -> Field {
    Field(N([0xbfd2_5e8c_d036_4141, 0xbaae_dce6_af48_a03b, 0xffff_ffff_ffff_fffe, u64::MAX]))
}

/// points in affine coordinates; `None` is the neutral element of secp256k1
pub type P = (N, N);

pub fn ed_d() -> N {
    let f = p25519();
    f.mul(f.neg(N::small(121665)), f.inv(N::small(121666)))
}
pub fn ed_add(d: N, a: P, b: P) -> P {
    let f = p25519();
    let (x1y2, y1x2) = (f.mul(a.0, b.1), f.mul(a.1, b.0));
    let (y1y2, x1x2) = (f.mul(a.1, b.1), f.mul(a.0, b.0));
    let t = f.mul(d, f.mul(x1x2, y1y2));
    (f.mul(f.add(x1y2, y1x2), f.inv(f.add(ONE, t))), f.mul(f.add(y1y2, x1x2), f.inv(f.sub(ONE, t))))
}
/// compressed form: y with the parity of x in the top bit
pub fn ed_pack(a: P) -> [u8; 32] {
    let mut b = a.1.to_le();
    b[31] |= (a.0.bit(0) as u8) << 7;
    b
}
pub fn ed_base() -> P {
    let f = p25519();
    let y = f.mul(N::small(4), f.inv(N::small(5)));
    // x = 15112221349535400772501151409588531511454012693041857206046113283949847762202
    let x = N::be(&mcx::unhex("216936d3cd6e53fec0a4e231fdd6dc5c692cc7609525a7b2c9562d608f25d51a"));
    (x, y)
}
/// does some x satisfy the curve equation for this y?
pub fn ed_valid_y(y: N) -> bool {
    let f = p25519();
    let y2 = f.mul(y, y);
    let u = f.sub(y2, ONE);
    let v = f.add(f.mul(ed_d(), y2), ONE);
    f.is_square(f.mul(u, v))
}

pub fn se_add(a: Option<P>, b: Option<P>) -> Option<P> {
    let f = psecp();
    let (Some(a), Some(b)) = (a, b) else { return a.or(b) };
    let l = if a.0 == b.0 {
        if a.1 != b.1 || a.1 == ZERO {
            return None;
        }
        let x2 = f.mul(a.0, a.0);
        f.mul(f.add(x2, f.add(x2, x2)), f.inv(f.add(a.1, a.1)))
    } else {
        f.mul(f.sub(b.1, a.1), f.inv(f.sub(b.0, a.0)))
    };
    let x = f.sub(f.sub(f.mul(l, l), a.0), b.0);
    Some((x, f.sub(f.mul(l, f.sub(a.0, x)), a.1)))
}
pub fn se_base() -> P {
    (
        N::be(&mcx::unhex("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798")),
        N::be(&mcx::unhex("483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8")),
    )
}
pub fn se_on_curve(x: N, y: N) -> bool {
    let f = psecp();
    f.mul(y, y) == f.add(f.mul(x, f.mul(x, x)), N::small(7))
}
pub fn se_valid_x(x: N) -> bool {
    let f = psecp();
    f.is_square(f.add(f.mul(x, f.mul(x, x)), N::small(7)))
}
