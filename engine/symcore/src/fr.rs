//! Concrete arithmetic in F_r (the BLS12-381 scalar field), Montgomery form.
//! Independent of blst: this is the shadow value carried by every symbolic node.
pub const MODULUS: [u64; 4] = [
    0xffff_ffff_0000_0001,
    0x53bd_a402_fffe_5bfe,
    0x3339_d808_09a1_d805,
    0x73ed_a753_299d_7d48,
];
const INV: u64 = 0xffff_fffe_ffff_ffff;
const R1: [u64; 4] = [
    0x0000_0001_ffff_fffe,
    0x5884_b7fa_0003_4802,
    0x998c_4fef_ecbc_4ff5,
    0x1824_b159_acc5_056f,
];
const R2: [u64; 4] = [
    0xc999_e990_f3f2_9c6d,
    0x2b6c_edcb_8792_5c23,
    0x05d3_1496_7254_398f,
    0x0748_d9d9_9f59_ff11,
];

#[derive(Clone, Copy, PartialEq, Eq, Hash, Default, PartialOrd, Ord)]
pub struct Fr(pub [u64; 4]);

#[inline(always)]
fn adc(a: u64, b: u64, c: &mut u64) -> u64 {
    let t = a as u128 + b as u128 + *c as u128;
    *c = (t >> 64) as u64;
    t as u64
}
#[inline(always)]
fn sbb(a: u64, b: u64, br: &mut u64) -> u64 {
    let t = (a as u128).wrapping_sub(b as u128 + *br as u128);
    *br = ((t >> 64) as u64) & 1;
    t as u64
}
#[inline(always)]
fn geq(a: &[u64; 4], b: &[u64; 4]) -> bool {
    for i in (0..4).rev() {
        if a[i] != b[i] {
            return a[i] > b[i];
        }
    }
    true
}
#[inline(always)]
fn sub4(a: &[u64; 4], b: &[u64; 4]) -> ([u64; 4], u64) {
    let mut br = 0;
    let mut o = [0; 4];
    for i in 0..4 {
        o[i] = sbb(a[i], b[i], &mut br);
    }
    (o, br)
}
#[inline(always)]
fn mont_mul(a: &[u64; 4], b: &[u64; 4]) -> [u64; 4] {
    let mut t = [0u64; 6];
    for i in 0..4 {
        let mut c = 0u64;
        for j in 0..4 {
            let v = a[j] as u128 * b[i] as u128 + t[j] as u128 + c as u128;
            t[j] = v as u64;
            c = (v >> 64) as u64;
        }
        let v = t[4] as u128 + c as u128;
        t[4] = v as u64;
        t[5] = (v >> 64) as u64;
        let m = t[0].wrapping_mul(INV);
        let v = m as u128 * MODULUS[0] as u128 + t[0] as u128;
        let mut c = (v >> 64) as u64;
        for j in 1..4 {
            let v = m as u128 * MODULUS[j] as u128 + t[j] as u128 + c as u128;
            t[j - 1] = v as u64;
            c = (v >> 64) as u64;
        }
        let v = t[4] as u128 + c as u128;
        t[3] = v as u64;
        t[4] = t[5] + ((v >> 64) as u64);
    }
    let r = [t[0], t[1], t[2], t[3]];
    if t[4] != 0 || geq(&r, &MODULUS) {
        sub4(&r, &MODULUS).0
    } else {
        r
    }
}

impl Fr {
    pub const ZERO: Fr = Fr([0; 4]);
    pub const ONE: Fr = Fr(R1);
    pub const ROOT_2_32: Fr = Fr([
        0xb9b5_8d8c_5f0e_466a,
        0x5b1b_4c80_1819_d7ec,
        0x0af5_3ae3_52a3_1e64,
        0x5bf3_adda_19e9_b27b,
    ]);
    #[inline]
    pub fn add(self, o: Fr) -> Fr {
        let mut c = 0;
        let mut r = [0; 4];
        for i in 0..4 {
            r[i] = adc(self.0[i], o.0[i], &mut c);
        }
        if geq(&r, &MODULUS) {
            r = sub4(&r, &MODULUS).0;
        }
        Fr(r)
    }
    #[inline]
    pub fn sub(self, o: Fr) -> Fr {
        let (r, br) = sub4(&self.0, &o.0);
        if br == 1 {
            let mut c = 0;
            let mut q = [0; 4];
            for i in 0..4 {
                q[i] = adc(r[i], MODULUS[i], &mut c);
            }
            Fr(q)
        } else {
            Fr(r)
        }
    }
    #[inline]
    pub fn neg(self) -> Fr {
        Fr::ZERO.sub(self)
    }
    #[inline]
    pub fn mul(self, o: Fr) -> Fr {
        Fr(mont_mul(&self.0, &o.0))
    }
    pub fn is_zero(self) -> bool {
        self.0 == [0; 4]
    }
    pub fn pow(self, e: &[u64]) -> Fr {
        let mut acc = Fr::ONE;
        for w in e.iter().rev() {
            for i in (0..64).rev() {
                acc = acc.mul(acc);
                if (w >> i) & 1 == 1 {
                    acc = acc.mul(self);
                }
            }
        }
        acc
    }
    pub fn pow_u(self, e: u64) -> Fr {
        self.pow(&[e])
    }
    /// x^(r-2); 0 for 0.
    pub fn inv(self) -> Fr {
        let mut e = MODULUS;
        e[0] -= 2;
        self.pow(&e)
    }
    pub fn from_u64(v: u64) -> Fr {
        Fr(mont_mul(&[v, 0, 0, 0], &R2))
    }
    pub fn from_i64(v: i64) -> Fr {
        if v < 0 {
            Fr::from_u64(v.unsigned_abs()).neg()
        } else {
            Fr::from_u64(v as u64)
        }
    }
    /// Plain (non Montgomery) little-endian limbs.
    pub fn to_plain(self) -> [u64; 4] {
        mont_mul(&self.0, &[1, 0, 0, 0])
    }
    /// Any 256-bit value, reduced.
    pub fn from_plain_reduce(mut l: [u64; 4]) -> Fr {
        while geq(&l, &MODULUS) {
            l = sub4(&l, &MODULUS).0;
        }
        Fr(mont_mul(&l, &R2))
    }
    pub fn from_plain(l: [u64; 4]) -> Option<Fr> {
        if geq(&l, &MODULUS) {
            None
        } else {
            Some(Fr(mont_mul(&l, &R2)))
        }
    }
    pub fn to_be(self) -> [u8; 32] {
        let p = self.to_plain();
        let mut o = [0u8; 32];
        for i in 0..4 {
            o[24 - 8 * i..32 - 8 * i].copy_from_slice(&p[i].to_be_bytes());
        }
        o
    }
    pub fn limbs_be(b: &[u8; 32]) -> [u64; 4] {
        let mut l = [0u64; 4];
        for i in 0..4 {
            let mut w = [0u8; 8];
            w.copy_from_slice(&b[24 - 8 * i..32 - 8 * i]);
            l[i] = u64::from_be_bytes(w);
        }
        l
    }
    pub fn from_be(b: &[u8; 32]) -> Option<Fr> {
        Fr::from_plain(Self::limbs_be(b))
    }
    pub fn from_be_reduce(b: &[u8; 32]) -> Fr {
        Fr::from_plain_reduce(Self::limbs_be(b))
    }
    pub fn hex(self) -> String {
        self.to_be().iter().map(|b| format!("{:02x}", b)).collect()
    }
    pub fn from_hex(s: &str) -> Option<Fr> {
        let s = s.trim_start_matches("0x");
        if s.len() > 64 {
            return None;
        }
        let s = format!("{:0>64}", s);
        let mut b = [0u8; 32];
        for i in 0..32 {
            b[i] = u8::from_str_radix(&s[2 * i..2 * i + 2], 16).ok()?;
        }
        Fr::from_be(&b)
    }
    pub fn dec(self) -> String {
        // decimal string of the plain value
        let mut l = self.to_plain();
        let mut digits = Vec::new();
        while l != [0; 4] {
            let mut rem: u128 = 0;
            for i in (0..4).rev() {
                let cur = (rem << 64) | l[i] as u128;
                l[i] = (cur / 1_000_000_000_000_000_000) as u64;
                rem = cur % 1_000_000_000_000_000_000;
            }
            digits.push(rem as u64);
        }
        if digits.is_empty() {
            return "0".into();
        }
        let mut s = format!("{}", digits.pop().unwrap());
        while let Some(d) = digits.pop() {
            s.push_str(&format!("{:018}", d));
        }
        s
    }
    pub fn from_dec(s: &str) -> Option<Fr> {
        let ten = Fr::from_u64(10);
        let mut a = Fr::ZERO;
        for c in s.chars() {
            let d = c.to_digit(10)?;
            a = a.mul(ten).add(Fr::from_u64(d as u64));
        }
        Some(a)
    }
    /// Primitive n-th root of unity, n a power of two.
    pub fn root_of_unity(n: u64) -> Fr {
        assert!(n.is_power_of_two());
        let mut w = Fr::ROOT_2_32;
        for _ in 0..(32 - n.trailing_zeros()) {
            w = w.mul(w);
        }
        w
    }
    /// Deterministic pseudo-random field element derived from a label.
    pub fn prf(label: &str, seed: u64) -> Fr {
        let mut h: [u64; 4] = [
            0x9e37_79b9_7f4a_7c15 ^ seed,
            0xbf58_476d_1ce4_e5b9,
            0x94d0_49bb_1331_11eb,
            0x2545_f491_4f6c_dd1d ^ seed.rotate_left(32),
        ];
        fn mix(mut z: u64) -> u64 {
            z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
            z ^ (z >> 31)
        }
        for b in label.bytes() {
            for i in 0..4 {
                h[i] = mix(h[i] ^ (b as u64) ^ h[(i + 1) & 3].rotate_left(13 + i as u32));
            }
        }
        for _ in 0..4 {
            for i in 0..4 {
                h[i] = mix(h[i].wrapping_add(h[(i + 3) & 3]).wrapping_add(0x9e37_79b9_7f4a_7c15));
            }
        }
        h[3] &= 0x3fff_ffff_ffff_ffff;
        Fr::from_plain_reduce(h)
    }
}
impl std::fmt::Debug for Fr {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "0x{}", self.hex())
    }
}

/// Batch inversion of nonzero values (oracle side helper).
pub fn batch_inv(v: &mut [Fr]) {
    let mut pre = Vec::with_capacity(v.len());
    let mut acc = Fr::ONE;
    for x in v.iter() {
        pre.push(acc);
        acc = acc.mul(*x);
    }
    let mut inv = acc.inv();
    for i in (0..v.len()).rev() {
        let t = inv.mul(pre[i]);
        inv = inv.mul(v[i]);
        v[i] = t;
    }
}

#[cfg(test)]
mod t {
    use super::*;
    #[test]
    fn basics() {
        let a = Fr::prf("a", 1);
        assert_eq!(a.mul(a.inv()), Fr::ONE);
        assert_eq!(Fr::from_dec(&a.dec()), Some(a));
        assert_eq!(Fr::from_hex(&a.hex()), Some(a));
        let w = Fr::root_of_unity(8192);
        assert_eq!(w.pow_u(4096), Fr::ONE.neg());
        assert_eq!(Fr::ONE.neg().dec(), "52435875175126190479447740508185965837690552500527637822603658699938581184512");
    }
}
