//! Opaque scalars and points: what the API layer may know of them is which encodings are valid.
pub mod ff {
    pub trait Field: Sized + Copy {
        const ZERO: Self;
        const ONE: Self;
        fn pow_vartime<S: AsRef<[u64]>>(&self, e: S) -> Self;
    }
    pub trait PrimeField: Field {}
}
pub mod fixed_base_msm {
    #[derive(Debug, Copy, Clone)]
    pub enum UsePrecomp {
        Yes { width: usize },
        No,
    }
}
#[derive(Clone, Copy, Debug)]
pub struct Choice(bool);
impl From<Choice> for bool {
    fn from(c: Choice) -> bool {
        c.0
    }
}
#[derive(Clone, Copy, Debug)]
pub struct CtOption<T>(Option<T>);
impl<T> From<CtOption<T>> for Option<T> {
    fn from(c: CtOption<T>) -> Option<T> {
        c.0
    }
}
impl<T> CtOption<T> {
    pub fn is_some(&self) -> Choice {
        Choice(self.0.is_some())
    }
    pub fn is_none(&self) -> Choice {
        Choice(self.0.is_none())
    }
    pub fn unwrap(self) -> T {
        self.0.unwrap()
    }
    pub fn expect(self, m: &str) -> T {
        self.0.expect(m)
    }
    pub fn into_option(self) -> Option<T> {
        self.0
    }
}
pub const R_BE: [u8; 32] = [
    0x73, 0xed, 0xa7, 0x53, 0x29, 0x9d, 0x7d, 0x48, 0x33, 0x39, 0xd8, 0x08, 0x09, 0xa1, 0xd8, 0x05, 0x53, 0xbd, 0xa4, 0x02,
    0xff, 0xfe, 0x5b, 0xfe, 0xff, 0xff, 0xff, 0xff, 0x00, 0x00, 0x00, 0x01,
];
fn half(b: &[u8; 32], hi: bool) -> u128 {
    let o = if hi { 0 } else { 16 };
    let mut x = [0u8; 16];
    x.copy_from_slice(&b[o..o + 16]);
    u128::from_be_bytes(x)
}
/// below the group order
pub fn canonical(b: &[u8; 32]) -> bool {
    let (h, rh) = (half(b, true), half(&R_BE, true));
    h < rh || h == rh && half(b, false) < half(&R_BE, false)
}
/// big-endian bytes of a reduced value
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, Default)]
pub struct Scalar(pub [u8; 32]);
impl Scalar {
    pub fn from_bytes_be(b: &[u8; 32]) -> CtOption<Scalar> {
        CtOption(if canonical(b) { Some(Scalar(*b)) } else { None })
    }
    pub fn from_bytes_le(b: &[u8; 32]) -> CtOption<Scalar> {
        let mut c = *b;
        c.reverse();
        Self::from_bytes_be(&c)
    }
    pub fn to_bytes_be(&self) -> [u8; 32] {
        self.0
    }
    pub fn to_bytes_le(&self) -> [u8; 32] {
        let mut c = self.0;
        c.reverse();
        c
    }
}
impl ff::Field for Scalar {
    const ZERO: Self = Scalar([0; 32]);
    const ONE: Self = Scalar([0; 32]);
    fn pow_vartime<S: AsRef<[u64]>>(&self, _: S) -> Self {
        *self
    }
}
/// some 32-byte value, reduced: only its determinism matters here
pub fn reduce_bytes_to_scalar_bias(b: [u8; 32]) -> Scalar {
    let mut c = b;
    c[0] &= 0x3f;
    Scalar(c)
}
pub mod group {
    pub use super::ff;
    pub trait Group: Sized + Copy {
        fn identity() -> Self;
    }
    pub mod prime {
        pub trait PrimeCurveAffine: Sized + Copy {
            fn identity() -> Self;
        }
    }
    pub trait Curve {}
}
macro_rules! point {
    ($p:ident $n:expr) => {
        /// Compressed encoding; byte n-1 odd: not a curve point, byte n-2 odd: outside the subgroup.
        #[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
        pub struct $p(pub [u8; $n]);
        impl $p {
            pub fn from_compressed(b: &[u8; $n]) -> CtOption<$p> {
                CtOption(if b[$n - 1] & 1 == 0 && b[$n - 2] & 1 == 0 { Some($p(*b)) } else { None })
            }
            pub fn from_compressed_unchecked(b: &[u8; $n]) -> CtOption<$p> {
                CtOption(if b[$n - 1] & 1 == 0 { Some($p(*b)) } else { None })
            }
            pub fn to_compressed(&self) -> [u8; $n] {
                self.0
            }
            pub fn is_torsion_free(&self) -> Choice {
                Choice(self.0[$n - 2] & 1 == 0)
            }
            pub fn is_on_curve(&self) -> Choice {
                Choice(self.0[$n - 1] & 1 == 0)
            }
        }
    };
}
/// Sums: parts outside the subgroup may cancel, an invalid summand stays.
macro_rules! sums {
    ($p:ident $n:expr) => {
        impl group::Group for $p {
            fn identity() -> $p {
                $p([0; $n])
            }
        }
        impl std::ops::Add<$p> for $p {
            type Output = $p;
            fn add(self, o: $p) -> $p {
                let mut b = self.0;
                b[$n - 1] |= o.0[$n - 1];
                b[$n - 2] ^= o.0[$n - 2];
                b[0] = b[0].wrapping_add(o.0[0]);
                $p(b)
            }
        }
        impl std::ops::Add<&$p> for $p {
            type Output = $p;
            fn add(self, o: &$p) -> $p {
                self + *o
            }
        }
        impl std::ops::AddAssign<$p> for $p {
            fn add_assign(&mut self, o: $p) {
                *self = *self + o
            }
        }
        impl std::ops::AddAssign<&$p> for $p {
            fn add_assign(&mut self, o: &$p) {
                *self = *self + *o
            }
        }
        impl std::iter::Sum for $p {
            fn sum<I: Iterator<Item = $p>>(it: I) -> $p {
                it.fold(<$p as group::Group>::identity(), |a, x| a + x)
            }
        }
        impl<'a> std::iter::Sum<&'a $p> for $p {
            fn sum<I: Iterator<Item = &'a $p>>(it: I) -> $p {
                it.fold(<$p as group::Group>::identity(), |a, x| a + *x)
            }
        }
        impl From<&$p> for $p {
            fn from(p: &$p) -> $p {
                *p
            }
        }
    };
}
sums! { G1Point 48 }
sums! { G2Point 96 }
point! { G1Point 48 }
point! { G2Point 96 }
pub type G1Projective = G1Point;
pub type G2Projective = G2Point;
