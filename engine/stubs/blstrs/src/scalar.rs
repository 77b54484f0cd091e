use crate::*;
use blst::{blst_fr, blst_scalar};
use symcore::fr::Fr;

#[derive(Clone, Copy, Default)]
#[repr(transparent)]
pub struct Scalar(pub(crate) blst_fr);

impl Scalar {
    #[inline]
    pub fn v(&self) -> V {
        V(self.0.l)
    }
    #[inline]
    pub fn mk(v: V) -> Scalar {
        Scalar(blst_fr { l: v.0 })
    }
    pub const fn raw(l: [u64; 4]) -> Scalar {
        Scalar(blst_fr { l })
    }
}
impl PartialEq for Scalar {
    fn eq(&self, o: &Self) -> bool {
        symcore::eq(Kind::ScalarEq, self.v(), o.v())
    }
}
field_ops!(Scalar);

impl fmt::Debug for Scalar {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "Scalar(0x{})", symcore::val(self.v()).hex())
    }
}
impl fmt::Display for Scalar {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{:?}", self)
    }
}
impl std::hash::Hash for Scalar {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        symcore::concretize(self.v()).hash(h)
    }
}
impl Ord for Scalar {
    fn cmp(&self, o: &Scalar) -> cmp::Ordering {
        let (a, b) = (symcore::concretize(self.v()).to_be(), symcore::concretize(o.v()).to_be());
        a.cmp(&b)
    }
}
impl PartialOrd for Scalar {
    fn partial_cmp(&self, o: &Scalar) -> Option<cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl From<Scalar> for blst_fr {
    fn from(s: Scalar) -> blst_fr {
        s.0
    }
}
impl From<blst_fr> for Scalar {
    fn from(s: blst_fr) -> Scalar {
        Scalar(s)
    }
}
impl From<u64> for Scalar {
    fn from(v: u64) -> Scalar {
        Scalar::mk(V::konst(Fr::from_u64(v)))
    }
}
#[allow(clippy::from_over_into)]
impl Into<blst_scalar> for Scalar {
    fn into(self) -> blst_scalar {
        blst_scalar { b: self.to_bytes_le() }
    }
}
#[derive(Debug, Clone)]
pub struct NotInFieldError;
impl fmt::Display for NotInFieldError {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "Not in field")
    }
}
impl std::error::Error for NotInFieldError {}
impl TryInto<Scalar> for blst_scalar {
    type Error = NotInFieldError;
    fn try_into(self) -> Result<Scalar, NotInFieldError> {
        Option::from(Scalar::from_bytes_le(&self.b)).ok_or(NotInFieldError)
    }
}

impl Field for Scalar {
    const ZERO: Self = Scalar::raw([0; 4]);
    const ONE: Self = Scalar::raw(Fr::ONE.0);
    fn random(mut rng: impl RngCore) -> Self {
        let mut l = [0u64; 4];
        for x in l.iter_mut() {
            *x = rng.next_u64();
        }
        Scalar::mk(V::konst(Fr::from_plain_reduce(l)))
    }
    fn is_zero(&self) -> Choice {
        Choice::from(symcore::is_zero(Kind::ScalarEq, self.v()) as u8)
    }
    fn square(&self) -> Self {
        self * self
    }
    fn double(&self) -> Self {
        self + self
    }
    fn invert(&self) -> CtOption<Self> {
        if symcore::is_zero(Kind::Invert, self.v()) {
            CtOption::new(Scalar::ZERO, Choice::from(0))
        } else {
            CtOption::new(Scalar::mk(symcore::inv(self.v())), Choice::from(1))
        }
    }
    fn sqrt(&self) -> CtOption<Self> {
        unimplemented!("model: sqrt")
    }
    fn sqrt_ratio(_: &Self, _: &Self) -> (Choice, Self) {
        unimplemented!("model: sqrt_ratio")
    }
}

impl PrimeField for Scalar {
    type Repr = [u8; 32];
    const NUM_BITS: u32 = 255;
    const CAPACITY: u32 = 254;
    const S: u32 = 32;
    const TWO_INV: Scalar = Scalar::raw([
        0x0000_0000_ffff_ffff,
        0xac42_5bfd_0001_a401,
        0xccc6_27f7_f65e_27fa,
        0x0c12_58ac_d662_82b7,
    ]);
    const ROOT_OF_UNITY_INV: Scalar = Scalar::raw([
        0x4256_481a_dcf3_219a,
        0x45f3_7b7f_96b6_cad3,
        0xf9c3_f1d7_5f7a_3b27,
        0x2d2f_c049_658a_fd43,
    ]);
    const DELTA: Scalar = Scalar::raw([
        0x70e3_10d3_d146_f96a,
        0x4b64_c089_19e2_99e6,
        0x51e1_1418_6a8b_970d,
        0x6185_d066_27c0_67cb,
    ]);
    const MODULUS: &'static str = "0x73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001";
    const MULTIPLICATIVE_GENERATOR: Self = Scalar::raw([
        0x0000_000e_ffff_fff1,
        0x17e3_63d3_0018_9c0f,
        0xff9c_5787_6f84_57b0,
        0x3513_3220_8fc5_a8c4,
    ]);
    const ROOT_OF_UNITY: Self = Scalar::raw(Fr::ROOT_2_32.0);
    fn from_repr(r: [u8; 32]) -> CtOption<Self> {
        Self::from_bytes_le(&r)
    }
    fn to_repr(&self) -> [u8; 32] {
        self.to_bytes_le()
    }
    fn is_odd(&self) -> Choice {
        Choice::from((symcore::concretize(self.v()).to_plain()[0] & 1) as u8)
    }
}
impl ff::PrimeFieldBits for Scalar {
    type ReprBits = [u64; 4];
    fn to_le_bits(&self) -> ff::FieldBits<[u64; 4]> {
        ff::FieldBits::new(symcore::concretize(self.v()).to_plain())
    }
    fn char_le_bits() -> ff::FieldBits<[u64; 4]> {
        ff::FieldBits::new(symcore::fr::MODULUS)
    }
}
impl Scalar {
    pub fn from_bytes_le(b: &[u8; 32]) -> CtOption<Scalar> {
        let mut be = *b;
        be.reverse();
        Self::from_bytes_be(&be)
    }
    pub fn from_bytes_be(b: &[u8; 32]) -> CtOption<Scalar> {
        match symcore::with_arena(|z| z.scalar_from_be(b)) {
            Some(v) => CtOption::new(Scalar::mk(v), Choice::from(1)),
            None => CtOption::new(Scalar::mk(V::konst(Fr::from_be_reduce(b))), Choice::from(0)),
        }
    }
    pub fn to_bytes_be(&self) -> [u8; 32] {
        symcore::with_arena(|z| z.scalar_be(self.v()))
    }
    pub fn to_bytes_le(&self) -> [u8; 32] {
        let mut b = self.to_bytes_be();
        b.reverse();
        b
    }
    pub fn from_u64s_le(l: &[u64; 4]) -> CtOption<Self> {
        let mut b = [0u8; 32];
        for i in 0..4 {
            b[8 * i..8 * i + 8].copy_from_slice(&l[i].to_le_bytes());
        }
        Self::from_bytes_le(&b)
    }
    pub fn char() -> [u8; 32] {
        let mut b = [0u8; 32];
        for i in 0..4 {
            b[8 * i..8 * i + 8].copy_from_slice(&symcore::fr::MODULUS[i].to_le_bytes());
        }
        b
    }
    pub fn num_bits(&self) -> u32 {
        let l = symcore::concretize(self.v()).to_plain();
        for i in (0..4).rev() {
            if l[i] != 0 {
                return 64 * (i as u32 + 1) - l[i].leading_zeros();
            }
        }
        0
    }
    pub fn mul3(&self) -> Self {
        self + &(self + self)
    }
    pub fn shl(&self, n: usize) -> Self {
        let mut x = *self;
        for _ in 0..n {
            x = x.double();
        }
        x
    }
    pub fn square_assign(&mut self) {
        *self = self.square();
    }
}
