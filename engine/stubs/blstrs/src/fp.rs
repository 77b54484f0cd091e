use crate::*;
use blst::blst_fp;
use symcore::fr::Fr;

/// Base-field element of the model curve (see lib.rs).
#[derive(Clone, Copy)]
#[repr(transparent)]
pub struct Fp(pub(crate) blst_fp);

impl Fp {
    pub fn v(&self) -> V {
        V([self.0.l[0], self.0.l[1], self.0.l[2], self.0.l[3]])
    }
    pub const fn mkc(l: [u64; 4]) -> Fp {
        Fp(blst_fp { l: [l[0], l[1], l[2], l[3], 0, 0] })
    }
    pub fn mk(v: V) -> Fp {
        Fp::mkc(v.0)
    }
}
impl Default for Fp {
    fn default() -> Self {
        <Fp as Field>::ZERO
    }
}
impl PartialEq for Fp {
    fn eq(&self, o: &Self) -> bool {
        symcore::eq(Kind::FpEq, self.v(), o.v())
    }
}
field_ops!(Fp);
impl fmt::Debug for Fp {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "Fp(0x{})", symcore::val(self.v()).hex())
    }
}
impl fmt::Display for Fp {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{:?}", self)
    }
}
impl From<u64> for Fp {
    fn from(v: u64) -> Fp {
        Fp::mk(V::konst(Fr::from_u64(v)))
    }
}
impl From<Fp> for blst_fp {
    fn from(v: Fp) -> blst_fp {
        v.0
    }
}
impl From<blst_fp> for Fp {
    fn from(v: blst_fp) -> Fp {
        Fp(v)
    }
}
impl Field for Fp {
    const ZERO: Self = Fp::mkc([0; 4]);
    const ONE: Self = Fp::mkc(Fr::ONE.0);
    fn random(mut rng: impl RngCore) -> Self {
        let mut l = [0u64; 4];
        for x in l.iter_mut() {
            *x = rng.next_u64();
        }
        Fp::mk(V::konst(Fr::from_plain_reduce(l)))
    }
    fn is_zero(&self) -> Choice {
        Choice::from(symcore::is_zero(Kind::FpEq, self.v()) as u8)
    }
    fn square(&self) -> Self {
        self * self
    }
    fn double(&self) -> Self {
        self + self
    }
    fn invert(&self) -> CtOption<Self> {
        if symcore::is_zero(Kind::Invert, self.v()) {
            CtOption::new(Fp::ZERO, Choice::from(0))
        } else {
            CtOption::new(Fp::mk(symcore::inv(self.v())), Choice::from(1))
        }
    }
    fn sqrt(&self) -> CtOption<Self> {
        unimplemented!("model: sqrt")
    }
    fn sqrt_ratio(_: &Self, _: &Self) -> (Choice, Self) {
        unimplemented!("model: sqrt_ratio")
    }
}
impl Fp {
    pub fn from_raw_unchecked(l: [u64; 6]) -> Fp {
        Fp(blst_fp { l })
    }
    pub fn mul3(&self) -> Self {
        self + &(self + self)
    }
    pub fn mul8(&self) -> Self {
        self.double().double().double()
    }
    pub fn shl(&self, n: usize) -> Self {
        let mut x = *self;
        for _ in 0..n {
            x = x.double();
        }
        x
    }
    pub fn square_assign(&mut self) {
        *self = self.square();
    }
}
