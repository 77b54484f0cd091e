use crate::*;
use ::pairing::{Engine, MultiMillerLoop, PairingCurveAffine};
use symcore::fr::Fr;

pub trait Compress: Sized {
    fn write_compressed<W: std::io::Write>(self, out: W) -> std::io::Result<()>;
    fn read_compressed<R: std::io::Read>(source: R) -> std::io::Result<Self>;
}

fn tadd(a: u64, b: u64) -> u64 {
    if a == 3 || b == 3 { 3 } else { (a + b) % 3 }
}
fn tneg(a: u64) -> u64 {
    if a == 3 { 3 } else { (3 - a) % 3 }
}
fn tmul(a: u64) -> u64 {
    if a == 0 { 0 } else { 3 }
}

macro_rules! group_model {
    ($aff:ident, $proj:ident, $comp:ident, $unc:ident, $csz:expr, $usz:expr, $apad:expr, $ppad:expr, $enc:ident, $dec:ident) => {
        #[derive(Copy, Clone)]
        #[repr(C)]
        pub struct $aff {
            t: [u64; 4],
            /// torsion part: 0 none, 1 and 2 the two nonzero multiples of a point of order three, 3 some other
            fl: u64,
            pad: [u64; $apad],
        }
        #[derive(Copy, Clone)]
        #[repr(C)]
        pub struct $proj {
            t: [u64; 4],
            fl: u64,
            pad: [u64; $ppad],
        }
        impl $aff {
            pub fn v(&self) -> V {
                V(self.t)
            }
            pub const fn mkf(t: V, fl: u64) -> Self {
                $aff { t: t.0, fl, pad: [0; $apad] }
            }
            pub fn mk(t: V) -> Self {
                Self::mkf(t, 0)
            }
            pub fn in_subgroup(&self) -> bool {
                self.fl == 0
            }
        }
        impl $proj {
            pub fn v(&self) -> V {
                V(self.t)
            }
            pub const fn mkf(t: V, fl: u64) -> Self {
                $proj { t: t.0, fl, pad: [0; $ppad] }
            }
            pub fn mk(t: V) -> Self {
                Self::mkf(t, 0)
            }
            pub fn in_subgroup(&self) -> bool {
                self.fl == 0
            }
        }
        impl fmt::Debug for $aff {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                write!(f, "{}({:?},{})", stringify!($aff), symcore::val(self.v()), self.fl)
            }
        }
        impl fmt::Display for $aff {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                write!(f, "{:?}", self)
            }
        }
        impl fmt::Debug for $proj {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                write!(f, "{}({:?},{})", stringify!($proj), symcore::val(self.v()), self.fl)
            }
        }
        impl fmt::Display for $proj {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                write!(f, "{:?}", self)
            }
        }
        impl Default for $aff {
            fn default() -> Self {
                Self::mk(V::ZERO)
            }
        }
        impl Default for $proj {
            fn default() -> Self {
                Self::mk(V::ZERO)
            }
        }
        impl From<&$proj> for $aff {
            fn from(p: &$proj) -> $aff {
                $aff::mkf(p.v(), p.fl)
            }
        }
        impl From<$proj> for $aff {
            fn from(p: $proj) -> $aff {
                $aff::mkf(p.v(), p.fl)
            }
        }
        impl From<&$aff> for $proj {
            fn from(p: &$aff) -> $proj {
                $proj::mkf(p.v(), p.fl)
            }
        }
        impl From<$aff> for $proj {
            fn from(p: $aff) -> $proj {
                $proj::mkf(p.v(), p.fl)
            }
        }
        impl Eq for $aff {}
        impl PartialEq for $aff {
            fn eq(&self, o: &Self) -> bool {
                self.fl == o.fl && symcore::eq(Kind::PointEq, self.v(), o.v())
            }
        }
        impl Eq for $proj {}
        impl PartialEq for $proj {
            fn eq(&self, o: &Self) -> bool {
                self.fl == o.fl && symcore::eq(Kind::PointEq, self.v(), o.v())
            }
        }
        impl Neg for &$aff {
            type Output = $aff;
            fn neg(self) -> $aff {
                $aff::mkf(symcore::neg(self.v()), tneg(self.fl))
            }
        }
        impl Neg for $aff {
            type Output = $aff;
            fn neg(self) -> $aff {
                -&self
            }
        }
        impl Neg for &$proj {
            type Output = $proj;
            fn neg(self) -> $proj {
                $proj::mkf(symcore::neg(self.v()), tneg(self.fl))
            }
        }
        impl Neg for $proj {
            type Output = $proj;
            fn neg(self) -> $proj {
                -&self
            }
        }
        group_model!(@add $proj, $proj, $proj);
        group_model!(@add $proj, $aff, $proj);
        group_model!(@add $aff, $proj, $proj);
        fwd_assign!(AddAssign, add_assign, +, $proj, $proj);
        fwd_assign!(SubAssign, sub_assign, -, $proj, $proj);
        fwd_assign!(AddAssign, add_assign, +, $proj, $aff);
        fwd_assign!(SubAssign, sub_assign, -, $proj, $aff);
        group_model!(@mul $proj, $proj);
        group_model!(@mul $aff, $proj);
        fwd_assign!(MulAssign, mul_assign, *, $proj, Scalar);
        fwd_assign!(MulAssign, mul_assign, *, $aff, Scalar);
        impl<T: Borrow<$proj>> Sum<T> for $proj {
            fn sum<I: Iterator<Item = T>>(it: I) -> Self {
                it.fold(Self::mk(V::ZERO), |a, x| &a + x.borrow())
            }
        }
        impl ConditionallySelectable for $aff {
            fn conditional_select(a: &Self, b: &Self, c: Choice) -> Self {
                if bool::from(c) { *b } else { *a }
            }
        }
        impl ConditionallySelectable for $proj {
            fn conditional_select(a: &Self, b: &Self, c: Choice) -> Self {
                if bool::from(c) { *b } else { *a }
            }
        }
        impl $aff {
            pub fn to_compressed(&self) -> [u8; $csz] {
                symcore::with_arena(|z| z.$enc(self.v(), self.fl))
            }
            pub fn to_uncompressed(&self) -> [u8; $usz] {
                let c = self.to_compressed();
                let mut o = [0u8; $usz];
                o[..$csz].copy_from_slice(&c);
                o
            }
            pub fn from_uncompressed(b: &[u8; $usz]) -> CtOption<Self> {
                Self::from_uncompressed_unchecked(b)
                    .and_then(|p| CtOption::new(p, p.is_on_curve() & p.is_torsion_free()))
            }
            pub fn from_uncompressed_unchecked(b: &[u8; $usz]) -> CtOption<Self> {
                let mut c = [0u8; $csz];
                c.copy_from_slice(&b[..$csz]);
                Self::from_compressed_unchecked(&c)
            }
            pub fn from_compressed(b: &[u8; $csz]) -> CtOption<Self> {
                Self::from_compressed_unchecked(b)
                    .and_then(|p| CtOption::new(p, p.is_on_curve() & p.is_torsion_free()))
            }
            pub fn from_compressed_unchecked(b: &[u8; $csz]) -> CtOption<Self> {
                match symcore::with_arena(|z| z.$dec(b)) {
                    Decoded::Invalid => CtOption::new(Self::default(), Choice::from(0)),
                    Decoded::Point(t, tf) => CtOption::new(Self::mkf(t, tf), Choice::from(1)),
                }
            }
            pub fn is_torsion_free(&self) -> Choice {
                Choice::from((self.fl == 0) as u8)
            }
            pub fn is_on_curve(&self) -> Choice {
                Choice::from(1)
            }
            pub const fn uncompressed_size() -> usize {
                $usz
            }
            pub const fn compressed_size() -> usize {
                $csz
            }
            pub fn raw_fmt_size() -> usize {
                $usz + 1
            }
        }
        impl $proj {
            pub fn to_compressed(&self) -> [u8; $csz] {
                $aff::from(self).to_compressed()
            }
            pub fn to_uncompressed(&self) -> [u8; $usz] {
                $aff::from(self).to_uncompressed()
            }
            pub fn from_uncompressed(b: &[u8; $usz]) -> CtOption<Self> {
                $aff::from_uncompressed(b).map(Into::into)
            }
            pub fn from_uncompressed_unchecked(b: &[u8; $usz]) -> CtOption<Self> {
                $aff::from_uncompressed_unchecked(b).map(Into::into)
            }
            pub fn from_compressed(b: &[u8; $csz]) -> CtOption<Self> {
                $aff::from_compressed(b).map(Into::into)
            }
            pub fn from_compressed_unchecked(b: &[u8; $csz]) -> CtOption<Self> {
                $aff::from_compressed_unchecked(b).map(Into::into)
            }
            pub fn is_on_curve(&self) -> Choice {
                Choice::from(1)
            }
            pub fn multi_exp(points: &[Self], scalars: &[Scalar]) -> Self {
                let n = points.len().min(scalars.len());
                // blst panics when fewer scalars than points are supplied
                assert!(scalars.len() >= points.len(), "scalars length mismatch");
                // blst (0.3.13) returns the identity as soon as one point is the identity
                for p in &points[..n] {
                    if p.fl == 0 && symcore::is_zero(Kind::MsmIdentity, p.v()) {
                        return Self::mk(V::ZERO);
                    }
                }
                let mut acc = V::ZERO;
                let mut fl = 0;
                for i in 0..n {
                    acc = symcore::add(acc, symcore::mul(points[i].v(), scalars[i].v()));
                    fl = tadd(fl, tmul(points[i].fl));
                }
                Self::mkf(acc, fl)
            }
        }
        impl Group for $proj {
            type Scalar = Scalar;
            fn random(mut rng: impl RngCore) -> Self {
                Self::mk(Scalar::random(&mut rng).v())
            }
            fn identity() -> Self {
                Self::mk(V::ZERO)
            }
            fn generator() -> Self {
                Self::mk(V::ONE)
            }
            fn is_identity(&self) -> Choice {
                Choice::from((self.fl == 0 && symcore::is_zero(Kind::PointEq, self.v())) as u8)
            }
            fn double(&self) -> Self {
                self + self
            }
        }
        impl WnafGroup for $proj {
            fn recommended_wnaf_for_num_scalars(_: usize) -> usize {
                4
            }
        }
        impl PrimeGroup for $proj {}
        impl Curve for $proj {
            type AffineRepr = $aff;
            fn to_affine(&self) -> $aff {
                self.into()
            }
        }
        impl PrimeCurve for $proj {
            type Affine = $aff;
        }
        impl PrimeCurveAffine for $aff {
            type Scalar = Scalar;
            type Curve = $proj;
            fn identity() -> Self {
                Self::mk(V::ZERO)
            }
            fn generator() -> Self {
                Self::mk(V::ONE)
            }
            fn is_identity(&self) -> Choice {
                Choice::from((self.fl == 0 && symcore::is_zero(Kind::PointEq, self.v())) as u8)
            }
            fn to_curve(&self) -> $proj {
                self.into()
            }
        }
        #[derive(Copy, Clone)]
        pub struct $comp(pub(crate) [u8; $csz]);
        #[derive(Copy, Clone)]
        pub struct $unc(pub(crate) [u8; $usz]);
        group_model!(@bytes $comp, $csz);
        group_model!(@bytes $unc, $usz);
        impl GroupEncoding for $proj {
            type Repr = $comp;
            fn from_bytes(b: &$comp) -> CtOption<Self> {
                Self::from_compressed(&b.0)
            }
            fn from_bytes_unchecked(b: &$comp) -> CtOption<Self> {
                Self::from_compressed_unchecked(&b.0)
            }
            fn to_bytes(&self) -> $comp {
                $comp(self.to_compressed())
            }
        }
        impl GroupEncoding for $aff {
            type Repr = $comp;
            fn from_bytes(b: &$comp) -> CtOption<Self> {
                Self::from_compressed(&b.0)
            }
            fn from_bytes_unchecked(b: &$comp) -> CtOption<Self> {
                Self::from_compressed_unchecked(&b.0)
            }
            fn to_bytes(&self) -> $comp {
                $comp(self.to_compressed())
            }
        }
        impl UncompressedEncoding for $aff {
            type Uncompressed = $unc;
            fn from_uncompressed(b: &$unc) -> CtOption<Self> {
                Self::from_uncompressed(&b.0)
            }
            fn from_uncompressed_unchecked(b: &$unc) -> CtOption<Self> {
                Self::from_uncompressed_unchecked(&b.0)
            }
            fn to_uncompressed(&self) -> $unc {
                $unc(self.to_uncompressed())
            }
        }
    };
    (@bytes $t:ident, $n:expr) => {
        impl AsRef<[u8]> for $t {
            fn as_ref(&self) -> &[u8] {
                &self.0
            }
        }
        impl AsMut<[u8]> for $t {
            fn as_mut(&mut self) -> &mut [u8] {
                &mut self.0
            }
        }
        impl Default for $t {
            fn default() -> Self {
                $t([0; $n])
            }
        }
        impl fmt::Debug for $t {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                write!(f, "{:?}", &self.0[..])
            }
        }
    };
    (@add $l:ident, $r:ident, $o:ident) => {
        impl Add<&$r> for &$l {
            type Output = $o;
            fn add(self, r: &$r) -> $o {
                $o::mkf(symcore::add(self.v(), r.v()), tadd(self.fl, r.fl))
            }
        }
        impl Sub<&$r> for &$l {
            type Output = $o;
            fn sub(self, r: &$r) -> $o {
                $o::mkf(symcore::sub(self.v(), r.v()), tadd(self.fl, tneg(r.fl)))
            }
        }
        fwd!(Add, add, $l, $r, $o);
        fwd!(Sub, sub, $l, $r, $o);
    };
    (@mul $l:ident, $o:ident) => {
        impl Mul<&Scalar> for &$l {
            type Output = $o;
            fn mul(self, s: &Scalar) -> $o {
                $o::mkf(symcore::mul(self.v(), s.v()), tmul(self.fl))
            }
        }
        fwd!(Mul, mul, $l, Scalar, $o);
    };
}

group_model!(G1Affine, G1Projective, G1Compressed, G1Uncompressed, 48, 96, 7, 13, g1_enc, g1_dec);
group_model!(G2Affine, G2Projective, G2Compressed, G2Uncompressed, 96, 192, 19, 31, g2_enc, g2_dec);

impl G1Affine {
    pub fn from_raw_unchecked(x: Fp, y: Fp, _infinity: bool) -> Self {
        Self::mk(symcore::with_arena(|z| z.from_xy(x.v(), y.v())))
    }
    pub fn x(&self) -> Fp {
        Fp::mk(symcore::with_arena(|z| z.xy(self.v())).0)
    }
    pub fn y(&self) -> Fp {
        Fp::mk(symcore::with_arena(|z| z.xy(self.v())).1)
    }
}
impl AsRef<blst::blst_p1_affine> for G1Affine {
    fn as_ref(&self) -> &blst::blst_p1_affine {
        unsafe { &*(self as *const Self as *const blst::blst_p1_affine) }
    }
}
impl G1Projective {
    pub fn from_raw_unchecked(x: Fp, y: Fp, z: Fp) -> Self {
        if symcore::is_zero(Kind::FpEq, z.v()) {
            return Self::mk(V::ZERO);
        }
        if z.v() == V::ONE {
            return Self::mk(symcore::with_arena(|a| a.from_xy(x.v(), y.v())));
        }
        // Jacobian
        let zi = symcore::inv(z.v());
        let z2 = symcore::mul(zi, zi);
        let z3 = symcore::mul(z2, zi);
        let (x, y) = (symcore::mul(x.v(), z2), symcore::mul(y.v(), z3));
        Self::mk(symcore::with_arena(|a| a.from_xy(x, y)))
    }
    pub fn x(&self) -> Fp {
        G1Affine::from(self).x()
    }
    pub fn y(&self) -> Fp {
        G1Affine::from(self).y()
    }
    pub fn z(&self) -> Fp {
        if bool::from(self.is_identity()) {
            Fp::ZERO
        } else {
            Fp::ONE
        }
    }
}

#[derive(Clone, Debug)]
pub struct G2Prepared {
    t: V,
    fl: u64,
}
impl From<G2Affine> for G2Prepared {
    fn from(p: G2Affine) -> Self {
        G2Prepared { t: p.v(), fl: p.fl }
    }
}
impl G2Prepared {
    pub fn is_identity(&self) -> Choice {
        Choice::from((self.fl == 0 && symcore::is_zero(Kind::PointEq, self.t)) as u8)
    }
}

#[derive(Copy, Clone, Debug)]
pub struct Gt {
    t: V,
    tainted: bool,
}
impl Default for Gt {
    fn default() -> Self {
        Gt { t: V::ZERO, tainted: false }
    }
}
impl fmt::Display for Gt {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{:?}", self)
    }
}
impl Eq for Gt {}
impl PartialEq for Gt {
    fn eq(&self, o: &Self) -> bool {
        symcore::eq(Kind::Pairing, self.t, o.t)
    }
}
impl Neg for &Gt {
    type Output = Gt;
    fn neg(self) -> Gt {
        Gt { t: symcore::neg(self.t), tainted: self.tainted }
    }
}
impl Neg for Gt {
    type Output = Gt;
    fn neg(self) -> Gt {
        -&self
    }
}
impl Add<&Gt> for &Gt {
    type Output = Gt;
    fn add(self, o: &Gt) -> Gt {
        Gt { t: symcore::add(self.t, o.t), tainted: self.tainted | o.tainted }
    }
}
impl Sub<&Gt> for &Gt {
    type Output = Gt;
    fn sub(self, o: &Gt) -> Gt {
        Gt { t: symcore::sub(self.t, o.t), tainted: self.tainted | o.tainted }
    }
}
impl Mul<&Scalar> for &Gt {
    type Output = Gt;
    fn mul(self, s: &Scalar) -> Gt {
        Gt { t: symcore::mul(self.t, s.v()), tainted: self.tainted }
    }
}
fwd!(Add, add, Gt, Gt, Gt);
fwd!(Sub, sub, Gt, Gt, Gt);
fwd!(Mul, mul, Gt, Scalar, Gt);
fwd_assign!(AddAssign, add_assign, +, Gt, Gt);
fwd_assign!(SubAssign, sub_assign, -, Gt, Gt);
fwd_assign!(MulAssign, mul_assign, *, Gt, Scalar);
impl<T: Borrow<Gt>> Sum<T> for Gt {
    fn sum<I: Iterator<Item = T>>(it: I) -> Self {
        it.fold(Gt::default(), |a, x| &a + x.borrow())
    }
}
impl Group for Gt {
    type Scalar = Scalar;
    fn random(mut rng: impl RngCore) -> Self {
        Gt { t: Scalar::random(&mut rng).v(), tainted: false }
    }
    fn identity() -> Self {
        Gt::default()
    }
    fn generator() -> Self {
        Gt { t: V::ONE, tainted: false }
    }
    fn is_identity(&self) -> Choice {
        // a pairing on a point outside the subgroup has no meaning in the model: recorded
        if self.tainted {
            symcore::with_arena(|z| z.notes.push("pairing on a point outside the subgroup".into()));
        }
        Choice::from(symcore::is_zero(Kind::Pairing, self.t) as u8)
    }
    fn double(&self) -> Self {
        self + self
    }
}

pub struct Bls12;
impl Clone for Bls12 {
    fn clone(&self) -> Self {
        Bls12
    }
}
impl Copy for Bls12 {}
impl fmt::Debug for Bls12 {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "Bls12")
    }
}
pub fn pairing(p: &G1Affine, q: &G2Affine) -> Gt {
    Gt { t: symcore::mul(p.v(), q.v()), tainted: p.fl != 0 || q.fl != 0 }
}
impl Engine for Bls12 {
    type Fr = Scalar;
    type G1 = G1Projective;
    type G1Affine = G1Affine;
    type G2 = G2Projective;
    type G2Affine = G2Affine;
    type Gt = Gt;
    fn pairing(p: &G1Affine, q: &G2Affine) -> Gt {
        pairing(p, q)
    }
}
#[derive(Copy, Clone, Debug)]
pub struct MillerLoopResult(Gt);
impl Default for MillerLoopResult {
    fn default() -> Self {
        MillerLoopResult(Gt::default())
    }
}
impl Add<&MillerLoopResult> for &MillerLoopResult {
    type Output = MillerLoopResult;
    fn add(self, o: &MillerLoopResult) -> MillerLoopResult {
        MillerLoopResult(&self.0 + &o.0)
    }
}
impl Add<MillerLoopResult> for MillerLoopResult {
    type Output = MillerLoopResult;
    fn add(self, o: MillerLoopResult) -> MillerLoopResult {
        MillerLoopResult(&self.0 + &o.0)
    }
}
impl AddAssign<MillerLoopResult> for MillerLoopResult {
    fn add_assign(&mut self, o: MillerLoopResult) {
        self.0 = &self.0 + &o.0
    }
}
impl<'a> Add<&'a MillerLoopResult> for MillerLoopResult {
    type Output = MillerLoopResult;
    fn add(self, o: &'a MillerLoopResult) -> MillerLoopResult {
        MillerLoopResult(&self.0 + &o.0)
    }
}
impl<'a> AddAssign<&'a MillerLoopResult> for MillerLoopResult {
    fn add_assign(&mut self, o: &'a MillerLoopResult) {
        self.0 = &self.0 + &o.0
    }
}
impl ::pairing::MillerLoopResult for MillerLoopResult {
    type Gt = Gt;
    fn final_exponentiation(&self) -> Gt {
        self.0
    }
}
impl MultiMillerLoop for Bls12 {
    type G2Prepared = G2Prepared;
    type Result = MillerLoopResult;
    fn multi_miller_loop(terms: &[(&G1Affine, &G2Prepared)]) -> MillerLoopResult {
        let mut acc = Gt::default();
        for (p, q) in terms {
            acc = &acc + &Gt { t: symcore::mul(p.v(), q.t), tainted: p.fl != 0 || q.fl != 0 };
        }
        MillerLoopResult(acc)
    }
}
impl PairingCurveAffine for G1Affine {
    type Pair = G2Affine;
    type PairingResult = Gt;
    fn pairing_with(&self, o: &G2Affine) -> Gt {
        pairing(self, o)
    }
}
impl PairingCurveAffine for G2Affine {
    type Pair = G1Affine;
    type PairingResult = Gt;
    fn pairing_with(&self, o: &G1Affine) -> Gt {
        pairing(o, self)
    }
}
const _: () = {
    assert!(std::mem::size_of::<G1Affine>() == 96);
    assert!(std::mem::size_of::<G1Projective>() == 144);
    assert!(std::mem::size_of::<Scalar>() == 32);
    let _ = Fr::ONE;
};
