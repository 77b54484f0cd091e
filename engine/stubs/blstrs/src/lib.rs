//! Stand-in for `blstrs` 0.7.1 with the same public interface.  Groups are modelled by discrete
//! logarithms (symbolic F_r values), the pairing by multiplication of discrete logarithms.
//! Affine coordinates are those of the cuspidal cubic y^2 = x^3 (x = t^-2, y = t^-3), on which
//! the chord-and-tangent formulas for a = 0 curves are exact and the group is (F_r, +).
#![allow(clippy::all)]
pub(crate) use core::{
    borrow::Borrow,
    cmp, fmt,
    iter::{Product, Sum},
    ops::{Add, AddAssign, Mul, MulAssign, Neg, Sub, SubAssign},
};
pub(crate) use ff::{Field, PrimeField};
pub(crate) use group::{
    prime::{PrimeCurve, PrimeCurveAffine, PrimeGroup},
    Curve, Group, GroupEncoding, UncompressedEncoding, WnafGroup,
};
pub(crate) use rand_core::RngCore;
pub(crate) use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};
pub(crate) use symcore::{Decoded, Kind, V};

#[macro_use]
mod macros;
mod fp;
mod groups;
mod scalar;

pub use groups::{
    pairing, Bls12, Compress, G1Affine, G1Compressed, G1Projective, G1Uncompressed, G2Affine, G2Compressed,
    G2Prepared, G2Projective, G2Uncompressed, Gt, MillerLoopResult,
};
pub use scalar::Scalar;
#[cfg(feature = "__private_bench")]
pub use fp::Fp;
#[cfg(not(feature = "__private_bench"))]
pub(crate) use fp::Fp;
