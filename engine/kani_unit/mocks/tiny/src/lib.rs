//! The types cosets.rs uses, with the smallest scalars that tell its values apart.
pub mod bls12_381 {
    pub mod ff {
        pub trait Field: Sized + Copy {
            const ZERO: Self;
            const ONE: Self;
            fn pow_vartime<S: AsRef<[u64]>>(&self, e: S) -> Self;
        }
        pub trait PrimeField: Field {}
    }
    #[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
    pub struct Scalar(pub u8);
    impl ff::Field for Scalar {
        const ZERO: Self = Scalar(0);
        const ONE: Self = Scalar(255);
        fn pow_vartime<S: AsRef<[u64]>>(&self, _: S) -> Self {
            *self
        }
    }
}
pub mod polynomial {
    pub mod domain {
        use crate::bls12_381::Scalar;
        #[derive(Debug, Clone)]
        pub struct Domain {
            pub generator: Scalar,
            pub roots: Vec<Scalar>,
        }
        impl Domain {
            pub fn new(_: usize) -> Domain {
                Domain { generator: Scalar(1), roots: Vec::new() }
            }
        }
    }
}
