//! Signatures only: the harnesses do not reach them.
use bls12_381::{fixed_base_msm::UsePrecomp, G1Point, G2Point, Scalar};
pub fn recover_evaluations_in_domain_order(_: usize, _: Vec<usize>, _: Vec<Vec<Scalar>>) -> Option<(Vec<usize>, Vec<Scalar>)> {
    unreachable!()
}
pub fn reverse_bit_order<T>(_: &mut [T]) {
    unreachable!()
}
#[path = "/repo/cryptography/kzg_multi_open/src/fk20/errors.rs"]
mod errors;
pub use errors::VerifierError;

pub type CommitmentIndex = u64;
pub type CosetIndex = u64;

pub mod commit_key {
    use super::*;
    #[derive(Debug, Clone)]
    pub struct CommitKey {
        pub g1s: Vec<G1Point>,
    }
    impl CommitKey {
        pub fn new(g1s: Vec<G1Point>) -> CommitKey {
            CommitKey { g1s }
        }
    }
}
pub mod verification_key {
    use super::*;
    #[derive(Debug, Clone)]
    pub struct VerificationKey {
        pub g1s: Vec<G1Point>,
        pub g2s: Vec<G2Point>,
        pub coset_size: usize,
        pub num_coefficients_in_polynomial: usize,
    }
    impl VerificationKey {
        pub fn new(g1s: Vec<G1Point>, g2s: Vec<G2Point>, coset_size: usize, num_coefficients_in_polynomial: usize) -> Self {
            VerificationKey { g1s, g2s, coset_size, num_coefficients_in_polynomial }
        }
    }
}
pub enum ProverInput {
    PolyCoeff(Vec<Scalar>),
    Data(Vec<Scalar>),
}
#[derive(Debug)]
pub struct Prover {
    pub num_proofs: usize,
}
impl Prover {
    pub fn new(_: commit_key::CommitKey, _bound: usize, set: usize, points: usize, _: UsePrecomp) -> Prover {
        Prover { num_proofs: points / set }
    }
    pub fn num_proofs(&self) -> usize {
        self.num_proofs
    }
    pub fn commit(&self, _: ProverInput) -> G1Point {
        unreachable!()
    }
    pub fn compute_multi_opening_proofs(&self, _: ProverInput) -> (Vec<G1Point>, Vec<Vec<Scalar>>) {
        unreachable!()
    }
}
#[derive(Debug)]
pub struct Verifier;
impl Verifier {
    pub fn new(_: verification_key::VerificationKey, _: usize, _: usize) -> Verifier {
        Verifier
    }
    pub fn verify_multi_opening(
        &self,
        _: &[G1Point],
        _: &[CommitmentIndex],
        _: &[CosetIndex],
        _: &[Vec<Scalar>],
        _: &[G1Point],
    ) -> Result<(), VerifierError> {
        unreachable!()
    }
}
