//! Records the call; the outcome is the harness's choice.
use bls12_381::Scalar;
#[path = "/repo/cryptography/erasure_codes/src/errors.rs"]
pub mod errors;
use errors::RSError;

#[derive(Debug, Clone)]
pub struct BlockErasureIndices(pub Vec<usize>);
#[derive(Debug, Clone)]
pub struct ReedSolomon {
    pub poly_len: usize,
    pub expansion_factor: usize,
    pub block_size: usize,
}
pub struct Rec {
    pub calls: u32,
    pub word: [Scalar; MAX],
    pub word_len: usize,
    pub erased: [bool; MAX],
    pub erased_bad: bool,
    pub ok: bool,
    pub out: [Scalar; MAX],
}
pub const MAX: usize = 16;
pub static mut REC: Rec = Rec { calls: 0, word: [Scalar([0; 32]); MAX], word_len: 0, erased: [false; MAX], erased_bad: false, ok: false, out: [Scalar([0; 32]); MAX] };
pub fn rec() -> &'static mut Rec {
    unsafe { &mut *(&raw mut REC) }
}
impl ReedSolomon {
    pub fn new(poly_len: usize, expansion_factor: usize, block_size: usize) -> Self {
        ReedSolomon { poly_len, expansion_factor, block_size }
    }
    pub fn acceptable_num_block_erasures(&self) -> usize {
        let n = self.codeword_length();
        (n - self.poly_len) / (n / self.block_size)
    }
    pub fn codeword_length(&self) -> usize {
        self.poly_len * self.expansion_factor
    }
    pub fn recover_polynomial_coefficient(&self, word: Vec<Scalar>, erased: BlockErasureIndices) -> Result<Vec<Scalar>, RSError> {
        let r = rec();
        r.calls += 1;
        r.word_len = word.len();
        let mut i = 0;
        while i < word.len() && i < MAX {
            r.word[i] = word[i];
            i += 1;
        }
        let mut i = 0;
        while i < erased.0.len() {
            let e = erased.0[i];
            if e >= self.block_size || r.erased[e] {
                r.erased_bad = true;
            } else {
                r.erased[e] = true;
            }
            i += 1;
        }
        if r.ok {
            Ok(r.out[..self.poly_len].to_vec())
        } else {
            Err(RSError::PolynomialHasInvalidLength { num_coefficients: 0, expected_num_coefficients: 0 })
        }
    }
}
