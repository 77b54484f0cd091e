//! The cases: each drives the real code on symbolic inputs and states claims about it.
//! Compiled twice: against the symbolic stand-ins (symx) and against the real libraries (natx).
use crate::cx::{Budget, Case, CaseFn};

pub mod algebra;
#[cfg(feature = "capi")]
pub mod capi;
pub mod codec;
pub mod das;
pub mod fk20;
pub mod poly;
pub mod recover;
pub mod setup;
pub mod solver;
pub mod spec;
pub mod structured;
pub mod verify;

pub fn case(name: impl Into<String>, paths: usize, flips: usize, raw: usize, f: CaseFn) -> Case {
    Case { name: name.into(), f, budget: Budget { paths, flips, raw } }
}

pub fn cases(prop: &str, thorough: bool) -> Vec<Case> {
    match prop {
        "C01" => das::cells(thorough),
        "C02" => recover::roundtrip(thorough),
        "C03" => recover::reject(thorough),
        "C05" => {
            let mut v = verify::small(thorough, false);
            v.extend(verify::full(thorough, false));
            v
        }
        "C06" => {
            let mut v = verify::small(thorough, true);
            v.extend(verify::full(thorough, true));
            v
        }
        "C07" => verify::complete(thorough),
        "C08" => verify::validation(thorough),
        "C09" => codec::scalars(thorough),
        "C10" => codec::points(thorough),
        "C12" => algebra::msm(thorough),
        "C21" => setup::independent(thorough),
        "C22" => setup::setup_cases(thorough),
        "C14" => algebra::batches(thorough),
        "C15" => algebra::lincombs(thorough),
        "C16" => algebra::polynomials(thorough),
        "C23" => algebra::reorder(thorough),
        "C17" => recover::codec_all(thorough),
        "C04" => das::proofs(thorough),
        "C18" => das::commitment(thorough),
        "C11" => poly::fft(thorough),
        #[cfg(feature = "capi")]
        "C19" => capi::cases(thorough),
        "K" => solver::cases(),
        _ => vec![],
    }
}
