//! The interface of rust_eth_kzg at sizes a model checker can hold, every size different, with scripted outcomes and a
//! record of what it was given.
#![allow(static_mut_refs)]
pub mod constants {
    pub const BYTES_PER_FIELD_ELEMENT: usize = 3;
    pub const FIELD_ELEMENTS_PER_CELL: usize = 6;
    pub const FIELD_ELEMENTS_PER_BLOB: usize = 8;
    pub const BYTES_PER_BLOB: usize = 8;
    pub const BYTES_PER_CELL: usize = 4;
    pub const EXPANSION_FACTOR: usize = 2;
    pub const FIELD_ELEMENTS_PER_EXT_BLOB: usize = 16;
    pub const CELLS_PER_EXT_BLOB: usize = 2;
    pub const NUM_PROOFS: usize = CELLS_PER_EXT_BLOB;
    pub const BYTES_PER_COMMITMENT: usize = 2;
    pub const RECOMMENDED_PRECOMP_WIDTH: usize = 9;
}
use constants::*;

pub type BlobRef<'a> = &'a [u8; BYTES_PER_BLOB];
pub type Bytes48Ref<'a> = &'a [u8; BYTES_PER_COMMITMENT];
pub type Cell = Box<[u8; BYTES_PER_CELL]>;
pub type CellRef<'a> = &'a [u8; BYTES_PER_CELL];
pub type KZGProof = [u8; BYTES_PER_COMMITMENT];
pub type KZGCommitment = [u8; BYTES_PER_COMMITMENT];
pub type CellIndex = u64;

/// what the next call returns, and what the last call was given
pub mod script {
    use super::*;
    pub const MAX: usize = 4;
    #[derive(Clone, Copy)]
    pub struct Script {
        /// 0 success, 1 invalid proof, 2 another error
        pub outcome: u8,
        pub commitment: KZGCommitment,
        // no nested arrays: CBMC is not always right about them
        pub cells_out: ([u8; BYTES_PER_CELL], [u8; BYTES_PER_CELL]),
        pub proofs_out: (KZGProof, KZGProof),
        pub calls: [u8; 4],
        pub blob: [u8; BYTES_PER_BLOB],
        pub n: [usize; 4],
        pub comms: [KZGCommitment; MAX],
        pub indices: [u64; MAX],
        pub cells: [[u8; BYTES_PER_CELL]; MAX],
        pub proofs: [KZGProof; MAX],
        pub threads: usize,
        pub width: Option<usize>,
        pub live: isize,
    }
    pub static mut S: Script = Script {
        outcome: 0,
        commitment: [0; BYTES_PER_COMMITMENT],
        cells_out: ([0; BYTES_PER_CELL], [0; BYTES_PER_CELL]),
        proofs_out: ([0; BYTES_PER_COMMITMENT], [0; BYTES_PER_COMMITMENT]),
        calls: [0; 4],
        blob: [0; BYTES_PER_BLOB],
        n: [0; 4],
        comms: [[0; BYTES_PER_COMMITMENT]; MAX],
        indices: [0; MAX],
        cells: [[0; BYTES_PER_CELL]; MAX],
        proofs: [[0; BYTES_PER_COMMITMENT]; MAX],
        threads: 0,
        width: None,
        live: 0,
    };
    pub fn s() -> &'static mut Script {
        unsafe { &mut *std::ptr::addr_of_mut!(S) }
    }
    pub(crate) fn fill<const N: usize>(slot: usize, to: &mut [[u8; N]; MAX], from: &[&[u8; N]]) {
        s().n[slot] = from.len();
        let mut i = 0;
        while i < from.len() && i < MAX {
            to[i] = *from[i];
            i += 1;
        }
    }
    pub(crate) fn fill_indices(from: &[u64]) {
        s().n[1] = from.len();
        let mut i = 0;
        while i < from.len() && i < MAX {
            s().indices[i] = from[i];
            i += 1;
        }
    }
}
use script::s;

#[derive(Debug)]
pub enum Error {
    InvalidProof,
    Other,
}
impl Error {
    pub fn invalid_proof(&self) -> bool {
        matches!(self, Error::InvalidProof)
    }
}
fn outcome() -> Result<(), Error> {
    match s().outcome {
        0 => Ok(()),
        1 => Err(Error::InvalidProof),
        _ => Err(Error::Other),
    }
}

#[derive(Debug, Copy, Clone)]
pub enum ThreadCount {
    Single,
    Multi(usize),
    SensibleDefault,
}
impl From<ThreadCount> for usize {
    fn from(v: ThreadCount) -> usize {
        match v {
            ThreadCount::Single => 1,
            ThreadCount::Multi(n) => n,
            ThreadCount::SensibleDefault => 0,
        }
    }
}
#[derive(Debug, Copy, Clone)]
pub enum UsePrecomp {
    Yes { width: usize },
    No,
}
#[derive(Debug, Default, Clone)]
pub struct TrustedSetup(());

#[derive(Debug)]
pub struct DASContext(u8);
impl Default for DASContext {
    fn default() -> Self {
        Self::with_threads(&TrustedSetup::default(), ThreadCount::Single, UsePrecomp::No)
    }
}
impl Drop for DASContext {
    fn drop(&mut self) {
        s().live -= 1;
    }
}
impl DASContext {
    pub fn with_threads(_: &TrustedSetup, t: ThreadCount, p: UsePrecomp) -> Self {
        s().threads = t.into();
        s().width = match p {
            UsePrecomp::Yes { width } => Some(width),
            UsePrecomp::No => None,
        };
        s().live += 1;
        DASContext(1)
    }
    fn out(&self) -> ([Cell; CELLS_PER_EXT_BLOB], [KZGProof; CELLS_PER_EXT_BLOB]) {
        ([Box::new(s().cells_out.0), Box::new(s().cells_out.1)], [s().proofs_out.0, s().proofs_out.1])
    }
    pub fn blob_to_kzg_commitment(&self, blob: BlobRef) -> Result<KZGCommitment, Error> {
        s().calls[0] += 1;
        s().blob = *blob;
        outcome().map(|_| s().commitment)
    }
    #[allow(clippy::type_complexity)]
    pub fn compute_cells_and_kzg_proofs(&self, blob: BlobRef) -> Result<([Cell; CELLS_PER_EXT_BLOB], [KZGProof; CELLS_PER_EXT_BLOB]), Error> {
        s().calls[1] += 1;
        s().blob = *blob;
        outcome().map(|_| self.out())
    }
    #[allow(clippy::type_complexity)]
    pub fn recover_cells_and_kzg_proofs(
        &self,
        cell_indices: Vec<CellIndex>,
        cells: Vec<CellRef>,
    ) -> Result<([Cell; CELLS_PER_EXT_BLOB], [KZGProof; CELLS_PER_EXT_BLOB]), Error> {
        s().calls[2] += 1;
        script::fill_indices(&cell_indices);
        script::fill(2, &mut s().cells, &cells);
        outcome().map(|_| self.out())
    }
    pub fn verify_cell_kzg_proof_batch(
        &self,
        commitments: Vec<Bytes48Ref>,
        cell_indices: Vec<CellIndex>,
        cells: Vec<CellRef>,
        proofs: Vec<Bytes48Ref>,
    ) -> Result<(), Error> {
        s().calls[3] += 1;
        script::fill(0, &mut s().comms, &commitments);
        script::fill_indices(&cell_indices);
        script::fill(2, &mut s().cells, &cells);
        script::fill(3, &mut s().proofs, &proofs);
        outcome()
    }
}
