//! Contracts of the functions of the API layer that look at sizes, indices and encodings, for every value of these.
//! Names given to the values are the parameters of the replay cases (engine/cases/solver.rs).
#![allow(dead_code, unused_imports)]
#[path = "../../kani_common/nd.rs"]
pub mod nd;
use bls12_381::canonical;
use rust_eth_kzg::kani_access as acc;

macro_rules! harnesses {
    ($($feat:literal $u:literal $n:ident $e:expr;)*) => {
        #[cfg(kani)]
        mod proofs {
            use super::*;
            $(#[cfg(feature = $feat)] #[kani::proof] #[kani::unwind($u)] fn $n() { $e })*
        }
        pub fn run(name: &str) {
            match name {
                $(#[cfg(feature = $feat)] stringify!($n) => $e,)*
                _ => panic!("no such harness"),
            }
        }
    };
}
static CELL: [u8; 2048] = [0; 2048];
static POINT: [u8; 48] = [0; 48];

/// lists of every length up to N (symbolic), every index
#[cfg(feature = "k_validate")]
fn validate<const N: usize>() {
    let (nc, ni, ne, np) = (nd::upto("nc", N), nd::upto("ni", N), nd::upto("ne", N), nd::upto("np", N));
    let mut idx = [0u64; N];
    let mut rows = [0u64; N];
    let mut i = 0;
    while i < N {
        idx[i] = nd::u64i("x", i);
        // deduplication yields rows 0, at most 1, at most 2, ...
        rows[i] = nd::u64i("r", i);
        nd::assume(rows[i] <= i as u64);
        i += 1;
    }
    let mut distinct = 0;
    let mut i = 0;
    while i < nc {
        nd::assume(rows[i] <= distinct);
        if rows[i] == distinct {
            distinct += 1;
        }
        i += 1;
    }
    let cells = [&CELL; N];
    let pts = [&POINT; N];
    let r = acc::verifier::validate(&pts[..distinct as usize], &rows[..nc], &idx[..ni], &cells[..ne], &pts[..np]);
    let mut in_range = true;
    let mut i = 0;
    while i < ni {
        in_range &= idx[i] < 128;
        i += 1;
    }
    let good = nc == ni && nc == ne && nc == np && in_range;
    match r {
        Ok(()) => assert!(good, "malformed batch accepted"),
        Err(e) => {
            assert!(!good, "well-formed batch refused");
            assert!(!e.invalid_proof(), "malformed batch reported as an invalid proof");
        }
    }
}

/// the distinct items in order of first appearance, and each item's position among them
#[cfg(feature = "k_dedup")]
fn dedup<const N: usize>() {
    let mut v = [0u8; N];
    let mut i = 0;
    while i < N {
        v[i] = nd::u64i("r", i) as u8;
        i += 1;
    }
    nd::note("n", N as u64);
    let (u, ix) = acc::verifier::dedup(v.to_vec());
    assert!(ix.len() == N, "a row index per item");
    let mut next = 0u64;
    let mut i = 0;
    while i < N {
        assert!(ix[i] <= next, "rows in order of first appearance");
        if ix[i] == next {
            let mut j = 0;
            while j < i {
                assert!(v[j] != v[i], "repeated item listed twice");
                j += 1;
            }
            next += 1;
        }
        assert!((ix[i] as usize) < u.len() && u[ix[i] as usize] == v[i], "row of another item");
        i += 1;
    }
    assert!(u.len() as u64 == next, "number of distinct items");
}

/// n cells with n unknown indices
#[cfg(feature = "k_recover")]
fn recover_n<const N: usize>(m: usize) {
    let mut idx = [0u64; N];
    nd::note("n", N as u64);
    nd::note("m", m as u64);
    let mut i = 0;
    while i < N {
        idx[i] = nd::u64i("x", i);
        i += 1;
    }
    let cells = [&CELL; 130];
    let r = acc::recovery::validate(&idx, &cells[..m]);
    if N != m || N < 64 || N > 128 {
        assert!(r.is_err(), "wrong number of cells accepted");
        return;
    }
    // one out of range or repeated index, whichever
    match r {
        Ok(()) => {
            let (a, b) = (nd::upto("", N - 1), nd::upto("", N - 1));
            assert!(idx[a] < 128, "index out of range accepted");
            assert!(a == b || idx[a] != idx[b], "repeated index accepted");
        }
        Err(_) => {
            let mut good = true;
            let mut seen = 0u128;
            let mut i = 0;
            while i < N {
                good &= idx[i] < 128 && seen >> (idx[i] & 127) & 1 == 0;
                seen |= 1 << (idx[i] & 127);
                i += 1;
            }
            assert!(!good, "distinct indices in range refused");
        }
    }
}

#[cfg(feature = "k_scalar")]
fn scalars<const B: usize>(cell: bool) {
    let b: [u8; B] = nd::bytes();
    let r = if cell { acc::serialization::cell_scalars(&b) } else { acc::serialization::scalars(&b) };
    let mut good = B % 32 == 0;
    let mut k = 0;
    while k < B / 32 {
        let mut e = [0u8; 32];
        e.copy_from_slice(&b[32 * k..32 * k + 32]);
        let c = canonical(&e);
        if !c {
            nd::element(&e);
        }
        good &= c;
        k += 1;
    }
    if good && B >= 32 {
        let mut e = [0u8; 32];
        e.copy_from_slice(&b[..32]);
        nd::element(&e);
    }
    match r {
        Ok(v) => {
            assert!(good, "non-canonical element accepted");
            assert!(v.len() == B / 32, "number of elements");
            let mut k = 0;
            while k < B / 32 {
                let mut j = 0;
                let got = v[k].0;
                while j < 32 {
                    assert!(got[j] == b[32 * k + j], "element changed");
                    j += 1;
                }
                k += 1;
            }
        }
        Err(e) => {
            assert!(!good, "canonical elements refused");
            assert!(matches!(e, rust_eth_kzg::Error::Serialization(_)), "another kind of error");
        }
    }
}

/// 64 elements, the N from position P on unknown
#[cfg(feature = "k_cell")]
fn cell<const N: usize>(p: usize) {
    let mut v = [bls12_381::Scalar([0; 32]); 64];
    let mut i = 0;
    while i < 64 {
        v[i].0[31] = i as u8;
        i += 1;
    }
    nd::note("p", p as u64);
    nd::note("n", N as u64);
    let mut k = 0;
    while k < N {
        let e: [u8; 32] = nd::bytes();
        nd::assume(canonical(&e));
        nd::element_i(k, &e);
        v[p + k].0 = e;
        k += 1;
    }
    let b = acc::serialization::cell(&v);
    assert!(b.len() == 2048, "bytes of a cell");
    // one byte, whichever
    let (i, j) = (nd::upto("", 63), nd::upto("", 31));
    assert!(b[32 * i + j] == v[i].0[j], "bytes of an element");
}

/// byte 47 odd: not a point of the curve; byte 46 odd: outside the subgroup
#[cfg(feature = "k_point")]
fn points<const N: usize>() {
    nd::note("n", N as u64);
    let mut b = [[0u8; 48]; N];
    let mut good = true;
    let mut i = 0;
    while i < N {
        let k = nd::u64i("k", i);
        nd::assume(k <= 3);
        b[i][47] = (k & 1) as u8;
        b[i][46] = (k >> 1) as u8;
        b[i][0] = nd::u64i("", i) as u8;
        good &= k == 0;
        i += 1;
    }
    let mut v: Vec<&[u8; 48]> = Vec::with_capacity(N);
    let mut i = 0;
    while i < N {
        v.push(&b[i]);
        i += 1;
    }
    match acc::serialization::points(v) {
        Ok(p) => {
            assert!(good, "invalid point accepted");
            assert!(p.len() == N, "number of points");
            let mut i = 0;
            while i < N {
                assert!(p[i].0[0] == b[i][0], "points reordered");
                i += 1;
            }
        }
        Err(e) => {
            assert!(!good, "valid points refused");
            assert!(matches!(e, rust_eth_kzg::Error::Serialization(_)), "another kind of error");
        }
    }
}

#[cfg(feature = "k_cosets")]
mod cosets {
    include!(concat!(env!("CARGO_MANIFEST_DIR"), "/cosets.rs"));
}
#[cfg(feature = "k_cosets")]
use tiny::bls12_381::Scalar;

fn bitrev(x: usize, n: usize) -> usize {
    let (mut x, mut r, mut n) = (x, 0, n);
    while n > 1 {
        r = r << 1 | (x & 1);
        x >>= 1;
        n >>= 1;
    }
    r
}
/// K cosets of the given lengths, every index
#[cfg(feature = "k_cosets")]
fn reorder<const N: usize, const K: usize>(len: [usize; K]) {
    nd::note("size", N as u64);
    nd::note("n", K as u64);
    let mut idx = [0usize; K];
    let mut ev: Vec<Vec<Scalar>> = Vec::with_capacity(K);
    let mut i = 0;
    while i < K {
        idx[i] = nd::u64i("x", i) as usize;
        nd::note_i("l", i, len[i] as u64);
        let mut v = Vec::with_capacity(len[i]);
        let mut j = 0;
        while j < len[i] {
            v.push(Scalar(16 * (i as u8 + 1) + j as u8));
            j += 1;
        }
        ev.push(v);
        i += 1;
    }
    let mut shape = K > 0;
    let mut i = 0;
    while i < K {
        shape &= len[i] == len[0] && len[i] > 0 && len[i] <= N && idx[i] < N / len[i];
        let mut j = 0;
        while j < i {
            // the caller's obligation
            nd::assume(idx[i] != idx[j]);
            j += 1;
        }
        i += 1;
    }
    let r = cosets::recover_evaluations_in_domain_order(N, idx.to_vec(), ev);
    let Some((new, el)) = r else {
        assert!(!shape, "well-formed cosets refused");
        return;
    };
    assert!(shape, "malformed cosets accepted");
    assert!(new.len() == K && el.len() == N, "sizes");
    let mut filled = [false; N];
    let mut i = 0;
    while i < K {
        assert!(new[i] == bitrev(idx[i], N / len[0]), "index not bit-reversed");
        let mut j = 0;
        while j < len[0] {
            let p = bitrev(idx[i] * len[0] + j, N);
            assert!(el[p].0 == 16 * (i as u8 + 1) + j as u8, "value misplaced");
            filled[p] = true;
            j += 1;
        }
        i += 1;
    }
    let mut p = 0;
    while p < N {
        assert!(filled[p] || el[p].0 == 0, "missing value not zero");
        p += 1;
    }
}

harnesses! {
    "k_validate" 5 validate_3 validate::<3>();
    "k_validate" 8 validate_6 validate::<6>();
    "k_validate" 14 validate_12 validate::<12>();
    "k_dedup" 6 dedup_3 dedup::<3>();
    "k_dedup" 8 dedup_5 dedup::<5>();
    "k_dedup" 10 dedup_7 dedup::<7>();
    "k_recover" 3 recover_0 recover_n::<0>(0);
    "k_recover" 66 recover_63 recover_n::<63>(63);
    "k_recover" 67 recover_64 recover_n::<64>(64);
    "k_recover" 67 recover_64_63 recover_n::<64>(63);
    "k_recover" 67 recover_64_65 recover_n::<64>(65);
    "k_recover" 103 recover_100 recover_n::<100>(100);
    "k_recover" 131 recover_128 recover_n::<128>(128);
    "k_recover" 132 recover_129 recover_n::<129>(129);
    "k_scalar" 34 scalars_1 scalars::<32>(false);
    "k_scalar" 34 scalars_2 scalars::<64>(false);
    "k_scalar" 34 scalars_4 scalars::<128>(false);
    "k_scalar" 34 scalars_ragged scalars::<33>(false);
    "k_scalar" 34 scalars_short scalars::<31>(false);
    "k_scalar" 34 cell_scalars_2 scalars::<64>(true);
    "k_scalar" 34 cell_scalars_4 scalars::<128>(true);
    "k_cell" 66 cell_first cell::<3>(0);
    "k_cell" 66 cell_last cell::<3>(61);
    "k_cell" 66 cell_all cell::<64>(0);
    "k_point" 4 points_1 points::<1>();
    "k_point" 5 points_2 points::<2>();
    "k_point" 6 points_3 points::<3>();
    "k_cosets" 10 reorder_none reorder::<4, 0>([]);
    "k_cosets" 10 reorder_empty reorder::<4, 2>([0, 0]);
    "k_cosets" 10 reorder_8_1x2 reorder::<8, 1>([2]);
    "k_cosets" 10 reorder_8_2x2 reorder::<8, 2>([2, 2]);
    "k_cosets" 10 reorder_8_3x2 reorder::<8, 3>([2, 2, 2]);
    "k_cosets" 10 reorder_8_2x4 reorder::<8, 2>([4, 4]);
    "k_cosets" 10 reorder_8_1x8 reorder::<8, 1>([8]);
    "k_cosets" 10 reorder_4_1x8 reorder::<4, 1>([8]);
    "k_cosets" 10 reorder_4_4x1 reorder::<4, 4>([1, 1, 1, 1]);
    "k_cosets" 18 reorder_16_2x4 reorder::<16, 2>([4, 4]);
    "k_cosets" 10 reorder_8_2_1 reorder::<8, 2>([2, 1]);
    "k_cosets" 10 reorder_8_2_2_4 reorder::<8, 3>([2, 2, 4]);
    "k_cosets" 10 reorder_8_2_0 reorder::<8, 2>([2, 0]);
}
