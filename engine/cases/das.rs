use super::{case, spec};
use crate::cx::{Case, Cx};
use bls12_381::Scalar;
use rust_eth_kzg::{DASContext, TrustedSetup, UsePrecomp};
use std::sync::OnceLock;
use symcore::fr::Fr;

fn hex(b: &[u8]) -> String {
    let mut s = String::from("0x");
    for x in b {
        s.push_str(&format!("{:02x}", x));
    }
    s
}
/// g1_monomial with the given discrete logs, g2_monomial = powers of tau (65)
pub fn setup(cx: &Cx, g1: &[Fr], tau: Fr, num_g2: usize) -> TrustedSetup {
    TrustedSetup {
        g1_monomial: g1.iter().map(|t| hex(&cx.g1k(*t).to_compressed())).collect(),
        g1_lagrange: vec![],
        g2_monomial: spec::powers(tau, num_g2).iter().map(|t| hex(&cx.g2k(*t).to_compressed())).collect(),
    }
}
pub fn new_ctx(ts: &TrustedSetup, pre: UsePrecomp) -> DASContext {
    #[cfg(feature = "mt")]
    return DASContext::with_threads(ts, rust_eth_kzg::ThreadCount::Multi(3), pre);
    #[cfg(not(feature = "mt"))]
    DASContext::new(ts, pre)
}
/// pseudo-random discrete logs that are NOT powers of one element
pub fn random_srs() -> &'static [Fr] {
    static S: OnceLock<Vec<Fr>> = OnceLock::new();
    S.get_or_init(|| (0..4096).map(|i| Fr::prf(&format!("srs{i}"), 11)).collect())
}
pub fn ctx_random(cx: &Cx) -> &'static DASContext {
    static C: OnceLock<DASContext> = OnceLock::new();
    C.get_or_init(|| new_ctx(&setup(cx, random_srs(), Fr::prf("tau", 1), 65), UsePrecomp::No))
}
pub fn tau() -> Fr {
    Fr::prf("tau", 1)
}
pub fn ctx_honest(cx: &Cx) -> &'static DASContext {
    static C: OnceLock<DASContext> = OnceLock::new();
    C.get_or_init(|| new_ctx(&setup(cx, &spec::powers(tau(), 4096), tau(), 65), UsePrecomp::No))
}

pub fn blob_of(s: &[Scalar]) -> Box<[u8; 131072]> {
    let mut b = vec![0u8; 131072];
    for (i, x) in s.iter().enumerate() {
        b[32 * i..32 * i + 32].copy_from_slice(&x.to_bytes_be());
    }
    b.into_boxed_slice().try_into().unwrap()
}
pub fn names(p: &str, n: usize) -> Vec<String> {
    (0..n).map(|i| format!("{p}{i}")).collect()
}
pub fn scalars_of(b: &[u8]) -> Option<Vec<Scalar>> {
    b.chunks(32)
        .map(|c| Option::<Scalar>::from(Scalar::from_bytes_be(c.try_into().unwrap())))
        .collect()
}
/// evaluation points of all cells in order: w_8192^bitrev13(64k+j)
pub fn cell_points() -> Vec<Fr> {
    let w = spec::powers(spec::root(8192), 8192);
    (0..8192).map(|o| w[spec::bitrev(o, 13)]).collect()
}
pub fn blob_points() -> Vec<Fr> {
    let w = spec::powers(spec::root(4096), 4096);
    (0..4096).map(|o| w[spec::bitrev(o, 12)]).collect()
}

pub fn cells(_thorough: bool) -> Vec<Case> {
    let mut v = vec![case("cells/full", 1, 0, 0, Box::new(|cx| {
        let c = ctx_random(cx);
        let x = super::poly::vars(cx, "b", 4096);
        let blob = blob_of(&x);
        let r = c.compute_cells_and_kzg_proofs(&blob);
        cx.ok("accepts canonical blob", r.is_ok(), || format!("{:?}", r.as_ref().err()));
        let Ok((cells, _)) = r else { return };
        let mut outs = vec![];
        for (k, cell) in cells.iter().enumerate() {
            match scalars_of(&cell[..]) {
                Some(v) => outs.extend(v),
                None => cx.ok("cells canonical", false, || format!("cell {k}")),
            }
            if k < 64 {
                cx.ok("systematic", cell[..] == blob[2048 * k..2048 * (k + 1)], || format!("cell {k} is not blob chunk {k}"));
            }
        }
        let (zs, xs) = (cell_points(), blob_points());
        let zn: Vec<Fr> = zs.iter().map(|z| z.pow_u(4096)).collect();
        cx.lin_s("cell evaluations", &outs, &names("b", 4096), Box::new(move |m| spec::lagrange_column(4096, xs[m], &zs, &zn)));
    }))];
    v.extend(super::structured::cells());
    v.extend(super::structured::byte_patterns(false));
    v
}

pub fn point_of(b: &[u8; 48]) -> Option<bls12_381::G1Projective> {
    let p: Option<bls12_381::G1Point> = Option::from(bls12_381::G1Point::from_compressed(b));
    p.map(|p| p.into())
}
/// proof matrix of the random setup at production size
pub fn full_matrix() -> &'static Vec<Vec<Fr>> {
    static M: OnceLock<Vec<Vec<Fr>>> = OnceLock::new();
    M.get_or_init(|| spec::proof_matrix(random_srs(), 4096, 64, 8192))
}
pub fn proofs(thorough: bool) -> Vec<Case> {
    let mut v = vec![case("proofs/full", 1, 0, 0, Box::new(|cx| {
        let c = ctx_random(cx);
        let x = super::poly::vars(cx, "b", 4096);
        let r = c.compute_cells_and_kzg_proofs(&blob_of(&x));
        cx.ok("accepts canonical blob", r.is_ok(), || format!("{:?}", r.as_ref().err()));
        let Ok((_, proofs)) = r else { return };
        let mut outs = vec![];
        for (k, p) in proofs.iter().enumerate() {
            match point_of(p) {
                Some(p) => outs.push(p),
                None => {
                    cx.ok("proof is a valid point", false, || format!("proof {k}"));
                    return;
                }
            }
        }
        let m = full_matrix();
        cx.lin_g("proofs are quotient commitments", &outs, &names("b", 4096), Box::new(move |j| m.iter().map(|r| r[j]).collect()));
    }))];
    v.extend(super::structured::proofs());
    v.extend(super::structured::sparse_setups(thorough, true));
    v.extend(super::fk20::proofs(thorough));
    v
}
pub fn commitment(thorough: bool) -> Vec<Case> {
    let mut v = vec![case("commitment/full", 1, 0, 0, Box::new(|cx| {
        let c = ctx_random(cx);
        let x = super::poly::vars(cx, "b", 4096);
        let r = c.blob_to_kzg_commitment(&blob_of(&x));
        cx.ok("accepts canonical blob", r.is_ok(), || format!("{:?}", r.as_ref().err()));
        let Ok(b) = r else { return };
        let p = point_of(&b);
        cx.ok("commitment is a valid point", p.is_some(), || format!("{:x?}", b));
        let Some(p) = p else { return };
        let row = spec::commit_row(random_srs(), 4096);
        cx.lin_g("commitment is sum f_i s_i", &[p], &names("b", 4096), Box::new(move |j| vec![row[j]]));
    }))];
    v.extend(super::structured::commitments());
    v.extend(super::structured::sparse_setups(thorough, false));
    v.extend(super::fk20::commitments(thorough));
    v
}
