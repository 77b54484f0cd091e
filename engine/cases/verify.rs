//! Batch verification: the batched equation, the challenge transcript, completeness, validation.
use super::das::*;
use super::recover::shuffled;
use super::{case, spec};
use crate::cx::{Case, Cx};
use bls12_381::fixed_base_msm::UsePrecomp;
use bls12_381::{g1_batch_normalize, g2_batch_normalize, G1Point, G1Projective, Scalar};
use kzg_multi_open::commit_key::CommitKey;
use kzg_multi_open::verification_key::VerificationKey;
use kzg_multi_open::{Prover, ProverInput, Verifier};
use rust_eth_kzg::{DASContext, Error};
use symcore::fr::Fr;

/// One multi-opening statement: commitment number, coset number.
type Shape = Vec<(usize, usize)>;

pub struct Dims {
    pub n: usize,
    pub ell: usize,
    pub npts: usize,
}
impl Dims {
    pub fn cosets(&self) -> usize {
        self.npts / self.ell
    }
    /// h_k: first point of coset k
    pub fn gen(&self, k: usize) -> Fr {
        spec::root(self.npts).pow_u(spec::bitrev(k, spec::log2(self.cosets())) as u64)
    }
    /// matrix m[i][j]: coefficient i of the interpolation polynomial of the values e_j on coset k
    pub fn interp(&self, k: usize) -> Vec<Vec<Fr>> {
        let inv = Fr::from_u64(self.ell as u64).inv();
        let xs = spec::coset_points(self.npts, self.ell, k);
        let xi: Vec<Fr> = xs.iter().map(|x| x.inv()).collect();
        (0..self.ell).map(|i| xi.iter().map(|x| x.pow_u(i as u64).mul(inv)).collect()).collect()
    }
}

/// residuals: c_row - I_k(s) + h_k^ell w - (t/u) w, with s = setup logs, all scaled by u (log of the G2 generator)
#[allow(clippy::too_many_arguments)]
fn residuals(cx: &Cx, d: &Dims, shape: &Shape, c: &[Scalar], e: &[Vec<Scalar>], w: &[Scalar], s: &[Scalar], u: &Scalar, t: &Scalar) -> Vec<Scalar> {
    shape
        .iter()
        .enumerate()
        .map(|(k, (row, col))| {
            let m = d.interp(*col);
            let mut i_at = Scalar::from(0u64);
            for i in 0..d.ell {
                i_at += super::poly::dot(cx, &e[k], &m[i]) * s[i];
            }
            let hn = cx.sc(d.gen(*col).pow_u(d.ell as u64));
            (c[*row] - i_at + w[k] * hn) * *u - w[k] * *t
        })
        .collect()
}
fn combine(r: &Scalar, res: &[Scalar]) -> Scalar {
    let (mut acc, mut p) = (Scalar::from(0u64), Scalar::from(1u64));
    for x in res {
        acc += *x * p;
        p *= *r;
    }
    acc
}
fn frs(cx: &Cx, x: &[Scalar]) -> Vec<Fr> {
    x.iter().map(|s| cx.val(s)).collect()
}

pub fn expected_transcript(d: &Dims, nc: usize, comms: &[[u8; 48]], items: &[(u64, u64, Vec<[u8; 32]>, [u8; 48])]) -> Vec<u8> {
    let mut v = b"RCKZGCBATCH__V1_".to_vec();
    v.extend((d.n as u64).to_be_bytes());
    v.extend((d.ell as u64).to_be_bytes());
    v.extend((nc as u64).to_be_bytes());
    v.extend((items.len() as u64).to_be_bytes());
    for c in comms {
        v.extend(c);
    }
    for (row, col, evals, proof) in items {
        v.extend(row.to_be_bytes());
        v.extend(col.to_be_bytes());
        for e in evals {
            v.extend(e);
        }
        v.extend(proof);
    }
    v
}
/// the transcript must be the expected byte string; on the way every field element and point
/// that went into it is compared symbolically
fn check_transcript(cx: &mut Cx, got: &[u8], d: &Dims, comms: &[G1Point], items: &[(u64, u64, Vec<Scalar>, G1Point)]) {
    let enc: Vec<_> = items.iter().map(|(a, b, e, p)| (*a, *b, e.iter().map(|x| x.to_bytes_be()).collect::<Vec<_>>(), p.to_compressed())).collect();
    let cb: Vec<[u8; 48]> = comms.iter().map(|c| c.to_compressed()).collect();
    let want = expected_transcript(d, comms.len(), &cb, &enc);
    cx.ok("transcript length", got.len() == want.len(), || format!("{} bytes, expected {}", got.len(), want.len()));
    if got.len() != want.len() {
        return;
    }
    let first = got.iter().zip(&want).position(|(a, b)| a != b);
    cx.ok("transcript bytes", first.is_none(), || format!("differs at byte {:?}", first));
    if first.is_some() {
        return;
    }
    let mut o = 48;
    for c in comms {
        let p = point_of(got[o..o + 48].try_into().unwrap());
        if let Some(p) = p {
            cx.eq_g("commitment in the transcript", &p, &(*c).into());
        }
        o += 48;
    }
    for (_, _, e, w) in items {
        o += 16;
        for x in e {
            let s: Option<Scalar> = Option::from(Scalar::from_bytes_be(got[o..o + 32].try_into().unwrap()));
            if let Some(s) = s {
                cx.eq_s("evaluation in the transcript", &s, x);
            }
            o += 32;
        }
        if let Some(p) = point_of(got[o..o + 48].try_into().unwrap()) {
            cx.eq_g("proof in the transcript", &p, &(*w).into());
        }
        o += 48;
    }
}

fn small_shapes(thorough: bool) -> Vec<(usize, usize, usize, &'static str, Shape)> {
    let mut v: Vec<(usize, usize, usize, &'static str, Shape)> = vec![
        (2, 1, 4, "one", vec![(0, 3)]),
        (4, 2, 8, "one", vec![(0, 2)]),
        (4, 2, 8, "two-commitments", vec![(0, 1), (1, 3)]),
        (4, 2, 8, "same-commitment", vec![(0, 1), (0, 2)]),
        (4, 2, 8, "same-cell-twice", vec![(0, 1), (0, 1)]),
        (4, 2, 8, "interleaved", vec![(0, 0), (1, 3), (0, 2)]),
        (8, 4, 16, "same-coset-two-commitments", vec![(0, 3), (1, 3), (0, 1)]),
        (8, 2, 16, "all-cosets", (0..8).map(|k| (0, k)).collect()),
        (8, 2, 16, "unused-commitment", vec![(0, 5), (2, 6)]),
    ];
    v.extend([
            (8, 1, 16, "all-cosets", (0..16).map(|k| (k % 3, k)).collect()),
            (16, 4, 32, "all-cosets-reversed", (0..8).rev().map(|k| (k % 2, k)).collect()),
            (16, 8, 32, "all-cosets", (0..4).map(|k| (k, k)).collect()),
            (4, 2, 8, "ten", (0..10).map(|k| (k % 4, (k * 3) % 4)).collect()),
            (16, 4, 64, "rate-quarter", (0..16).map(|k| (k % 5, k)).collect()),
            (2, 1, 4, "300-commitments", (0..300).map(|k| (k, (k + k / 5) % 4)).collect()),
            (4, 2, 8, "hundreds-then-first", (0..270).chain(0..5).map(|k| (k, (k * 3) % 4)).collect()),
            (2, 1, 4, "batch-of-1100", (0..1100).map(|k| (k % 3, (k + k / 7) % 4)).collect()),
    ]);
    if thorough {
        v.extend([
            (32, 8, 64, "all-cosets-twice", (0..16).map(|k| (k / 8, k % 8)).collect()),
            (32, 4, 64, "all-cosets-many-commitments", (0..16).map(|k| (15 - k, k)).collect()),
            (64, 16, 128, "all-cosets", (0..8).map(|k| (0, k)).collect()),
            (4, 2, 8, "long-batch", (0..70).map(|k| (k % 7, (k * 3 + k / 4) % 4)).collect()),
        ]);
    }
    v
}

/// the multi-opening verifier with symbolic setup, commitments, values and proofs
pub fn small(thorough: bool, transcript: bool) -> Vec<Case> {
    let mut v = vec![];
    for (n, ell, npts, name, shape) in small_shapes(thorough) {
        for honest in [false, true] {
            if transcript && honest {
                continue;
            }
            let shape = shape.clone();
            v.push(case(format!("verify/{n}/{ell}/{npts}/{name}/{}", if honest { "valid" } else { "any" }), 24, 24, 0, Box::new(move |cx| {
                let d = Dims { n, ell, npts };
                let rows = shape.iter().map(|s| s.0).max().unwrap() + 1;
                // setup: discrete logs of g1s, of the G2 generator and of the ell-th G2 element
                let s = super::poly::vars(cx, "Ss", ell);
                let g2: Vec<Scalar> = super::poly::vars(cx, "St", ell + 1);
                let (u, t) = (g2[0], g2[ell]);
                let e: Vec<Vec<Scalar>> = (0..shape.len()).map(|k| super::poly::vars(cx, &format!("e{k}_"), ell)).collect();
                let mut c: Vec<Scalar> = vec![];
                let mut w: Vec<Scalar> = vec![];
                if honest {
                    for r in 0..rows {
                        c.push(cx.s(&format!("c{r}")));
                    }
                    // proofs that satisfy each equation by themselves: w = u (c - I) / (t - u h^ell)
                    for (k, (row, col)) in shape.iter().enumerate() {
                        let m = d.interp(*col);
                        let ev = frs(cx, &e[k]);
                        let sv = frs(cx, &s);
                        let mut i_at = Fr::ZERO;
                        for i in 0..ell {
                            for j in 0..ell {
                                i_at = i_at.add(m[i][j].mul(ev[j]).mul(sv[i]));
                            }
                        }
                        let hn = d.gen(*col).pow_u(ell as u64);
                        let (uv, tv) = (cx.val(&u), cx.val(&t));
                        let num = uv.mul(cx.val(&c[*row]).sub(i_at));
                        let den = tv.sub(uv.mul(hn));
                        w.push(cx.sd(&format!("w{k}"), num.mul(den.inv())));
                    }
                } else {
                    c = super::poly::vars(cx, "c", rows);
                    w = super::poly::vars(cx, "w", shape.len());
                }
                let g1s: Vec<G1Projective> = s.iter().map(|x| cx.g1s(x)).collect();
                let g2s: Vec<_> = g2.iter().map(|x| cx.g2s(x)).collect();
                let vk = VerificationKey::new(g1_batch_normalize(&g1s), g2_batch_normalize(&g2s), ell, n);
                let ver = Verifier::new(vk, npts, npts / ell);
                let comms: Vec<G1Point> = c.iter().map(|x| cx.g1s(x).into()).collect();
                let proofs: Vec<G1Point> = w.iter().map(|x| cx.g1s(x).into()).collect();
                let ri: Vec<u64> = shape.iter().map(|x| x.0 as u64).collect();
                let ci: Vec<u64> = shape.iter().map(|x| x.1 as u64).collect();
                let r = ver.verify_multi_opening(&comms, &ri, &ci, &e, &proofs);
                let h = cx.hashes();
                cx.ok("one challenge", h.len() == 1, || format!("{} hashes", h.len()));
                let Some((tr, ch)) = h.last().cloned() else { return };
                if transcript {
                    let items: Vec<_> = (0..shape.len()).map(|k| (ri[k], ci[k], e[k].clone(), proofs[k])).collect();
                    check_transcript(cx, &tr, &d, &comms, &items);
                    return;
                }
                let res = residuals(cx, &d, &shape, &c, &e, &w, &s, &u, &t);
                let all = combine(&ch, &res);
                if honest && shape.len() > 1 {
                    let z = res.iter().all(|x| cx.val(x).is_zero());
                    cx.ok("individually valid openings are accepted", r.is_ok() || !z, || "rejected".into());
                }
                cx.iff("accepted iff the batched equation holds", r.is_ok(), &[all]);
            })));
        }
    }
    v
}

pub const FULL: Dims = Dims { n: 4096, ell: 64, npts: 8192 };
pub fn bytes_of(s: &[Scalar]) -> [u8; 2048] {
    let mut b = [0u8; 2048];
    for (i, x) in s.iter().enumerate() {
        b[32 * i..32 * i + 32].copy_from_slice(&x.to_bytes_be());
    }
    b
}
fn full_shapes(thorough: bool) -> Vec<(&'static str, Shape)> {
    let mut v: Vec<(&'static str, Shape)> = vec![
        ("one", vec![(0, 77)]),
        ("two-same-commitment", vec![(0, 127), (0, 0)]),
        ("three-interleaved", vec![(0, 64), (1, 64), (0, 3)]),
        ("repeated-cell", vec![(0, 5), (0, 5)]),
        ("six-commitments", (0..6).map(|k| (k, 17 * k)).collect()),
        ("all-cells", shuffled(128, 31).into_iter().map(|k| (0, k)).collect()),
        ("related-commitments", vec![(0, 5), (1, 5), (2, 5), (3, 77), (0, 6), (4, 0), (3, 1), (2, 127), (1, 6), (0, 5)]),
        ("negated-commitment", vec![(1, 9), (0, 9)]),
    ];
    if thorough {
        v.extend([
            ("two-hundred-commitments", (0..200).map(|k| (k, (k * 37) % 128)).collect()),
            ("three-blobs-all-cells", (0..384).map(|k| (k / 128, k % 128)).collect()),
            ("eight", (0..8).map(|k| (k % 3, (k * 37) % 128)).collect()),
            ("first", vec![(0, 0)]),
            ("last", vec![(0, 127)]),
        ]);
    }
    v
}
#[allow(clippy::too_many_arguments)]
pub fn full_iff(cx: &mut Cx, ctx: &DASContext, shape: &Shape, c: &[Scalar], e: &[Vec<Scalar>], w: &[Scalar], s: &[Scalar], u: &Scalar, t: &Scalar) {
    run_full(cx, ctx, shape, c, e, w, s, u, t, false)
}
#[allow(clippy::too_many_arguments)]
fn run_full(cx: &mut Cx, ctx: &DASContext, shape: &Shape, c: &[Scalar], e: &[Vec<Scalar>], w: &[Scalar], s: &[Scalar], u: &Scalar, t: &Scalar, transcript: bool) {
    let d = &FULL;
    let cells: Vec<[u8; 2048]> = e.iter().map(|x| bytes_of(x)).collect();
    let comms: Vec<G1Point> = c.iter().map(|x| cx.g1s(x).into()).collect();
    let proofs: Vec<G1Point> = w.iter().map(|x| cx.g1s(x).into()).collect();
    let cb: Vec<[u8; 48]> = comms.iter().map(|x| x.to_compressed()).collect();
    let pb: Vec<[u8; 48]> = proofs.iter().map(|x| x.to_compressed()).collect();
    let before = cx.hashes().len();
    let r = ctx.verify_cell_kzg_proof_batch(
        shape.iter().map(|x| &cb[x.0]).collect(),
        shape.iter().map(|x| x.1 as u64).collect(),
        cells.iter().collect(),
        pb.iter().collect(),
    );
    if let Err(e) = &r {
        cx.ok("an invalid proof is reported as such", e.invalid_proof() && matches!(e, Error::Verifier(_)), || format!("{e:?}"));
    }
    let h = cx.hashes();
    cx.ok("one challenge", h.len() == before + 1, || format!("{} hashes", h.len()));
    let Some((tr, ch)) = h.last().cloned() else { return };
    if transcript {
        // the distinct encodings in order of first use
        let mut order: Vec<usize> = vec![];
        for x in shape {
            if !order.iter().any(|o| cb[*o] == cb[x.0]) {
                order.push(x.0);
            }
        }
        let row = |k: usize| order.iter().position(|o| cb[*o] == cb[shape[k].0]).unwrap() as u64;
        let items: Vec<_> = (0..shape.len()).map(|k| (row(k), shape[k].1 as u64, e[k].clone(), proofs[k])).collect();
        check_transcript(cx, &tr, d, &order.iter().map(|o| comms[*o]).collect::<Vec<_>>(), &items);
        return;
    }
    let res = residuals(cx, d, shape, c, e, w, s, u, t);
    let all = combine(&ch, &res);
    cx.iff("accepted iff the batched equation holds", r.is_ok(), &[all]);
}
/// production size through the public API, arbitrary (non-geometric) G1 setup
pub fn full(thorough: bool, transcript: bool) -> Vec<Case> {
    let mut v = vec![];
    for (name, shape) in full_shapes(thorough) {
        for honest in [false, true] {
            if transcript && honest {
                continue;
            }
            let shape = shape.clone();
            v.push(case(format!("api/{name}/{}", if honest { "valid" } else { "any" }), 4, 4, 0, Box::new(move |cx| {
                let ctx = ctx_random(cx);
                let d = &FULL;
                let rows = shape.iter().map(|s| s.0).max().unwrap() + 1;
                let s: Vec<Scalar> = random_srs()[..64].iter().map(|x| cx.sc(*x)).collect();
                let (u, t) = (cx.sc(Fr::ONE), cx.sc(tau().pow_u(64)));
                let e: Vec<Vec<Scalar>> = (0..shape.len())
                    .map(|k| {
                        // the same cell repeated means the same values
                        let k = shape.iter().position(|x| *x == shape[k]).unwrap();
                        super::poly::vars(cx, &format!("e{k}_"), 64)
                    })
                    .collect();
                let mut c = super::poly::vars(cx, "c", rows);
                if name == "related-commitments" {
                    // C, -C, 2C, the identity, the generator
                    c[1] = -c[0];
                    c[2] = c[0] + c[0];
                    c[3] = cx.sc(Fr::ZERO);
                    c[4] = cx.sc(Fr::ONE);
                } else if name == "negated-commitment" {
                    c[1] = -c[0];
                }
                let mut w = vec![];
                for (k, (row, col)) in shape.iter().enumerate() {
                    let k0 = shape.iter().position(|x| *x == shape[k]).unwrap();
                    if honest {
                        let m = d.interp(*col);
                        let ev = frs(cx, &e[k]);
                        let mut i_at = Fr::ZERO;
                        for i in 0..64 {
                            let mut a = Fr::ZERO;
                            for j in 0..64 {
                                a = a.add(m[i][j].mul(ev[j]));
                            }
                            i_at = i_at.add(a.mul(random_srs()[i]));
                        }
                        let hn = d.gen(*col).pow_u(64);
                        let den = tau().pow_u(64).sub(hn);
                        let v = cx.val(&c[*row]).sub(i_at).mul(den.inv());
                        w.push(cx.sd(&format!("w{k0}"), v));
                    } else {
                        w.push(cx.s(&format!("w{k}")));
                    }
                }
                run_full(cx, ctx, &shape, &c, &e, &w, &s, &u, &t, transcript);
            })));
        }
    }
    // more distinct commitments than fit in a byte, one unknown value per cell
    let many = if thorough { vec![300usize, 700] } else { vec![300] };
    for n in many {
        for honest in [false, true] {
            if transcript && honest {
                continue;
            }
            v.push(case(format!("api/{n}-commitments/{}", if honest { "valid" } else { "any" }), 4, 4, 0, Box::new(move |cx| {
                let ctx = ctx_random(cx);
                let d = &FULL;
                let shape: Shape = (0..n).map(|k| (k, (k * 37) % 128)).collect();
                let s: Vec<Scalar> = random_srs()[..64].iter().map(|x| cx.sc(*x)).collect();
                let (u, t) = (cx.sc(Fr::ONE), cx.sc(tau().pow_u(64)));
                let zero = Scalar::from(0u64);
                let e: Vec<Vec<Scalar>> = (0..n)
                    .map(|k| {
                        let mut v = vec![zero; 64];
                        v[k % 64] = cx.s(&format!("e{k}"));
                        v
                    })
                    .collect();
                let c = super::poly::vars(cx, "c", n);
                let mut w = vec![];
                for (k, (row, col)) in shape.iter().enumerate() {
                    if honest {
                        // only column k % 64 of the interpolation matters
                        let inv = Fr::from_u64(64).inv();
                        let x = spec::coset_points(d.npts, d.ell, *col)[k % 64].inv();
                        let ev = cx.val(&e[k][k % 64]);
                        let i_at = (0..64).fold(Fr::ZERO, |a, i| a.add(x.pow_u(i as u64).mul(inv).mul(ev).mul(random_srs()[i])));
                        let den = tau().pow_u(64).sub(d.gen(*col).pow_u(64));
                        let v = cx.val(&c[*row]).sub(i_at).mul(den.inv());
                        w.push(cx.sd(&format!("w{k}"), v));
                    } else {
                        w.push(cx.s(&format!("w{k}")));
                    }
                }
                run_full(cx, ctx, &shape, &c, &e, &w, &s, &u, &t, transcript);
            })));
        }
    }
    v
}

/// honest openings are accepted, for every polynomial and every secret
pub fn complete(thorough: bool) -> Vec<Case> {
    let mut v = vec![];
    let mut sizes = vec![(2usize, 1usize, 4usize), (4, 2, 8), (8, 2, 16), (8, 4, 16)];
    if thorough {
        sizes.extend([(8, 1, 16), (16, 4, 32), (16, 8, 32), (16, 4, 64)]);
    }
    for (n, ell, npts) in sizes {
        v.push(case(format!("prove-verify/{n}/{ell}/{npts}"), 1, 0, 0, Box::new(move |cx| {
            let tau = cx.s("Stau");
            let mut s = vec![Scalar::from(1u64)];
            for i in 1..n.max(ell + 1) {
                let x = s[i - 1] * tau;
                s.push(x);
            }
            let g1s = g1_batch_normalize(&s[..n].iter().map(|x| cx.g1s(x)).collect::<Vec<_>>());
            let g2s = g2_batch_normalize(&s[..ell + 1].iter().map(|x| cx.g2s(x)).collect::<Vec<_>>());
            let prover = Prover::new(CommitKey::new(g1s.clone()), n, ell, npts, UsePrecomp::No);
            let ver = Verifier::new(VerificationKey::new(g1s[..ell].to_vec(), g2s, ell, n), npts, npts / ell);
            let f = super::poly::vars(cx, "f", n);
            let g = super::poly::vars(cx, "g", n);
            let mut comms: Vec<G1Point> = vec![];
            let mut proofs = vec![];
            let mut evals = vec![];
            for p in [&f, &g] {
                comms.push(prover.commit(ProverInput::Data(p.clone())).into());
                let (pr, ev) = prover.compute_multi_opening_proofs(ProverInput::Data(p.clone()));
                proofs.push(pr);
                evals.push(ev);
            }
            let nc = npts / ell;
            let mut batches: Vec<Shape> = (0..nc).map(|k| vec![(k % 2, k)]).collect();
            batches.push((0..nc).map(|k| (0, k)).collect());
            batches.push((0..nc.min(4)).flat_map(|k| [(1, nc - 1 - k), (0, k)]).collect());
            for b in batches {
                // commitments deduplicated in order of first use
                let mut order: Vec<usize> = vec![];
                for x in &b {
                    if !order.contains(&x.0) {
                        order.push(x.0);
                    }
                }
                let r = ver.verify_multi_opening(
                    &order.iter().map(|i| comms[*i]).collect::<Vec<_>>(),
                    &b.iter().map(|x| order.iter().position(|y| *y == x.0).unwrap() as u64).collect::<Vec<_>>(),
                    &b.iter().map(|x| x.1 as u64).collect::<Vec<_>>(),
                    &b.iter().map(|x| evals[x.0][x.1].clone()).collect::<Vec<_>>(),
                    &b.iter().map(|x| proofs[x.0][x.1]).collect::<Vec<_>>(),
                );
                cx.ok("honest openings accepted", r.is_ok(), || format!("batch {b:?}"));
            }
            cx.unconditional("accepted for every polynomial and secret");
        })));
    }
    // production size: one cell, all 4096 blob elements symbolic
    let cells: Vec<usize> = if thorough { (0..128).step_by(5).collect() } else { vec![0, 77, 127] };
    v.push(case("api/honest-single-cell", 1, 0, 0, Box::new(move |cx| {
        let ctx = ctx_honest(cx);
        let x = super::poly::vars(cx, "b", 4096);
        let blob = blob_of(&x);
        let (Ok(c), Ok((cs, ps))) = (ctx.blob_to_kzg_commitment(&blob), ctx.compute_cells_and_kzg_proofs(&blob)) else {
            cx.ok("accepts canonical blob", false, || String::new());
            return;
        };
        for k in &cells {
            let r = ctx.verify_cell_kzg_proof_batch(vec![&c], vec![*k as u64], vec![&cs[*k]], vec![&ps[*k]]);
            cx.ok("honest cell accepted", r.is_ok(), || format!("cell {k}: {:?}", r.as_ref().err()));
        }
        cx.unconditional("accepted for every blob");
        let nothing: Vec<Scalar> = vec![];
        cx.lin_s("none", &nothing, &[], Box::new(|_| vec![]));
    })));
    // production size: two blobs, every cell, a few symbolic elements
    let shapes: Vec<(&'static str, Vec<(usize, usize)>)> = vec![
        ("all-cells", (0..128).map(|k| (0, k)).collect()),
        ("two-blobs", shuffled(128, 9)[..40].iter().enumerate().map(|(i, k)| (i % 2, *k)).collect()),
        ("duplicates", vec![(1, 3), (0, 3), (1, 3), (0, 127), (0, 127)]),
    ];
    for (nm, shape) in shapes {
        v.push(case(format!("api/honest-batch/{nm}"), 1, 0, 0, Box::new(move |cx| {
            let ctx = ctx_honest(cx);
            let mut data = vec![];
            for b in 0..2 {
                let x: Vec<Scalar> = (0..4096)
                    .map(|i| if i % 1361 == 40 * b { cx.s(&format!("b{b}_{i}")) } else { cx.ks(&format!("k{b}_{}", i % 50)) })
                    .collect();
                let blob = blob_of(&x);
                let (Ok(c), Ok((cs, ps))) = (ctx.blob_to_kzg_commitment(&blob), ctx.compute_cells_and_kzg_proofs(&blob)) else {
                    cx.ok("accepts canonical blob", false, || String::new());
                    return;
                };
                data.push((c, cs, ps));
            }
            let r = ctx.verify_cell_kzg_proof_batch(
                shape.iter().map(|x| &data[x.0].0).collect(),
                shape.iter().map(|x| x.1 as u64).collect(),
                shape.iter().map(|x| &*data[x.0].1[x.1]).collect(),
                shape.iter().map(|x| &data[x.0].2[x.1]).collect(),
            );
            cx.ok("honest cells accepted", r.is_ok(), || format!("{:?}", r.as_ref().err()));
            cx.unconditional("accepted for every blob");
        })));
    }
    v.extend(super::structured::verify());
    v
}

fn show(r: &Result<Result<(), Error>, String>) -> String {
    match r {
        Ok(Ok(_)) => "accepted".into(),
        Ok(Err(e)) => format!("error {e:?}").chars().take(160).collect(),
        Err(p) => format!("panic {p}"),
    }
}
/// argument validation of verify_cell_kzg_proof_batch
pub fn validation(_thorough: bool) -> Vec<Case> {
    let mut v = vec![];
    v.push(case("validation/lengths", 1, 0, 0, Box::new(|cx| {
        let c = ctx_random(cx);
        let (cell, comm, proof) = super::codec::triple(cx);
        let r = cx.guard(|| c.verify_cell_kzg_proof_batch(vec![], vec![], vec![], vec![]));
        cx.ok("the empty batch is accepted", matches!(r, Ok(Ok(()))), || show(&r));
        let n0 = [0usize, 1, 2, 5];
        for a in n0 {
            for b in n0 {
                for d in n0 {
                    for e in n0 {
                        if a == b && b == d && d == e {
                            continue;
                        }
                        // distinct cells so that no other check can fire
                        let r = cx.guard(|| c.verify_cell_kzg_proof_batch(vec![&comm; a], (0..b as u64).collect(), vec![&cell; d], vec![&proof; e]));
                        cx.ok("lengths that differ are rejected", matches!(&r, Ok(Err(x)) if matches!(x, Error::Verifier(_)) && !x.invalid_proof()), || {
                            format!("{a} commitments, {b} indices, {d} cells, {e} proofs: {}", show(&r))
                        });
                    }
                }
            }
        }
    })));
    v.push(case("validation/index", 1, 0, 0, Box::new(|cx| {
        let c = ctx_random(cx);
        let (cell, comm, proof) = super::codec::triple(cx);
        for bad in [128u64, 129, 191, 255, 256, 8191, 1 << 16, 1 << 31, 1 << 32, (1 << 32) + 1, 1 << 63, u64::MAX] {
            for n in 1..4usize {
                for at in 0..n {
                    let mut idx: Vec<u64> = (0..n as u64).map(|x| 127 - x).collect();
                    idx[at] = bad;
                    let r = cx.guard(|| c.verify_cell_kzg_proof_batch(vec![&comm; n], idx, vec![&cell; n], vec![&proof; n]));
                    cx.ok("cell index out of range is rejected", matches!(&r, Ok(Err(x)) if matches!(x, Error::Verifier(_)) && !x.invalid_proof()), || {
                        format!("index {bad} at {at} of {n}: {}", show(&r))
                    });
                }
            }
        }
    })));
    // longer lists: one bad index, or one list longer by one, by a blob's cells, by 256 or twice as long
    v.push(case("validation/long", 1, 0, 0, Box::new(|cx| {
        let c = ctx_random(cx);
        let (cell, comm, proof) = super::codec::triple(cx);
        for n in [7usize, 63, 64, 65, 127, 128, 129, 130, 200, 256, 257, 300, 513, 1025] {
            for bad in [128u64, 255, 256, 1 << 32, u64::MAX] {
                for at in [0, n / 2, n - 2, n - 1, 127, 128, 129, 255, 256].into_iter().filter(|at| *at < n) {
                    let mut idx: Vec<u64> = (0..n as u64).map(|x| x % 128).collect();
                    idx[at] = bad;
                    let r = cx.guard(|| c.verify_cell_kzg_proof_batch(vec![&comm; n], idx, vec![&cell; n], vec![&proof; n]));
                    cx.ok("cell index out of range is rejected", matches!(&r, Ok(Err(x)) if matches!(x, Error::Verifier(_)) && !x.invalid_proof()), || {
                        format!("index {bad} at {at} of {n}: {}", show(&r))
                    });
                }
            }
            for other in [n - 1, n + 1, n + 128, n + 256, 2 * n, n / 2, 1, 0] {
                for which in 0..8usize {
                    // one list differs, or all but one do
                    let l: Vec<usize> = (0..4).map(|k| if (k == which % 4) == (which < 4) { other } else { n }).collect();
                    let idx: Vec<u64> = (0..l[1] as u64).map(|x| x % 128).collect();
                    let r = cx.guard(|| c.verify_cell_kzg_proof_batch(vec![&comm; l[0]], idx, vec![&cell; l[2]], vec![&proof; l[3]]));
                    cx.ok("lengths that differ are rejected", matches!(&r, Ok(Err(x)) if matches!(x, Error::Verifier(_)) && !x.invalid_proof()), || {
                        format!("lengths {l:?}: {}", show(&r))
                    });
                }
            }
        }
    })));
    // every valid index reaches the equation: a wrong proof is an invalid proof, not another error
    v.push(case("validation/every-index", 1, 0, 0, Box::new(|cx| {
        let c = ctx_random(cx);
        let (cell, comm, proof) = super::codec::triple(cx);
        for k in 0..128u64 {
            let r = cx.guard(|| c.verify_cell_kzg_proof_batch(vec![&comm], vec![k], vec![&cell], vec![&proof]));
            cx.ok("a failing opening is an invalid proof", matches!(&r, Ok(Err(x)) if x.invalid_proof()), || format!("cell {k}: {}", show(&r)));
        }
        let idx: Vec<u64> = shuffled(128, 21).iter().map(|x| *x as u64).collect();
        let r = cx.guard(|| c.verify_cell_kzg_proof_batch(vec![&comm; 128], idx, vec![&cell; 128], vec![&proof; 128]));
        cx.ok("a failing batch is an invalid proof", matches!(&r, Ok(Err(x)) if x.invalid_proof()), || show(&r));
    })));
    v
}

