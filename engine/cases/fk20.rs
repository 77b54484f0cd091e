//! Multi-opening prover and commitment keys at small sizes, with symbolic setup elements.
use super::poly::{gdot, gvars, vars};
use super::{case, spec};
use crate::cx::Case;
use bls12_381::fixed_base_msm::UsePrecomp;
use bls12_381::group::Group;
use bls12_381::{g1_batch_normalize, g2_batch_normalize, G1Projective, G2Projective, Scalar};
use kzg_multi_open::commit_key::CommitKey;
use kzg_multi_open::verification_key::VerificationKey;
use kzg_multi_open::{Prover, ProverInput};
use symcore::fr::Fr;

/// sum_i s_i P_i over symbolic points and scalars
pub fn naive(ps: &[G1Projective], s: &[Scalar]) -> G1Projective {
    ps.iter().zip(s).fold(G1Projective::identity(), |a, (p, x)| a + *p * *x)
}

pub fn sizes(thorough: bool) -> Vec<(usize, usize, usize)> {
    let mut v = vec![(2, 1, 4), (4, 1, 8), (4, 2, 8), (8, 1, 8), (8, 2, 16), (8, 4, 16), (16, 4, 32), (16, 4, 64)];
    if thorough {
        v.extend([(16, 1, 32), (16, 2, 32), (16, 8, 32), (32, 8, 64), (32, 4, 64), (32, 2, 64), (8, 2, 8), (64, 8, 128)]);
    }
    v
}

pub fn proofs(thorough: bool) -> Vec<Case> {
    let mut v = vec![];
    for (n, ell, npts) in sizes(thorough) {
        for data in [false, true] {
            v.push(case(format!("fk20/{n}/{ell}/{npts}/{}", if data { "data" } else { "coeff" }), if n <= 8 { 6 } else { 1 }, 8, 0, Box::new(move |cx| {
                // concrete polynomial-independent setup is symbolic; polynomial symbolic too
                let ps = gvars(cx, "P", n);
                let f = vars(cx, "f", n);
                let p = Prover::new(CommitKey::new(g1_batch_normalize(&ps)), n, ell, npts, UsePrecomp::No);
                cx.ok("num_proofs", p.num_proofs() == npts / ell, || format!("{}", p.num_proofs()));
                let input = if data { ProverInput::Data(f.clone()) } else { ProverInput::PolyCoeff(f.clone()) };
                let (proofs, evals) = p.compute_multi_opening_proofs(input);
                cx.ok("number of proofs", proofs.len() == npts / ell && evals.len() == npts / ell, || format!("{} {}", proofs.len(), evals.len()));
                for k in 0..npts / ell {
                    // sum over (j, t): f_j h^(t-1) P_(j - ell t)
                    let h = spec::root(npts).pow_u(spec::bitrev(k, spec::log2(npts / ell)) as u64).pow_u(ell as u64);
                    let coefs: Vec<Scalar> = if data { interp(cx, &f) } else { f.clone() };
                    let mut want = G1Projective::identity();
                    for i in 0..n {
                        let mut q = Scalar::from(0u64);
                        let mut hp = Fr::ONE;
                        let mut j = i + ell;
                        while j < n {
                            q += coefs[j] * cx.sc(hp);
                            hp = hp.mul(h);
                            j += ell;
                        }
                        want += ps[i] * q;
                    }
                    cx.eq_g("proof", &proofs[k].into(), &want);
                    cx.ok("coset length", evals[k].len() == ell, || format!("{}", evals[k].len()));
                    for (j, z) in spec::coset_points(npts, ell, k).into_iter().enumerate() {
                        let want = super::poly::dot(cx, &coefs, &spec::powers(z, n));
                        cx.eq_s("coset evaluation", &evals[k][j], &want);
                    }
                }
            })));
        }
    }
    // precomputed tables: symbolic setup, concrete polynomial
    for (n, ell, npts, w) in if thorough {
        vec![(4usize, 1usize, 8usize, 1usize), (4, 2, 8, 2), (4, 2, 8, 3), (8, 2, 16, 4), (4, 1, 8, 5), (8, 4, 16, 8)]
    } else {
        vec![(4, 2, 8, 2), (4, 1, 8, 3), (8, 4, 16, 4)]
    } {
        v.push(case(format!("fk20/precomp/{n}/{ell}/{npts}/w{w}"), 1, 0, 0, Box::new(move |cx| {
            let ps = gvars(cx, "P", n);
            let f: Vec<Scalar> = (0..n).map(|i| cx.ks(&format!("f{i}"))).collect();
            let ff: Vec<Fr> = (0..n).map(|i| Fr::prf(&format!("const:f{i}"), 0)).collect();
            let p = Prover::new(CommitKey::new(g1_batch_normalize(&ps)), n, ell, npts, UsePrecomp::Yes { width: w });
            let (proofs, _) = p.compute_multi_opening_proofs(ProverInput::PolyCoeff(f));
            for k in 0..npts / ell {
                let h = spec::root(npts).pow_u(spec::bitrev(k, spec::log2(npts / ell)) as u64).pow_u(ell as u64);
                let mut c = vec![Fr::ZERO; n];
                for i in (0..n.saturating_sub(ell)).rev() {
                    c[i] = ff[i + ell].add(h.mul(c[i + ell]));
                }
                let want = gdot(cx, &ps, &c);
                cx.eq_g("proof (precomputed)", &proofs[k].into(), &want);
            }
        })));
    }
    v.extend(sizes_mismatch(thorough));
    v
}
/// a setup with more elements than the polynomial has coefficients; shorter polynomials
pub fn sizes_mismatch(thorough: bool) -> Vec<Case> {
    let mut v = vec![];
    for (n, ell, npts, extra, less) in if thorough {
        vec![(4usize, 2usize, 8usize, 2usize, 0usize), (4, 2, 8, 1, 0), (8, 2, 16, 8, 0), (8, 4, 16, 3, 0)]
    } else {
        vec![(4, 2, 8, 2, 0), (4, 2, 8, 1, 0), (8, 2, 16, 8, 0), (4, 4, 8, 1, 0)]
    } {
        v.push(case(format!("fk20/mismatch/{n}/{ell}/{npts}/{extra}/{less}"), 2, 2, 0, Box::new(move |cx| {
            let ps = gvars(cx, "P", n + extra);
            let f = vars(cx, "f", n - less);
            let p = Prover::new(CommitKey::new(g1_batch_normalize(&ps)), n, ell, npts, UsePrecomp::No);
            cx.eq_g("commitment", &p.commit(ProverInput::PolyCoeff(f.clone())).into(), &naive(&ps[..f.len()], &f));
            let (proofs, evals) = p.compute_multi_opening_proofs(ProverInput::PolyCoeff(f.clone()));
            cx.ok("number of proofs", proofs.len() == npts / ell && evals.len() == npts / ell, || format!("{} {}", proofs.len(), evals.len()));
            for k in 0..npts / ell {
                let h = spec::root(npts).pow_u(spec::bitrev(k, spec::log2(npts / ell)) as u64).pow_u(ell as u64);
                let mut want = G1Projective::identity();
                for i in 0..f.len() {
                    let mut q = Scalar::from(0u64);
                    let mut hp = Fr::ONE;
                    let mut j = i + ell;
                    while j < f.len() {
                        q += f[j] * cx.sc(hp);
                        hp = hp.mul(h);
                        j += ell;
                    }
                    want += ps[i] * q;
                }
                cx.eq_g("proof", &proofs[k].into(), &want);
                for (j, z) in spec::coset_points(npts, ell, k).into_iter().enumerate() {
                    let want = super::poly::dot(cx, &f, &spec::powers(z, f.len()));
                    cx.eq_s("coset evaluation", &evals[k][j], &want);
                }
            }
        })));
    }
    v
}
/// coefficients of the polynomial with value f[i] at w^bitrev(i)
pub fn interp(cx: &crate::cx::Cx, f: &[Scalar]) -> Vec<Scalar> {
    let n = f.len();
    let winv = spec::root(n).inv();
    let ninv = Fr::from_u64(n as u64).inv();
    (0..n)
        .map(|i| {
            let c: Vec<Fr> =
                (0..n).map(|m| winv.pow_u((i * spec::bitrev(m, spec::log2(n))) as u64).mul(ninv)).collect();
            super::poly::dot(cx, f, &c)
        })
        .collect()
}
pub fn commitments(thorough: bool) -> Vec<Case> {
    let mut v = vec![];
    for (n, k) in if thorough { vec![(1usize, 1usize), (2, 1), (4, 4), (8, 5), (8, 0), (16, 16), (33, 33)] } else { vec![(1, 1), (4, 4), (8, 5), (8, 0), (16, 16)] } {
        v.push(case(format!("commit_key/{n}/{k}"), 12, 12, 0, Box::new(move |cx| {
            let ps = gvars(cx, "P", n);
            let f = vars(cx, "f", k);
            let got = CommitKey::new(g1_batch_normalize(&ps)).commit_g1(&f);
            cx.eq_g("commit_g1", &got, &naive(&ps[..k], &f));
            let t = vars(cx, "t", n);
            let qs: Vec<G2Projective> = t.iter().map(|t| cx.g2s(t)).collect();
            if n > 1 {
                let vk = VerificationKey::new(g1_batch_normalize(&ps), g2_batch_normalize(&qs), 1, n);
                cx.eq_g("verification key commit_g1", &vk.commit_g1(&f), &naive(&ps[..k], &f));
                let mut want = G2Projective::identity();
                for i in 0..k {
                    want += qs[i] * f[i];
                }
                cx.eq_g2("verification key commit_g2", &vk.commit_g2(&f), &want);
                cx.eq_g2("g2_gen", &vk.g2_gen().into(), &qs[0]);
            }
        })));
    }
    for (n, ell, npts) in [(2, 1, 4), (4, 2, 8), (8, 2, 16)] {
        v.push(case(format!("prover_commit/{n}/{ell}"), 8, 8, 0, Box::new(move |cx| {
            let ps = gvars(cx, "P", n);
            let f = vars(cx, "f", n);
            let p = Prover::new(CommitKey::new(g1_batch_normalize(&ps)), n, ell, npts, UsePrecomp::No);
            let got = p.commit(ProverInput::PolyCoeff(f.clone()));
            cx.eq_g("commit coefficients", &got.into(), &naive(&ps, &f));
            let got = p.commit(ProverInput::Data(f.clone()));
            let c = interp(cx, &f);
            cx.eq_g("commit data", &got.into(), &naive(&ps, &c));
        })));
    }
    v
}
