//! The trusted setup is used faithfully: results depend on exactly the documented setup elements.
use super::das::*;
use super::{case, spec};
use crate::cx::{Case, Cx};
use bls12_381::Scalar;
use rust_eth_kzg::{DASContext, TrustedSetup, UsePrecomp};
use symcore::fr::Fr;

fn hex(b: &[u8]) -> String {
    let mut s = String::from("0x");
    for x in b {
        s.push_str(&format!("{:02x}", x));
    }
    s
}
fn list(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|x| format!("\"{x}\"")).collect::<Vec<_>>().join(","))
}
pub fn json(g1: &[String], g2: &[String]) -> String {
    format!("{{\"g1_monomial\": {}, \"g1_lagrange\": [], \"g2_monomial\": {}}}", list(g1), list(g2))
}
/// setup whose elements are independent unknowns, through the JSON entry point
pub fn symbolic(cx: &mut Cx, pre: UsePrecomp) -> (DASContext, Vec<Scalar>, Vec<Scalar>) {
    let s: Vec<Scalar> = (0..4096).map(|i| cx.s(&format!("Ss{i}"))).collect();
    let t: Vec<Scalar> = (0..65).map(|i| cx.s(&format!("St{i}"))).collect();
    let g1: Vec<String> = s.iter().map(|x| hex(&bls12_381::G1Point::from(cx.g1s(x)).to_compressed())).collect();
    let g2: Vec<String> = t.iter().map(|x| hex(&bls12_381::G2Point::from(cx.g2s(x)).to_compressed())).collect();
    let ts = TrustedSetup::from_json_unchecked(&json(&g1, &g2));
    cx.ok("setup strings kept", ts.g1_monomial == g1 && ts.g2_monomial == g2, || "reordered or altered".into());
    (new_ctx(&ts, pre), s, t)
}
/// coefficients of the polynomial whose evaluations (bit-reversed order) are the blob
pub fn coeffs_of(vals: &[Fr]) -> Vec<Fr> {
    let n = vals.len();
    let mut nat = vec![Fr::ZERO; n];
    for (i, v) in vals.iter().enumerate() {
        nat[spec::bitrev(i, spec::log2(n))] = *v;
    }
    let ninv = Fr::from_u64(n as u64).inv();
    spec::dft(&nat, spec::root(n).inv()).into_iter().map(|x| x.mul(ninv)).collect()
}
/// coefficient of setup element m in each of the 128 proofs of the polynomial f
pub fn proof_column(f: &[Fr], m: usize) -> Vec<Fr> {
    // proof_k = sum_{t>=1} sum_j f_j h_k^(t-1) s_(j - 64 t), so s_m collects f_(m+64t) h^(t-1)
    (0..128)
        .map(|k| {
            let h = spec::root(8192).pow_u(64 * spec::bitrev(k, 7) as u64);
            let mut acc = Fr::ZERO;
            let mut j = m + 64;
            let mut idx = vec![];
            while j < f.len() {
                idx.push(j);
                j += 64;
            }
            for j in idx.into_iter().rev() {
                acc = acc.mul(h).add(f[j]);
            }
            acc
        })
        .collect()
}

/// concrete blob, unknown setup: commitment and all proofs through the API
pub fn linear(name: String, pre: Box<dyn Fn() -> UsePrecomp>) -> Case {
    case(name, 1, 0, 0, Box::new(move |cx| {
        let (ctx, _, _) = symbolic(cx, pre());
        let vals: Vec<Fr> = (0..4096).map(|i| Fr::prf(&format!("blobval{i}"), 5)).collect();
        let f = coeffs_of(&vals);
        let x: Vec<Scalar> = vals.iter().map(|v| cx.sc(*v)).collect();
        let blob = blob_of(&x);
        let c = ctx.blob_to_kzg_commitment(&blob);
        let p = ctx.compute_cells_and_kzg_proofs(&blob);
        cx.ok("accepts canonical blob", c.is_ok() && p.is_ok(), || "rejected".into());
        let (Ok(c), Ok((_, p))) = (c, p) else { return };
        let Some(c) = point_of(&c) else {
            cx.ok("commitment is a valid point", false, || "undecodable".into());
            return;
        };
        let pts: Vec<_> = p.iter().filter_map(point_of).collect();
        cx.ok("proofs are valid points", pts.len() == 128, || format!("{} of 128", pts.len()));
        if pts.len() != 128 {
            return;
        }
        let f1 = f.clone();
        cx.lin_g("commitment is sum f_i s_i", &[c], &names("Ss", 4096), Box::new(move |m| vec![f1[m]]));
        cx.lin_g("proofs are quotient commitments", &pts, &names("Ss", 4096), Box::new(move |m| proof_column(&f, m)));
    }))
}

pub fn setup_cases(thorough: bool) -> Vec<Case> {
    let mut v = vec![linear("setup/commit-prove".into(), Box::new(|| UsePrecomp::No))];
    let shapes: Vec<(&str, Vec<(usize, usize)>)> = if thorough {
        vec![("one", vec![(0, 77)]), ("three", vec![(0, 0), (1, 127), (0, 64)])]
    } else {
        vec![("two", vec![(0, 5), (1, 90)])]
    };
    for (nm, shape) in shapes {
        v.push(case(format!("setup/verify/{nm}"), 3, 3, 0, Box::new(move |cx| {
            let (ctx, s, t) = symbolic(cx, UsePrecomp::No);
            let rows = shape.iter().map(|x| x.0).max().unwrap() + 1;
            let e: Vec<Vec<Scalar>> = (0..shape.len()).map(|k| (0..64).map(|j| cx.ks(&format!("cell{k}_{j}"))).collect()).collect();
            let c: Vec<Scalar> = (0..rows).map(|k| cx.ks(&format!("comm{k}"))).collect();
            let w: Vec<Scalar> = (0..shape.len()).map(|k| cx.ks(&format!("proof{k}"))).collect();
            super::verify::full_iff(cx, &ctx, &shape, &c, &e, &w, &s[..64], &t[0], &t[64]);
        })));
    }
    v.push(case("setup/malformed", 1, 0, 0, Box::new(|cx| {
        let g1: Vec<String> = (0..80).map(|i| hex(&cx.g1k(Fr::from_u64(i + 2)).to_compressed())).collect();
        let g2: Vec<String> = (0..65).map(|i| hex(&cx.g2k(Fr::from_u64(i + 2)).to_compressed())).collect();
        let ok = cx.guard(|| TrustedSetup::from_json(&json(&g1, &g2)));
        cx.ok("a valid setup is accepted", matches!(&ok, Ok(t) if t.g1_monomial == g1 && t.g2_monomial == g2), || format!("{:?}", ok.err()));
        let mut n = 0;
        for which in 0..2u32 {
            for pos in [0usize, 1, 63, 64, 65, 79] {
                let mut b = g1.clone();
                b[pos] = hex(&cx.bad_g1(which, n % 3));
                let r = cx.guard(|| TrustedSetup::from_json(&json(&b, &g2)));
                cx.ok("a bad G1 element is refused", r.is_err(), || format!("kind {which} at {pos}"));
                n += 1;
            }
            for pos in [0usize, 1, 63, 64] {
                let mut b = g2.clone();
                b[pos] = hex(&cx.bad_g2(which, n % 3));
                let r = cx.guard(|| TrustedSetup::from_json(&json(&g1, &b)));
                cx.ok("a bad G2 element is refused", r.is_err(), || format!("kind {which} at {pos}"));
                n += 1;
            }
        }
        let good = json(&g1, &g2);
        let edits: Vec<(&str, String)> = vec![
            ("no 0x", good.replacen("0x", "", 1)),
            ("truncated text", good[..good.len() - 3].to_string()),
            ("missing g1", good.replacen("g1_monomial", "g1_mono", 1)),
            ("missing g2", good.replacen("g2_monomial", "g2_mono", 1)),
            ("not hexadecimal", good.replacen(&g1[3], &format!("{}zz", &g1[3][..96]), 1)),
            ("short G1", good.replacen(&g1[3], &g1[3][..96], 1)),
            ("long G1", good.replacen(&g1[3], &format!("{}00", g1[3]), 1)),
            ("short G2", good.replacen(&g2[3], &g2[3][..192], 1)),
            ("G1 in place of G2", good.replacen(&g2[3], &g1[3], 1)),
            ("empty", String::new()),
        ];
        for (what, text) in edits {
            let r = cx.guard(|| TrustedSetup::from_json(&text));
            cx.ok("malformed text is refused", r.is_err(), || what.to_string());
        }
        let d = TrustedSetup::default();
        cx.ok("embedded setup size", d.g1_monomial.len() == 4096 && d.g2_monomial.len() == 65, || format!("{} {}", d.g1_monomial.len(), d.g2_monomial.len()));
    })));
    v
}

/// Cells, commitment and proofs of the blob with unknown elements `tag`0..4095 against the closed forms.
fn full_outputs(cx: &mut Cx, ctx: &DASContext, tag: &str) {
    let x = super::poly::vars(cx, tag, 4096);
    let blob = blob_of(&x);
    let (c, r) = (ctx.blob_to_kzg_commitment(&blob), ctx.compute_cells_and_kzg_proofs(&blob));
    cx.ok("accepts canonical blob", c.is_ok() && r.is_ok(), || format!("{:?}", r.as_ref().err()));
    let (Ok(c), Ok((cells, proofs))) = (c, r) else { return };
    outputs(cx, tag, Some(&c), &cells, &proofs);
}
fn outputs(cx: &mut Cx, tag: &str, c: Option<&[u8; 48]>, cells: &[Box<[u8; 2048]>; 128], proofs: &[[u8; 48]; 128]) {
    let mut outs = vec![];
    for cell in cells.iter() {
        outs.extend(scalars_of(&cell[..]).unwrap_or_default());
    }
    let pts: Vec<_> = proofs.iter().filter_map(point_of).collect();
    cx.ok("outputs decode", outs.len() == 8192 && pts.len() == 128, || format!("{} {}", outs.len(), pts.len()));
    if outs.len() != 8192 || pts.len() != 128 {
        return;
    }
    let (zs, xs) = (cell_points(), blob_points());
    let zn: Vec<Fr> = zs.iter().map(|z| z.pow_u(4096)).collect();
    cx.lin_s("cells", &outs, &names(tag, 4096), Box::new(move |m| spec::lagrange_column(4096, xs[m], &zs, &zn)));
    let m = full_matrix();
    cx.lin_g("proofs", &pts, &names(tag, 4096), Box::new(move |j| m.iter().map(|r| r[j]).collect()));
    if let Some(c) = c.and_then(point_of) {
        let row = spec::commit_row(random_srs(), 4096);
        cx.lin_g("commitment", &[c], &names(tag, 4096), Box::new(move |j| vec![row[j]]));
    }
}
fn new_threads(ts: &TrustedSetup, _threads: usize) -> DASContext {
    #[cfg(feature = "mt")]
    {
        let n = match _threads {
            0 => rust_eth_kzg::ThreadCount::SensibleDefault,
            1 => rust_eth_kzg::ThreadCount::Single,
            n => rust_eth_kzg::ThreadCount::Multi(n),
        };
        return DASContext::with_threads(ts, n, UsePrecomp::No);
    }
    #[cfg(not(feature = "mt"))]
    new_ctx(ts, UsePrecomp::No)
}

/// The same answers whatever ran before on the context, with every precomputation width and thread count.
pub fn independent(thorough: bool) -> Vec<Case> {
    let mut v = vec![];
    v.push(case("history", 1, 0, 0, Box::new(|cx| {
        let ctx = new_ctx(&setup(cx, random_srs(), tau(), 65), UsePrecomp::No);
        // before: failing calls, another blob, a failing verification, a recovery
        let mut bad = vec![0u8; 131072];
        bad[32 * 17] = 0xff;
        let bad: Box<[u8; 131072]> = bad.into_boxed_slice().try_into().unwrap();
        cx.ok("bad blob rejected", ctx.compute_cells_and_kzg_proofs(&bad).is_err() && ctx.blob_to_kzg_commitment(&bad).is_err(), || "accepted".into());
        full_outputs(cx, &ctx, "a");
        let y = super::poly::vars(cx, "a", 4096);
        let Ok((cells, proofs)) = ctx.compute_cells_and_kzg_proofs(&blob_of(&y)) else { return };
        let wrong = cx.g1k(Fr::prf("wrong", 3)).to_compressed();
        let r = ctx.verify_cell_kzg_proof_batch(vec![&wrong, &wrong], vec![3, 9], vec![&cells[3], &cells[3]], vec![&proofs[3], &proofs[4]]);
        cx.ok("wrong statement rejected", matches!(&r, Err(e) if e.invalid_proof()), || format!("{r:?}"));
        let idx: Vec<usize> = super::recover::shuffled(128, 41)[..70].to_vec();
        let r = ctx.recover_cells_and_kzg_proofs(idx[..63].iter().map(|i| *i as u64).collect(), idx[..63].iter().map(|i| &*cells[*i]).collect());
        cx.ok("too few cells rejected", r.is_err(), || "accepted".into());
        // after: a different blob, encoded and recovered from other positions
        full_outputs(cx, &ctx, "b");
        let z = super::poly::vars(cx, "b", 4096);
        let Ok((cells, _)) = ctx.compute_cells_and_kzg_proofs(&blob_of(&z)) else { return };
        for part in [&idx[..], &super::recover::shuffled(128, 42)[..64]] {
            let r = ctx.recover_cells_and_kzg_proofs(part.iter().map(|i| *i as u64).collect(), part.iter().map(|i| &*cells[*i]).collect());
            cx.ok("recovery after other calls", r.is_ok(), || format!("{:?}", r.as_ref().err()));
            if let Ok((c2, p2)) = r {
                outputs(cx, "b", None, &c2, &p2);
            }
        }
    })));
    v.extend(super::structured::journal(thorough));
    v.extend(super::structured::prover_journal(thorough));
    let threads: Vec<usize> = if !cfg!(feature = "mt") {
        vec![1]
    } else if thorough {
        vec![1, 2, 3, 5, 7, 8, 16, 33, 0]
    } else {
        vec![1, 2, 7, 0]
    };
    for n in threads {
        v.push(case(format!("threads/{n}"), 1, 0, 0, Box::new(move |cx| {
            let ctx = new_threads(&setup(cx, random_srs(), tau(), 65), n);
            full_outputs(cx, &ctx, "b");
        })));
        v.push(case(format!("threads-verify/{n}"), 3, 3, 0, Box::new(move |cx| {
            let ctx = new_threads(&setup(cx, random_srs(), tau(), 65), n);
            let shape = vec![(0, 5), (1, 90), (0, 127)];
            let e: Vec<Vec<Scalar>> = (0..3).map(|k| super::poly::vars(cx, &format!("e{k}_"), 64)).collect();
            let c = super::poly::vars(cx, "c", 2);
            let w = super::poly::vars(cx, "w", 3);
            let s: Vec<Scalar> = random_srs()[..64].iter().map(|x| cx.sc(*x)).collect();
            let (u, t) = (cx.sc(Fr::ONE), cx.sc(tau().pow_u(64)));
            super::verify::full_iff(cx, &ctx, &shape, &c, &e, &w, &s, &u, &t);
        })));
    }
    let widths: Vec<usize> = if thorough { vec![2, 3, 4, 5, 6, 7, 8, 9] } else { vec![8] };
    for w in widths {
        v.push(linear(format!("precomp/{w}"), Box::new(move || UsePrecomp::Yes { width: w })));
    }
    v
}
