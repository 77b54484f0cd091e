use super::{case, spec};
use crate::cx::{Case, Cx};
use bls12_381::ff::Field;
use bls12_381::group::Group;
use bls12_381::{G1Projective, Scalar};
use polynomial::domain::Domain;
use polynomial::CosetFFT;
use symcore::fr::Fr;

pub fn vars(cx: &mut Cx, p: &str, n: usize) -> Vec<Scalar> {
    (0..n).map(|i| cx.s(&format!("{p}{i}"))).collect()
}
pub fn gvars(cx: &mut Cx, p: &str, n: usize) -> Vec<G1Projective> {
    (0..n).map(|i| cx.g1(&format!("{p}{i}"))).collect()
}
/// sum_i c_i x_i
pub fn dot(cx: &Cx, xs: &[Scalar], c: &[Fr]) -> Scalar {
    let mut acc = Scalar::ZERO;
    for (x, k) in xs.iter().zip(c) {
        acc += *x * cx.sc(*k);
    }
    acc
}
pub fn gdot(cx: &Cx, xs: &[G1Projective], c: &[Fr]) -> G1Projective {
    let mut acc = G1Projective::identity();
    for (x, k) in xs.iter().zip(c) {
        acc += *x * cx.sc(*k);
    }
    acc
}
/// row j of the DFT matrix with root w, scaled by k, length n
fn row(w: Fr, j: usize, n: usize, k: Fr) -> Vec<Fr> {
    spec::powers(w.pow_u(j as u64), n).into_iter().map(|x| x.mul(k)).collect()
}

pub fn fft(thorough: bool) -> Vec<Case> {
    let mut v = vec![];
    let sizes: &[usize] = if thorough { &[1, 2, 3, 4, 5, 8, 16, 32, 64] } else { &[1, 2, 3, 4, 8, 16, 32] };
    for &size in sizes {
        let n = size.next_power_of_two();
        let lens: Vec<usize> = if n >= 4 { vec![n, n - 1, n / 2, 1, 0] } else { vec![n, 0] };
        for len in lens {
            let (paths, flips) = if n <= 8 { (80, 64) } else { (if thorough { 40 } else { 12 }, 16) };
            let raw = if n <= 32 { 4000 } else { 0 };
            v.push(case(format!("fft/{size}/{len}"), paths, flips, raw, Box::new(move |cx| {
                let d = Domain::new(size);
                let w = spec::root(n);
                cx.ok("domain roots", d.roots.len() == n && (0..n).all(|i| d.roots[i] == cx.sc(w.pow_u(i as u64))), || "roots".into());
                let x = vars(cx, "x", len);
                let y = d.fft_scalars(x.clone());
                cx.ok("fft length", y.len() == n, || format!("{}", y.len()));
                for j in 0..n {
                    let want = dot(cx, &x, &row(w, j, len, Fr::ONE));
                    cx.eq_s("fft_scalars", &y[j], &want);
                }
            })));
            v.push(case(format!("ifft/{size}/{len}"), paths, flips, raw, Box::new(move |cx| {
                let d = Domain::new(size);
                let wi = spec::root(n).inv();
                let ni = Fr::from_u64(n as u64).inv();
                let x = vars(cx, "x", len);
                let y = d.ifft_scalars(x.clone());
                cx.ok("ifft length", y.len() == n, || format!("{}", y.len()));
                for j in 0..n {
                    let want = dot(cx, &x, &row(wi, j, len, ni));
                    cx.eq_s("ifft_scalars", &y[j], &want);
                }
            })));
            v.push(case(format!("coset/{size}/{len}"), paths.min(12), flips.min(12), raw, Box::new(move |cx| {
                let d = Domain::new(size);
                let w = spec::root(n);
                let x = vars(cx, "x", len);
                for g in [Fr::from_u64(7), Fr::prf("coset", 3), Fr::ONE] {
                    let cf = CosetFFT::new(cx.sc(g));
                    let y = d.coset_fft_scalars(x.clone(), &cf);
                    cx.ok("coset fft length", y.len() == n, || format!("{}", y.len()));
                    for j in 0..n {
                        let want = dot(cx, &x, &spec::powers(g.mul(w.pow_u(j as u64)), len));
                        cx.eq_s("coset_fft_scalars", &y[j], &want);
                    }
                    let y = d.coset_ifft_scalars(x.clone(), &cf);
                    cx.ok("coset ifft length", y.len() == n, || format!("{}", y.len()));
                    let ni = Fr::from_u64(n as u64).inv();
                    for j in 0..n {
                        let gj = g.inv().pow_u(j as u64).mul(ni);
                        let want = dot(cx, &x, &row(w.inv(), j, len, gj));
                        cx.eq_s("coset_ifft_scalars", &y[j], &want);
                    }
                }
            })));
            v.push(case(format!("fft_g1/{size}/{len}"), paths, flips, raw, Box::new(move |cx| {
                let d = Domain::new(size);
                let w = spec::root(n);
                let x = gvars(cx, "P", len);
                let y = d.fft_g1(x.clone());
                cx.ok("fft_g1 length", y.len() == n, || format!("{}", y.len()));
                for j in 0..n {
                    let want = gdot(cx, &x, &row(w, j, len, Fr::ONE));
                    cx.eq_g("fft_g1", &y[j], &want);
                }
            })));
            v.push(case(format!("ifft_g1/{size}/{len}"), paths, flips, raw, Box::new(move |cx| {
                let d = Domain::new(size);
                let wi = spec::root(n).inv();
                let ni = Fr::from_u64(n as u64).inv();
                let x = gvars(cx, "P", len);
                let y = d.ifft_g1(x.clone());
                cx.ok("ifft_g1 length", y.len() == n, || format!("{}", y.len()));
                for j in 0..n {
                    let want = gdot(cx, &x, &row(wi, j, len, ni));
                    cx.eq_g("ifft_g1", &y[j], &want);
                }
                for k in [0, n / 2, n.saturating_sub(1), n] {
                    let z = d.ifft_g1_take_n(x.clone(), Some(k));
                    cx.ok("take_n length", z.len() == k, || format!("{}", z.len()));
                    for j in 0..k {
                        cx.eq_g("ifft_g1_take_n", &z[j], &y[j]);
                    }
                }
            })));
        }
    }
    // production sizes, by exact affine forms
    for (size, len) in if thorough { vec![(64usize, 64usize), (128, 128), (4096, 4096), (8192, 4096), (8192, 8192)] } else { vec![(64, 64), (128, 64), (4096, 4096), (8192, 4096)] } {
        for inverse in [false, true] {
            v.push(case(format!("full/{size}/{len}/{}", if inverse { "ifft" } else { "fft" }), 1, 0, 0, Box::new(move |cx| {
                let d = Domain::new(size);
                let x = vars(cx, "x", len);
                let y = if inverse { d.ifft_scalars(x) } else { d.fft_scalars(x) };
                let names: Vec<String> = (0..len).map(|i| format!("x{i}")).collect();
                let w = if inverse { spec::root(size).inv() } else { spec::root(size) };
                let k = if inverse { Fr::from_u64(size as u64).inv() } else { Fr::ONE };
                cx.lin_s("fft production size", &y, &names, Box::new(move |m| {
                    spec::powers(w.pow_u(m as u64), size).into_iter().map(|t| t.mul(k)).collect()
                }));
            })));
        }
    }
    v
}
