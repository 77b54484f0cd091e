//! Polynomial arithmetic, inversion, point sums, multi-scalar multiplication, reordering.
use super::fk20::naive;
use super::poly::{gvars, vars};
use super::recover::shuffled;
use super::{case, spec};
use crate::cx::{Case, Cx};
use bls12_381::batch_addition::{batch_addition_binary_tree_stride, multi_batch_addition_binary_tree_stride};
use bls12_381::batch_inversion::{batch_inverse, batch_inverse_scratch_pad};
use bls12_381::ff::Field;
use bls12_381::fixed_base_msm::{FixedBaseMSM, UsePrecomp};
use bls12_381::fixed_base_msm_window::FixedBaseMSMPrecompWindow;
use bls12_381::group::Group;
use bls12_381::lincomb::{g1_lincomb, g1_lincomb_unsafe, g2_lincomb, g2_lincomb_unsafe};
use bls12_381::{g1_batch_normalize, g2_batch_normalize, G1Point, G1Projective, G2Point, G2Projective, Scalar};
use polynomial::poly_coeff::{lagrange_interpolate, poly_add, poly_eval, poly_mul, poly_neg, poly_sub, vanishing_poly};
use symcore::fr::Fr;

fn z() -> Scalar {
    Scalar::from(0u64)
}
fn get(p: &[Scalar], i: usize) -> Scalar {
    p.get(i).copied().unwrap_or(z())
}
/// p(x) by its definition
fn eval_def(p: &[Scalar], x: &Scalar) -> Scalar {
    let (mut acc, mut pw) = (z(), Scalar::from(1u64));
    for c in p {
        acc += *c * pw;
        pw *= *x;
    }
    acc
}

/// n values that are different multiples of m unknowns
fn multiples(cx: &mut Cx, p: &str, n: usize, m: usize) -> Vec<Scalar> {
    let u = vars(cx, p, m);
    (0..n).map(|i| u[i % m] * cx.sc(Fr::from_u64(Fr::prf(&format!("{p}{i}"), 3).0[0] | 1))).collect()
}

fn poly_ops(cx: &mut Cx, f: &[Scalar], g: &[Scalar]) {
    let (a, b) = (f.len(), g.len());
    for (nm, r) in [
        ("poly_add", cx.guard(|| poly_add(f.to_vec(), g.to_vec()))),
        ("poly_sub", cx.guard(|| poly_sub(f.to_vec(), g.to_vec()))),
        ("poly_mul", cx.guard(|| poly_mul(f.to_vec(), g.to_vec()))),
        ("poly_neg", cx.guard(|| poly_neg(f.to_vec()))),
    ] {
        cx.ok(&format!("{nm} does not panic"), r.is_ok(), || format!("lengths {a}, {b}: {:?}", r.as_ref().err()));
        let Ok(r) = r else { continue };
        for i in 0..r.len().max(a + b) {
            let w = match nm {
                "poly_add" => get(f, i) + get(g, i),
                "poly_sub" => get(f, i) - get(g, i),
                "poly_neg" => -get(f, i),
                _ => (0..=i).fold(z(), |s, k| s + get(f, k) * get(g, i - k)),
            };
            cx.eq_s(nm, &get(&r, i), &w);
        }
    }
}

pub fn polynomials(thorough: bool) -> Vec<Case> {
    let mut v = vec![];
    let m = if thorough { 9 } else { 6 };
    for a in 0..=m {
        for b in 0..=m {
            v.push(case(format!("poly/{a}/{b}"), 3, 3, 0, Box::new(move |cx| {
                let (f, g) = (vars(cx, "f", a), vars(cx, "g", b));
                let x = cx.s("x");
                for (nm, r) in [
                    ("poly_add", cx.guard(|| poly_add(f.clone(), g.clone()))),
                    ("poly_sub", cx.guard(|| poly_sub(f.clone(), g.clone()))),
                    ("poly_mul", cx.guard(|| poly_mul(f.clone(), g.clone()))),
                    ("poly_neg", cx.guard(|| poly_neg(f.clone()))),
                ] {
                    cx.ok(&format!("{nm} does not panic"), r.is_ok(), || format!("lengths {a}, {b}: {:?}", r.as_ref().err()));
                    let Ok(r) = r else { continue };
                    let mut want = vec![z(); r.len().max(a + b)];
                    for (i, w) in want.iter_mut().enumerate() {
                        *w = match nm {
                            "poly_add" => get(&f, i) + get(&g, i),
                            "poly_sub" => get(&f, i) - get(&g, i),
                            "poly_neg" => -get(&f, i),
                            _ => (0..=i).fold(z(), |s, k| s + get(&f, k) * get(&g, i - k)),
                        };
                    }
                    for (i, w) in want.iter().enumerate() {
                        cx.eq_s(nm, &get(&r, i), w);
                    }
                    let e = poly_eval(&r, &x);
                    let (fe, ge) = (eval_def(&f, &x), eval_def(&g, &x));
                    let w = match nm {
                        "poly_add" => fe + ge,
                        "poly_sub" => fe - ge,
                        "poly_neg" => -fe,
                        _ => fe * ge,
                    };
                    cx.eq_s("evaluation of the result", &e, &w);
                }
            })));
        }
    }
    // zero, equal and opposite coefficients in every position
    for a in 1..=4usize {
        for b in 1..=if thorough { 4 } else { 3usize } {
            v.push(case(format!("poly-zeros/{a}/{b}"), 1, 0, 0, Box::new(move |cx| {
                let (f0, g0) = (vars(cx, "f", a), vars(cx, "g", b));
                for m in 0..1usize << (a + b) {
                    let f: Vec<_> = (0..a).map(|i| if m >> i & 1 == 1 { z() } else { f0[i] }).collect();
                    let g: Vec<_> = (0..b).map(|i| if m >> (a + i) & 1 == 1 { z() } else { g0[i] }).collect();
                    poly_ops(cx, &f, &g);
                }
                let one = Scalar::from(1u64);
                for (f, g) in [
                    (f0.clone(), f0.clone()),
                    (f0.clone(), f0.iter().map(|x| -*x).collect()),
                    (vec![one; a], g0.clone()),
                    (vec![-one; a], g0.clone()),
                    (f0.clone(), vec![one; b]),
                    (f0.clone(), vec![-one; b]),
                    (vec![f0[0]; a], vec![f0[0]; b]),
                ] {
                    poly_ops(cx, &f, &g);
                }
            })));
        }
    }
    // long polynomials: multiples of a few unknowns
    let mut long = vec![(8usize, 9usize), (16, 17), (33, 31), (64, 64), (65, 3), (2, 129), (1, 300), (100, 65), (64, 33), (65, 129), (70, 200), (200, 70), (40, 100), (128, 128)];
    if thorough {
        long.extend([(129, 127), (256, 255), (3, 256), (257, 40), (513, 2)]);
    }
    for (a, b) in long {
        v.push(case(format!("poly/long/{a}/{b}"), 1, 0, 0, Box::new(move |cx| {
            let f = multiples(cx, "f", a, 3);
            let g = multiples(cx, "g", b, 2);
            poly_ops(cx, &f, &g);
        })));
    }
    for n in [16usize, 17, 31, 32, 33, 64, 65, 100] {
        v.push(case(format!("eval-vanish/long/{n}"), 1, 0, 0, Box::new(move |cx| {
            let f = multiples(cx, "f", n, 3);
            for x in [z(), cx.ks("at"), -Scalar::from(1u64)] {
                let (got, w) = (poly_eval(&f, &x), eval_def(&f, &x));
                cx.eq_s("poly_eval", &got, &w);
            }
            // fixed roots, one of them repeated, and one unknown root
            let mut roots: Vec<Scalar> = (0..n).map(|i| cx.ks(&format!("root{i}"))).collect();
            roots[n / 3] = roots[n / 2];
            roots[n - 2] = cx.s("r");
            let p = vanishing_poly(&roots);
            cx.ok("vanishing degree", p.len() == n + 1, || format!("{}", p.len()));
            for k in 0..n + 3 {
                let x = cx.ks(&format!("place{k}"));
                let got = eval_def(&p, &x);
                let w = roots.iter().fold(Scalar::from(1u64), |a, r| a * (x - *r));
                cx.eq_s("vanishing polynomial is the product of x - root", &got, &w);
            }
        })));
    }
    for n in [16usize, 17, 32, 33, 65] {
        v.push(case(format!("interpolate/long/{n}"), 1, 0, 0, Box::new(move |cx| {
            let xs: Vec<Scalar> = (0..n).map(|i| if i == n / 2 { z() } else { cx.ks(&format!("x{i}")) }).collect();
            let ys = multiples(cx, "y", n, 4);
            let pts: Vec<_> = xs.iter().copied().zip(ys.iter().copied()).collect();
            let r = cx.guard(|| lagrange_interpolate(&pts));
            let Ok(Some(c)) = r else {
                cx.ok("interpolates", false, || format!("{n} points"));
                return;
            };
            cx.ok("coefficient count", c.len() == n, || format!("{}", c.len()));
            for (x, y) in &pts {
                let got = eval_def(&c, x);
                cx.eq_s("passes through the point", &got, y);
            }
        })));
    }
    for n in 0..=if thorough { 10 } else { 7 } {
        v.push(case(format!("eval-vanish/{n}"), 4, 4, 0, Box::new(move |cx| {
            let f = vars(cx, "f", n);
            let x = cx.s("x");
            let got = poly_eval(&f, &x);
            let w = eval_def(&f, &x);
            cx.eq_s("poly_eval", &got, &w);
            let p = vanishing_poly(&f);
            cx.ok("vanishing degree", p.len() == n + 1, || format!("{}", p.len()));
            let got = eval_def(&p, &x);
            let w = f.iter().fold(Scalar::from(1u64), |a, r| a * (x - *r));
            cx.eq_s("vanishing polynomial is the product of x - root", &got, &w);
            for r in &f {
                let got = poly_eval(&p, r);
                cx.eq_s("vanishes at every root", &got, &z());
            }
        })));
    }
    for n in 2..=if thorough { 12 } else { 7 } {
        v.push(case(format!("interpolate/{n}"), 6, 6, 0, Box::new(move |cx| {
            // fixed distinct abscissae (including 0), symbolic ordinates
            let xs: Vec<Scalar> = (0..n).map(|i| if i == n / 2 { z() } else { cx.ks(&format!("x{i}")) }).collect();
            let ys = vars(cx, "y", n);
            let pts: Vec<_> = xs.iter().copied().zip(ys.iter().copied()).collect();
            let r = cx.guard(|| lagrange_interpolate(&pts));
            let Ok(Some(c)) = r else {
                cx.ok("interpolates", false, || format!("{:?}", r.is_ok()));
                return;
            };
            cx.ok("coefficient count", c.len() == n, || format!("{}", c.len()));
            for (x, y) in &pts {
                let got = eval_def(&c, x);
                cx.eq_s("passes through the point", &got, y);
            }
        })));
    }
    // repeated abscissae are refused wherever they stand
    for n in 2..=if thorough { 9usize } else { 6 } {
        v.push(case(format!("interpolate/repeated/{n}"), 1, 0, 0, Box::new(move |cx| {
            let (xs, ys) = (vars(cx, "x", n), vars(cx, "y", n));
            for j in 1..n {
                for i in 0..j {
                    let mut pts: Vec<_> = xs.iter().copied().zip(ys.iter().copied()).collect();
                    pts[j].0 = pts[i].0;
                    for same in [false, true] {
                        if same {
                            pts[j].1 = pts[i].1;
                        }
                        let r = cx.guard(|| lagrange_interpolate(&pts));
                        cx.ok("repeated points are refused", !matches!(r, Ok(Some(_))), || format!("points {i} and {j} of {n} share their abscissa"));
                    }
                }
            }
        })));
    }
    for n in 2..=4usize {
        v.push(case(format!("interpolate/any/{n}"), 24, 24, 0, Box::new(move |cx| {
            let (xs, ys) = (vars(cx, "x", n), vars(cx, "y", n));
            let pts: Vec<_> = xs.iter().copied().zip(ys.iter().copied()).collect();
            let repeated = (0..n).any(|j| (0..j).any(|i| cx.val(&xs[i]) == cx.val(&xs[j])));
            let r = cx.guard(|| lagrange_interpolate(&pts));
            cx.ok("refused exactly when a point is repeated", matches!(r, Ok(Some(_))) != repeated, || format!("{n} points, repeated: {repeated}"));
            if let Ok(Some(c)) = r {
                for (x, y) in &pts {
                    let got = eval_def(&c, x);
                    cx.eq_s("passes through the point", &got, y);
                }
            }
        })));
    }
    v
}

pub fn batches(thorough: bool) -> Vec<Case> {
    let mut v = vec![];
    for n in [0usize, 1, 2, 3, 4, 5, 8, 17, 33] {
        v.push(case(format!("batch_inverse/{n}"), 1 + n.min(6), 6, 0, Box::new(move |cx| {
            let x = vars(cx, "x", n);
            let any_zero = x.iter().any(|s| bool::from(s.is_zero()));
            let mut y = x.clone();
            let mut pad = cx.s("junk");
            let r = cx.guard(|| batch_inverse(&mut y));
            // documented: panics if any of the elements is zero
            cx.ok("panics exactly on a zero element", r.is_err() == any_zero, || format!("{r:?}"));
            if r.is_ok() {
                for i in 0..n {
                    let p = y[i] * x[i];
                    cx.eq_s("inverse", &p, &Scalar::from(1u64));
                }
                // a scratch pad that was used before
                let mut scratch = vec![pad, pad * pad];
                pad += Scalar::from(1u64);
                scratch.push(pad);
                let mut y2 = x.clone();
                batch_inverse_scratch_pad(&mut y2, &mut scratch);
                for i in 0..n {
                    cx.eq_s("scratch pad contents are irrelevant", &y2[i], &y[i]);
                }
            }
        })));
    }
    // long lists: five unknowns, each repeated with different factors
    let near: Vec<usize> = [64usize, 128, 256, 512, 1024, 2048, 4096, 8192].into_iter().flat_map(|n| [n - 1, n, n + 1, n + 2]).collect();
    for ns in near.chunks(4).map(|c| c.to_vec()) {
        v.push(case(format!("batch_inverse/long/{ns:?}"), 1, 0, 0, Box::new(move |cx| {
            let u = vars(cx, "u", 5);
            for n in &ns {
                let k: Vec<Fr> = (0..*n).map(|i| Fr::from_u64(Fr::prf(&format!("bi{i}"), 1).0[0] | 1)).collect();
                let x: Vec<Scalar> = k.iter().enumerate().map(|(i, c)| u[i % 5] * cx.sc(*c)).collect();
                let mut y = x.clone();
                batch_inverse(&mut y);
                for i in 0..*n {
                    let p = y[i] * x[i];
                    cx.eq_s("inverse", &p, &Scalar::from(1u64));
                }
            }
        })));
    }
    // sums of points; `dup` repeats points so that additions become doublings
    let lens: Vec<usize> = if thorough { (0..=70).collect() } else { vec![0, 1, 2, 3, 15, 16, 17, 18, 19, 31, 32, 33, 34, 40, 47, 64, 65] };
    for n in lens {
        for dup in [0usize, 2, 3] {
            if dup > 0 && n < 2 {
                continue;
            }
            v.push(case(format!("batch_add/{n}/{dup}"), 1, 0, 0, Box::new(move |cx| {
                let p = gvars(cx, "P", n);
                let p: Vec<G1Projective> = (0..n).map(|i| if dup > 0 { p[i / dup] } else { p[i] }).collect();
                let pts = g1_batch_normalize(&p);
                let want = p.iter().fold(G1Projective::identity(), |a, x| a + *x);
                let got = batch_addition_binary_tree_stride(pts.clone());
                cx.eq_g("sum", &got, &want);
                let r = multi_batch_addition_binary_tree_stride(vec![pts.clone()]);
                cx.ok("one sum", r.len() == 1, || format!("{}", r.len()));
                cx.eq_g("sum as a multi batch", &r[0], &want);
            })));
        }
    }
    // long lists: points that are different multiples of five unknowns, some of them repeated
    for n in [127usize, 128, 129, 255, 256, 257, 513, 1023, 1024, 1025, 2050] {
        v.push(case(format!("batch_add/long/{n}"), 1, 0, 0, Box::new(move |cx| {
            let x = multiples(cx, "u", n, 5);
            for dup in [1usize, 2, 3] {
                let p: Vec<G1Projective> = (0..n).map(|i| cx.g1s(&x[i / dup])).collect();
                let pts = g1_batch_normalize(&p);
                let want = p.iter().fold(G1Projective::identity(), |a, x| a + *x);
                let got = batch_addition_binary_tree_stride(pts.clone());
                cx.eq_g("sum", &got, &want);
                let r = multi_batch_addition_binary_tree_stride(vec![pts.clone()]);
                cx.ok("one sum", r.len() == 1, || format!("{}", r.len()));
                cx.eq_g("sum as a multi batch", &r[0], &want);
            }
        })));
    }
    let wide: Vec<Vec<usize>> = vec![
        vec![3; 129], vec![2; 300], vec![7; 64], vec![64; 20], vec![300, 2, 257], vec![600, 33, 0, 1, 129],
        (0..130).collect(), (0..64).rev().collect(), vec![1; 1025], vec![4; 260],
    ];
    for (k, sh) in wide.into_iter().enumerate() {
        v.push(case(format!("multi_add/long/{k}"), 1, 0, 0, Box::new(move |cx| {
            let total: usize = sh.iter().sum();
            let x = multiples(cx, "u", total, 5);
            let mut at = 0;
            let sets: Vec<Vec<G1Projective>> = sh
                .iter()
                .map(|n| {
                    at += n;
                    x[at - n..at].iter().map(|s| cx.g1s(s)).collect()
                })
                .collect();
            let aff: Vec<Vec<G1Point>> = sets.iter().map(|s| g1_batch_normalize(s)).collect();
            let r = multi_batch_addition_binary_tree_stride(aff);
            cx.ok("one sum per set", r.len() == sh.len(), || format!("{}", r.len()));
            for (got, s) in r.iter().zip(&sets) {
                let want = s.iter().fold(G1Projective::identity(), |a, x| a + *x);
                cx.eq_g("sum of the set", got, &want);
            }
        })));
    }
    let shapes: Vec<Vec<usize>> = {
        let mut s = vec![
            vec![], vec![0], vec![0, 0, 0], vec![1, 1], vec![2; 16], vec![2; 17], vec![2; 18], vec![3; 17], vec![1; 40], vec![0, 40, 1],
            vec![33, 2, 0, 5, 1], vec![17, 18, 19], vec![40, 0, 3, 40], vec![5; 9], vec![35, 34], vec![1, 64], vec![2, 2, 31],
        ];
        if thorough {
            for k in 0..20u64 {
                s.push((0..6).map(|i| (Fr::prf(&format!("sh{i}"), k).0[0] % 40) as usize).collect());
            }
        }
        s
    };
    for sh in shapes {
        for dup in [0usize, 2] {
            let sh = sh.clone();
            v.push(case(format!("multi_add/{dup}/{sh:?}"), 1, 0, 0, Box::new(move |cx| {
                let sets: Vec<Vec<G1Projective>> = sh
                    .iter()
                    .enumerate()
                    .map(|(b, n)| (0..*n).map(|i| cx.g1(&format!("P{b}_{}", if dup > 0 { i / dup } else { i }))).collect())
                    .collect();
                let aff: Vec<Vec<G1Point>> = sets.iter().map(|s| g1_batch_normalize(s)).collect();
                let r = multi_batch_addition_binary_tree_stride(aff);
                cx.ok("one sum per set", r.len() == sh.len(), || format!("{}", r.len()));
                for (got, s) in r.iter().zip(&sets) {
                    let want = s.iter().fold(G1Projective::identity(), |a, x| a + *x);
                    cx.eq_g("sum of the set", got, &want);
                }
            })));
        }
    }
    v
}

/// linear combinations: every subset of identity points, mismatched lengths
pub fn lincombs(thorough: bool) -> Vec<Case> {
    let mut v = vec![];
    for n in 0..=if thorough { 6usize } else { 4 } {
        for mask in 0..1usize << n {
            v.push(case(format!("lincomb/{n}/{mask:b}"), 4, 4, 0, Box::new(move |cx| {
                let id = |i: usize| mask >> i & 1 == 1;
                let p: Vec<G1Projective> = gvars(cx, "P", n).into_iter().enumerate().map(|(i, p)| if id(i) { G1Projective::identity() } else { p }).collect();
                let qs = vars(cx, "q", n);
                let q: Vec<G2Projective> = qs.iter().enumerate().map(|(i, s)| if id(i) { G2Projective::identity() } else { cx.g2s(s) }).collect();
                let s = vars(cx, "s", n);
                let (pa, qa): (Vec<G1Point>, Vec<G2Point>) = (g1_batch_normalize(&p), g2_batch_normalize(&q));
                let want1 = naive(&p, &s);
                let want2 = q.iter().zip(&s).fold(G2Projective::identity(), |a, (x, k)| a + *x * *k);
                match g1_lincomb(&pa, &s) {
                    Some(r) => cx.eq_g("g1_lincomb", &r, &want1),
                    None => cx.ok("g1_lincomb", false, || "None".into()),
                }
                match g2_lincomb(&qa, &s) {
                    Some(r) => cx.eq_g2("g2_lincomb", &r, &want2),
                    None => cx.ok("g2_lincomb", false, || "None".into()),
                }
                let free = p.iter().all(|x| !bool::from(x.is_identity())) && q.iter().all(|x| !bool::from(x.is_identity()));
                if mask == 0 && free && n > 0 {
                    match (g1_lincomb_unsafe(&pa, &s), g2_lincomb_unsafe(&qa, &s)) {
                        (Some(a), Some(b)) => {
                            cx.eq_g("g1_lincomb_unsafe", &a, &want1);
                            cx.eq_g2("g2_lincomb_unsafe", &b, &want2);
                        }
                        _ => cx.ok("lincomb_unsafe", false, || "None".into()),
                    }
                }
            })));
        }
    }
    v.push(case("lincomb/many", 1, 0, 0, Box::new(|cx| {
        for n in [31usize, 32, 33, 70, 127, 128, 129, 257, 513, 1025] {
            let p: Vec<G1Projective> = gvars(cx, "P", n).into_iter().enumerate().map(|(i, p)| if i % 9 == 4 { G1Projective::identity() } else { p }).collect();
            let s = vars(cx, "s", n);
            let want = naive(&p, &s);
            match g1_lincomb(&g1_batch_normalize(&p), &s) {
                Some(r) => cx.eq_g("g1_lincomb", &r, &want),
                None => cx.ok("g1_lincomb", false, || "None".into()),
            }
        }
        for n in [16usize, 31, 32, 33, 65, 130] {
            let x = vars(cx, "t", n);
            let q: Vec<G2Projective> = x.iter().enumerate().map(|(i, s)| if i % 7 == 3 { G2Projective::identity() } else { cx.g2s(s) }).collect();
            let s = vars(cx, "s", n);
            let want = q.iter().zip(&s).fold(G2Projective::identity(), |a, (x, k)| a + *x * *k);
            match g2_lincomb(&g2_batch_normalize(&q), &s) {
                Some(r) => cx.eq_g2("g2_lincomb", &r, &want),
                None => cx.ok("g2_lincomb", false, || "None".into()),
            }
        }
    })));
    v.push(case("lincomb/lengths", 1, 0, 0, Box::new(|cx| {
        let p = g1_batch_normalize(&gvars(cx, "P", 4));
        let s = vars(cx, "s", 4);
        let q = g2_batch_normalize(&s.iter().map(|x| cx.g2s(x)).collect::<Vec<_>>());
        for a in 0..=4usize {
            for b in 0..=4usize {
                if a == b {
                    continue;
                }
                let r = [
                    cx.guard(|| g1_lincomb(&p[..a], &s[..b]).is_none()),
                    cx.guard(|| g2_lincomb(&q[..a], &s[..b]).is_none()),
                    cx.guard(|| g1_lincomb_unsafe(&p[..a], &s[..b]).is_none()),
                    cx.guard(|| g2_lincomb_unsafe(&q[..a], &s[..b]).is_none()),
                ];
                for (x, nm) in r.iter().zip(["g1_lincomb", "g2_lincomb", "g1_lincomb_unsafe", "g2_lincomb_unsafe"]) {
                    cx.ok("lengths that differ give None", x == &Ok(true), || format!("{nm} of {a} points and {b} scalars: {x:?}"));
                }
            }
        }
    })));
    v
}

/// scalars that exercise windows: digits at the extremes of every window, carries, top bits
fn tough_scalars(w: usize, seed: u64) -> Vec<Fr> {
    let two = Fr::from_u64(2);
    let mut v = vec![Fr::ZERO, Fr::ONE, Fr::ONE.neg(), two.inv(), Fr::from_u64(3).inv()];
    let nwin = 255 / w + 1;
    // 2^(w-1) in window k (most negative digit), 2^(w-1) - 1 (most positive), all ones below a window
    for k in [0usize, 1, 2, nwin / 2, nwin.saturating_sub(2), nwin - 1] {
        for d in [(1u64 << (w - 1)), (1u64 << (w - 1)) - 1, (1u64 << (w - 1)) + 1, (1u64 << w) - 1, 1] {
            v.push(two.pow_u((k * w) as u64).mul(Fr::from_u64(d)));
        }
    }
    for i in 0..6 {
        v.push(Fr::prf(&format!("scalar{i}"), seed));
    }
    v
}

pub fn msm(thorough: bool) -> Vec<Case> {
    let mut v = vec![];
    let widths: Vec<usize> = if thorough { (2..=14).collect() } else { vec![2, 3, 4, 5, 6, 7, 8, 9, 10] };
    for w in widths {
        for n in if w > 10 { vec![2usize] } else { vec![1usize, 3, 20] } {
            v.push(case(format!("window/{w}/{n}"), 1, 0, 0, Box::new(move |cx| {
                let p = gvars(cx, "P", n);
                let pts = g1_batch_normalize(&p);
                let f = FixedBaseMSMPrecompWindow::new(&pts, w);
                let sc = tough_scalars(w, 5);
                for k in 0..if w > 8 { 3 } else if n > 4 { 3 } else { sc.len() } {
                    let k = if n > 4 || w > 8 { k * 11 } else { k };
                    let s: Vec<Scalar> = (0..n).map(|i| cx.sc(sc[(k + i * 7) % sc.len()])).collect();
                    let got = f.msm(&s);
                    let want = naive(&p, &s);
                    cx.eq_g("windowed sum", &got, &want);
                }
            })));
        }
    }
    // many points (production lists have 64 and 4096)
    let mut many = vec![(3usize, 33usize), (4, 64), (4, 65), (4, 128), (5, 129), (2, 257), (8, 64)];
    if thorough {
        many.extend([(8, 128), (6, 300), (3, 1025)]);
    }
    for (w, n) in many {
        v.push(case(format!("window/many/{w}/{n}"), 1, 0, 0, Box::new(move |cx| {
            let p = gvars(cx, "P", n);
            let pts = g1_batch_normalize(&p);
            let f = FixedBaseMSMPrecompWindow::new(&pts, w);
            let sc = tough_scalars(w, 17);
            for k in 0..3usize {
                let s: Vec<Scalar> = (0..n).map(|i| cx.sc(if k == 2 { sc[(i / 20) % 2] } else { sc[(k * 11 + i * 7) % sc.len()] })).collect();
                let got = f.msm(&s);
                let want = naive(&p, &s);
                cx.eq_g("windowed sum", &got, &want);
            }
        })));
    }
    for (w, n) in [(0usize, 5usize), (4, 5), (8, 5), (0, 1), (5, 1), (0, 64), (0, 130), (6, 64)] {
        v.push(case(format!("fixed-base/{w}/{n}"), 1, 0, 0, Box::new(move |cx| {
            let p = gvars(cx, "P", n);
            let pre = if w == 0 { UsePrecomp::No } else { UsePrecomp::Yes { width: w } };
            let f = FixedBaseMSM::new(g1_batch_normalize(&p), pre);
            let sc = tough_scalars(w.max(3), 9);
            for k in 0..6usize {
                let s: Vec<Scalar> = (0..n).map(|i| cx.sc(sc[(5 * k + i) % sc.len()])).collect();
                let got = f.msm(s.clone());
                let want = naive(&p, &s);
                cx.eq_g("fixed-base sum", &got, &want);
            }
            if w == 0 {
                let s = vars(cx, "s", n);
                let got = f.msm(s.clone());
                let want = naive(&p, &s);
                cx.eq_g("fixed-base sum, any scalars", &got, &want);
            }
        })));
    }
    v
}

pub fn reorder(thorough: bool) -> Vec<Case> {
    use kzg_multi_open::recover_evaluations_in_domain_order as reo;
    let mut v = vec![];
    let mut dims = vec![(4usize, 1usize), (8, 2), (8, 4), (16, 4), (16, 16), (32, 4)];
    if thorough {
        dims.extend([(16, 2), (64, 8), (64, 4), (8192, 64)]);
    } else {
        dims.push((8192, 64));
    }
    for (n, ell) in dims {
        v.push(case(format!("reorder/{n}/{ell}"), 1, 0, 0, Box::new(move |cx| {
            let nc = n / ell;
            let x = vars(cx, "e", if n > 1000 { 65 * ell } else { n });
            let mut sets: Vec<Vec<usize>> = vec![];
            if n > 1000 {
                sets.push(shuffled(nc, 8)[..65].to_vec());
            } else {
                for k in 0..14u64 {
                    sets.push(shuffled(nc, k)[..1 + (k as usize * 5) % nc].to_vec());
                }
                sets.push((0..nc).collect());
                sets.push((0..nc).rev().collect());
            }
            for set in sets {
                let ev: Vec<Vec<Scalar>> = set.iter().enumerate().map(|(i, _)| x[i * ell..(i + 1) * ell].to_vec()).collect();
                let r = reo(n, set.clone(), ev.clone());
                let Some((idx, el)) = r else {
                    cx.ok("reorders", false, || format!("{set:?}: None"));
                    continue;
                };
                cx.ok("shape", idx.len() == set.len() && el.len() == n, || format!("{} {}", idx.len(), el.len()));
                let mut seen = vec![false; n];
                for (k, c) in set.iter().enumerate() {
                    cx.ok("new index is the bit-reversed index", idx[k] == spec::bitrev(*c, spec::log2(nc)), || format!("{} -> {}", c, idx[k]));
                    for j in 0..ell {
                        let p = spec::bitrev(c * ell + j, spec::log2(n));
                        seen[p] = true;
                        cx.eq_s("value in its place", &el[p], &ev[k][j]);
                        cx.ok("place lies in the block of the new index", p % nc == idx[k], || format!("{p} {}", idx[k]));
                    }
                }
                for (p, s) in seen.iter().enumerate() {
                    if !s {
                        cx.eq_s("missing values are zero", &el[p], &z());
                    }
                }
            }
        })));
    }
    v.push(case("reorder/malformed", 1, 0, 0, Box::new(|cx| {
        let x = vars(cx, "e", 8);
        let c = |n: usize, i: usize| x[i..i + n].to_vec();
        let mut none = |cx: &mut Cx, what: &str, n: usize, idx: Vec<usize>, ev: Vec<Vec<Scalar>>| {
            let r = cx.guard(|| reo(n, idx, ev).is_none());
            cx.ok("malformed input gives None", r == Ok(true), || format!("{what}: {r:?}"));
        };
        none(cx, "no cosets", 8, vec![], vec![]);
        none(cx, "unequal lengths", 8, vec![0, 1], vec![c(2, 0), c(1, 2)]);
        none(cx, "unequal lengths, empty last", 8, vec![0, 1], vec![c(2, 0), vec![]]);
        for bad in [4usize, 5, 8, 1 << 40, usize::MAX] {
            none(cx, "index out of range", 8, vec![bad], vec![c(2, 0)]);
            none(cx, "index out of range", 8, vec![0, bad, 1], vec![c(2, 0), c(2, 2), c(2, 4)]);
        }
        none(cx, "empty cosets", 8, vec![0, 1], vec![vec![], vec![]]);
        for idx in [0usize, 1, 2, usize::MAX] {
            none(cx, "coset larger than the domain", 4, vec![idx], vec![c(8, 0)]);
            none(cx, "coset larger than the domain", 2, vec![idx, 0], vec![c(4, 0), c(4, 4)]);
            none(cx, "coset larger than the domain", 1, vec![idx], vec![c(2, 0)]);
        }
        for bad in [1usize, 2, 3] {
            none(cx, "index out of range", 8, vec![bad], vec![c(8, 0)]);
            none(cx, "index out of range", 4, vec![bad], vec![c(4, 0)]);
        }
    })));
    v
}
