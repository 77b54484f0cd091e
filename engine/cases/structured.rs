//! Whole blobs of special shape on a line: an unknown times a fixed vector. Zero coefficients, zero values and
//! repeated values make the code take branches that a blob of independent unknowns does not take.
use super::das::*;
use super::{case, spec};
use crate::cx::{Case, Cx};
use bls12_381::Scalar;
use symcore::fr::Fr;

/// values at the blob's places of the polynomial with the given coefficients
pub fn values_of(f: &[Fr]) -> Vec<Fr> {
    let mut f = f.to_vec();
    f.resize(4096, Fr::ZERO);
    let nat = spec::dft(&f, spec::root(4096));
    (0..4096).map(|i| nat[spec::bitrev(i, 12)]).collect()
}
fn dense(i: usize) -> Fr {
    Fr::from_u64(Fr::prf(&format!("st{i}"), 3).0[0] | 1)
}

/// (name, blob vector)
pub fn kinds() -> Vec<(String, Vec<Fr>)> {
    let mut v: Vec<(String, Vec<Fr>)> = vec![];
    let mut co = |n: &str, keep: &dyn Fn(usize) -> bool| {
        let f: Vec<Fr> = (0..4096).map(|i| if keep(i) { dense(i) } else { Fr::ZERO }).collect();
        v.push((format!("coefficients {n}"), values_of(&f)));
    };
    co("0 mod 64", &|i| i % 64 == 0);
    co("all but 5 mod 64", &|i| i % 64 != 5);
    co("below 64", &|i| i < 64);
    co("below 2048", &|i| i < 2048);
    co("all but the last", &|i| i != 4095);
    co("odd", &|i| i % 2 == 1);
    co("the last", &|i| i == 4095);
    co("63 mod 64", &|i| i % 64 == 63);
    co("0 to 31 mod 64", &|i| i % 64 < 32);
    co("below 65", &|i| i < 65);
    co("from 4032", &|i| i >= 4032);
    co("from 64", &|i| i >= 64);
    co("from 2048", &|i| i >= 2048);
    co("64", &|i| i == 64);
    co("63", &|i| i == 63);
    co("even", &|i| i % 2 == 0);
    co("every third", &|i| i % 3 == 0);
    let mut va = |n: &str, val: &dyn Fn(usize) -> Fr| v.push((format!("values {n}"), (0..4096).map(val).collect()));
    let z = Fr::ZERO;
    va("constant", &|_| Fr::ONE);
    va("first cell", &|i| if i < 64 { dense(i) } else { z });
    va("last element", &|i| if i == 4095 { Fr::ONE } else { z });
    va("first half", &|i| if i < 2048 { dense(i) } else { z });
    va("one per cell", &|i| dense(i / 64));
    va("same cell everywhere", &|i| dense(i % 64));
    va("first element", &|i| if i == 0 { Fr::ONE } else { z });
    va("alternating sign", &|i| if i % 2 == 0 { Fr::ONE } else { Fr::ONE.neg() });
    va("second half", &|i| if i >= 2048 { dense(i) } else { z });
    va("two values", &|i| if dense(i).0[0] >> 7 & 1 == 0 { Fr::ONE } else { z });
    va("equal halves", &|i| dense(i % 2048));
    va("counting", &|i| Fr::from_u64(i as u64));
    va("all but the first element", &|i| if i == 0 { z } else { dense(i) });
    va("zero cells in between", &|i| if i / 64 % 2 == 0 { dense(i) } else { z });
    v
}
pub fn line(cx: &Cx, x: &Scalar, v: &[Fr]) -> Vec<Scalar> {
    v.iter().map(|c| if c.is_zero() { Scalar::from(0u64) } else { *x * cx.sc(*c) }).collect()
}

fn each(what: &'static str, f: fn(&mut Cx, &str, &Scalar, &[Fr], &[u8; 131072])) -> Vec<Case> {
    kinds()
        .chunks(4)
        .enumerate()
        .map(|(g, ks)| {
            let ks = ks.to_vec();
            case(format!("{what}/structured/{g}"), 1, 0, 0, Box::new(move |cx| {
                let x = cx.s("x");
                for (name, v) in &ks {
                    let b = blob_of(&line(cx, &x, v));
                    f(cx, name, &x, v, &b);
                }
            }))
        })
        .collect()
}

/// 4096 values with unusual bytes: powers of two and their neighbours, runs of zero or 0xff bytes, few bytes set
pub fn patterns() -> Vec<Fr> {
    let mut v = vec![];
    let two = |k: u64| Fr::from_u64(2).pow_u(k);
    for k in 0..256 {
        let p = two(k);
        v.extend([p, p.neg(), p.sub(Fr::ONE), p.add(Fr::ONE), p.neg().sub(Fr::ONE), p.add(two(k / 2)), p.sub(two(k / 3))]);
    }
    let mut i = 0u64;
    while v.len() < 4096 {
        let r = Fr::prf(&format!("pat{i}"), 5);
        let mut b = r.to_be();
        let m = Fr::prf(&format!("msk{i}"), 5).0[0];
        for (j, x) in b.iter_mut().enumerate() {
            match i % 6 {
                0 => if (j as u64) < m % 32 { *x = 0 },
                1 => if j as u64 > m % 32 { *x = 0 },
                2 => if m >> j & 1 == 1 { *x = 0 },
                3 => if m >> j & 1 == 1 { *x = 0xff },
                4 => if j as u64 != m % 32 { *x = 0 },
                _ => if m >> (j / 8) & 1 == 1 { *x = 0 },
            }
        }
        b[0] &= 0x3f;
        v.push(Fr::from_be(&b).unwrap());
        i += 1;
    }
    v.truncate(4096);
    v
}
/// fixed blobs holding such values, or extending to them
pub fn byte_patterns(recover: bool) -> Vec<Case> {
    (0..3)
        .map(|which| {
            case(format!("bytes/{which}"), 1, 0, 0, Box::new(move |cx| {
                let c = ctx_random(cx);
                let p = patterns();
                // 0, 1: the values are the blob's (in two orders); 2: the values at the other 4096 points
                let vals: Vec<Fr> = match which {
                    0 => p,
                    1 => (0..4096).map(|i| p[(i * 1365 + 7) % 4096]).collect(),
                    _ => {
                        let w = spec::root(8192);
                        let nat: Vec<Fr> = (0..4096).map(|i| p[spec::bitrev(i, 12)]).collect();
                        let inv = Fr::from_u64(4096).inv();
                        let f = spec::dft(&nat, spec::root(4096).inv());
                        values_of(&f.iter().enumerate().map(|(k, x)| x.mul(inv).mul(w.inv().pow_u(k as u64))).collect::<Vec<_>>())
                    }
                };
                let mut b = vec![0u8; 131072];
                for (i, x) in vals.iter().enumerate() {
                    b[32 * i..32 * i + 32].copy_from_slice(&x.to_be());
                }
                let b: Box<[u8; 131072]> = b.into_boxed_slice().try_into().unwrap();
                let mut f2 = super::setup::coeffs_of(&vals);
                f2.resize(8192, Fr::ZERO);
                let all = spec::dft(&f2, spec::root(8192));
                let want: Vec<Vec<u8>> = (0..128).map(|k| (0..64).flat_map(|j| all[spec::bitrev(64 * k + j, 13)].to_be()).collect()).collect();
                let (from, r) = if recover {
                    let idx: Vec<u64> = if which == 1 { (0..64).map(|i| 2 * i + 1).collect() } else { (64 * (1 - which as u64 / 2)..).take(64).collect() };
                    let cells: Vec<[u8; 2048]> = idx.iter().map(|k| want[*k as usize].clone().try_into().unwrap()).collect();
                    ("recovered", cx.guard(|| c.recover_cells_and_kzg_proofs(idx, cells.iter().collect())))
                } else {
                    ("computed", cx.guard(|| c.compute_cells_and_kzg_proofs(&b)))
                };
                cx.ok("accepts canonical values", matches!(r, Ok(Ok(_))), || match &r { Ok(Err(e)) => format!("{e:?}").chars().take(200).collect(), Err(p) => p.clone(), _ => String::new() });
                let Ok(Ok((cells, _))) = r else { return };
                for k in 0..128 {
                    let first = cells[k].iter().zip(&want[k]).position(|(a, b)| a != b);
                    cx.ok("bytes of the cells", first.is_none(), || format!("{from} cell {k} differs at byte {first:?}"));
                }
            }))
        })
        .collect()
}

pub fn cells() -> Vec<Case> {
    each("cells", |cx, name, x, v, b| {
        let r = ctx_random(cx).compute_cells_and_kzg_proofs(b);
        cx.ok("accepts canonical blob", r.is_ok(), || format!("{name}: {:?}", r.as_ref().err()));
        let Ok((cells, _)) = r else { return };
        let f = super::setup::coeffs_of(v);
        let mut f2 = f;
        f2.resize(8192, Fr::ZERO);
        let all = spec::dft(&f2, spec::root(8192));
        for (k, cell) in cells.iter().enumerate() {
            let Some(s) = scalars_of(&cell[..]) else {
                cx.ok("cells canonical", false, || format!("{name}: cell {k}"));
                return;
            };
            if k < 64 {
                cx.ok("systematic", cell[..] == b[2048 * k..2048 * (k + 1)], || format!("{name}: cell {k} is not blob chunk {k}"));
            }
            for (j, s) in s.iter().enumerate() {
                let want = *x * cx.sc(all[spec::bitrev(64 * k + j, 13)]);
                cx.eq_s("cell evaluations", s, &want);
            }
        }
    })
}
pub fn proofs() -> Vec<Case> {
    each("proofs", |cx, name, x, v, b| {
        let r = ctx_random(cx).compute_cells_and_kzg_proofs(b);
        cx.ok("accepts canonical blob", r.is_ok(), || format!("{name}: {:?}", r.as_ref().err()));
        let Ok((_, proofs)) = r else { return };
        for (k, p) in proofs.iter().enumerate() {
            let Some(p) = point_of(p) else {
                cx.ok("proof is a valid point", false, || format!("{name}: proof {k}"));
                return;
            };
            let m = &full_matrix()[k];
            let want = m.iter().zip(v).fold(Fr::ZERO, |a, (m, v)| if v.is_zero() { a } else { a.add(m.mul(*v)) });
            let want = cx.g1s(&(*x * cx.sc(want)));
            cx.eq_g("proofs are quotient commitments", &p, &want);
        }
    })
}
pub fn commitments() -> Vec<Case> {
    each("commitment", |cx, name, x, v, b| {
        let r = ctx_random(cx).blob_to_kzg_commitment(b);
        cx.ok("accepts canonical blob", r.is_ok(), || format!("{name}: {:?}", r.as_ref().err()));
        let Ok(c) = r else { return };
        let Some(p) = point_of(&c) else {
            cx.ok("commitment is a valid point", false, || format!("{name}: {c:x?}"));
            return;
        };
        let f = super::setup::coeffs_of(v);
        let want = random_srs().iter().zip(&f).fold(Fr::ZERO, |a, (s, f)| a.add(s.mul(*f)));
        let want = cx.g1s(&(*x * cx.sc(want)));
        cx.eq_g("commitment is sum f_i s_i", &p, &want);
    })
}
/// honest batches that mix cells of a blob of special shape with cells of the zero blob and of an ordinary blob
pub fn verify() -> Vec<Case> {
    kinds()
        .chunks(3)
        .enumerate()
        .map(|(g, ks)| {
            let ks = ks.to_vec();
            case(format!("api/honest-batch/structured/{g}"), 1, 0, 0, Box::new(move |cx| {
                let ctx = ctx_honest(cx);
                let x = cx.s("x");
                let zero = vec![Fr::ZERO; 4096];
                let some: Vec<Fr> = (0..4096).map(dense).collect();
                let mut blobs = vec![&zero, &some];
                blobs.extend(ks.iter().map(|k| &k.1));
                let mut data = vec![];
                for v in blobs {
                    let b = blob_of(&line(cx, &x, v));
                    let (Ok(c), Ok((cs, ps))) = (ctx.blob_to_kzg_commitment(&b), ctx.compute_cells_and_kzg_proofs(&b)) else {
                        cx.ok("accepts canonical blob", false, || String::new());
                        return;
                    };
                    data.push((c, cs, ps));
                }
                let n = data.len();
                let mut shapes: Vec<Vec<(usize, usize)>> = vec![
                    (0..n).map(|b| (b, 31 * b)).collect(),
                    (0..n).rev().map(|b| (b, 7)).collect(),
                    (0..10).map(|i| (i % n, 127 - i)).collect(),
                    vec![(0, 3), (0, 3), (0, 4)],
                ];
                for b in 0..n {
                    shapes.push(vec![(b, 64), (b, 0), (b, 127)]);
                    shapes.push(vec![(0, 9), (b, 9)]);
                    shapes.push(vec![(b, 99)]);
                }
                for shape in shapes {
                    let r = ctx.verify_cell_kzg_proof_batch(
                        shape.iter().map(|x| &data[x.0].0).collect(),
                        shape.iter().map(|x| x.1 as u64).collect(),
                        shape.iter().map(|x| &*data[x.0].1[x.1]).collect(),
                        shape.iter().map(|x| &data[x.0].2[x.1]).collect(),
                    );
                    cx.ok("honest cells accepted", r.is_ok(), || format!("{shape:?} of zero, dense, {:?}: {:?}", ks.iter().map(|k| &k.0).collect::<Vec<_>>(), r.as_ref().err()));
                }
                cx.unconditional("accepted for every blob on the line");
            }))
        })
        .collect()
}
/// setups in which some elements are the point at infinity: commitment (all blobs) and proofs (all blobs)
pub fn sparse_setups(thorough: bool, proofs: bool) -> Vec<Case> {
    let mut v = vec![];
    let all: Vec<(&'static str, fn(usize) -> bool)> =
        vec![("some", |i| ![0usize, 77, 2048, 4000, 4095].contains(&i)), ("few", |i| [1usize, 64, 1000, 4094].contains(&i)), ("half", |i| i % 2 == 0)];
    for (nm, keep) in all.into_iter().take(if thorough { 3 } else { 2 }) {
        v.push(case(format!("{}/infinity-in-setup/{nm}", if proofs { "proofs" } else { "commitment" }), 1, 0, 0, Box::new(move |cx| {
            let srs: Vec<Fr> = random_srs().iter().enumerate().map(|(i, s)| if keep(i) { *s } else { Fr::ZERO }).collect();
            let ctx = new_ctx(&setup(cx, &srs, tau(), 65), rust_eth_kzg::UsePrecomp::No);
            let b = blob_of(&super::poly::vars(cx, "b", 4096));
            if proofs {
                let r = ctx.compute_cells_and_kzg_proofs(&b);
                cx.ok("accepts canonical blob", r.is_ok(), || format!("{:?}", r.as_ref().err()));
                let Ok((_, ps)) = r else { return };
                let pts: Vec<_> = ps.iter().filter_map(point_of).collect();
                cx.ok("proofs are valid points", pts.len() == 128, || format!("{} of 128", pts.len()));
                if pts.len() == 128 {
                    let m = spec::proof_matrix(&srs, 4096, 64, 8192);
                    cx.lin_g("proofs are quotient commitments", &pts, &names("b", 4096), Box::new(move |j| m.iter().map(|r| r[j]).collect()));
                }
            } else {
                let r = ctx.blob_to_kzg_commitment(&b);
                cx.ok("accepts canonical blob", r.is_ok(), || format!("{:?}", r.as_ref().err()));
                let Some(p) = r.ok().as_ref().and_then(point_of) else {
                    cx.ok("commitment is a valid point", false, || String::new());
                    return;
                };
                let row = spec::commit_row(&srs, 4096);
                cx.lin_g("commitment is sum f_i s_i", &[p], &names("b", 4096), Box::new(move |j| vec![row[j]]));
            }
        })));
    }
    v
}

/// A journal of calls on one context, in every order of two, each repeated: every call gives the answer it gave alone.
pub fn journal(thorough: bool) -> Vec<Case> {
    let groups = if thorough { 4 } else { 2 };
    (0..groups)
        .map(|g| {
            case(format!("journal/{g}"), 1, 0, 0, Box::new(move |cx| {
                let ctx = new_ctx(&setup(cx, random_srs(), tau(), 65), rust_eth_kzg::UsePrecomp::No);
                let mut inf = [0u8; 48];
                inf[0] = 0xc0;
                // a constant blob: all values x, commitment x s_0, proofs at infinity
                let (x, y) = (cx.s("x"), cx.s("y"));
                let s0 = cx.sc(random_srs()[0]);
                let flat = |x: &Scalar| -> [u8; 2048] {
                    let mut b = [0u8; 2048];
                    for c in b.chunks_mut(32) {
                        c.copy_from_slice(&x.to_bytes_be());
                    }
                    b
                };
                let (cx_, cy) = (flat(&x), flat(&y));
                let com = |cx: &Cx, x: &Scalar| bls12_381::G1Point::from(cx.g1s(&(*x * s0))).to_compressed();
                let (kx, ky) = (com(cx, &x), com(cx, &y));
                let zero = [0u8; 2048];
                let mut hi = cx_;
                hi[2016..].copy_from_slice(&[0xff; 32]);
                let mut hi0 = cy;
                for (i, w) in symcore::fr::MODULUS.iter().enumerate() {
                    hi0[24 - 8 * i..32 - 8 * i].copy_from_slice(&w.to_be_bytes());
                }
                let (b0, b1, b2, b3) = (cx.bad_g1(0, 1), cx.bad_g1(1, 1), cx.bad_g1(2, 1), cx.bad_g1(3, 1));
                type Call = (&'static str, Vec<[u8; 48]>, Vec<u64>, Vec<[u8; 2048]>, Vec<[u8; 48]>, u8);
                // expected: 0 accepted, 1 invalid proof, 2 verifier error, 3 serialisation error
                let calls: Vec<Call> = vec![
                    ("good x", vec![kx], vec![3], vec![cx_], vec![inf], 0),
                    ("good y", vec![ky], vec![3], vec![cy], vec![inf], 0),
                    ("good x y", vec![kx, ky, kx], vec![3, 3, 127], vec![cx_, cy, cx_], vec![inf; 3], 0),
                    ("good zero", vec![inf], vec![3], vec![zero], vec![inf], 0),
                    ("y as x", vec![kx], vec![3], vec![cy], vec![inf], 1),
                    ("wrong proof", vec![kx], vec![3], vec![cx_], vec![kx], 1),
                    ("x y exchanged", vec![kx, ky], vec![3, 4], vec![cy, cx_], vec![inf; 2], 1),
                    ("empty", vec![], vec![], vec![], vec![], 0),
                    ("index 128", vec![kx], vec![128], vec![cx_], vec![inf], 2),
                    ("missing proof", vec![kx, kx], vec![1, 2], vec![cx_, cx_], vec![inf], 2),
                    ("commitment off the curve", vec![b0], vec![3], vec![cx_], vec![inf], 3),
                    ("commitment outside the subgroup", vec![b1], vec![3], vec![cx_], vec![inf], 3),
                    ("proof outside the subgroup", vec![kx], vec![3], vec![cx_], vec![b1], 3),
                    ("commitment of order three", vec![b2], vec![3], vec![cx_], vec![inf], 3),
                    ("proof of order three", vec![kx], vec![3], vec![cx_], vec![b3], 3),
                    ("good then bad commitment", vec![kx, b3], vec![3, 4], vec![cx_, cx_], vec![inf, inf], 3),
                    ("last value too large", vec![kx], vec![3], vec![hi], vec![inf], 3),
                    ("first value the modulus", vec![ky, ky], vec![3, 4], vec![cy, hi0], vec![inf; 2], 3),
                ];
                let class = |r: &Result<(), rust_eth_kzg::Error>| match r {
                    Ok(()) => 0u8,
                    Err(e) if e.invalid_proof() => 1,
                    Err(rust_eth_kzg::Error::Verifier(_)) => 2,
                    Err(rust_eth_kzg::Error::Serialization(_)) => 3,
                    Err(_) => 4,
                };
                let n = calls.len();
                let mut last = "nothing".to_string();
                for a in 0..n {
                    for b in 0..n {
                        if (a * n + b) % groups != g && a != b {
                            continue;
                        }
                        for k in [a, b, b] {
                            let (name, c, i, e, p, want) = &calls[k];
                            let r = cx.guard(|| ctx.verify_cell_kzg_proof_batch(c.iter().collect(), i.clone(), e.iter().collect(), p.iter().collect()));
                            let got = r.as_ref().map(class).unwrap_or(9);
                            cx.ok("the answer does not depend on earlier calls", got == *want, || format!("{name} after {last}: {r:?}"));
                            last = name.to_string();
                        }
                    }
                }
                // and afterwards an arbitrary statement is still decided by the equation
                let shape = vec![(0, 3), (1, 90)];
                let e: Vec<Vec<Scalar>> = (0..2).map(|k| super::poly::vars(cx, &format!("e{k}_"), 64)).collect();
                let c = super::poly::vars(cx, "c", 2);
                let w = super::poly::vars(cx, "w", 2);
                let s: Vec<Scalar> = random_srs()[..64].iter().map(|x| cx.sc(*x)).collect();
                let (u, t) = (cx.sc(Fr::ONE), cx.sc(tau().pow_u(64)));
                super::verify::full_iff(cx, &ctx, &shape, &c, &e, &w, &s, &u, &t);
            }))
        })
        .collect()
}

/// what a call of the prover journal must answer
#[derive(Clone, Copy, PartialEq, Debug)]
enum Want {
    Codeword(usize),
    Commitment(usize),
    Refused,
}
/// every ordered pair of prover calls in one sequence on one context; the answers are those of the specification
pub fn prover_journal(thorough: bool) -> Vec<Case> {
    let mut v = vec![];
    let groups: Vec<Vec<usize>> = if thorough { vec![(0..17).collect()] } else { vec![vec![0, 2, 6, 7, 8, 9, 10, 12, 13], vec![1, 2, 3, 4, 5, 11, 14, 15, 16]] };
    for (g, pick) in groups.into_iter().enumerate() {
        v.push(case(format!("journal/prover/{g}"), 1, 0, 0, Box::new(move |cx| {
            let ctx = ctx_random(cx);
            let (x, y) = (cx.s("x"), cx.s("y"));
            let z = vec![Fr::ZERO; 4096];
            let a: Vec<Fr> = (0..4096).map(dense).collect();
            let half: Vec<Fr> = (0..4096).map(|i| if i < 2048 { dense(i) } else { Fr::ZERO }).collect();
            let rest: Vec<Fr> = (0..4096).map(|i| if i < 2048 { Fr::ZERO } else { dense(i + 5000) }).collect();
            let most: Vec<Fr> = (0..4096).map(|i| if i < 4095 { dense(i) } else { Fr::ZERO }).collect();
            let last: Vec<Fr> = (0..4096).map(|i| if i < 4095 { Fr::ZERO } else { Fr::ONE }).collect();
            // blobs: x a; x and y in halves; a blob that differs from the first in its last element; zero
            let blobs: Vec<(Vec<Fr>, Vec<Fr>)> = vec![(a.clone(), z.clone()), (half, rest), (most, last), (z.clone(), z.clone())];
            struct Ref {
                blob: Box<[u8; 131072]>,
                cells: Vec<Vec<Scalar>>,
                bytes: Vec<[u8; 2048]>,
                proofs: Vec<bls12_381::G1Projective>,
                com: bls12_381::G1Projective,
            }
            let mut refs: Vec<Ref> = vec![];
            for (u, w) in &blobs {
                let at = |cx: &Cx, p: Fr, q: Fr| x * cx.sc(p) + y * cx.sc(q);
                let code = |v: &Vec<Fr>| {
                    let mut f = super::setup::coeffs_of(v);
                    f.resize(8192, Fr::ZERO);
                    spec::dft(&f, spec::root(8192))
                };
                let (cu, cw) = (code(u), code(w));
                let dotp = |m: &[Fr], v: &[Fr]| m.iter().zip(v).fold(Fr::ZERO, |a, (m, v)| if v.is_zero() { a } else { a.add(m.mul(*v)) });
                let cells: Vec<Vec<Scalar>> = (0..128)
                    .map(|k| (0..64).map(|j| spec::bitrev(64 * k + j, 13)).map(|p| at(cx, cu[p], cw[p])).collect())
                    .collect();
                let bytes = cells
                    .iter()
                    .map(|c| {
                        let mut b = [0u8; 2048];
                        for (i, s) in c.iter().enumerate() {
                            b[32 * i..32 * i + 32].copy_from_slice(&s.to_bytes_be());
                        }
                        b
                    })
                    .collect();
                let proofs = (0..128)
                    .map(|k| {
                        let m = &full_matrix()[k];
                        cx.g1s(&at(cx, dotp(m, u), dotp(m, w)))
                    })
                    .collect();
                let (fu, fw) = (super::setup::coeffs_of(u), super::setup::coeffs_of(w));
                let com = cx.g1s(&at(cx, dotp(random_srs(), &fu), dotp(random_srs(), &fw)));
                let line: Vec<Scalar> = u.iter().zip(w).map(|(p, q)| at(cx, *p, *q)).collect();
                refs.push(Ref { blob: blob_of(&line), cells, bytes, proofs, com });
            }
            let mut bad = refs[0].blob.clone();
            bad[32 * 4095..].copy_from_slice(&[0xff; 32]);
            let p: Vec<Vec<usize>> = (0..3).map(|k| super::recover::shuffled(128, 60 + k)[..[64, 64, 100][k as usize]].to_vec()).collect();
            // the second list has the length, the first and last element, the smallest, the largest and the sum of the first
            let p = {
                let mut p = p;
                let mut q = p[0].clone();
                let (lo, hi) = (*q.iter().min().unwrap(), *q.iter().max().unwrap());
                let free: Vec<usize> = (lo + 1..hi).filter(|i| !q.contains(i)).collect();
                'found: for i in 1..63 {
                    for j in i + 1..63 {
                        for a in &free {
                            let s = q[i] + q[j];
                            if q[i] != lo && q[i] != hi && q[j] != lo && q[j] != hi && s > *a && s - a != *a && free.contains(&(s - a)) {
                                (q[i], q[j]) = (*a, s - a);
                                break 'found;
                            }
                        }
                    }
                }
                p[1] = q;
                p
            };
            let rec = |idx: &[usize], b: &dyn Fn(usize) -> usize| {
                let cells: Vec<&[u8; 2048]> = idx.iter().map(|i| &refs[b(*i)].bytes[*i]).collect();
                ctx.recover_cells_and_kzg_proofs(idx.iter().map(|i| *i as u64).collect(), cells)
            };
            let mut twice = p[2].clone();
            twice[99] = twice[3];
            let names = ["cells of A", "cells of B", "cells of A with another last element", "cells of the zero blob", "commitment to A", "commitment to A with another last element",
                "recover A from 64", "recover A from another 64", "recover A with another last element from 64", "recover B from 100", "recover A from all", "recover zero from 64",
                "63 cells", "a repeated cell", "cells of two blobs", "blob with a value too large", "commitment to a value too large"];
            let wants = [Want::Codeword(0), Want::Codeword(1), Want::Codeword(2), Want::Codeword(3), Want::Commitment(0), Want::Commitment(2),
                Want::Codeword(0), Want::Codeword(0), Want::Codeword(2), Want::Codeword(1), Want::Codeword(0), Want::Codeword(3),
                Want::Refused, Want::Refused, Want::Refused, Want::Refused, Want::Refused];
            // the sequence in which every ordered pair of calls is adjacent once
            let mut seq = vec![];
            for i in 0..pick.len() {
                seq.push(pick[i]);
                for j in i + 1..pick.len() {
                    seq.push(pick[i]);
                    seq.push(pick[j]);
                }
            }
            seq.push(pick[0]);
            let mut before = "nothing";
            for k in seq {
                let (mut code, mut com, mut err) = (None, None, None);
                match k {
                    0..=3 | 15 => match ctx.compute_cells_and_kzg_proofs(if k == 15 { &bad } else { &refs[k].blob }) {
                        Ok(r) => code = Some(r),
                        Err(e) => err = Some(format!("{e:?}")),
                    },
                    4 | 5 | 16 => match ctx.blob_to_kzg_commitment(if k == 16 { &bad } else { &refs[[0, 2][k - 4]].blob }) {
                        Ok(r) => com = Some(r),
                        Err(e) => err = Some(format!("{e:?}")),
                    },
                    _ => {
                        let all: Vec<usize> = (0..128).collect();
                        let r = match k {
                            6 => rec(&p[0], &|_| 0),
                            7 => rec(&p[1], &|_| 0),
                            8 => rec(&p[0], &|_| 2),
                            9 => rec(&p[2], &|_| 1),
                            10 => rec(&all, &|_| 0),
                            11 => rec(&p[0], &|_| 3),
                            12 => rec(&p[0][..63], &|_| 0),
                            13 => rec(&twice, &|_| 0),
                            _ => rec(&p[2], &|i| if i == p[2][50] { 1 } else { 0 }),
                        };
                        match r {
                            Ok(r) => code = Some(r),
                            Err(e) => err = Some(format!("{e:?}")),
                        }
                    }
                }
                let label = format!("{} after {before}", names[k]);
                match wants[k] {
                    Want::Refused => cx.ok("refused whatever ran before", err.is_some(), || label.clone()),
                    _ => cx.ok("answered whatever ran before", err.is_none(), || format!("{label}: {err:?}")),
                }
                if let (Want::Codeword(b), Some((cells, proofs))) = (wants[k], &code) {
                    for c in 0..128 {
                        let (Some(s), Some(q)) = (scalars_of(&cells[c][..]), point_of(&proofs[c])) else {
                            cx.ok("canonical outputs", false, || format!("{label}: cell {c}"));
                            break;
                        };
                        for j in [c % 64, 63 - c % 64] {
                            cx.eq_s("cells whatever ran before", &s[j], &refs[b].cells[c][j]);
                        }
                        cx.eq_g("proofs whatever ran before", &q, &refs[b].proofs[c]);
                    }
                }
                if let (Want::Commitment(b), Some(c)) = (wants[k], &com) {
                    match point_of(c) {
                        Some(q) => cx.eq_g("commitment whatever ran before", &q, &refs[b].com),
                        None => cx.ok("canonical outputs", false, || label.clone()),
                    }
                }
                before = names[k];
            }
        })));
    }
    v
}
