//! Erasure recovery: production size through the public API, small sizes through the codec.
use super::das::*;
use super::poly::{dot, vars};
use super::{case, spec};
use crate::cx::{Case, Cx};
use bls12_381::Scalar;
use erasure_codes::errors::RSError;
use erasure_codes::{BlockErasureIndices, ReedSolomon};
use rust_eth_kzg::Error;
use symcore::fr::Fr;

/// deterministic permutation of 0..n
pub fn shuffled(n: usize, seed: u64) -> Vec<usize> {
    let mut v: Vec<(u64, usize)> = (0..n).map(|i| (Fr::prf(&format!("perm{i}"), seed).0[1], i)).collect();
    v.sort();
    v.into_iter().map(|x| x.1).collect()
}
/// names, cell index lists (order matters)
fn patterns(thorough: bool) -> Vec<(&'static str, Vec<usize>)> {
    let mut v: Vec<(&'static str, Vec<usize>)> = vec![
        ("last64", (64..128).collect()),
        ("even-reversed", (0..64).rev().map(|i| 2 * i).collect()),
        ("random64", shuffled(128, 3)[..64].to_vec()),
        ("random97", shuffled(128, 4)[..97].to_vec()),
        ("all128-random", shuffled(128, 6)),
    ];
    if thorough {
        v.push(("first64", (0..64).collect()));
        v.push(("odd", (0..64).map(|i| 2 * i + 1).collect()));
        v.push(("random65", shuffled(128, 5)[..65].to_vec()));
        v.push(("all128", (0..128).collect()));
        v.push(("random127", shuffled(128, 7)[..127].to_vec()));
        for s in 10..14u64 {
            v.push((["r10", "r11", "r12", "r13"][s as usize - 10], shuffled(128, s)[..64 + (s as usize - 10) * 7].to_vec()));
        }
    }
    v
}

pub fn roundtrip(thorough: bool) -> Vec<Case> {
    let mut v = vec![];
    for (name, idx) in patterns(thorough) {
        v.push(case(format!("recover/{name}"), 1, 0, 0, Box::new(move |cx| {
            let c = ctx_random(cx);
            let x = vars(cx, "b", 4096);
            let r = c.compute_cells_and_kzg_proofs(&blob_of(&x));
            cx.ok("accepts canonical blob", r.is_ok(), || String::new());
            let Ok((cells, proofs)) = r else { return };
            let sub: Vec<_> = idx.iter().map(|i| &*cells[*i]).collect();
            let r = c.recover_cells_and_kzg_proofs(idx.iter().map(|i| *i as u64).collect(), sub);
            cx.ok("recovers from consistent cells", r.is_ok(), || format!("{:?}", r.as_ref().err()));
            cx.unconditional("recovery succeeds for every blob");
            let Ok((cells2, proofs2)) = r else { return };
            let (zs, xs) = (cell_points(), blob_points());
            let zn: Vec<Fr> = zs.iter().map(|z| z.pow_u(4096)).collect();
            let mut outs = vec![];
            for k in 0..128 {
                match scalars_of(&cells2[k][..]) {
                    Some(v) => outs.extend(v),
                    None => {
                        cx.ok("cells canonical", false, || format!("cell {k}"));
                        return;
                    }
                }
            }
            cx.lin_s("recovered cells are the original cells", &outs, &names("b", 4096), Box::new(move |m| spec::lagrange_column(4096, xs[m], &zs, &zn)));
            for k in 0..128 {
                let (a, b) = (point_of(&proofs2[k]), point_of(&proofs[k]));
                cx.ok("proof is a valid point", a.is_some() && b.is_some(), || format!("proof {k}"));
                if let (Some(a), Some(b)) = (a, b) {
                    cx.eq_g("recovered proofs are the original proofs", &a, &b);
                }
            }
        })));
    }
    // more patterns on one line of blobs (an unknown times a fixed dense vector): every number of cells from 64 to 128
    // in some order, and regular shapes
    let mut many: Vec<Vec<usize>> = vec![
        (1..128).collect(),
        (0..127).collect(),
        (0..128).filter(|i| *i != 64).collect(),
        (32..96).collect(),
        (0..128).filter(|i| i % 4 < 2).collect(),
        (0..128).filter(|i| i % 4 != 3).rev().collect(),
        (0..128).filter(|i| i / 16 % 2 == 1).collect(),
        (0..128).filter(|i| !(40..88).contains(i)).collect(),
    ];
    for n in 64..=128usize {
        let mut p = shuffled(128, 300 + n as u64)[..n].to_vec();
        if n % 3 == 0 {
            p.sort();
        }
        many.push(p);
    }
    if !thorough {
        many = many.into_iter().enumerate().filter(|(i, _)| *i < 8 || i % 9 == 0).map(|x| x.1).collect();
    }
    for (g, pats) in many.chunks(4).map(|c| c.to_vec()).enumerate() {
        v.push(case(format!("recover/line/{g}"), 1, 0, 0, Box::new(move |cx| {
            let c = ctx_random(cx);
            let x = cx.s("x");
            let b: Vec<Scalar> = (0..4096).map(|m| x * Scalar::from(Fr::prf(&format!("line{m}"), 77).0[0])).collect();
            let r = c.compute_cells_and_kzg_proofs(&blob_of(&b));
            cx.ok("accepts canonical blob", r.is_ok(), || String::new());
            let Ok((cells, proofs)) = r else { return };
            for idx in &pats {
                let sub: Vec<_> = idx.iter().map(|i| &*cells[*i]).collect();
                let r = c.recover_cells_and_kzg_proofs(idx.iter().map(|i| *i as u64).collect(), sub);
                cx.ok("recovers from consistent cells", r.is_ok(), || format!("{} cells {idx:?}: {:?}", idx.len(), r.as_ref().err()));
                let Ok((cells2, proofs2)) = r else { continue };
                for k in 0..128 {
                    let (Some(a), Some(b)) = (scalars_of(&cells2[k][..]), scalars_of(&cells[k][..])) else {
                        cx.ok("cells canonical", false, || format!("cell {k}"));
                        return;
                    };
                    for (a, b) in a.iter().zip(&b) {
                        cx.eq_s("recovered cells are the original cells", a, b);
                    }
                    let (a, b) = (point_of(&proofs2[k]), point_of(&proofs[k]));
                    cx.ok("proof is a valid point", a.is_some() && b.is_some(), || format!("proof {k}"));
                    if let (Some(a), Some(b)) = (a, b) {
                        cx.eq_g("recovered proofs are the original proofs", &a, &b);
                    }
                }
            }
            cx.unconditional("recovery succeeds for every blob on the line");
        })));
    }
    v.extend(super::structured::byte_patterns(true));
    v.extend(codec(thorough, true));
    v
}

/// position p of the codeword of length nn lies in block p mod bs
fn subsets(bs: usize, thorough: bool) -> Vec<Vec<usize>> {
    if bs <= 4 || thorough && bs <= 8 {
        (0..1usize << bs).map(|m| (0..bs).filter(|i| m >> i & 1 == 1).collect()).collect()
    } else {
        let mut v: Vec<Vec<usize>> = vec![vec![]];
        for s in 0..24u64 {
            v.push(shuffled(bs, 100 + s)[..(s as usize) % (bs + 1)].to_vec());
        }
        v
    }
}

/// small codec: every erasure pattern (up to 4 block indices), symbolic codeword
pub fn codec(thorough: bool, only_ok: bool) -> Vec<Case> {
    let mut v = vec![];
    let mut params = vec![(2usize, 2usize, 4usize), (4, 2, 4), (4, 2, 8), (2, 2, 2), (8, 2, 4), (2, 4, 4), (1, 4, 4), (4, 2, 2)];
    if thorough {
        params.extend([(8, 2, 8), (8, 2, 16), (4, 4, 8), (16, 2, 8)]);
    }
    if only_ok {
        params.truncate(3);
    }
    let mut codes: Vec<(usize, usize, usize, Vec<Vec<usize>>, usize)> = params.into_iter().map(|(k, e, bs)| (k, e, bs, subsets(bs, thorough), 4)).collect();
    if !only_ok {
        // longer codes, patterns around the capacity
        for (k, e, bs) in [(16usize, 2usize, 32usize), (32, 2, 8), (32, 2, 64), (16, 4, 16), (64, 2, 32), (128, 2, 128)].into_iter().take(if thorough { 6 } else { 5 }) {
            let acc = bs - bs / e;
            let pats = vec![
                vec![],
                vec![bs - 1],
                (0..acc).collect(),
                (bs - acc..bs).rev().collect(),
                (0..bs).step_by(2).take(acc).collect(),
                shuffled(bs, 7)[..acc].to_vec(),
                shuffled(bs, 8)[..acc - 1].to_vec(),
                shuffled(bs, 9)[..acc + 1].to_vec(),
            ];
            codes.push((k, e, bs, pats, 2));
        }
    }
    for (k, e, bs, pats, paths) in codes {
        let n = k * e;
        for er in pats {
            v.push(case(format!("codec/{k}x{e}/{bs}/{er:?}"), paths, 6, 0, Box::new(move |cx| {
                let rs = ReedSolomon::new(k, e, bs);
                let cw = vars(cx, "c", n);
                let acc = (n - k) / (n / bs);
                cx.ok("acceptable erasures", rs.acceptable_num_block_erasures() == acc, || format!("{}", rs.acceptable_num_block_erasures()));
                cx.ok("codeword length", rs.codeword_length() == n, || String::new());
                let erased = |p: usize| er.contains(&(p % bs));
                let word: Vec<Scalar> = (0..n).map(|p| if erased(p) { Scalar::from(0u64) } else { cw[p] }).collect();
                let r = rs.recover_polynomial_coefficient(word.clone(), BlockErasureIndices(er.clone()));
                if er.len() > acc {
                    cx.ok("too many erasures rejected", matches!(r, Err(RSError::TooManyBlockErasures { .. })), || format!("{:?}", r.is_ok()));
                    return;
                }
                // known positions; degree < k  <=>  the divided differences beyond k vanish
                let w = spec::root(n);
                let known: Vec<usize> = (0..n).filter(|p| !erased(*p)).collect();
                let pts: Vec<Fr> = known.iter().map(|p| w.pow_u(*p as u64)).collect();
                let mut parity = vec![];
                for q in k..known.len() {
                    // L-interpolation through the first k known points must hit the q-th
                    let c = lag(&pts[..k], pts[q]);
                    let ip = dot(cx, &known[..k].iter().map(|p| word[*p]).collect::<Vec<_>>(), &c);
                    parity.push(ip - word[known[q]]);
                }
                let accepted = r.is_ok();
                if let Err(e) = &r {
                    cx.ok("inconsistent codeword error", matches!(e, RSError::PolynomialHasInvalidLength { .. }), || format!("{e:?}"));
                }
                cx.iff("accepted iff the known values lie on a polynomial of degree < k", accepted, &parity);
                if let Ok(f) = r {
                    cx.ok("coefficient count", f.len() == k, || format!("{}", f.len()));
                    for (i, p) in known[..k].iter().enumerate() {
                        let got = dot(cx, &f, &spec::powers(pts[i], k));
                        cx.eq_s("recovered polynomial interpolates the known values", &got, &word[*p]);
                    }
                }
            })));
        }
    }
    if !only_ok {
        // codewords of special polynomials: every degree, single coefficients, zeros in between, the zero polynomial
        for (k, e, bs) in [(8usize, 2usize, 16usize), (16, 2, 8)] {
            v.push(case(format!("codec/special/{k}x{e}/{bs}"), 1, 0, 0, Box::new(move |cx| {
                let rs = ReedSolomon::new(k, e, bs);
                let u = cx.s("u");
                let n = k * e;
                let acc = bs - bs / e;
                let dense = |i: usize| Fr::from_u64(Fr::prf(&format!("cs{i}"), 3).0[0] | 1);
                let mut fs: Vec<Vec<Fr>> = vec![vec![Fr::ZERO; k]];
                for d in 0..k {
                    fs.push((0..k).map(|i| if i <= d { dense(i) } else { Fr::ZERO }).collect());
                    fs.push((0..k).map(|i| if i == d { dense(i) } else { Fr::ZERO }).collect());
                    fs.push((0..k).map(|i| if i == d { Fr::ZERO } else { dense(i) }).collect());
                }
                for f in fs {
                    let coeffs: Vec<Scalar> = f.iter().map(|c| if c.is_zero() { Scalar::from(0u64) } else { u * cx.sc(*c) }).collect();
                    let code = rs.encode(coeffs.clone());
                    cx.ok("encodes", code.as_ref().map(|c| c.len() == n).unwrap_or(false), || format!("{f:?}"));
                    let Ok(code) = code else { continue };
                    for er in [vec![], vec![0], shuffled(bs, 5)[..acc].to_vec(), (bs - acc..bs).collect()] {
                        let word: Vec<Scalar> = (0..n).map(|p| if er.contains(&(p % bs)) { Scalar::from(0u64) } else { code[p] }).collect();
                        let r = rs.recover_polynomial_coefficient(word, BlockErasureIndices(er.clone()));
                        cx.ok("recovers a codeword", matches!(&r, Ok(g) if g.len() == k), || format!("{f:?} {er:?}: {:?}", r.as_ref().err()));
                        if let Ok(g) = r {
                            for (g, w) in g.iter().zip(&coeffs) {
                                cx.eq_s("recovered polynomial is the encoded one", g, w);
                            }
                        }
                    }
                }
            })));
        }
    }
    v
}
pub fn lag(nodes: &[Fr], z: Fr) -> Vec<Fr> {
    (0..nodes.len())
        .map(|i| {
            let (mut a, mut b) = (Fr::ONE, Fr::ONE);
            for (j, x) in nodes.iter().enumerate() {
                if i != j {
                    a = a.mul(z.sub(*x));
                    b = b.mul(nodes[i].sub(*x));
                }
            }
            a.mul(b.inv())
        })
        .collect()
}

pub fn codec_all(thorough: bool) -> Vec<Case> {
    let mut v = codec(thorough, false);
    for (k, e, bs) in [(2usize, 2usize, 4usize), (4, 2, 4), (4, 4, 8)] {
        v.push(case(format!("encode/{k}x{e}"), 16, 16, 0, Box::new(move |cx| {
            let rs = ReedSolomon::new(k, e, bs);
            for len in 0..=k + 1 {
                let f = vars(cx, "f", len);
                let r = rs.encode(f.clone());
                if len > k {
                    cx.ok("too many coefficients rejected", matches!(r, Err(RSError::PolynomialHasTooManyCoefficients { .. })), || String::new());
                    continue;
                }
                cx.ok("encodes", r.as_ref().map(|c| c.len() == k * e).unwrap_or(false), || String::new());
                let Ok(c) = r else { continue };
                for (p, z) in spec::powers(spec::root(k * e), k * e).into_iter().enumerate() {
                    let want = dot(cx, &f, &spec::powers(z, len));
                    cx.eq_s("codeword is the evaluation", &c[p], &want);
                }
            }
        })));
        v.push(case(format!("codec-bad-index/{k}x{e}/{bs}"), 1, 0, 0, Box::new(move |cx| {
            let rs = ReedSolomon::new(k, e, bs);
            for bad in [bs, bs + 1, usize::MAX] {
                for pos in 0..2 {
                    let cw = vars(cx, "c", k * e);
                    let mut er = vec![0usize];
                    er.insert(pos, bad);
                    let r = cx.guard(|| rs.recover_polynomial_coefficient(cw, BlockErasureIndices(er)).map(|_| ()));
                    cx.ok("bad block index rejected", matches!(r, Ok(Err(RSError::InvalidBlockIndex { .. }))), || format!("{r:?}"));
                }
            }
        })));
    }
    v
}

fn cells_from(cx: &mut Cx, tag: &str) -> Vec<[u8; 2048]> {
    let x = vars(cx, tag, 64);
    let mut b = [0u8; 2048];
    for (i, s) in x.iter().enumerate() {
        b[32 * i..32 * i + 32].copy_from_slice(&s.to_bytes_be());
    }
    vec![b]
}

/// the cells' values on a line of blobs
fn line_cells(cx: &Cx, x: &Scalar) -> Vec<Vec<Scalar>> {
    use std::sync::OnceLock;
    static L: OnceLock<Vec<Fr>> = OnceLock::new();
    let l = L.get_or_init(|| {
        let mut f: Vec<Fr> = (0..4096).map(|m| Fr::from_u64(Fr::prf(&format!("lc{m}"), 78).0[0] | 1)).collect();
        f.resize(8192, Fr::ZERO);
        let all = spec::dft(&f, spec::root(8192));
        (0..8192).map(|i| all[spec::bitrev(i, 13)]).collect()
    });
    l.chunks(64).map(|c| c.iter().map(|v| *x * cx.sc(*v)).collect()).collect()
}

/// malformed recovery inputs
pub fn reject(thorough: bool) -> Vec<Case> {
    let mut v = vec![];
    // one altered scalar in one of 65 (or more) consistent cells
    for (which, n, pos, sc) in if thorough {
        vec![(1u64, 65usize, 0usize, 0usize), (2, 65, 64, 63), (3, 80, 17, 5), (4, 128, 127, 63), (5, 96, 33, 31)]
    } else {
        vec![(1, 65, 64, 63), (2, 128, 0, 0)]
    } {
        v.push(case(format!("inconsistent/{n}/{pos}/{sc}"), 1, 0, 0, Box::new(move |cx| {
            let c = ctx_random(cx);
            let x = vars(cx, "b", 4096);
            let r = c.compute_cells_and_kzg_proofs(&blob_of(&x));
            let Ok((mut cells, _)) = r else {
                cx.ok("accepts canonical blob", false, || String::new());
                return;
            };
            let idx = shuffled(128, 40 + which)[..n].to_vec();
            let d = cx.s("delta");
            let cell = &mut cells[idx[pos]];
            let Some(mut v) = scalars_of(&cell[..]) else { return };
            v[sc] += d;
            for (i, s) in v.iter().enumerate() {
                cell[32 * i..32 * i + 32].copy_from_slice(&s.to_bytes_be());
            }
            let sub: Vec<_> = idx.iter().map(|i| &*cells[*i]).collect();
            let r = c.recover_cells_and_kzg_proofs(idx.iter().map(|i| *i as u64).collect(), sub);
            if let Err(e) = &r {
                cx.ok("inconsistency error", matches!(e, Error::Recovery(_)), || format!("{e:?}"));
            }
            cx.iff("accepted iff the cells are consistent", r.is_ok(), &[d]);
            let nothing: Vec<Scalar> = vec![];
            cx.lin_s("none", &nothing, &[], Box::new(|_| vec![]));
        })));
    }
    // the same on a line of blobs, for more numbers of cells and places in the list
    let mut places = vec![];
    for n in if thorough { (65..=128).collect() } else { vec![65usize, 66, 80, 95, 96, 97, 100, 112, 127, 128] } {
        for (j, pos) in [0, n / 2, 63, 64, n - 2, n - 1].into_iter().enumerate() {
            if thorough || j > 3 || (n + j) % 3 == 0 {
                places.push((n, pos, (n * 7 + j * 21) % 64));
            }
        }
    }
    for (which, (n, pos, sc)) in places.into_iter().enumerate() {
        v.push(case(format!("inconsistent/line/{n}/{pos}/{sc}"), 1, 0, 0, Box::new(move |cx| {
            let c = ctx_random(cx);
            let x = cx.s("x");
            let d = cx.s("delta");
            let mut idx = shuffled(128, 900 + which as u64)[..n].to_vec();
            if which % 2 == 0 {
                idx.sort();
            }
            let mut cells = line_cells(cx, &x);
            cells[idx[pos]][sc] += d;
            let cells: Vec<[u8; 2048]> = idx.iter().map(|i| super::verify::bytes_of(&cells[*i])).collect();
            let r = c.recover_cells_and_kzg_proofs(idx.iter().map(|i| *i as u64).collect(), cells.iter().collect());
            if let Err(e) = &r {
                cx.ok("inconsistency error", matches!(e, Error::Recovery(_)), || format!("{e:?}"));
            }
            cx.iff("accepted iff the cells are consistent", r.is_ok(), &[d]);
        })));
    }
    // all cells of a polynomial of too high degree: unknown coefficients at chosen places above the bound
    for (g, ks) in [vec![0usize], vec![4095], vec![1, 63, 64, 2047, 2048, 3000, 4094]].into_iter().enumerate() {
        v.push(case(format!("high-degree/{g}"), 8, 8, 0, Box::new(move |cx| {
            let c = ctx_random(cx);
            let x = cx.s("x");
            let hi = vars(cx, "h", ks.len());
            let b: Vec<Scalar> = (0..4096).map(|m| x * Scalar::from(Fr::prf(&format!("line{m}"), 78).0[0])).collect();
            let Ok((mut cells, _)) = c.compute_cells_and_kzg_proofs(&blob_of(&b)) else {
                cx.ok("accepts canonical blob", false, || String::new());
                return;
            };
            let zs = cell_points();
            for k in 0..128 {
                let Some(vals) = scalars_of(&cells[k][..]) else { return };
                for (i, s) in vals.into_iter().enumerate() {
                    let z = zs[64 * k + i];
                    let up: Vec<Fr> = ks.iter().map(|e| z.pow_u(4096 + *e as u64)).collect();
                    let s = s + dot(cx, &hi, &up);
                    cells[k][32 * i..32 * i + 32].copy_from_slice(&s.to_bytes_be());
                }
            }
            let idx = shuffled(128, 45 + g as u64);
            let r = c.recover_cells_and_kzg_proofs(idx.iter().map(|i| *i as u64).collect(), idx.iter().map(|i| &*cells[*i]).collect());
            if let Err(e) = &r {
                cx.ok("inconsistency error", matches!(e, Error::Recovery(_)), || format!("{e:?}"));
            }
            cx.iff("accepted iff the cells are consistent", r.is_ok(), &hi);
            let nothing: Vec<Scalar> = vec![];
            cx.lin_s("none", &nothing, &[], Box::new(|_| vec![]));
        })));
    }
    v.push(case("malformed", 1, 0, 0, Box::new(|cx| {
        let c = ctx_random(cx);
        let cell = cells_from(cx, "v").pop().unwrap();
        let mut check = |cx: &mut Cx, what: &str, idx: Vec<u64>, ncells: usize, ok: &dyn Fn(&Error) -> bool| {
            let r = cx.guard(|| c.recover_cells_and_kzg_proofs(idx, vec![&cell; ncells]).map(|_| ()));
            let good = matches!(&r, Ok(Err(e)) if ok(e));
            cx.ok(what, good, || match r {
                Ok(Ok(())) => "accepted".into(),
                Ok(Err(e)) => format!("error {e:?}").chars().take(200).collect(),
                Err(p) => format!("panic {p}"),
            });
        };
        let len = |e: &Error| matches!(e, Error::Recovery(_));
        let few = |e: &Error| matches!(e, Error::Recovery(_));
        let range = |e: &Error| matches!(e, Error::Recovery(_));
        let dup = |e: &Error| matches!(e, Error::Recovery(_));
        for n in [0usize, 1, 2, 32, 62, 63] {
            check(cx, &format!("{n} cells: not enough"), shuffled(128, 60)[..n].iter().map(|x| *x as u64).collect(), n, &few);
        }
        for (a, b) in [(64usize, 63usize), (63, 64), (0, 1), (1, 0), (65, 64), (128, 127), (64, 128)] {
            check(cx, &format!("{a} indices, {b} cells: lengths differ"), (0..a as u64).collect(), b, &len);
        }
        for bad in [128u64, 129, 255, 256, 1 << 16, 1 << 32, (1 << 32) + 5, u64::MAX, 1 << 63] {
            for pos in [0usize, 31, 63] {
                let mut idx: Vec<u64> = (0..64).collect();
                idx[pos] = bad;
                check(cx, &format!("index {bad} at {pos}: out of range"), idx, 64, &range);
            }
        }
        for (i, j) in [(0usize, 1usize), (0, 63), (62, 63), (5, 40), (0, 64)] {
            let mut idx: Vec<u64> = (0..65).collect();
            idx[j] = idx[i];
            check(cx, &format!("positions {i} and {j} repeated"), idx, 65, &dup);
        }
        for (bad, at) in [(128u64, 127usize), (200, 100), (u64::MAX, 64), (1 << 32, 127), (255, 96)] {
            let mut idx: Vec<u64> = (0..128).collect();
            idx[at] = bad;
            check(cx, &format!("128 cells, index {bad} at {at}: out of range"), idx, 128, &range);
        }
        for (i, j) in [(0usize, 127usize), (126, 127), (64, 100), (3, 96), (127, 64)] {
            let mut idx: Vec<u64> = shuffled(128, 61).iter().map(|x| *x as u64).collect();
            idx[j] = idx[i];
            check(cx, &format!("128 cells, positions {i} and {j} repeated"), idx, 128, &dup);
        }
        for n in [129usize, 192, 256, 257, 320, 384] {
            check(cx, &format!("{n} cells"), (0..n as u64).map(|x| x % 128).collect(), n, &dup);
            check(cx, &format!("{n} cells, with indices beyond the last"), (0..n as u64).collect(), n, &dup);
        }
        for (a, b) in [(64usize, 192usize), (192, 64), (128, 256), (64, 320), (256, 128), (320, 64), (64, 128 + 256)] {
            check(cx, &format!("{a} indices, {b} cells: lengths differ"), (0..a as u64).map(|x| x % 128).collect(), b, &len);
        }
        let all: Vec<u64> = (0..128).chain(0..1).collect();
        check(cx, "129 cells", all, 129, &dup);
        // below the threshold once duplicates are removed
        let mut idx: Vec<u64> = (0..63).collect();
        idx.push(0);
        check(cx, "63 distinct indices and one repeated", idx, 64, &dup);
    })));
    v.push(case("noncanonical", 1, 0, 0, Box::new(|cx| {
        let c = ctx_random(cx);
        let cell = cells_from(cx, "v").pop().unwrap();
        let ser = |e: &Error| matches!(e, Error::Serialization(_));
        for (pos, sc, val) in [(0usize, 0usize, super::codec::R_BE), (63, 63, [0xff; 32]), (31, 5, super::codec::R_BE)] {
            let mut bad = cell;
            bad[32 * sc..32 * sc + 32].copy_from_slice(&val);
            let mut cs = vec![&cell; 64];
            cs[pos] = &bad;
            let r = cx.guard(|| c.recover_cells_and_kzg_proofs((0..64).collect(), cs).map(|_| ()));
            cx.ok("non-canonical scalar rejected", matches!(&r, Ok(Err(e)) if ser(e)), || format!("cell {pos} scalar {sc}: {}", r.is_ok()));
        }
    })));
    v.extend(codec(thorough, true));
    v
}
