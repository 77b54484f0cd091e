//! Public-API counterparts of the Kani harnesses: a counterexample's values are the integer parameters. Run by natx only.
use super::das::*;
use super::{case, spec};
use crate::cx::{Case, Cx};
use bls12_381::{G1Point, Scalar};
use rust_eth_kzg::Error;
use symcore::fr::Fr;

fn ints(cx: &mut Cx, name: &str, n: usize, d: impl Fn(usize) -> u64) -> Vec<u64> {
    (0..n).map(|i| cx.int(&format!("{name}{i}"), d(i))).collect()
}
fn const_cell(cx: &Cx, v: u64) -> [u8; 2048] {
    let e = cx.sc(Fr::from_u64(v)).to_bytes_be();
    let mut b = [0u8; 2048];
    for c in b.chunks_mut(32) {
        c.copy_from_slice(&e);
    }
    b
}
fn enc(cx: &Cx, v: u64) -> [u8; 48] {
    let p: G1Point = cx.g1k(Fr::from_u64(v)).into();
    p.to_compressed()
}
fn show<T>(r: &Result<Result<T, Error>, String>) -> String {
    match r {
        Ok(Ok(_)) => "accepted".into(),
        Ok(Err(e)) => format!("error {e:?}").chars().take(160).collect(),
        Err(p) => format!("panic {p}"),
    }
}

pub fn cases() -> Vec<Case> {
    let mut v = vec![];
    v.push(case("solver/validate", 1, 0, 0, Box::new(|cx| {
        let c = ctx_honest(cx);
        let [nc, ni, ne, np] = ["nc", "ni", "ne", "np"].map(|s| cx.int(s, 2) as usize);
        let idx = ints(cx, "x", ni, |i| i as u64);
        let rows = ints(cx, "r", nc, |i| i as u64);
        // constant polynomials off by one: well-formed batches fail the equation and nothing else
        let comms: Vec<[u8; 48]> = rows.iter().map(|r| enc(cx, 3 + (*r & 0xff))).collect();
        let cell = const_cell(cx, 2);
        let proof = enc(cx, 0);
        let r = cx.guard(|| c.verify_cell_kzg_proof_batch(comms.iter().collect(), idx.clone(), vec![&cell; ne], vec![&proof; np]));
        let good = nc == ni && nc == ne && nc == np && idx.iter().all(|i| *i < 128);
        let d = format!("{nc} commitments, indices {idx:?}, {ne} cells, {np} proofs: {}", show(&r));
        if !good {
            cx.ok("malformed batch is an error other than an invalid proof", matches!(&r, Ok(Err(e)) if !e.invalid_proof()), || d);
        } else if nc == 0 {
            cx.ok("the empty batch is accepted", matches!(&r, Ok(Ok(()))), || d);
        } else {
            cx.ok("well-formed batch of wrong proofs is an invalid proof", matches!(&r, Ok(Err(e)) if e.invalid_proof()), || d);
        }
    })));
    v.push(case("solver/rows", 1, 0, 0, Box::new(|cx| {
        let c = ctx_honest(cx);
        let n = cx.int("n", 3) as usize;
        let rows: Vec<u64> = ints(cx, "r", n, |i| i as u64).iter().map(|r| 3 + (r & 0xff)).collect();
        let comms: Vec<[u8; 48]> = rows.iter().map(|r| enc(cx, *r)).collect();
        let cells: Vec<[u8; 2048]> = rows.iter().map(|r| const_cell(cx, *r)).collect();
        let proof = enc(cx, 0);
        let idx: Vec<u64> = (0..n as u64).collect();
        let before = cx.hashes().len();
        let r = cx.guard(|| c.verify_cell_kzg_proof_batch(comms.iter().collect(), idx.clone(), cells.iter().collect(), vec![&proof; n]));
        cx.ok("honest batch accepted", matches!(&r, Ok(Ok(()))), || format!("{rows:?}: {}", show(&r)));
        // the transcript names the distinct commitments in order of first appearance
        let mut distinct: Vec<u64> = vec![];
        let mut items = vec![];
        for (i, row) in rows.iter().enumerate() {
            let k = distinct.iter().position(|x| x == row).unwrap_or_else(|| {
                distinct.push(*row);
                distinct.len() - 1
            });
            let e = cells[i].chunks(32).map(|b| b.try_into().unwrap()).collect();
            items.push((k as u64, i as u64, e, proof));
        }
        let dc: Vec<[u8; 48]> = distinct.iter().map(|r| enc(cx, *r)).collect();
        let d = super::verify::Dims { n: 4096, ell: 64, npts: 8192 };
        let want = super::verify::expected_transcript(&d, dc.len(), &dc, &items);
        let new: Vec<Vec<u8>> = cx.hashes()[before..].iter().map(|h| h.0.clone()).collect();
        cx.ok("transcript of the batch", new.contains(&want), || format!("{rows:?}: {} hashes", new.len()));
        for i in 0..n {
            for other in distinct.iter().copied().chain([200 + rows[i]]) {
                if other == rows[i] {
                    continue;
                }
                let mut cs = cells.clone();
                cs[i] = const_cell(cx, other);
                let r = cx.guard(|| c.verify_cell_kzg_proof_batch(comms.iter().collect(), idx.clone(), cs.iter().collect(), vec![&proof; n]));
                cx.ok("cell of another commitment rejected", matches!(&r, Ok(Err(e)) if e.invalid_proof()), || format!("{rows:?} cell {i} from {other}: {}", show(&r)));
            }
        }
    })));
    v.push(case("solver/recover", 1, 0, 0, Box::new(|cx| {
        let c = ctx_honest(cx);
        let (n, m) = (cx.int("n", 64) as usize, cx.int("m", 64) as usize);
        let idx = ints(cx, "x", n, |i| i as u64);
        let mut d: Vec<u64> = idx.clone();
        d.sort();
        d.dedup();
        let good = n == m && n >= 64 && n <= 128 && d.len() == n && idx.iter().all(|i| *i < 128);
        let cell = const_cell(cx, 5);
        let r = cx.guard(|| c.recover_cells_and_kzg_proofs(idx.clone(), vec![&cell; m]));
        if good {
            cx.ok("consistent cells recovered", matches!(&r, Ok(Ok((cs, _))) if cs.iter().all(|x| x[..] == cell[..])), || format!("{idx:?}: {}", show(&r)));
        } else {
            cx.ok("malformed request refused", matches!(&r, Ok(Err(e)) if !e.invalid_proof()), || format!("{m} cells, indices {idx:?}: {}", show(&r)));
        }
    })));
    v.push(case("solver/element", 1, 0, 0, Box::new(|cx| {
        let c = ctx_honest(cx);
        let mut e = [0u8; 32];
        for (i, w) in ints(cx, "w", 4, |_| 7).iter().enumerate() {
            e[8 * i..8 * i + 8].copy_from_slice(&w.to_be_bytes());
        }
        let good = Fr::from_be(&e).is_some();
        let ser = |r: &Result<Result<(), Error>, String>| if good { matches!(r, Ok(Ok(()))) } else { matches!(r, Ok(Err(Error::Serialization(_)))) };
        for p in [0usize, 63, 64, 2048, 4095] {
            let mut b = vec![0u8; 131072];
            b[32 * p..32 * p + 32].copy_from_slice(&e);
            let b: Box<[u8; 131072]> = b.into_boxed_slice().try_into().unwrap();
            let r = cx.guard(|| c.blob_to_kzg_commitment(&b).map(|_| ()));
            cx.ok("commitment exactly for canonical blobs", ser(&r), || format!("element {p} = {e:x?}: {}", show(&r)));
            let mut out = None;
            let r = cx.guard(|| c.compute_cells_and_kzg_proofs(&b).map(|x| out = Some(x)));
            cx.ok("cells exactly for canonical blobs", ser(&r), || format!("element {p} = {e:x?}: {}", show(&r)));
            if let Some((cells, _)) = out {
                let mut k = 0;
                cx.ok("first half of the cells is the blob", cells[..64].iter().all(|x| { k += 1; x[..] == b[2048 * (k - 1)..2048 * k] }), || format!("element {p} = {e:x?}"));
            }
        }
        for p in [0usize, 1, 32, 63] {
            let mut cell = [0u8; 2048];
            cell[32 * p..32 * p + 32].copy_from_slice(&e);
            let id = enc(cx, 0);
            let zero = e == [0u8; 32];
            let r = cx.guard(|| c.verify_cell_kzg_proof_batch(vec![&id], vec![3], vec![&cell], vec![&id]));
            let fine = match &r {
                Ok(Err(Error::Serialization(_))) => !good,
                Ok(Err(x)) => good && !zero && x.invalid_proof(),
                Ok(Ok(())) => good && zero,
                Err(_) => false,
            };
            cx.ok("cells are read exactly when canonical", fine, || format!("element {p} = {e:x?}: {}", show(&r)));
            let r = cx.guard(|| c.recover_cells_and_kzg_proofs((0..64).collect(), vec![&cell; 64]).map(|_| ()));
            cx.ok("recovery exactly from canonical cells", ser(&r), || format!("element {p} = {e:x?}: {}", show(&r)));
        }
    })));
    v.push(case("solver/cell", 1, 0, 0, Box::new(|cx| {
        let c = ctx_honest(cx);
        let (p, n) = (cx.int("p", 0) as usize, cx.int("n", 1) as usize);
        let words = ints(cx, "w", 4 * n, |_| 7);
        for k in [0usize, 1, 31, 63] {
            let mut b = vec![0u8; 131072];
            for (i, w) in words.iter().enumerate() {
                let at = 2048 * k + 32 * p + 8 * i;
                b[at..at + 8].copy_from_slice(&w.to_be_bytes());
            }
            let b: Box<[u8; 131072]> = b.into_boxed_slice().try_into().unwrap();
            let mut out = None;
            let r = cx.guard(|| c.compute_cells_and_kzg_proofs(&b).map(|x| out = Some(x)));
            cx.ok("canonical blob accepted", matches!(r, Ok(Ok(()))), || format!("elements {words:x?} from {p} of cell {k}: {}", show(&r)));
            if let Some((cells, _)) = out {
                for (i, x) in cells[..64].iter().enumerate() {
                    cx.ok("first half of the cells is the blob", x[..] == b[2048 * i..2048 * (i + 1)], || format!("elements {words:x?} from {p} of cell {k}: cell {i}"));
                }
            }
        }
    })));
    v.push(case("solver/point", 1, 0, 0, Box::new(|cx| {
        let c = ctx_honest(cx);
        let n = cx.int("n", 2) as usize;
        let ks = ints(cx, "k", n, |_| 0);
        let cell = const_cell(cx, 0);
        let id = enc(cx, 0);
        let pts: Vec<[u8; 48]> = ks.iter().enumerate().map(|(i, k)| match k & 3 {
            0 => id,
            1 | 3 => cx.bad_g1(0, i as u64),
            // one outside point is any, the others have parts that cancel
            _ if ks.iter().filter(|k| **k & 3 == 2).count() == 1 => cx.bad_g1(1, i as u64),
            _ => cx.bad_g1(2 + ks[..i].iter().filter(|k| **k & 3 == 2).count() as u32 % 2, i as u64),
        }).collect();
        let good = ks.iter().all(|k| k & 3 == 0);
        for which in 0..2 {
            let ids = vec![id; n];
            let (a, b) = if which == 0 { (&pts, &ids) } else { (&ids, &pts) };
            let r = cx.guard(|| c.verify_cell_kzg_proof_batch(a.iter().collect(), (0..n as u64).collect(), vec![&cell; n], b.iter().collect()));
            let fine = if good { matches!(&r, Ok(Ok(()))) } else { matches!(&r, Ok(Err(Error::Serialization(_)))) };
            cx.ok("accepted exactly if every point is valid", fine, || format!("kinds {ks:?}, {}: {}", ["commitments", "proofs"][which], show(&r)));
        }
    })));
    v.push(case("solver/reorder", 1, 0, 0, Box::new(|cx| {
        let (size, n) = (cx.int("size", 8) as usize, cx.int("n", 2) as usize);
        let idx: Vec<usize> = ints(cx, "x", n, |i| i as u64).iter().map(|x| *x as usize).collect();
        let len: Vec<usize> = ints(cx, "l", n, |_| 2).iter().map(|x| *x as usize).collect();
        let val = |i: usize, j: usize| Fr::from_u64(1000 * (i as u64 + 1) + j as u64);
        let ev: Vec<Vec<Scalar>> = len.iter().enumerate().map(|(i, l)| (0..*l).map(|j| cx.sc(val(i, j))).collect()).collect();
        let good = n > 0 && len.iter().zip(&idx).all(|(l, i)| *l == len[0] && *l > 0 && *l <= size && *i < size / *l);
        let d = format!("domain {size}, cosets {idx:?} of lengths {len:?}");
        let r = cx.guard(|| kzg_multi_open::recover_evaluations_in_domain_order(size, idx.clone(), ev));
        let Ok(r) = r else {
            cx.ok("no panic", false, || d);
            return;
        };
        cx.ok("exactly well-formed cosets are placed", r.is_some() == good, || d.clone());
        let (Some((new, el)), true) = (r, good) else { return };
        let l = len[0];
        cx.ok("indices bit-reversed", new.iter().zip(&idx).all(|(a, b)| *a == spec::bitrev(*b, spec::log2(size / l))) && new.len() == n, || d.clone());
        let mut want = vec![cx.sc(Fr::ZERO); size];
        for i in 0..n {
            for j in 0..l {
                want[spec::bitrev(idx[i] * l + j, spec::log2(size))] = cx.sc(val(i, j));
            }
        }
        cx.ok("values in domain order", el == want, || d);
    })));
    v
}
