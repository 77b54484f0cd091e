//! Byte-level decoding of scalars and points at the API boundary.
use super::das::*;
use super::poly::vars;
use super::{case, recover::shuffled};
use crate::cx::{Case, Cx};
use bls12_381::G1Point;
use rust_eth_kzg::Error;
use symcore::fr::Fr;

/// the group order, big endian
pub const R_BE: [u8; 32] = [
    0x73, 0xed, 0xa7, 0x53, 0x29, 0x9d, 0x7d, 0x48, 0x33, 0x39, 0xd8, 0x08, 0x09, 0xa1, 0xd8, 0x05, 0x53, 0xbd, 0xa4, 0x02,
    0xff, 0xfe, 0x5b, 0xfe, 0xff, 0xff, 0xff, 0xff, 0x00, 0x00, 0x00, 0x01,
];
pub fn noncanonical() -> Vec<(&'static str, [u8; 32])> {
    let mut r1 = R_BE;
    r1[31] = 2;
    let mut r2 = [0u8; 32];
    // 2r - 1 and 2r fit in 256 bits
    let mut c = 0u16;
    for i in (0..32).rev() {
        let x = R_BE[i] as u16 * 2 + c;
        r2[i] = x as u8;
        c = x >> 8;
    }
    let mut hi = R_BE;
    hi[0] = 0x74;
    let mut top = [0u8; 32];
    top[0] = 0x80;
    vec![("r", R_BE), ("r+1", r1), ("2r", r2), ("r+2^248", hi), ("2^255", top), ("2^256-1", [0xff; 32])]
}
fn ser_scalar(e: &Error) -> bool {
    matches!(e, Error::Serialization(_))
}
fn ser_point(e: &Error) -> bool {
    matches!(e, Error::Serialization(_))
}
fn show<T>(r: &Result<Result<T, Error>, String>) -> String {
    match r {
        Ok(Ok(_)) => "accepted".into(),
        Ok(Err(e)) => format!("error {e:?}").chars().take(160).collect(),
        Err(p) => format!("panic {p}"),
    }
}

pub fn scalars(thorough: bool) -> Vec<Case> {
    let mut v = vec![];
    // blob entry points: one non-canonical element at a given position, the rest symbolic
    let positions: Vec<usize> = if thorough { (0..4096).step_by(1).collect() } else { (0..4096).filter(|p| p % 64 == 0 || p % 97 == 5 || *p > 4090).collect() };
    let step = if thorough { 64 } else { positions.len() };
    for (ci, chunk) in positions.chunks(step).enumerate() {
        let chunk = chunk.to_vec();
        v.push(case(format!("blob-noncanonical/{ci}"), 1, 0, 0, Box::new(move |cx| {
            let c = ctx_random(cx);
            let x = vars(cx, "b", 4096);
            let good = blob_of(&x);
            for (k, p) in chunk.iter().enumerate() {
                let nc = noncanonical();
                let (nm, val) = &nc[k % nc.len()];
                let mut b = good.clone();
                b[32 * p..32 * p + 32].copy_from_slice(val);
                let r = cx.guard(|| c.blob_to_kzg_commitment(&b).map(|_| ()));
                cx.ok("blob_to_kzg_commitment rejects non-canonical", matches!(&r, Ok(Err(e)) if ser_scalar(e)), || format!("element {p} = {nm}: {}", show(&r)));
                let r = cx.guard(|| c.compute_cells_and_kzg_proofs(&b).map(|_| ()));
                cx.ok("compute_cells rejects non-canonical", matches!(&r, Ok(Err(e)) if ser_scalar(e)), || format!("element {p} = {nm}: {}", show(&r)));
            }
        })));
    }
    v.push(case("cell-noncanonical/verify", 1, 0, 0, Box::new(|cx| {
        let c = ctx_random(cx);
        let (cell, comm, proof) = triple(cx);
        for (k, sc) in (0..64usize).enumerate() {
            let nc = noncanonical();
            let (nm, val) = &nc[k % nc.len()];
            let mut bad = cell;
            bad[32 * sc..32 * sc + 32].copy_from_slice(val);
            let at = k % 3;
            let mut cells = vec![&cell; 3];
            cells[at] = &bad;
            let r = cx.guard(|| c.verify_cell_kzg_proof_batch(vec![&comm; 3], vec![0, 64, 127], cells, vec![&proof; 3]));
            cx.ok("verification rejects non-canonical", matches!(&r, Ok(Err(e)) if ser_scalar(e) && !e.invalid_proof()), || format!("cell {at} scalar {sc} = {nm}: {}", show(&r)));
        }
    })));
    v.push(case("cell-noncanonical/recover", 1, 0, 0, Box::new(|cx| {
        let c = ctx_random(cx);
        let (cell, _, _) = triple(cx);
        for k in 0..64usize {
            let nc = noncanonical();
            let (nm, val) = &nc[k % nc.len()];
            let mut bad = cell;
            let sc = (k * 37) % 64;
            bad[32 * sc..32 * sc + 32].copy_from_slice(val);
            let n = if k % 2 == 0 { 64 } else { 128 };
            let mut cells = vec![&cell; n];
            cells[n - 1 - k] = &bad;
            let idx: Vec<u64> = shuffled(128, k as u64)[..n].iter().map(|x| *x as u64).collect();
            let r = cx.guard(|| c.recover_cells_and_kzg_proofs(idx, cells).map(|_| ()));
            cx.ok("recovery rejects non-canonical", matches!(&r, Ok(Err(e)) if ser_scalar(e)), || format!("cell {k} scalar {sc} = {nm}: {}", show(&r)));
        }
    })));
    v.push(case("cell-noncanonical/long-batch", 1, 0, 0, Box::new(|cx| {
        let c = ctx_random(cx);
        let (cell, comm, proof) = triple(cx);
        for (k, n) in [4usize, 9, 63, 64, 65, 127, 128, 129, 130, 200, 257, 300].into_iter().enumerate() {
            for (j, at) in [0, 1, n / 2, n - 2, n - 1].into_iter().enumerate() {
                let nc = noncanonical();
                let (nm, val) = &nc[(k + j) % nc.len()];
                let sc = (k * 29 + j * 63) % 64;
                let mut bad = cell;
                bad[32 * sc..32 * sc + 32].copy_from_slice(val);
                let mut cells = vec![&cell; n];
                cells[at] = &bad;
                let idx = (0..n as u64).map(|x| x % 128).collect();
                let r = cx.guard(|| c.verify_cell_kzg_proof_batch(vec![&comm; n], idx, cells, vec![&proof; n]));
                cx.ok("verification rejects non-canonical", matches!(&r, Ok(Err(e)) if ser_scalar(e) && !e.invalid_proof()), || format!("cell {at} of {n} scalar {sc} = {nm}: {}", show(&r)));
            }
        }
    })));
    // the largest canonical value and zero are accepted everywhere
    v.push(case("canonical-extremes", 1, 0, 0, Box::new(|cx| {
        let c = ctx_random(cx);
        let x = vars(cx, "b", 4096);
        let mut b = blob_of(&x);
        for p in [0usize, 17, 63, 64, 4095] {
            let f = if p % 2 == 0 { Fr::ZERO } else { Fr::ONE.neg() };
            b[32 * p..32 * p + 32].copy_from_slice(&f.to_be());
        }
        let r = cx.guard(|| c.blob_to_kzg_commitment(&b).map(|_| ()));
        cx.ok("0 and r-1 accepted", matches!(r, Ok(Ok(_))), || show(&r));
        let r = cx.guard(|| c.compute_cells_and_kzg_proofs(&b));
        cx.ok("0 and r-1 accepted by compute_cells", matches!(r, Ok(Ok(_))), || show(&r));
        if let Ok(Ok((cells, _))) = r {
            for k in 0..64 {
                cx.ok("first half of the cells is the blob", cells[k][..] == b[2048 * k..2048 * (k + 1)], || format!("{k}"));
            }
        }
    })));
    v
}

/// symbolic cell, commitment and proof
pub fn triple(cx: &mut Cx) -> ([u8; 2048], [u8; 48], [u8; 48]) {
    let x = vars(cx, "e", 64);
    let mut b = [0u8; 2048];
    for (i, s) in x.iter().enumerate() {
        b[32 * i..32 * i + 32].copy_from_slice(&s.to_bytes_be());
    }
    let c: G1Point = cx.g1("C").into();
    let p: G1Point = cx.g1("W").into();
    (b, c.to_compressed(), p.to_compressed())
}

fn bad_points(cx: &Cx) -> Vec<(&'static str, [u8; 48])> {
    let mut v = vec![];
    for k in 0..3 {
        v.push(("not on the curve", cx.bad_g1(0, k)));
        v.push(("outside the subgroup", cx.bad_g1(1, k)));
        v.push(("torsion of order three", cx.bad_g1(2 + k as u32 % 2, k)));
    }
    let mut inf = [0u8; 48];
    inf[0] = 0xc0;
    for (i, b) in [(0usize, 0xe0u8), (0, 0xc1), (47, 1), (20, 0x80)] {
        let mut x = inf;
        x[i] = b;
        v.push(("malformed identity", x));
    }
    v.push(("all zero", [0u8; 48]));
    v.push(("uncompressed identity flag", {
        let mut x = [0u8; 48];
        x[0] = 0x40;
        x
    }));
    v.push(("x not reduced", {
        let mut x = [0xffu8; 48];
        x[0] = 0x9f;
        x
    }));
    v
}

pub fn points(_thorough: bool) -> Vec<Case> {
    let mut v = vec![];
    v.push(case("bad-commitment", 1, 0, 0, Box::new(|cx| {
        let c = ctx_random(cx);
        let (cell, comm, proof) = triple(cx);
        for (nm, bad) in bad_points(cx) {
            for n in 1..=3usize {
                for at in 0..n {
                    let mut cs = vec![&comm; n];
                    cs[at] = &bad;
                    let r = cx.guard(|| c.verify_cell_kzg_proof_batch(cs, (0..n as u64).collect(), vec![&cell; n], vec![&proof; n]));
                    cx.ok("invalid commitment rejected", matches!(&r, Ok(Err(e)) if ser_point(e) && !e.invalid_proof()), || format!("{nm}, commitment {at} of {n}: {}", show(&r)));
                }
            }
        }
    })));
    v.push(case("bad-proof", 1, 0, 0, Box::new(|cx| {
        let c = ctx_random(cx);
        let (cell, comm, proof) = triple(cx);
        for (nm, bad) in bad_points(cx) {
            for n in 1..=3usize {
                for at in 0..n {
                    let mut ps = vec![&proof; n];
                    ps[at] = &bad;
                    let r = cx.guard(|| c.verify_cell_kzg_proof_batch(vec![&comm; n], (0..n as u64).collect(), vec![&cell; n], ps));
                    cx.ok("invalid proof encoding rejected", matches!(&r, Ok(Err(e)) if ser_point(e) && !e.invalid_proof()), || format!("{nm}, proof {at} of {n}: {}", show(&r)));
                }
            }
        }
    })));
    // longer batches: the commitments differ from each other or are all the same; one bad point, or a cancelling pair
    v.push(case("bad-point-in-long-batch", 1, 0, 0, Box::new(|cx| {
        let c = ctx_random(cx);
        let (cell, comm, proof) = triple(cx);
        let kinds: Vec<(&str, Vec<[u8; 48]>)> = vec![
            ("not on the curve", vec![cx.bad_g1(0, 0)]),
            ("outside the subgroup", vec![cx.bad_g1(1, 0)]),
            ("malformed", vec![[0u8; 48]]),
            ("T, -T", vec![cx.bad_g1(2, 0), cx.bad_g1(3, 1)]),
            ("-T, T", vec![cx.bad_g1(3, 2), cx.bad_g1(2, 3)]),
            ("T, T, T", vec![cx.bad_g1(2, 0), cx.bad_g1(2, 1), cx.bad_g1(2, 2)]),
        ];
        for n in [5usize, 8, 17, 33, 65, 127, 128, 129, 131, 200, 260, 300] {
            let many: Vec<[u8; 48]> = (0..n).map(|i| { let p: G1Point = cx.g1(&format!("C{i}")).into(); p.to_compressed() }).collect();
            for (k, (nm, bad)) in kinds.iter().enumerate() {
                let m = bad.len();
                // together at the start, in the middle or at the end, or far apart
                let mut sets: Vec<Vec<usize>> = [0, n / 2 - 1, n - m].iter().map(|s| (*s..s + m).collect()).collect();
                if m > 1 {
                    sets.push((0..m).map(|j| j * (n - 1) / (m - 1)).collect());
                    sets.push((0..m).map(|j| n / 2 + j * (n - 1 - n / 2) / (m - 1)).collect());
                }
                for (j, at) in sets.into_iter().enumerate() {
                    for which in 0..3usize {
                        if n > 40 && (which + j + k + n) % 2 == 0 && j != 2 && m == 1 {
                            continue;
                        }
                        let mut cs: Vec<&[u8; 48]> = if which == 0 { vec![&comm; n] } else { many.iter().collect() };
                        let mut ps = vec![&proof; n];
                        for (b, p) in bad.iter().zip(&at) {
                            if which == 2 {
                                ps[*p] = b;
                            } else {
                                cs[*p] = b;
                            }
                        }
                        let idx: Vec<u64> = (0..n as u64).map(|x| x % 128).collect();
                        let r = cx.guard(|| c.verify_cell_kzg_proof_batch(cs, idx, vec![&cell; n], ps));
                        cx.ok("points outside the subgroup rejected", matches!(&r, Ok(Err(e)) if ser_point(e) && !e.invalid_proof()), || format!("{nm} at {at:?} of {n} {}: {}", ["commitments (others equal)", "commitments", "proofs"][which], show(&r)));
                    }
                }
            }
        }
    })));
    // torsion parts that cancel: within the proofs, within the commitments, and across
    v.push(case("cancelling-torsion", 1, 0, 0, Box::new(|cx| {
        let c = ctx_random(cx);
        let (cell, comm, proof) = triple(cx);
        let (t, u, w, s) = (cx.bad_g1(2, 0), cx.bad_g1(3, 1), cx.bad_g1(2, 2), cx.bad_g1(2, 3));
        for (nm, cs, ps) in [
            ("proofs T, -T", vec![&comm; 2], vec![&t, &u]),
            ("proofs T, ok, -T", vec![&comm; 3], vec![&t, &proof, &u]),
            ("proofs T, T, T", vec![&comm; 3], vec![&t, &w, &s]),
            ("proofs T, T, T the same point", vec![&comm; 3], vec![&t, &t, &t]),
            ("commitments T, -T", vec![&t, &u], vec![&proof; 2]),
            ("commitments T, ok, -T", vec![&t, &comm, &u], vec![&proof; 3]),
            ("commitments T, T, T", vec![&t, &w, &s], vec![&proof; 3]),
            ("commitment T, proof -T", vec![&t], vec![&u]),
            ("commitment T, proof T", vec![&t], vec![&t]),
        ] {
            let n = cs.len();
            let r = cx.guard(|| c.verify_cell_kzg_proof_batch(cs, (0..n as u64).collect(), vec![&cell; n], ps));
            cx.ok("points outside the subgroup rejected", matches!(&r, Ok(Err(e)) if ser_point(e) && !e.invalid_proof()), || format!("{nm}: {}", show(&r)));
        }
    })));
    // the identity is a valid encoding: decided by the equation, not by decoding
    v.push(case("identity-accepted", 4, 4, 0, Box::new(|cx| {
        let c = ctx_honest(cx);
        let mut inf = [0u8; 48];
        inf[0] = 0xc0;
        let zero = [0u8; 2048];
        let r = cx.guard(|| c.verify_cell_kzg_proof_batch(vec![&inf; 2], vec![3, 127], vec![&zero; 2], vec![&inf; 2]));
        cx.ok("identity commitment and proof of the zero polynomial", matches!(r, Ok(Ok(()))), || show(&r));
        // constant polynomial: proof is the identity, commitment [s]G
        let s = cx.s("s");
        let comm: G1Point = cx.g1s(&s).into();
        let mut cell = [0u8; 2048];
        for i in 0..64 {
            cell[32 * i..32 * i + 32].copy_from_slice(&s.to_bytes_be());
        }
        let cb = comm.to_compressed();
        let r = cx.guard(|| c.verify_cell_kzg_proof_batch(vec![&cb], vec![9], vec![&cell], vec![&inf]));
        cx.ok("identity proof of a constant polynomial", matches!(r, Ok(Ok(()))), || show(&r));
        let b = blob_of(&vec![s; 4096]);
        let r = cx.guard(|| c.compute_cells_and_kzg_proofs(&b));
        cx.ok("constant blob accepted", matches!(r, Ok(Ok(_))), || show(&r));
        if let Ok(Ok((_, proofs))) = r {
            cx.ok("constant blob proofs are the identity", proofs.iter().all(|p| *p == inf), || format!("{:x?}", proofs[0]));
        }
        let r = cx.guard(|| c.blob_to_kzg_commitment(&b));
        cx.ok("constant blob commitment", matches!(&r, Ok(Ok(k)) if *k == cb), || show(&r));
    })));
    v
}
