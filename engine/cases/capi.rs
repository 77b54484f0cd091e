//! The C functions against the Rust functions they wrap, on the same unknown data, in caller-owned guarded buffers.
use super::case;
use super::codec::noncanonical;
use super::das::*;
use super::poly::vars;
use super::recover::shuffled;
use crate::cx::{Case, Cx};
use c_eth_kzg as c;
use rust_eth_kzg::DASContext;

fn wrap(ctx: &DASContext) -> *const c::DASContext {
    // the C context holds the Rust context and nothing else
    assert!(std::mem::size_of::<c::DASContext>() == std::mem::size_of::<DASContext>());
    assert!(std::mem::align_of::<c::DASContext>() == std::mem::align_of::<DASContext>());
    (ctx as *const DASContext).cast()
}
const GUARD: u8 = 0xa5;
/// a caller's buffer with guard bytes on both sides
struct Buf(Vec<u8>);
impl Buf {
    fn new(n: usize) -> Buf {
        Buf(vec![GUARD; n + 32])
    }
    fn ptr(&mut self) -> *mut u8 {
        unsafe { self.0.as_mut_ptr().add(16) }
    }
    fn data(&self) -> &[u8] {
        &self.0[16..self.0.len() - 16]
    }
    fn guards(&self) -> bool {
        self.0[..16].iter().chain(&self.0[self.0.len() - 16..]).all(|b| *b == GUARD)
    }
    fn untouched(&self) -> bool {
        self.0.iter().all(|b| *b == GUARD)
    }
}
fn bufs(n: usize, len: usize) -> (Vec<Buf>, Vec<*mut u8>) {
    let mut v: Vec<Buf> = (0..n).map(|_| Buf::new(len)).collect();
    let p = v.iter_mut().map(|b| b.ptr()).collect();
    (v, p)
}
/// status Ok with no message (true), status Err with a message (the message is freed)
fn status(cx: &mut Cx, r: c::CResult) -> (bool, String) {
    let ok = matches!(r.status, c::CResultStatus::Ok);
    cx.ok("a message exactly on error", r.error_msg.is_null() == ok, || format!("status ok={ok}, null={}", r.error_msg.is_null()));
    if r.error_msg.is_null() {
        return (ok, String::new());
    }
    let s = unsafe { std::ffi::CStr::from_ptr(r.error_msg) }.to_string_lossy().into_owned();
    unsafe { c::eth_kzg_free_error_message(r.error_msg) };
    (ok, s)
}
fn same_point(cx: &mut Cx, label: &str, got: &[u8], want: &[u8; 48]) {
    if !Cx::SYMBOLIC && got == want {
        cx.ok(label, true, String::new);
        return;
    }
    match (<&[u8; 48]>::try_from(got).ok().and_then(|b| point_of(b)), point_of(want)) {
        (Some(a), Some(b)) => cx.eq_g(label, &a, &b),
        _ => cx.ok(label, false, || format!("{got:02x?}")),
    }
}
fn same_cell(cx: &mut Cx, label: &str, got: &[u8], want: &[u8]) {
    if !Cx::SYMBOLIC && got == want {
        cx.ok(label, true, String::new);
        return;
    }
    match (scalars_of(got), scalars_of(want)) {
        (Some(a), Some(b)) if a.len() == b.len() => {
            for (x, y) in a.iter().zip(&b) {
                cx.eq_s(label, x, y);
            }
        }
        _ => cx.ok(label, false, || "not a cell".into()),
    }
}
type CellsAndProofs = ([Box<[u8; 2048]>; 128], [[u8; 48]; 128]);
fn compare(cx: &mut Cx, r: &Result<CellsAndProofs, String>, ok: bool, msg: &str, cells: &[Buf], proofs: &[Buf]) {
    cx.ok("succeeds exactly when the Rust function does", r.is_ok() == ok, || format!("{ok} {msg}"));
    match r {
        Ok((wc, wp)) if ok => {
            for k in 0..128 {
                same_cell(cx, "cell as from the Rust function", cells[k].data(), &wc[k][..]);
                same_point(cx, "proof as from the Rust function", proofs[k].data(), &wp[k]);
                cx.ok("nothing written outside the buffers", cells[k].guards() && proofs[k].guards(), || format!("{k}"));
            }
        }
        Err(e) => {
            cx.ok("the message is the Rust error", msg == e, || format!("{msg} / {e}").chars().take(300).collect());
            cx.ok("no output on error", cells.iter().chain(proofs).all(|b| b.untouched()), || format!("{e}").chars().take(100).collect());
        }
        _ => {}
    }
}
fn compute(cx: &mut Cx, ctx: &DASContext, blob: &[u8; 131072]) {
    let (cells, mut cp) = bufs(128, 2048);
    let (proofs, mut pp) = bufs(128, 48);
    let r = ctx.compute_cells_and_kzg_proofs(blob).map_err(|e| format!("{e:?}"));
    let s = c::eth_kzg_compute_cells_and_kzg_proofs(wrap(ctx), blob.as_ptr(), cp.as_mut_ptr(), pp.as_mut_ptr());
    let (ok, m) = status(cx, s);
    compare(cx, &r, ok, &m, &cells, &proofs);
}
fn commit(cx: &mut Cx, ctx: &DASContext, blob: &[u8; 131072]) {
    let mut out = Buf::new(48);
    let s = c::eth_kzg_blob_to_kzg_commitment(wrap(ctx), blob.as_ptr(), out.ptr());
    let (ok, m) = status(cx, s);
    match ctx.blob_to_kzg_commitment(blob) {
        Ok(w) => {
            cx.ok("commits exactly when the Rust function does", ok, || m);
            same_point(cx, "commitment as from the Rust function", out.data(), &w);
            cx.ok("nothing written outside the buffer", out.guards(), String::new);
        }
        Err(e) => {
            cx.ok("refuses when the Rust function does", !ok && m == format!("{e:?}"), || m.chars().take(300).collect());
            cx.ok("no output on error", out.untouched(), String::new);
        }
    }
}
fn recover(cx: &mut Cx, ctx: &DASContext, idx: &[u64], cells_in: &[&[u8; 2048]]) {
    let (cells, mut cp) = bufs(128, 2048);
    let (proofs, mut pp) = bufs(128, 48);
    let r = ctx.recover_cells_and_kzg_proofs(idx.to_vec(), cells_in.to_vec()).map_err(|e| format!("{e:?}"));
    let ptrs: Vec<*const u8> = cells_in.iter().map(|c| c.as_ptr()).collect();
    let s = c::eth_kzg_recover_cells_and_proofs(
        wrap(ctx),
        ptrs.len() as u64,
        if ptrs.is_empty() { std::ptr::null() } else { ptrs.as_ptr() },
        idx.len() as u64,
        if idx.is_empty() { std::ptr::null() } else { idx.as_ptr() },
        cp.as_mut_ptr(),
        pp.as_mut_ptr(),
    );
    let (ok, m) = status(cx, s);
    compare(cx, &r, ok, &m, &cells, &proofs);
}
fn verify(cx: &mut Cx, ctx: &DASContext, comms: &[&[u8; 48]], idx: &[u64], cells: &[&[u8; 2048]], proofs: &[&[u8; 48]]) {
    let r = ctx.verify_cell_kzg_proof_batch(comms.to_vec(), idx.to_vec(), cells.to_vec(), proofs.to_vec());
    let (a, b, d): (Vec<*const u8>, Vec<*const u8>, Vec<*const u8>) =
        (comms.iter().map(|x| x.as_ptr()).collect(), cells.iter().map(|x| x.as_ptr()).collect(), proofs.iter().map(|x| x.as_ptr()).collect());
    let p = |v: &Vec<*const u8>| if v.is_empty() { std::ptr::null() } else { v.as_ptr() };
    for before in [false, true] {
        let mut verified = before;
        let s = c::eth_kzg_verify_cell_kzg_proof_batch(
            wrap(ctx),
            a.len() as u64,
            p(&a),
            idx.len() as u64,
            if idx.is_empty() { std::ptr::null() } else { idx.as_ptr() },
            b.len() as u64,
            p(&b),
            d.len() as u64,
            p(&d),
            &mut verified,
        );
        let (ok, m) = status(cx, s);
        match &r {
            Ok(()) => cx.ok("true for an accepted batch", ok && verified, || format!("{ok} {verified} {m}")),
            Err(e) if e.invalid_proof() => cx.ok("false for an invalid proof", ok && !verified, || format!("{ok} {verified} {m}")),
            Err(e) => {
                cx.ok("an error for a malformed batch", !ok && m == format!("{e:?}"), || format!("{ok} {m}").chars().take(300).collect());
                cx.ok("a malformed batch is not reported as valid", !verified || before, || format!("{verified}"));
            }
        }
    }
}

pub fn cases(thorough: bool) -> Vec<Case> {
    let mut v = vec![];
    v.push(case("c/commitment", 1, 0, 0, Box::new(|cx| {
        let ctx = ctx_random(cx);
        let b = blob_of(&vars(cx, "b", 4096));
        commit(cx, ctx, &b);
        for (_, e) in noncanonical() {
            for p in [0usize, 2047, 4095] {
                let mut bad = b.clone();
                bad[32 * p..32 * p + 32].copy_from_slice(&e);
                commit(cx, ctx, &bad);
            }
        }
    })));
    v.push(case("c/cells", 1, 0, 0, Box::new(|cx| {
        let ctx = ctx_random(cx);
        let b = blob_of(&vars(cx, "b", 4096));
        compute(cx, ctx, &b);
        for (_, e) in noncanonical().into_iter().take(3) {
            let mut bad = b.clone();
            bad[32 * 4095..].copy_from_slice(&e);
            compute(cx, ctx, &bad);
        }
    })));
    for n in if thorough { vec![64usize, 65, 100, 127, 128] } else { vec![64, 90] } {
        v.push(case(format!("c/recover/{n}"), 1, 0, 0, Box::new(move |cx| {
            let ctx = ctx_random(cx);
            let b = blob_of(&vars(cx, "b", 4096));
            let Ok((cells, _)) = ctx.compute_cells_and_kzg_proofs(&b) else { return };
            let idx: Vec<u64> = shuffled(128, 70 + n as u64)[..n].iter().map(|x| *x as u64).collect();
            let sub: Vec<&[u8; 2048]> = idx.iter().map(|i| &*cells[*i as usize]).collect();
            recover(cx, ctx, &idx, &sub);
        })));
    }
    v.push(case("c/recover/malformed", 1, 0, 0, Box::new(|cx| {
        let ctx = ctx_random(cx);
        let (cell, _, _) = super::codec::triple(cx);
        let idx: Vec<u64> = (0..128).collect();
        for (n, m) in [(0usize, 0usize), (0, 64), (64, 0), (63, 63), (63, 64), (64, 63), (1, 1), (128, 127)] {
            recover(cx, ctx, &idx[..n], &vec![&cell; m]);
        }
        for bad in [128u64, 1 << 32, u64::MAX, 5] {
            let mut idx = idx[..64].to_vec();
            idx[63] = bad;
            recover(cx, ctx, &idx, &vec![&cell; 64]);
        }
        let mut worse = cell;
        worse[2016..].copy_from_slice(&[0xff; 32]);
        let mut cs = vec![&cell; 64];
        cs[63] = &worse;
        recover(cx, ctx, &idx[..64], &cs);
    })));
    // any cell, proof and commitment: the verdicts agree on every path
    for n in if thorough { vec![1usize, 2, 3, 8] } else { vec![1, 3] } {
        v.push(case(format!("c/verify/{n}"), 4, 4, 0, Box::new(move |cx| {
            let ctx = ctx_random(cx);
            let mut comms = vec![];
            let mut cells = vec![];
            let mut proofs = vec![];
            for k in 0..n {
                let e = vars(cx, &format!("e{k}_"), 64);
                let mut b = [0u8; 2048];
                for (i, s) in e.iter().enumerate() {
                    b[32 * i..32 * i + 32].copy_from_slice(&s.to_bytes_be());
                }
                cells.push(b);
                let p: bls12_381::G1Point = cx.g1(&format!("c{}", k % 2)).into();
                comms.push(p.to_compressed());
                let p: bls12_381::G1Point = cx.g1(&format!("w{k}")).into();
                proofs.push(p.to_compressed());
            }
            let idx: Vec<u64> = (0..n as u64).map(|k| 127 - 3 * k).collect();
            verify(cx, ctx, &comms.iter().collect::<Vec<_>>(), &idx, &cells.iter().collect::<Vec<_>>(), &proofs.iter().collect::<Vec<_>>());
        })));
    }
    v.push(case("c/verify/malformed", 1, 0, 0, Box::new(|cx| {
        let ctx = ctx_random(cx);
        let (cell, comm, proof) = super::codec::triple(cx);
        let idx = [7u64, 8, 9, 10];
        verify(cx, ctx, &[], &[], &[], &[]);
        for code in 0..256u32 {
            let [a, b, d, e] = [0, 2, 4, 6].map(|s| (code >> s & 3) as usize);
            if a == b && b == d && d == e {
                continue;
            }
            verify(cx, ctx, &vec![&comm; a], &idx[..b], &vec![&cell; d], &vec![&proof; e]);
        }
        for bad in [128u64, 1 << 32, u64::MAX] {
            verify(cx, ctx, &[&comm; 2], &[3, bad], &[&cell; 2], &[&proof; 2]);
        }
        let (p, q) = (cx.bad_g1(0, 1), cx.bad_g1(1, 1));
        for bad in [&p, &q] {
            verify(cx, ctx, &[&comm, bad], &[3, 4], &[&cell; 2], &[&proof; 2]);
            verify(cx, ctx, &[&comm; 2], &[3, 4], &[&cell; 2], &[&proof, bad]);
        }
        let mut worse = cell;
        worse[..32].copy_from_slice(&[0xff; 32]);
        verify(cx, ctx, &[&comm; 2], &[3, 4], &[&cell, &worse], &[&proof; 2]);
    })));
    v.push(case("c/constants", 1, 0, 0, Box::new(|cx| {
        use rust_eth_kzg::constants as k;
        cx.ok("bytes per cell", c::eth_kzg_constant_bytes_per_cell() == k::BYTES_PER_CELL as u64, String::new);
        cx.ok("bytes per proof", c::eth_kzg_constant_bytes_per_proof() == 48, String::new);
        cx.ok("cells per blob", c::eth_kzg_constant_cells_per_ext_blob() == k::CELLS_PER_EXT_BLOB as u64, String::new);
        c::eth_kzg_das_context_free(std::ptr::null_mut());
        unsafe { c::eth_kzg_free_error_message(std::ptr::null_mut()) };
    })));
    if !Cx::SYMBOLIC {
        // contexts over the embedded setup; real points only
        v.push(case("c/context", 1, 0, 0, Box::new(|cx| {
            use rust_eth_kzg::{TrustedSetup, UsePrecomp};
            let want = new_ctx(&TrustedSetup::default(), UsePrecomp::No);
            let b = blob_of(&vars(cx, "b", 4096));
            let (w, wp) = (want.blob_to_kzg_commitment(&b).unwrap(), want.compute_cells_and_kzg_proofs(&b).unwrap());
            for (pre, threads) in [(false, 0u32), (false, 1), (false, 3), (true, 2)] {
                let h = c::eth_kzg_das_context_new(pre, threads);
                let ctx: &DASContext = unsafe { &*h }.inner();
                cx.ok("commitment over the embedded setup", ctx.blob_to_kzg_commitment(&b).as_ref().ok() == Some(&w), String::new);
                let got = ctx.compute_cells_and_kzg_proofs(&b).unwrap();
                cx.ok("cells and proofs over the embedded setup", got.0 == wp.0 && got.1 == wp.1, || format!("{pre} {threads}"));
                c::eth_kzg_das_context_free(h);
            }
        })));
    }
    v
}
