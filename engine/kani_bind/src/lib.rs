//! The language bindings over a scripted library, for every argument at small sizes: what reaches the library is what the
//! caller passed, what the caller gets is what the library returned, and a refused call returns an error, nothing else.
#![allow(dead_code, unused_imports)]
#[path = "../../kani_common/nd.rs"]
pub mod nd;
use rust_eth_kzg::constants::*;
use rust_eth_kzg::script::{s, MAX};

macro_rules! harnesses {
    ($($feat:literal $u:literal $n:ident $e:expr;)*) => {
        #[cfg(kani)]
        mod proofs {
            use super::*;
            $(#[cfg(feature = $feat)] #[kani::proof] #[kani::unwind($u)] #[kani::stub(std::fmt::format, no_format)] fn $n() { $e })*
        }
        pub fn run(name: &str) {
            match name {
                $(#[cfg(feature = $feat)] stringify!($n) => $e,)*
                _ => panic!("no such harness"),
            }
        }
    };
}
/// messages are compared by the other part of the check
pub fn no_format(_: std::fmt::Arguments<'_>) -> String {
    String::from("e")
}

/// what the library will answer: success, or (symbolically) one of the two kinds of error; with outputs of a success a
/// symbolic outcome would put heap objects of symbolic size before the solver
fn answer(ok: bool) {
    plan();
    nd::assume((s().outcome == 0) == ok);
    if ok {
        s().outcome = 0;
    }
}
fn plan() {
    let o = nd::u8();
    nd::assume(o < 3);
    nd::note("o", o as u64);
    s().outcome = o;
    s().commitment = nd::bytes();
    s().cells_out = (nd::bytes(), nd::bytes());
    s().proofs_out = (nd::bytes(), nd::bytes());
}
/// element by element
fn pair<const N: usize>(a: &List<N, 2>, b: &([u8; N], [u8; N])) -> bool {
    same1(&a[0], &b.0) && same1(&a[1], &b.1)
}
fn same1<const N: usize>(a: &[u8; N], b: &[u8; N]) -> bool {
    let mut r = true;
    for j in 0..N {
        r &= a[j] == b[j];
    }
    r
}
/// objects of their own: CBMC loses writes into nested arrays
type List<const N: usize, const K: usize> = [Box<[u8; N]>; K];
fn lists<const N: usize, const K: usize>() -> List<N, K> {
    std::array::from_fn(|_| Box::new(nd::bytes()))
}

#[cfg(feature = "b_c")]
mod c {
    use super::*;
    use c_eth_kzg as c;
    fn status(r: c::CResult) -> bool {
        let ok = matches!(r.status, c::CResultStatus::Ok);
        assert!(r.error_msg.is_null() == ok, "a message exactly on error");
        // not under the model checker: it has no strlen
        #[cfg(not(kani))]
        unsafe {
            c::eth_kzg_free_error_message(r.error_msg)
        };
        ok
    }
    fn ctx() -> *mut c::DASContext {
        c::eth_kzg_das_context_new(false, 1)
    }
    fn done(h: *mut c::DASContext) {
        assert!(s().live == 1, "the call keeps the context");
        c::eth_kzg_das_context_free(h);
        assert!(s().live == 0, "the context is freed");
    }
    pub fn new() {
        let threads = nd::u64() as u32;
        nd::note("threads", threads as u64);
        let pre = nd::boolean();
        let h = c::eth_kzg_das_context_new(pre, threads);
        assert!(!h.is_null());
        assert!(s().threads == threads as usize, "the number of threads asked for");
        assert!(s().width == if pre { Some(RECOMMENDED_PRECOMP_WIDTH) } else { None }, "precomputation as asked for");
        done(h);
        c::eth_kzg_das_context_free(std::ptr::null_mut());
        assert!(s().live == 0);
        unsafe { c::eth_kzg_free_error_message(std::ptr::null_mut()) };
        assert!(c::eth_kzg_constant_bytes_per_cell() == BYTES_PER_CELL as u64);
        assert!(c::eth_kzg_constant_bytes_per_proof() == BYTES_PER_COMMITMENT as u64);
        assert!(c::eth_kzg_constant_cells_per_ext_blob() == CELLS_PER_EXT_BLOB as u64);
    }
    pub fn commitment() {
        plan();
        let blob: [u8; BYTES_PER_BLOB] = nd::bytes();
        let was: [u8; BYTES_PER_COMMITMENT] = nd::bytes();
        let mut out = was;
        let h = ctx();
        let ok = status(c::eth_kzg_blob_to_kzg_commitment(h, blob.as_ptr(), out.as_mut_ptr()));
        assert!(s().calls == [1, 0, 0, 0] && same1(&s().blob, &blob), "the caller's blob is committed to");
        assert!(ok == (s().outcome == 0), "success exactly when the library succeeds");
        assert!(same1(&out, if ok { &s().commitment } else { &was }), "the commitment, or nothing");
        done(h);
    }
    fn with_outs(f: impl FnOnce(*mut *mut u8, *mut *mut u8) -> bool) {
        let (mut a, mut b): (List<BYTES_PER_CELL, CELLS_PER_EXT_BLOB>, List<BYTES_PER_COMMITMENT, CELLS_PER_EXT_BLOB>) = (lists(), lists());
        let was = ((*a[0], *a[1]), (*b[0], *b[1]));
        let mut cp = [std::ptr::null_mut(); CELLS_PER_EXT_BLOB];
        let mut pp = [std::ptr::null_mut(); CELLS_PER_EXT_BLOB];
        for i in 0..CELLS_PER_EXT_BLOB {
            cp[i] = a[i].as_mut_ptr();
            pp[i] = b[i].as_mut_ptr();
        }
        let ok = f(cp.as_mut_ptr(), pp.as_mut_ptr());
        assert!(ok == (s().outcome == 0), "success exactly when the library succeeds");
        assert!(pair(&a, if ok { &s().cells_out } else { &was.0 }), "the cells, or nothing");
        assert!(pair(&b, if ok { &s().proofs_out } else { &was.1 }), "the proofs, or nothing");
    }
    pub fn compute(ok: bool) {
        answer(ok);
        let blob: [u8; BYTES_PER_BLOB] = nd::bytes();
        let h = ctx();
        with_outs(|cp, pp| status(c::eth_kzg_compute_cells_and_kzg_proofs(h, blob.as_ptr(), cp, pp)));
        assert!(s().calls == [0, 1, 0, 0] && same1(&s().blob, &blob), "the caller's blob is used");
        done(h);
    }
    fn ptrs<const N: usize, const K: usize>(v: &List<N, K>) -> [*const u8; K] {
        let mut p = [std::ptr::null(); K];
        for i in 0..K {
            p[i] = v[i].as_ptr();
        }
        p
    }
    /// a list of no items may be a null pointer
    fn list<T>(v: &[T], n: usize) -> *const T {
        if n == 0 {
            std::ptr::null()
        } else {
            v.as_ptr()
        }
    }
    pub fn recover<const NE: usize, const NI: usize>(ok: bool) {
        answer(ok);
        let (ne, ni) = (NE, NI);
        nd::note("ne", NE as u64);
        nd::note("ni", NI as u64);
        let cells: List<BYTES_PER_CELL, NE> = lists();
        let mut idx = [0u64; NI];
        for i in 0..NI {
            idx[i] = nd::u64i("x", i);
        }
        let cp = ptrs(&cells);
        let h = ctx();
        with_outs(|a, b| status(c::eth_kzg_recover_cells_and_proofs(h, ne as u64, list(&cp, ne), ni as u64, list(&idx, ni), a, b)));
        assert!(s().calls == [0, 0, 1, 0], "one recovery");
        assert!(s().n[2] == ne && s().n[1] == ni, "all the cells and all the indices");
        for i in 0..NE {
            assert!(same1(&s().cells[i], &cells[i]), "the caller's cells");
        }
        for i in 0..NI {
            assert!(s().indices[i] == idx[i], "the caller's indices");
        }
        done(h);
    }
    pub fn verify<const NC: usize, const NI: usize, const NE: usize, const NP: usize>() {
        plan();
        let (nc, ni, ne, np) = (NC, NI, NE, NP);
        for (name, n) in [("nc", nc), ("ni", ni), ("ne", ne), ("np", np)] {
            nd::note(name, n as u64);
        }
        let comms: List<BYTES_PER_COMMITMENT, NC> = lists();
        let cells: List<BYTES_PER_CELL, NE> = lists();
        let proofs: List<BYTES_PER_COMMITMENT, NP> = lists();
        let mut idx = [0u64; NI];
        for i in 0..NI {
            idx[i] = nd::u64i("x", i);
        }
        let (cc, ce, cp) = (ptrs(&comms), ptrs(&cells), ptrs(&proofs));
        let was = nd::boolean();
        let mut verified = was;
        let h = ctx();
        let ok = status(c::eth_kzg_verify_cell_kzg_proof_batch(
            h, nc as u64, list(&cc, nc), ni as u64, list(&idx, ni), ne as u64, list(&ce, ne), np as u64, list(&cp, np), &mut verified,
        ));
        assert!(s().calls == [0, 0, 0, 1], "one verification");
        assert!(s().n[0] == nc && s().n[1] == ni && s().n[2] == ne && s().n[3] == np, "all the items of the four lists");
        for i in 0..NC {
            assert!(same1(&s().comms[i], &comms[i]), "the caller's commitments");
        }
        for i in 0..NI {
            assert!(s().indices[i] == idx[i], "the caller's indices");
        }
        for i in 0..NE {
            assert!(same1(&s().cells[i], &cells[i]), "the caller's cells");
        }
        for i in 0..NP {
            assert!(same1(&s().proofs[i], &proofs[i]), "the caller's proofs");
        }
        assert!(ok == (s().outcome < 2), "an invalid proof is a verdict, anything else an error");
        assert!(verified == if ok { s().outcome == 0 } else { was }, "the verdict, or nothing");
        done(h);
    }
}

#[cfg(feature = "b_node")]
mod node {
    use super::*;
    use napi::{BigInt, Result, Uint8Array};
    use node_eth_kzg::{CellsAndProofs, DASContextJs, DASContextOptions};
    fn ctx() -> DASContextJs {
        DASContextJs::create(DASContextOptions { use_precomp: false, num_threads: 1 })
    }
    /// the methods' asynchronous twins never wait
    fn now<T>(f: impl std::future::Future<Output = T>) -> T {
        let mut f = std::pin::pin!(f);
        let mut cx = std::task::Context::from_waker(std::task::Waker::noop());
        match f.as_mut().poll(&mut cx) {
            std::task::Poll::Ready(v) => v,
            _ => panic!("pending"),
        }
    }
    /// N bytes, one fewer or one more
    fn near<const N: usize, const N1: usize>(name: &'static str) -> ([u8; N], usize, Uint8Array) {
        let all: [u8; N1] = nd::bytes();
        let n = nd::upto(name, N1);
        nd::assume(n + 1 >= N);
        let mut exact = [0; N];
        for i in 0..N {
            exact[i] = all[i];
        }
        let v = if n == N { all[..N].to_vec() } else if n > N { all.to_vec() } else { all[..N - 1].to_vec() };
        (exact, n, Uint8Array::new(v))
    }
    fn is<const N: usize>(a: &Uint8Array, b: &[u8; N]) -> bool {
        let a: &[u8] = a.as_ref();
        let mut r = a.len() == N;
        for i in 0..N {
            r = r && a[i] == b[i];
        }
        r
    }
    /// an integer as napi hands it over: no leading zero words, zero is not negative; and its value where it has one
    fn bigint(i: usize) -> (BigInt, Option<u64>) {
        let (w0, w1, w2) = (nd::u64i("x", i), nd::u64i("y", i), nd::u64i("z", i));
        let sign = nd::boolean();
        nd::note_i("s", i, sign as u64);
        nd::assume(!(sign && w0 == 0 && w1 == 0 && w2 == 0));
        let words = if w2 != 0 { vec![w0, w1, w2] } else if w1 != 0 { vec![w0, w1] } else { vec![w0] };
        let v = if sign || w1 != 0 || w2 != 0 { None } else { Some(w0) };
        (BigInt { sign_bit: sign, words }, v)
    }
    pub fn new() {
        let t = nd::u64() as u32;
        nd::note("threads", t as u64);
        let p = nd::boolean();
        let c = DASContextJs::create(DASContextOptions { use_precomp: p, num_threads: t });
        assert!(s().threads == t as usize, "the number of threads asked for");
        assert!(s().width == if p { Some(RECOMMENDED_PRECOMP_WIDTH) } else { None }, "precomputation as asked for");
        drop(c);
        assert!(s().live == 0, "the context is freed");
        let c = DASContextJs::new();
        assert!(s().threads == 1 && s().width == Some(RECOMMENDED_PRECOMP_WIDTH), "the documented defaults");
        drop(c);
        assert!(node_eth_kzg::BYTES_PER_COMMITMENT as usize == BYTES_PER_COMMITMENT && node_eth_kzg::BYTES_PER_PROOF as usize == BYTES_PER_COMMITMENT);
        assert!(node_eth_kzg::BYTES_PER_BLOB as usize == BYTES_PER_BLOB && node_eth_kzg::BYTES_PER_CELL as usize == BYTES_PER_CELL);
        assert!(node_eth_kzg::MAX_NUM_COLUMNS as usize == CELLS_PER_EXT_BLOB && node_eth_kzg::BYTES_PER_FIELD_ELEMENT as usize == BYTES_PER_FIELD_ELEMENT);
    }
    fn calls(i: usize) -> u8 {
        let c = s().calls;
        for j in 0..4 {
            assert!(j == i || c[j] == 0, "no other function is called");
        }
        c[i]
    }
    pub fn commitment(later: bool) {
        plan();
        let (want, n, blob) = near::<BYTES_PER_BLOB, 9>("len");
        let c = ctx();
        let r = if later { now(c.async_blob_to_kzg_commitment(blob)) } else { c.blob_to_kzg_commitment(blob) };
        let good = n == BYTES_PER_BLOB;
        assert!(calls(0) == good as u8 && (!good || same1(&s().blob, &want)), "the caller's blob is committed to");
        match r {
            Ok(v) => assert!(good && s().outcome == 0 && is(&v, &s().commitment), "the commitment"),
            Err(_) => assert!(!good || s().outcome != 0, "refused only for its size or by the library"),
        }
    }
    fn outs(r: Result<CellsAndProofs>, good: bool) {
        match r {
            Ok(v) => {
                assert!(good && s().outcome == 0, "success only when the library succeeds");
                assert!(v.cells.len() == CELLS_PER_EXT_BLOB && v.proofs.len() == CELLS_PER_EXT_BLOB);
                assert!(is(&v.cells[0], &s().cells_out.0) && is(&v.cells[1], &s().cells_out.1), "the cells");
                assert!(is(&v.proofs[0], &s().proofs_out.0) && is(&v.proofs[1], &s().proofs_out.1), "the proofs");
            }
            Err(_) => assert!(!good || s().outcome != 0, "refused only for its arguments or by the library"),
        }
    }
    pub fn compute(ok: bool, later: bool) {
        answer(ok);
        let (want, n, blob) = near::<BYTES_PER_BLOB, 9>("len");
        let c = ctx();
        let r = if later { now(c.async_compute_cells_and_kzg_proofs(blob)) } else { c.compute_cells_and_kzg_proofs(blob) };
        let good = n == BYTES_PER_BLOB;
        assert!(calls(1) == good as u8 && (!good || same1(&s().blob, &want)), "the caller's blob is used");
        outs(r, good);
    }
    pub fn cells(ok: bool, later: bool) {
        answer(ok);
        let (want, n, blob) = near::<BYTES_PER_BLOB, 9>("len");
        let c = ctx();
        let r = if later { now(c.async_compute_cells(blob)) } else { c.compute_cells(blob) };
        let good = n == BYTES_PER_BLOB;
        assert!(calls(1) == good as u8 && (!good || same1(&s().blob, &want)), "the caller's blob is used");
        match r {
            Ok(v) => {
                assert!(good && s().outcome == 0 && v.len() == CELLS_PER_EXT_BLOB);
                assert!(is(&v[0], &s().cells_out.0) && is(&v[1], &s().cells_out.1), "the cells");
            }
            Err(_) => assert!(!good || s().outcome != 0, "refused only for its arguments or by the library"),
        }
    }
    /// `n` arguments of N bytes; the last one may be a byte off
    fn items<const N: usize, const N1: usize, const K: usize>(name: &'static str, odd: bool) -> (List<N, K>, bool, Vec<Uint8Array>) {
        let mut good = true;
        let mut v = Vec::with_capacity(K);
        let want: List<N, K> = std::array::from_fn(|i| {
            if odd && i + 1 == K {
                let (w, n, a) = near::<N, N1>(name);
                good = n == N;
                v.push(a);
                Box::new(w)
            } else {
                let w: [u8; N] = nd::bytes();
                v.push(Uint8Array::new(w.to_vec()));
                Box::new(w)
            }
        });
        (want, good, v)
    }
    fn ints<const K: usize>() -> ([Option<u64>; K], bool, Vec<BigInt>) {
        let mut good = true;
        let mut v = Vec::with_capacity(K);
        let want = std::array::from_fn(|i| {
            let (b, x) = bigint(i);
            good &= x.is_some();
            v.push(b);
            x
        });
        (want, good, v)
    }
    pub fn recover<const NI: usize, const NE: usize>(ok: bool, later: bool) {
        answer(ok);
        nd::note("ni", NI as u64);
        nd::note("ne", NE as u64);
        let (idx, gi, vi) = ints::<NI>();
        let (cells, ge, ve) = items::<BYTES_PER_CELL, 5, NE>("len", true);
        let c = ctx();
        let r = if later { now(c.async_recover_cells_and_kzg_proofs(vi, ve)) } else { c.recover_cells_and_kzg_proofs(vi, ve) };
        let good = gi && ge;
        assert!(calls(2) == good as u8, "the library is asked exactly for arguments it can take");
        if good {
            assert!(s().n[1] == NI && s().n[2] == NE, "all the cells and all the indices");
            for i in 0..NI {
                assert!(idx[i] == Some(s().indices[i]), "the caller's indices");
            }
            for i in 0..NE {
                assert!(same1(&s().cells[i], &cells[i]), "the caller's cells");
            }
        }
        outs(r, good);
    }
    /// the list that may hold an item of another size: 0 commitments, 1 cells, 2 proofs
    pub fn verify<const NC: usize, const NI: usize, const NE: usize, const NP: usize>(odd: u8, later: bool) {
        plan();
        for (name, n) in [("nc", NC), ("ni", NI), ("ne", NE), ("np", NP)] {
            nd::note(name, n as u64);
        }
        nd::note("odd", odd as u64);
        let (comms, gc, vc) = items::<BYTES_PER_COMMITMENT, 3, NC>("len", odd == 0);
        let (idx, gi, vi) = ints::<NI>();
        let (cells, ge, ve) = items::<BYTES_PER_CELL, 5, NE>("len", odd == 1);
        let (proofs, gp, vp) = items::<BYTES_PER_COMMITMENT, 3, NP>("len", odd == 2);
        let c = ctx();
        let r = if later { now(c.async_verify_cell_kzg_proof_batch(vc, vi, ve, vp)) } else { c.verify_cell_kzg_proof_batch(vc, vi, ve, vp) };
        let good = gc && gi && ge && gp;
        assert!(calls(3) == good as u8, "the library is asked exactly for arguments it can take");
        if good {
            assert!(s().n[0] == NC && s().n[1] == NI && s().n[2] == NE && s().n[3] == NP, "all the items of the four lists");
            for i in 0..NC {
                assert!(same1(&s().comms[i], &comms[i]), "the caller's commitments");
            }
            for i in 0..NI {
                assert!(idx[i] == Some(s().indices[i]), "the caller's indices");
            }
            for i in 0..NE {
                assert!(same1(&s().cells[i], &cells[i]), "the caller's cells");
            }
            for i in 0..NP {
                assert!(same1(&s().proofs[i], &proofs[i]), "the caller's proofs");
            }
        }
        match r {
            Ok(v) => assert!(good && s().outcome < 2 && v == (s().outcome == 0), "the library's verdict"),
            Err(_) => assert!(!good || s().outcome == 2, "an error only for the arguments or from the library"),
        }
    }
}


#[cfg(feature = "b_java")]
mod java {
    use super::*;
    use c_eth_kzg::DASContext;
    use java_eth_kzg::*;
    use jni::objects::*;
    use jni::*;
    fn ctx() -> i64 {
        Java_ethereum_cryptography_LibEthKZG_DASContextNew(JNIEnv::mock(), JClass::default(), 0, 1)
    }
    fn done(c: i64) {
        assert!(s().live == 1, "the call keeps the context");
        Java_ethereum_cryptography_LibEthKZG_DASContextDestroy(JNIEnv::mock(), JClass::default(), c);
        assert!(s().live == 0, "the context is freed");
    }
    fn thrown() -> bool {
        let t = pending();
        assert!(!t || unsafe { THROWN_ILLEGAL_ARGUMENT }, "the exception is an IllegalArgumentException");
        t
    }
    fn bytes(b: &[u8]) -> Ref {
        let mut o = jni::new(Kind::Bytes, b.len());
        for i in 0..b.len() {
            o.bytes[i] = b[i] as i8;
        }
        o.share()
    }
    /// N bytes, one fewer, one more, or a null reference
    fn near<const N: usize, const N1: usize>(how: u8) -> ([u8; N], Ref) {
        let all: [u8; N1] = nd::bytes();
        let mut exact = [0; N];
        for i in 0..N {
            exact[i] = all[i];
        }
        nd::note("how", how as u64);
        let r = match how {
            0 => bytes(&exact),
            1 => bytes(&all[..N - 1]),
            2 => bytes(&all),
            _ => None,
        };
        (exact, r)
    }
    fn items<const N: usize, const N1: usize, const K: usize>(how: u8) -> (List<N, K>, Ref) {
        let mut o = jni::new(Kind::Array, K);
        let want: List<N, K> = std::array::from_fn(|i| {
            let (w, r) = near::<N, N1>(if i + 1 == K { how } else { 0 });
            o.items[i] = r;
            Box::new(w)
        });
        (want, o.share())
    }
    fn longs<const K: usize>() -> ([u64; K], Ref) {
        let mut o = jni::new(Kind::Longs, K);
        let mut w = [0; K];
        for i in 0..K {
            w[i] = nd::u64i("x", i);
            o.longs[i] = w[i] as i64;
        }
        (w, o.share())
    }
    fn is<const N: usize>(r: Ref, want: &[u8; N]) -> bool {
        let Some(o) = r else { return false };
        let o = o.get();
        let mut ok = o.kind == Kind::Bytes && o.n == N;
        for i in 0..N {
            ok = ok && o.bytes[i] as u8 == want[i];
        }
        ok
    }
    pub fn new() {
        let t = nd::u64();
        nd::assume(t >> 32 == 0);
        nd::note("threads", t);
        let p = nd::u8();
        nd::assume(p < 2);
        let c = Java_ethereum_cryptography_LibEthKZG_DASContextNew(JNIEnv::mock(), JClass::default(), p, t as i64);
        assert!(c != 0);
        assert!(s().threads == t as usize, "the number of threads asked for");
        assert!(s().width == if p == 1 { Some(RECOMMENDED_PRECOMP_WIDTH) } else { None }, "precomputation as asked for");
        done(c);
    }
    fn calls(i: usize) -> u8 {
        let c = s().calls;
        for j in 0..4 {
            assert!(j == i || c[j] == 0, "no other function is called");
        }
        c[i]
    }
    pub fn commitment(how: u8, ok: bool) {
        answer(ok);
        let (want, blob) = near::<BYTES_PER_BLOB, 9>(how);
        let c = ctx();
        let r = Java_ethereum_cryptography_LibEthKZG_blobToKZGCommitment(JNIEnv::mock(), JClass::default(), c, JByteArray::of(blob));
        let good = how == 0;
        assert!(calls(0) == good as u8 && (!good || same1(&s().blob, &want)), "the caller's blob is committed to");
        assert!(thrown() != (good && ok), "an exception only for the arguments or from the library");
        assert!(!(good && ok) || is(r.0, &s().commitment), "the commitment");
        done(c);
    }
    fn outs(o: JObject, good: bool, contents: bool) {
        assert!(thrown() != good, "an exception only for the arguments or from the library");
        if good && contents {
            let Some(o) = o.0 else { panic!("nothing returned") };
            let o = o.get();
            assert!(o.kind == Kind::Pair && o.class == Known::CellsAndProofs);
            let (Some(a), Some(b)) = (o.items[0], o.items[1]) else { panic!("cells and proofs") };
            let (a, b) = (a.get(), b.get());
            assert!(a.kind == Kind::Array && b.kind == Kind::Array && a.n == CELLS_PER_EXT_BLOB && b.n == CELLS_PER_EXT_BLOB);
            assert!(is(a.items[0], &s().cells_out.0) && is(a.items[1], &s().cells_out.1), "the cells");
            assert!(is(b.items[0], &s().proofs_out.0) && is(b.items[1], &s().proofs_out.1), "the proofs");
        }
    }
    pub fn compute(how: u8, ok: bool) {
        answer(ok);
        let (want, blob) = near::<BYTES_PER_BLOB, 9>(how);
        let c = ctx();
        let r = Java_ethereum_cryptography_LibEthKZG_computeCellsAndKZGProofs(JNIEnv::mock(), JClass::default(), c, JByteArray::of(blob));
        let good = how == 0;
        assert!(calls(1) == good as u8 && (!good || same1(&s().blob, &want)), "the caller's blob is used");
        outs(r, good && ok, true);
        done(c);
    }
    pub fn recover<const NI: usize, const NE: usize>(how: u8, ok: bool) {
        answer(ok);
        nd::note("ni", NI as u64);
        nd::note("ne", NE as u64);
        let (idx, vi) = longs::<NI>();
        let (cells, ve) = items::<BYTES_PER_CELL, 5, NE>(how);
        let c = ctx();
        let r = Java_ethereum_cryptography_LibEthKZG_recoverCellsAndKZGProofs(
            JNIEnv::mock(), JClass::default(), c, JLongArray::of(vi), JObjectArray::of(ve),
        );
        let good = how == 0;
        assert!(calls(2) == good as u8, "the library is asked exactly for arguments it can take");
        if good {
            assert!(s().n[1] == NI && s().n[2] == NE, "all the cells and all the indices");
            for i in 0..NI {
                assert!(s().indices[i] == idx[i], "the caller's indices");
            }
            for i in 0..NE {
                assert!(same1(&s().cells[i], &cells[i]), "the caller's cells");
            }
        }
        // the contents, made by the function java_compute looks at, are beyond CBMC's memory here
        outs(r, good && ok, false);
        done(c);
    }
    /// `how` the last item of the list `odd` (0 commitments, 1 cells, 2 proofs) is
    pub fn verify<const NC: usize, const NI: usize, const NE: usize, const NP: usize>(odd: u8, how: u8) {
        plan();
        for (name, n) in [("nc", NC), ("ni", NI), ("ne", NE), ("np", NP)] {
            nd::note(name, n as u64);
        }
        nd::note("odd", odd as u64);
        let k = |l: u8| if l == odd { how } else { 0 };
        let (comms, vc) = items::<BYTES_PER_COMMITMENT, 3, NC>(k(0));
        let (idx, vi) = longs::<NI>();
        let (cells, ve) = items::<BYTES_PER_CELL, 5, NE>(k(1));
        let (proofs, vp) = items::<BYTES_PER_COMMITMENT, 3, NP>(k(2));
        let c = ctx();
        let r = Java_ethereum_cryptography_LibEthKZG_verifyCellKZGProofBatch(
            JNIEnv::mock(), JClass::default(), c, JObjectArray::of(vc), JLongArray::of(vi), JObjectArray::of(ve), JObjectArray::of(vp),
        );
        let good = how == 0;
        assert!(calls(3) == good as u8, "the library is asked exactly for arguments it can take");
        if good {
            assert!(s().n[0] == NC && s().n[1] == NI && s().n[2] == NE && s().n[3] == NP, "all the items of the four lists");
            for i in 0..NC {
                assert!(same1(&s().comms[i], &comms[i]), "the caller's commitments");
            }
            for i in 0..NI {
                assert!(s().indices[i] == idx[i], "the caller's indices");
            }
            for i in 0..NE {
                assert!(same1(&s().cells[i], &cells[i]), "the caller's cells");
            }
            for i in 0..NP {
                assert!(same1(&s().proofs[i], &proofs[i]), "the caller's proofs");
            }
        }
        let t = thrown();
        assert!(t != (good && s().outcome < 2), "an exception only for the arguments or from the library");
        assert!(t || r == (s().outcome == 0) as u8, "the library's verdict");
        assert!(!t || r == 0);
        done(c);
    }
}

harnesses! {
    "b_java" 11 java_new java::new();
    "b_java" 11 java_commitment java::commitment(0, true);
    "b_java" 11 java_commitment_err java::commitment(0, false);
    "b_java" 11 java_commitment_short java::commitment(1, true);
    "b_java" 11 java_commitment_long java::commitment(2, true);
    "b_java" 11 java_commitment_null java::commitment(3, true);
    "b_java" 11 java_compute java::compute(0, true);
    "b_java" 11 java_compute_err java::compute(0, false);
    "b_java" 11 java_compute_short java::compute(1, true);
    "b_java" 11 java_recover_0_0 java::recover::<0, 0>(0, false);
    "b_java" 11 java_recover_2_2 java::recover::<2, 2>(0, true);
    "b_java" 11 java_recover_1_2_err java::recover::<1, 2>(0, false);
    "b_java" 11 java_recover_2_1_short java::recover::<2, 1>(1, true);
    "b_java" 11 java_recover_2_2_long java::recover::<2, 2>(2, true);
    "b_java" 11 java_recover_1_1_null java::recover::<1, 1>(3, true);
    "b_java" 11 java_verify_0 java::verify::<0, 0, 0, 0>(0, 0);
    "b_java" 11 java_verify_1 java::verify::<1, 1, 1, 1>(0, 0);
    "b_java" 11 java_verify_2 java::verify::<2, 2, 2, 2>(0, 0);
    "b_java" 11 java_verify_mixed java::verify::<1, 2, 0, 2>(0, 0);
    "b_java" 11 java_verify_c_short java::verify::<1, 1, 1, 1>(0, 1);
    "b_java" 11 java_verify_e_long java::verify::<1, 1, 1, 1>(1, 2);
    "b_java" 11 java_verify_p_null java::verify::<1, 1, 1, 1>(2, 3);
    "b_java" 11 java_verify_p_short java::verify::<1, 1, 2, 2>(2, 1);
    "b_node" 11 node_new node::new();
    "b_node" 11 node_commitment node::commitment(false);
    "b_node" 11 node_commitment_async node::commitment(true);
    "b_node" 11 node_compute node::compute(true, false);
    "b_node" 11 node_compute_err node::compute(false, false);
    "b_node" 11 node_compute_async node::compute(true, true);
    "b_node" 11 node_cells node::cells(true, false);
    "b_node" 11 node_cells_async node::cells(true, true);
    "b_node" 11 node_recover_1_1 node::recover::<1, 1>(true, false);
    "b_node" 11 node_recover_1_1_async node::recover::<1, 1>(true, true);
    "b_node" 11 node_recover_2_2 node::recover::<2, 2>(true, false);
    "b_node" 11 node_recover_1_2 node::recover::<1, 2>(true, false);
    "b_node" 11 node_verify_0 node::verify::<0, 0, 0, 0>(0, false);
    "b_node" 11 node_verify_1c node::verify::<1, 1, 1, 1>(0, false);
    "b_node" 11 node_verify_1e node::verify::<1, 1, 1, 1>(1, false);
    "b_node" 11 node_verify_1p node::verify::<1, 1, 1, 1>(2, false);
    "b_node" 11 node_verify_async node::verify::<1, 1, 1, 1>(0, true);
    "b_node" 11 node_verify_2 node::verify::<2, 2, 2, 2>(1, false);
    "b_node" 11 node_verify_mixed node::verify::<1, 2, 0, 2>(2, false);
    "b_c" 12 c_new c::new();
    "b_c" 12 c_commitment c::commitment();
    "b_c" 12 c_compute c::compute(true);
    "b_c" 12 c_compute_err c::compute(false);
    "b_c" 10 c_recover_0_0 c::recover::<0, 0>(false);
    "b_c" 10 c_recover_2_1 c::recover::<2, 1>(false);
    "b_c" 10 c_recover_1_2 c::recover::<1, 2>(true);
    "b_c" 10 c_recover_2_2 c::recover::<2, 2>(true);
    "b_c" 10 c_recover_3_2 c::recover::<3, 2>(true);
    "b_c" 10 c_verify_0_0_0_0 c::verify::<0, 0, 0, 0>();
    "b_c" 10 c_verify_1_1_1_1 c::verify::<1, 1, 1, 1>();
    "b_c" 10 c_verify_0_1_2_3 c::verify::<0, 1, 2, 3>();
    "b_c" 10 c_verify_3_2_1_0 c::verify::<3, 2, 1, 0>();
    "b_c" 10 c_verify_2_1_2_1 c::verify::<2, 1, 2, 1>();
    "b_c" 10 c_verify_2_2_2_2 c::verify::<2, 2, 2, 2>();
    "b_c" 10 c_verify_3_3_3_3 c::verify::<3, 3, 3, 3>();
}
