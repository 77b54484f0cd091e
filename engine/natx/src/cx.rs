//! Concrete counterpart of symx's context: the same cases run against the real libraries with
//! the values of a solver model; every claim is evaluated directly.
use blstrs::{G1Affine, G1Projective, G2Projective, Scalar};
use bls12_381::group::Group;
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use symcore::fr::Fr;



pub type LinFn = Box<dyn Fn(usize) -> Vec<Fr> + Send + Sync>;

pub struct Cx {
    pub assign: HashMap<String, Fr>,
    pub seed: u64,
    pub failed: Vec<(String, String)>,
    pub checked: u64,
}

thread_local! { static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        LAST_PANIC.with(|p| *p.borrow_mut() = i.to_string());
    }));
}
pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

pub fn scalar(f: Fr) -> Scalar {
    Option::from(Scalar::from_bytes_be(&f.to_be())).expect("canonical")
}

impl Cx {
    pub const SYMBOLIC: bool = false;
    fn value(&self, name: &str) -> Fr {
        self.assign.get(name).copied().unwrap_or_else(|| Fr::prf(name, self.seed))
    }
    fn claim(&mut self, label: &str, b: bool, detail: impl FnOnce() -> String) {
        self.checked += 1;
        if !b {
            self.failed.push((label.into(), detail()));
        }
    }
    pub fn s(&mut self, name: &str) -> Scalar {
        scalar(self.value(name))
    }
    pub fn g1(&mut self, name: &str) -> G1Projective {
        G1Projective::generator() * scalar(self.value(name))
    }
    pub fn sd(&mut self, name: &str, d: Fr) -> Scalar {
        self.assign.entry(name.to_string()).or_insert(d);
        self.s(name)
    }
    /// integer parameter of a replay case
    pub fn int(&mut self, name: &str, d: u64) -> u64 {
        self.assign.get(name).map_or(d, |f| u64::from_be_bytes(f.to_be()[24..].try_into().unwrap()))
    }
    pub fn val(&self, s: &Scalar) -> Fr {
        Fr::from_be(&s.to_bytes_be()).expect("canonical")
    }
    pub fn ks(&self, name: &str) -> Scalar {
        scalar(Fr::prf(&format!("const:{}", name), 0))
    }
    pub fn sc(&self, f: Fr) -> Scalar {
        scalar(f)
    }
    pub fn g1k(&self, f: Fr) -> G1Projective {
        G1Projective::generator() * scalar(f)
    }
    pub fn g2k(&self, f: Fr) -> G2Projective {
        G2Projective::generator() * scalar(f)
    }
    pub fn g1s(&self, s: &Scalar) -> G1Projective {
        G1Projective::generator() * s
    }
    pub fn g2s(&self, s: &Scalar) -> G2Projective {
        G2Projective::generator() * s
    }
    pub fn eq_s(&mut self, label: &str, got: &Scalar, want: &Scalar) {
        self.claim(label, got == want, || format!("got {:?} want {:?}", got, want));
    }
    pub fn eq_g(&mut self, label: &str, got: &G1Projective, want: &G1Projective) {
        self.claim(label, got == want, || format!("got {:x?} want {:x?}", got.to_compressed(), want.to_compressed()));
    }
    pub fn eq_g2(&mut self, label: &str, got: &G2Projective, want: &G2Projective) {
        self.claim(label, got == want, || format!("got {:x?} want {:x?}", got.to_compressed(), want.to_compressed()));
    }
    pub fn ok(&mut self, label: &str, b: bool, detail: impl FnOnce() -> String) {
        self.claim(label, b, detail)
    }
    pub fn iff(&mut self, label: &str, accepted: bool, spec: &[Scalar]) {
        let z = spec.iter().all(|s| *s == Scalar::from(0u64));
        self.claim(label, z == accepted, || {
            format!("accepted={} but the defining condition {}", accepted, if z { "holds" } else { "fails" })
        });
    }
    pub fn unconditional(&mut self, _label: &str) {}
    pub fn lin_s(&mut self, label: &str, outs: &[Scalar], names: &[String], want: LinFn) {
        let w = self.lin(outs.len(), names, &want);
        let bad = (0..outs.len()).find(|&i| outs[i] != scalar(w[i]));
        self.claim(label, bad.is_none(), || format!("output {} = {:?}, want {}", bad.unwrap(), outs[bad.unwrap()], w[bad.unwrap()].hex()));
    }
    pub fn lin_g(&mut self, label: &str, outs: &[G1Projective], names: &[String], want: LinFn) {
        let w = self.lin(outs.len(), names, &want);
        let bad = (0..outs.len()).find(|&i| outs[i] != self.g1k(w[i]));
        self.claim(label, bad.is_none(), || format!("output {} is not [{}]G", bad.unwrap(), w[bad.unwrap()].hex()));
    }
    fn lin(&self, n: usize, names: &[String], want: &LinFn) -> Vec<Fr> {
        let mut acc = vec![Fr::ZERO; n];
        for (j, nm) in names.iter().enumerate() {
            let v = self.value(nm);
            for (a, c) in acc.iter_mut().zip(want(j)) {
                *a = a.add(c.mul(v));
            }
        }
        acc
    }
    pub fn guard<T>(&self, f: impl FnOnce() -> T) -> Result<T, String> {
        catch_unwind(AssertUnwindSafe(f)).map_err(|_| last_panic())
    }
    pub fn hashes(&self) -> Vec<(Vec<u8>, Scalar)> {
        sha2::LOG.lock().unwrap().iter().map(|(t, d)| (t.clone(), scalar(Fr::from_be_reduce(d)))).collect()
    }
    pub fn bad_g1(&self, which: u32, k: u64) -> [u8; 48] {
        if which >= 2 {
            // a subgroup point plus or minus a point of order three
            use bls12_381::group::Curve;
            let b = self.g1k(Fr::from_u64(1000 + k));
            let t = order_three();
            return if which == 2 { b + t } else { b - t }.to_affine().to_compressed();
        }
        let mut n = 0;
        for x in 1u64.. {
            let mut b = [0u8; 48];
            b[0] = 0x80;
            b[40..].copy_from_slice(&x.to_be_bytes());
            let p: Option<G1Affine> = Option::from(G1Affine::from_compressed_unchecked(&b));
            let hit = match (which, p) {
                (0, None) => true,
                (0, _) => false,
                (_, Some(p)) => !bool::from(p.is_torsion_free()),
                _ => false,
            };
            if hit {
                if n == k {
                    return b;
                }
                n += 1;
            }
        }
        unreachable!()
    }
    pub fn bad_g2(&self, which: u32, k: u64) -> [u8; 96] {
        let mut n = 0;
        for x in 1u64.. {
            let mut b = [0u8; 96];
            b[0] = 0x80;
            b[88..].copy_from_slice(&x.to_be_bytes());
            let p: Option<blstrs::G2Affine> = Option::from(blstrs::G2Affine::from_compressed_unchecked(&b));
            let hit = match (which, p) {
                (0, None) => true,
                (0, _) => false,
                (_, Some(p)) => !bool::from(p.is_torsion_free()),
                _ => false,
            };
            if hit {
                if n == k {
                    return b;
                }
                n += 1;
            }
        }
        unreachable!()
    }
}

pub type CaseFn = Box<dyn Fn(&mut Cx)>;
#[derive(Clone, Copy)]
#[allow(dead_code)]
pub struct Budget {
    pub paths: usize,
    pub flips: usize,
    pub raw: usize,
}
#[allow(dead_code)]
pub struct Case {
    pub name: String,
    pub f: CaseFn,
    pub budget: Budget,
}

/// Runs one case; a panic counts as a failed claim.
pub fn run(case: &Case, assign: HashMap<String, Fr>, seed: u64) -> (u64, Vec<(String, String)>) {
    sha2::LOG.lock().unwrap().clear();
    let cx = std::sync::Mutex::new(Cx { assign, seed, failed: vec![], checked: 0 });
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut g = cx.lock().unwrap();
        (case.f)(&mut g);
    }));
    let mut cx = match cx.into_inner() {
        Ok(c) => c,
        Err(p) => p.into_inner(),
    };
    if r.is_err() {
        cx.failed.push(("panic".into(), last_panic()));
    }
    (cx.checked, cx.failed)
}

/// a point of order three: (h/3) r Q for a point Q of the curve
fn order_three() -> G1Projective {
    // h/3 for the cofactor h = (x-1)^2/3
    const H3: u128 = 0x396c8c005555e1568c00aaab0000aaab / 3;
    let r = Fr::ONE.neg().to_be();
    for x in 1u64.. {
        let mut b = [0u8; 48];
        b[0] = 0x80;
        b[40..].copy_from_slice(&x.to_be_bytes());
        let p: Option<G1Affine> = Option::from(G1Affine::from_compressed_unchecked(&b));
        let Some(p) = p else { continue };
        let q = mul_be(p.into(), &r) + G1Projective::from(p);
        let t = mul_be(q, &H3.to_be_bytes());
        if !bool::from(t.is_identity()) {
            assert!(bool::from((t + t + t).is_identity()));
            return t;
        }
    }
    unreachable!()
}
fn mul_be(p: G1Projective, k: &[u8]) -> G1Projective {
    let mut acc = G1Projective::identity();
    for b in k {
        for i in (0..8).rev() {
            acc = acc.double();
            if (b >> i) & 1 == 1 {
                acc += p;
            }
        }
    }
    acc
}
