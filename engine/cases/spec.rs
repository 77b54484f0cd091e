//! Independent closed forms over F_r (no code of the repository is used here).
use symcore::fr::{batch_inv, Fr};

pub fn bitrev(i: usize, bits: u32) -> usize {
    let mut r = 0;
    for k in 0..bits {
        if i >> k & 1 == 1 {
            r |= 1 << (bits - 1 - k);
        }
    }
    r
}
pub fn log2(n: usize) -> u32 {
    assert!(n.is_power_of_two());
    n.trailing_zeros()
}
/// primitive n-th root of unity of the consensus specification: 7^((r-1)/n)
pub fn root(n: usize) -> Fr {
    let g = Fr::from_u64(7);
    // (r-1)/2^32 = 0x73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff
    let e = [0xfffe5bfeffffffffu64, 0x09a1d80553bda402, 0x299d7d483339d808, 0x73eda753];
    let mut w = g.pow(&e);
    for _ in 0..(32 - log2(n)) {
        w = w.mul(w);
    }
    w
}
pub fn powers(w: Fr, n: usize) -> Vec<Fr> {
    let mut v = Vec::with_capacity(n);
    let mut x = Fr::ONE;
    for _ in 0..n {
        v.push(x);
        x = x.mul(w);
    }
    v
}
/// sum_j c_j w^(ij) by the recursive definition
pub fn dft(c: &[Fr], w: Fr) -> Vec<Fr> {
    let n = c.len();
    if n == 1 {
        return vec![c[0]];
    }
    let ev: Vec<Fr> = c.iter().step_by(2).copied().collect();
    let od: Vec<Fr> = c.iter().skip(1).step_by(2).copied().collect();
    let w2 = w.mul(w);
    let (e, o) = (dft(&ev, w2), dft(&od, w2));
    let mut out = vec![Fr::ZERO; n];
    let mut t = Fr::ONE;
    for i in 0..n / 2 {
        let x = t.mul(o[i]);
        out[i] = e[i].add(x);
        out[i + n / 2] = e[i].sub(x);
        t = t.mul(w);
    }
    out
}
/// Lagrange basis value L_m(z) at each z (zn = z^n), for the nodes = all n-th roots of unity, node x = w^m
pub fn lagrange_column(n: usize, x: Fr, zs: &[Fr], zn: &[Fr]) -> Vec<Fr> {
    // (x/n) (z^n - 1)/(z - x); 1 at z = x
    let ninv = Fr::from_u64(n as u64).inv();
    let k = x.mul(ninv);
    let mut den: Vec<Fr> = zs.iter().map(|z| z.sub(x)).collect();
    for d in den.iter_mut() {
        if d.is_zero() {
            *d = Fr::ONE;
        }
    }
    batch_inv(&mut den);
    zs.iter()
        .zip(den)
        .zip(zn)
        .map(|((z, d), y)| if *z == x { Fr::ONE } else { k.mul(y.sub(Fr::ONE)).mul(d) })
        .collect()
}

/// Matrix M with M[k][m] = coefficient of blob element m in the discrete logarithm of proof k,
/// for G1 elements with discrete logs `s`, n coefficients, ell points per proof, npts points.
pub fn proof_matrix(s: &[Fr], n: usize, ell: usize, npts: usize) -> Vec<Vec<Fr>> {
    let winv = root(n).inv();
    let ninv = Fr::from_u64(n as u64).inv();
    (0..npts / ell)
        .map(|k| {
            let d = dft(&proof_row(s, n, ell, npts, k), winv);
            (0..n).map(|m| d[bitrev(m, log2(n))].mul(ninv)).collect()
        })
        .collect()
}
/// coefficient of polynomial coefficient f_j in proof k: sum over t>=1 of h^(t-1) s_(j-ell t)
pub fn proof_row(s: &[Fr], n: usize, ell: usize, npts: usize, k: usize) -> Vec<Fr> {
    let np = npts / ell;
    let h = root(npts).pow_u(bitrev(k, log2(np)) as u64).pow_u(ell as u64);
    let mut c = vec![Fr::ZERO; n];
    for j in ell..n {
        // c_j = s_(j-ell) + h c_(j-ell) for t >= 2
        c[j] = s[j - ell].add(h.mul(c[j - ell]));
    }
    c
}
/// coefficient of blob element m in the commitment
pub fn commit_row(s: &[Fr], n: usize) -> Vec<Fr> {
    let d = dft(&s[..n], root(n).inv());
    let ninv = Fr::from_u64(n as u64).inv();
    (0..n).map(|m| d[bitrev(m, log2(n))].mul(ninv)).collect()
}
/// points of coset k (bit-reversed order) of the size-npts domain
pub fn coset_points(npts: usize, ell: usize, k: usize) -> Vec<Fr> {
    let w = root(npts);
    (0..ell).map(|j| w.pow_u(bitrev(k * ell + j, log2(npts)) as u64)).collect()
}
