//! Stand-in for the parts of `blst` the repository calls directly.
#![allow(non_camel_case_types, clippy::missing_safety_doc)]
use symcore::V;

pub type limb_t = u64;
pub type byte = u8;

#[repr(C)]
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct blst_fr {
    pub l: [u64; 4],
}
#[repr(C)]
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct blst_scalar {
    pub b: [u8; 32],
}
#[repr(C)]
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct blst_fp {
    pub l: [u64; 6],
}
#[repr(C)]
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct blst_p1_affine {
    pub x: blst_fp,
    pub y: blst_fp,
}
#[repr(C)]
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct blst_p1 {
    pub x: blst_fp,
    pub y: blst_fp,
    pub z: blst_fp,
}

fn rd<'a, T>(p: *const T) -> &'a T {
    unsafe { &*p }
}

pub unsafe fn blst_scalar_from_bendian(out: *mut blst_scalar, a: *const u8) {
    let s = std::slice::from_raw_parts(a, 32);
    let mut b = [0u8; 32];
    b.copy_from_slice(s);
    b.reverse();
    (*out).b = b;
}
pub unsafe fn blst_scalar_from_lendian(out: *mut blst_scalar, a: *const u8) {
    let s = std::slice::from_raw_parts(a, 32);
    (*out).b.copy_from_slice(s);
}
pub unsafe fn blst_bendian_from_scalar(out: *mut u8, a: *const blst_scalar) {
    let mut b = rd(a).b;
    b.reverse();
    std::ptr::copy_nonoverlapping(b.as_ptr(), out, 32);
}
pub unsafe fn blst_lendian_from_scalar(out: *mut u8, a: *const blst_scalar) {
    std::ptr::copy_nonoverlapping(rd(a).b.as_ptr(), out, 32);
}
pub unsafe fn blst_scalar_fr_check(a: *const blst_scalar) -> bool {
    let mut b = rd(a).b;
    b.reverse();
    symcore::fr::Fr::from_be(&b).is_some()
}
/// Reduces (as the real function does).
pub unsafe fn blst_fr_from_scalar(out: *mut blst_fr, a: *const blst_scalar) {
    let mut b = rd(a).b;
    b.reverse();
    (*out).l = symcore::with_arena(|z| z.scalar_from_be_reduce(&b)).0;
}
pub unsafe fn blst_scalar_from_fr(out: *mut blst_scalar, a: *const blst_fr) {
    let mut b = symcore::with_arena(|z| z.scalar_be(V(rd(a).l)));
    b.reverse();
    (*out).b = b;
}
pub unsafe fn blst_scalar_from_be_bytes(out: *mut blst_scalar, a: *const u8, n: usize) -> bool {
    assert_eq!(n, 32, "model: only 32-byte inputs");
    let mut b = [0u8; 32];
    b.copy_from_slice(std::slice::from_raw_parts(a, 32));
    let v = symcore::with_arena(|z| {
        let v = z.scalar_from_be_reduce(&b);
        let e = z.scalar_be(v);
        (v, e)
    });
    let mut e = v.1;
    e.reverse();
    (*out).b = e;
    !symcore::val(v.0).is_zero()
}
pub unsafe fn blst_fr_add(o: *mut blst_fr, a: *const blst_fr, b: *const blst_fr) {
    (*o).l = symcore::add(V(rd(a).l), V(rd(b).l)).0
}
pub unsafe fn blst_fr_sub(o: *mut blst_fr, a: *const blst_fr, b: *const blst_fr) {
    (*o).l = symcore::sub(V(rd(a).l), V(rd(b).l)).0
}
pub unsafe fn blst_fr_mul(o: *mut blst_fr, a: *const blst_fr, b: *const blst_fr) {
    (*o).l = symcore::mul(V(rd(a).l), V(rd(b).l)).0
}
pub unsafe fn blst_fr_sqr(o: *mut blst_fr, a: *const blst_fr) {
    (*o).l = symcore::mul(V(rd(a).l), V(rd(a).l)).0
}
pub unsafe fn blst_fr_cneg(o: *mut blst_fr, a: *const blst_fr, f: bool) {
    (*o).l = if f { symcore::neg(V(rd(a).l)).0 } else { rd(a).l }
}
pub unsafe fn blst_fr_eucl_inverse(o: *mut blst_fr, a: *const blst_fr) {
    let v = V(rd(a).l);
    (*o).l = if symcore::is_zero(symcore::Kind::Invert, v) { V::ZERO.0 } else { symcore::inv(v).0 }
}
pub unsafe fn blst_fr_inverse(o: *mut blst_fr, a: *const blst_fr) {
    blst_fr_eucl_inverse(o, a)
}

// ---- fixed-base table API: the table is represented by its points -------------------
pub unsafe fn blst_p1s_mult_wbits_precompute_sizeof(wbits: usize, npoints: usize) -> usize {
    (std::mem::size_of::<blst_p1_affine>() * npoints) << (wbits - 1)
}
pub unsafe fn blst_p1s_mult_wbits_precompute(
    table: *mut blst_p1_affine,
    wbits: usize,
    points: *const *const blst_p1_affine,
    npoints: usize,
) {
    for i in 0..npoints {
        let p = **points.add(i);
        for j in 0..(1usize << (wbits - 1)) {
            *table.add((i << (wbits - 1)) + j) = p;
        }
    }
}
pub unsafe fn blst_p1s_mult_wbits_scratch_sizeof(npoints: usize) -> usize {
    npoints * 144
}
pub unsafe fn blst_p1s_mult_wbits(
    ret: *mut blst_p1,
    table: *const blst_p1_affine,
    wbits: usize,
    npoints: usize,
    scalars: *const *const u8,
    nbits: usize,
    _scratch: *mut limb_t,
) {
    assert!(nbits >= 255, "model: full-width scalars only");
    let mut acc = V::ZERO;
    for i in 0..npoints {
        let p = rd(table.add(i << (wbits - 1)));
        let mut b = [0u8; 32];
        b.copy_from_slice(std::slice::from_raw_parts(*scalars.add(i), 32));
        b.reverse();
        let s = symcore::with_arena(|z| z.scalar_from_be(&b)).expect("model: scalar out of range");
        acc = symcore::add(acc, symcore::mul(V([p.x.l[0], p.x.l[1], p.x.l[2], p.x.l[3]]), s));
    }
    let (x, y) = symcore::with_arena(|z| z.xy(acc));
    let w = |v: V| blst_fp { l: [v.0[0], v.0[1], v.0[2], v.0[3], 0, 0] };
    (*ret).x = w(x);
    (*ret).y = w(y);
    (*ret).z = if symcore::val(acc).is_zero() { w(V::ZERO) } else { w(V::ONE) };
}
pub unsafe fn blst_p1_affine_is_inf(p: *const blst_p1_affine) -> bool {
    let p = rd(p);
    symcore::is_zero(symcore::Kind::PointEq, V([p.x.l[0], p.x.l[1], p.x.l[2], p.x.l[3]]))
}
