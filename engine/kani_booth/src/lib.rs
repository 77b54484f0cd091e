//! Signed-window recoding: the real source file, compiled into this harness.
#![allow(dead_code)]
#[path = "/repo/cryptography/bls12_381/src/booth_encoding.rs"]
mod booth_encoding;
#[path = "../../kani_common/nd.rs"]
pub mod nd;

/// bit k of a little-endian byte string (0 beyond its end)
fn bit(el: &[u8; 32], k: usize) -> i64 {
    if k >= 256 {
        0
    } else {
        ((el[k / 8] >> (k % 8)) & 1) as i64
    }
}

/// digit i of width w: v_i + b(iw-1) - 2^w b(iw+w-1); the sum over i of digit_i 2^(iw) telescopes to the value
fn digit(el: &[u8; 32], i: usize, w: usize) -> i64 {
    let lo = i * w;
    let mut v = 0i64;
    let mut k = 0;
    while k < w {
        v += bit(el, lo + k) << k;
        k += 1;
    }
    if lo > 0 {
        v += bit(el, lo - 1);
    }
    v - (bit(el, lo + w - 1) << w)
}

pub fn check(el: &[u8; 32], i: usize, w: usize) -> Result<(), &'static str> {
    let d = booth_encoding::get_booth_index(i, w, el) as i64;
    if d > 1 << (w - 1) || d < -(1 << (w - 1)) {
        return Err("digit outside the table");
    }
    if d != digit(el, i, w) {
        return Err("digit does not recombine");
    }
    Ok(())
}

fn width(w: usize) {
    let el: [u8; 32] = nd::bytes();
    // scalars are below 2^255
    nd::assume(el[31] < 128);
    let i = nd::usize();
    // all windows up to the one that covers bit 255 (which is zero)
    nd::assume(i <= 255 / w);
    let r = check(&el, i, w);
    assert!(r.is_ok());
}
macro_rules! widths {
    ($($n:ident $w:expr;)*) => {
        #[cfg(kani)]
        mod proofs {
            $(#[kani::proof] fn $n() { super::width($w) })*
        }
        pub fn run(name: &str) {
            match name {
                $(stringify!($n) => width($w),)*
                _ => panic!("no such harness"),
            }
        }
    };
}
widths! { w01 1; w02 2; w03 3; w04 4; w05 5; w06 6; w07 7; w08 8; w09 9; w10 10; w11 11; w12 12;
          w13 13; w14 14; w15 15; w16 16; w17 17; w18 18; w19 19; w20 20; w21 21; w22 22; w23 23; w24 24; }
