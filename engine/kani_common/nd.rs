//! Nondeterministic values: Kani's under the model checker, recorded ones under replay.
//! Under replay named values are printed as "var <name> <hex>" lines, the parameters of the public-API replay case.
#![allow(dead_code)]
#[cfg(kani)]
mod imp {
    pub fn u8() -> u8 {
        kani::any()
    }
    pub fn u64() -> u64 {
        kani::any()
    }
    pub fn boolean() -> bool {
        kani::any()
    }
    pub fn assume(b: bool) {
        kani::assume(b)
    }
    pub fn bytes<const N: usize>() -> [u8; N] {
        kani::any()
    }
    pub fn print(_: &'static str, _: Option<usize>, _: u64) {}
    pub fn element(_: &[u8; 32]) {}
    pub fn element_i(_: usize, _: &[u8; 32]) {}
}
#[cfg(not(kani))]
mod imp {
    use std::cell::RefCell;
    use std::collections::VecDeque;
    thread_local! { pub static VALS: RefCell<VecDeque<Vec<u8>>> = const { RefCell::new(VecDeque::new()) }; }
    fn pop(n: usize) -> u64 {
        let v = VALS.with(|q| q.borrow_mut().pop_front()).unwrap_or_default();
        let mut b = [0u8; 8];
        for (d, s) in b.iter_mut().take(n).zip(v) {
            *d = s;
        }
        u64::from_le_bytes(b)
    }
    pub fn u8() -> u8 {
        pop(1) as u8
    }
    pub fn u64() -> u64 {
        pop(8)
    }
    pub fn boolean() -> bool {
        pop(1) & 1 == 1
    }
    /// one value of N bytes, or N values of one byte
    pub fn bytes<const N: usize>() -> [u8; N] {
        let mut b = [0u8; N];
        let whole = N > 1 && VALS.with(|q| q.borrow().front().is_some_and(|v| v.len() == N));
        if whole {
            b.copy_from_slice(&VALS.with(|q| q.borrow_mut().pop_front()).unwrap());
        } else {
            for x in b.iter_mut() {
                *x = u8();
            }
        }
        b
    }
    pub fn print(name: &'static str, i: Option<usize>, v: u64) {
        if !name.is_empty() {
            println!("var {name}{} 0x{v:x}", i.map(|i| i.to_string()).unwrap_or_default());
        }
    }
    /// the 32-byte string in question, as four big-endian words
    pub fn element(b: &[u8; 32]) {
        for (i, w) in b.chunks(8).enumerate() {
            print("w", Some(i), u64::from_be_bytes(w.try_into().unwrap()));
        }
    }
    pub fn element_i(k: usize, b: &[u8; 32]) {
        for (i, w) in b.chunks(8).enumerate() {
            print("w", Some(4 * k + i), u64::from_be_bytes(w.try_into().unwrap()));
        }
    }
    pub fn assume(b: bool) {
        if !b {
            println!("values outside the assumptions");
            std::process::exit(3);
        }
    }
    /// replay <file>: "harness <name>" and one "val <hex bytes>" line per value
    pub fn replay(run: fn(&str)) -> ! {
        let text = std::fs::read_to_string(std::env::args().nth(1).expect("file")).expect("replay file");
        let mut name = String::new();
        for l in text.lines() {
            if let Some(h) = l.strip_prefix("harness ") {
                name = h.trim().to_string();
            }
            if let Some(h) = l.strip_prefix("val ") {
                let h = h.trim();
                let v = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect();
                VALS.with(|q| q.borrow_mut().push_back(v));
            }
        }
        let r = std::panic::catch_unwind(|| run(&name));
        if r.is_err() {
            println!("FAILED {name}");
            std::process::exit(1);
        }
        println!("{name} holds on these values");
        std::process::exit(0);
    }
}
pub use imp::*;
pub fn usize() -> usize {
    u64() as usize
}
pub fn u64i(name: &'static str, i: usize) -> u64 {
    let v = u64();
    print(name, Some(i), v);
    v
}
pub fn upto(name: &'static str, n: usize) -> usize {
    let v = u64() as usize;
    assume(v <= n);
    print(name, None, v as u64);
    v
}
pub fn note(name: &'static str, v: u64) {
    print(name, None, v)
}
pub fn note_i(name: &'static str, i: usize, v: u64) {
    print(name, Some(i), v)
}
