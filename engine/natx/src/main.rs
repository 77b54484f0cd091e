//! natx replay <file>      replay file: lines "case <name>", "prop", "tier", "seed", "var <name> <hex>"
//! natx all <prop> <tier>  every case of a property on pseudo-random values
mod cx;
#[path = "../../cases/mod.rs"]
mod cases;
use std::collections::HashMap;
use symcore::fr::Fr;

fn main() {
    cx::install_panic_hook();
    let h = std::thread::Builder::new().stack_size(1 << 29).spawn(real_main).unwrap();
    std::process::exit(h.join().unwrap_or(2));
}
fn real_main() -> i32 {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("replay") => {
            let text = std::fs::read_to_string(&a[2]).expect("replay file");
            let (mut prop, mut tier, mut name, mut seed) = (String::new(), "quick".to_string(), String::new(), 1u64);
            let mut assign = HashMap::new();
            for l in text.lines() {
                let mut it = l.splitn(2, ' ');
                let (k, v) = (it.next().unwrap_or(""), it.next().unwrap_or(""));
                match k {
                    "prop" => prop = v.into(),
                    "tier" => tier = v.into(),
                    "case" => name = v.into(),
                    "seed" => seed = v.parse().unwrap_or(1),
                    "var" => {
                        let (n, x) = v.rsplit_once(' ').expect("var line");
                        assign.insert(n.to_string(), Fr::from_hex(x).expect("hex"));
                    }
                    _ => {}
                }
            }
            for c in cases::cases(&prop, tier == "thorough") {
                if c.name != name {
                    continue;
                }
                for (i, asg) in [assign.clone(), HashMap::new()].into_iter().enumerate() {
                    let (n, failed) = cx::run(&c, asg, seed + i as u64);
                    for (l, d) in failed.iter().take(5) {
                        println!("FAILED [{}] {}: {}", c.name, l, d.chars().take(600).collect::<String>());
                    }
                    println!("{} claims evaluated, {} failed", n, failed.len());
                    if !failed.is_empty() {
                        return 1;
                    }
                }
                return 0;
            }
            eprintln!("no such case {name}");
            2
        }
        Some("all") => {
            let only = a.get(4).cloned().unwrap_or_default();
            let mut bad = 0;
            for c in cases::cases(&a[2], a[3] == "thorough") {
                if !c.name.contains(&only) {
                    continue;
                }
                let t = std::time::Instant::now();
                let (n, failed) = cx::run(&c, HashMap::new(), 1);
                println!("{:<44} {:6.2}s claims={} failed={}", c.name, t.elapsed().as_secs_f64(), n, failed.len());
                for (l, d) in failed.iter().take(3) {
                    println!("    {}: {}", l, d.chars().take(400).collect::<String>());
                }
                bad += failed.len();
            }
            (bad > 0) as i32
        }
        Some("ref") => reference(&a[2]),
        _ => 2,
    }
}
/// natx ref <dir>: a blob and what the Rust library makes of it, for the batteries of the language bindings
fn reference(dir: &str) -> i32 {
    let ctx = rust_eth_kzg::DASContext::default();
    let mut blob = vec![0u8; 131072];
    let mut x = 0x9e3779b97f4a7c15u64;
    for (i, b) in blob.iter_mut().enumerate() {
        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        *b = if i % 32 == 0 { 0 } else { (x >> 56) as u8 };
    }
    let blob: Box<[u8; 131072]> = blob.into_boxed_slice().try_into().unwrap();
    let com = ctx.blob_to_kzg_commitment(&blob).unwrap();
    let (cells, proofs) = ctx.compute_cells_and_kzg_proofs(&blob).unwrap();
    let put = |n: &str, b: &[u8]| std::fs::write(format!("{dir}/{n}"), b).unwrap();
    put("blob.bin", &blob[..]);
    put("commitment.bin", &com);
    put("cells.bin", &cells.iter().flat_map(|c| c.to_vec()).collect::<Vec<u8>>());
    put("proofs.bin", &proofs.concat());
    0
}
