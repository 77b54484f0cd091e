mod cx;
mod solver;
#[path = "../../cases/mod.rs"]
mod cases;

use cx::Engine;
use std::fmt::Write as _;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let prop = args.get(1).cloned().unwrap_or_default();
    let tier = args.get(2).cloned().unwrap_or("quick".into());
    let out = args.get(3).cloned().unwrap_or("/dev/stdout".into());
    let only = args.get(4).cloned();
    let secs = if tier == "thorough" { 3000 } else { 500 };
    cx::install_panic_hook();
    let h = std::thread::Builder::new()
        .stack_size(1 << 30)
        .spawn(move || {
            let mut e = Engine::new(secs);
            for c in cases::cases(&prop, tier == "thorough") {
                if let Some(o) = &only {
                    if !c.name.contains(o.as_str()) {
                        continue;
                    }
                }
                let t = std::time::Instant::now();
                e.explore(&c);
                eprintln!(
                    "{:<44} {:6.2}s paths={} queries={} viol={} inc={}",
                    c.name,
                    t.elapsed().as_secs_f64(),
                    e.stats.exhausted.last().map(|x| x.1).unwrap_or(0),
                    e.solver.queries,
                    e.violations.len(),
                    e.inconclusive.len()
                );
                if e.full() {
                    break;
                }
            }
            let s = &e.stats;
            let mut o = String::from("{");
            let _ = write!(
                o,
                "\"cases\":{},\"paths\":{},\"nodes\":{},\"events\":{},\"flips_infeasible\":{},\"flips_skipped\":{},\"claims\":{},\"residuals_zero\":{},\"raw_queries\":{},\"obligations\":{},\"obligations_distinct\":{},\"twins\":{},\"hashes\":{},",
                s.cases, s.paths, s.nodes, s.events, s.flips_infeasible, s.flips_skipped, s.claims, s.residuals_zero, s.raw_queries, s.obligations, s.obligations_distinct, s.twins, s.hashes
            );
            let _ = write!(
                o,
                "\"solver\":{{\"bin\":{},\"queries\":{},\"unsat\":{},\"sat\":{},\"unknown\":{},\"seconds\":{:.3}}},",
                js(&e.solver.bin), e.solver.queries, e.solver.unsat, e.solver.sat, e.solver.unknown, e.solver.seconds
            );
            let _ = write!(o, "\"labels\":{{{}}},", s.labels.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
            let _ = write!(o, "\"samples\":[{}],", s.samples.iter().map(|x| js(x)).collect::<Vec<_>>().join(","));
            let _ = write!(
                o,
                "\"explored\":[{}],",
                s.exhausted.iter().map(|(n, p, c)| format!("[{},{},{}]", js(n), p, c)).collect::<Vec<_>>().join(",")
            );
            let _ = write!(o, "\"inconclusive\":[{}],", e.inconclusive.iter().map(|x| js(x)).collect::<Vec<_>>().join(","));
            let _ = write!(
                o,
                "\"violations\":[{}]}}",
                e.violations
                    .iter()
                    .map(|v| format!(
                        "{{\"case\":{},\"label\":{},\"detail\":{},\"seed\":{},\"assign\":{{{}}}}}",
                        js(&v.case),
                        js(&v.label),
                        js(&v.detail),
                        v.seed,
                        v.assign.iter().map(|(k, x)| format!("{}:{}", js(k), js(x))).collect::<Vec<_>>().join(",")
                    ))
                    .collect::<Vec<_>>()
                    .join(",")
            );
            std::fs::write(&out, o + "\n").expect("write result");
        })
        .unwrap();
    h.join().expect("engine thread");
}
