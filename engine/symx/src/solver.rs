//! z3 process kept alive; queries are linear integer arithmetic with explicit quotients.
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ans {
    Sat,
    Unsat,
    Unknown,
}

pub struct Solver {
    child: Child,
    inp: ChildStdin,
    out: BufReader<ChildStdout>,
    pub queries: u64,
    pub unsat: u64,
    pub sat: u64,
    pub unknown: u64,
    pub seconds: f64,
    pub bin: String,
    pub dump: Option<String>,
}

impl Solver {
    pub fn new() -> Solver {
        let bin = std::env::var("SYMX_SOLVER").unwrap_or_else(|_| "z3".into());
        let mut child = Command::new(&bin)
            .args(["-in", "-smt2"])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .spawn()
            .unwrap_or_else(|e| panic!("cannot start solver {}: {}", bin, e));
        let inp = child.stdin.take().unwrap();
        let out = BufReader::new(child.stdout.take().unwrap());
        Solver { child, inp, out, queries: 0, unsat: 0, sat: 0, unknown: 0, seconds: 0.0, bin, dump: std::env::var("SYMX_DUMP").ok() }
    }
    /// One self-contained query (declarations + assertions).
    pub fn check(&mut self, body: &str, timeout_ms: u32) -> Ans {
        let t = Instant::now();
        self.queries += 1;
        let script = format!("(reset)\n(set-option :timeout {})\n{}\n(check-sat)\n(echo \"--\")\n", timeout_ms, body);
        if let Some(d) = &self.dump {
            let _ = std::fs::write(format!("{}.{}.smt2", d, self.queries), &script);
        }
        if self.inp.write_all(script.as_bytes()).is_err() || self.inp.flush().is_err() {
            self.unknown += 1;
            return Ans::Unknown;
        }
        let mut ans = Ans::Unknown;
        let mut bad = false;
        loop {
            let mut line = String::new();
            match self.out.read_line(&mut line) {
                Ok(0) | Err(_) => {
                    bad = true;
                    break;
                }
                Ok(_) => {}
            }
            match line.trim() {
                "sat" => ans = Ans::Sat,
                "unsat" => ans = Ans::Unsat,
                "unknown" | "timeout" => ans = Ans::Unknown,
                "--" => break,
                x if x.starts_with("(error") => {
                    eprintln!("solver: {}", x);
                    bad = true
                }
                _ => {}
            }
        }
        if bad {
            ans = Ans::Unknown;
        }
        self.seconds += t.elapsed().as_secs_f64();
        match ans {
            Ans::Sat => self.sat += 1,
            Ans::Unsat => self.unsat += 1,
            Ans::Unknown => self.unknown += 1,
        }
        ans
    }
}
impl Drop for Solver {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
